#!/usr/bin/env python3-vt
"""Builds what the checks rebuild anyway, so that their builds find compiled dependencies."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
os.makedirs(check.BUILD, exist_ok=True)
os.makedirs(check.EVID, exist_ok=True)
p, q = check.start_mir(), check.start_harness(True)
print(q.communicate()[0][-300:])
m, e = check.end_mir(p)
print(m, e)
check.grammar_dump()
sys.exit(0 if m and q.returncode == 0 else 1)
