#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if l.split(' ', 1)[1].startswith('hook:')]
PROOF = {p['id'] for p in props if p['id'][0] == 'T'}
try:
    PROOF |= set(open(os.path.join(HERE, 'tools', 'proved_parser.txt')).read().split())
except OSError:
    pass
checks = []
for p in props:
    i = p['id']
    pr = i in PROOF
    checks.append(dict(
        property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i, evidence_file='evidence/%s.json' % i,
        technique=('contract-based deductive verification of the compiler\'s MIR of the real functions (mirver, %s), with a bounded search for the failing input' %
                   ('z3' if i[0] == 'T' else 'reference grammar as ghost state, exact finite-set decision procedure')) if pr
        else 'bounded stand-in: systematic and random search on the real parser against the reference grammar',
        level='proof' if pr else 'exploration',
        level_note=('Every obligation of this property that mirver generates from the MIR of /repo\'s current source is discharged for all inputs and all iterations; trusts rustc\'s MIR, mirver\'s models of the standard library' + (', z3' if i[0] == 'T' else ' and its finite-set decision procedure, the reference grammar as written')
                    + (', exact reals for f64' if i == 'T09' else '') + '. Obligations the verifier cannot decide on changed code fall back to the bounded search, labelled in the evidence.') if pr
        else 'Bounded: token streams up to a length, exhaustively per configuration of the reference, then random; nothing is proved.'))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', hooks=dict(guard='cfg(jsparse_verif), cfg(jsparse_verif_parser)',
          enable='RUSTFLAGS="--cfg jsparse_verif --cfg jsparse_verif_parser"', source_commits=hooks), checks=checks, not_applicable=[],
          notes='See DESIGN.md. known_findings.txt lists repaired defects.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
