#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property on the code now in /repo.

1. rebuild the compiler's MIR of /repo's crate and verify it against the contracts (mirver);
2. rebuild the falsifier (harness) and look for a failing input on the real code.
Exit 0: the property held; 1: VIOLATION line; 2: the check itself could not run."""
import glob, json, multiprocessing, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
MIR_FLAGS = ['--lib', '--', '--emit=mir', '-C', 'debug-assertions=on', '-Ztrim-diagnostic-paths=no', '-A', 'warnings']
CHECKER = 'RUSTC_BOOTSTRAP=1 cargo +stable rustc --offline ' + ' '.join(MIR_FLAGS) + ' && python3-vt mirver'
sys.path.insert(0, os.path.join(HERE, 'mirver'))
T0 = time.time()


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building from /repo's working tree

def forget(target, names):
    """the crate under test is always rebuilt, whatever the time stamps say"""
    for n in names:
        for p in glob.glob(os.path.join(target, '*', '.fingerprint', n + '-*')): shutil.rmtree(p, ignore_errors=True)
        for sub in ('deps', 'incremental'):
            for p in glob.glob(os.path.join(target, '*', sub, n + '-*')) + glob.glob(os.path.join(target, '*', sub, 'lib' + n + '-*')):
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def cargo(cmd, cwd, target, flags='', extra=None):
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_NET_OFFLINE='true')
    env.update(extra or {})
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def start_mir():
    t = os.path.join(BUILD, 'mir')
    os.makedirs(t, exist_ok=True)
    forget(t, ['jsparse'])
    return cargo(['cargo', '+stable', 'rustc', '--offline'] + MIR_FLAGS, REPO, t, '', {'RUSTC_BOOTSTRAP': '1'})


def end_mir(p):
    out = p.communicate()[0]
    if p.returncode: return None, out[-1500:]
    fs = glob.glob(os.path.join(BUILD, 'mir', 'debug', 'deps', 'jsparse-*.mir'))
    if len(fs) != 1: return None, 'no MIR file'
    files = sorted(set(re.findall(r'(\S+\.rs)', open(fs[0][:-4] + '.d').read())))
    return (fs[0], files), ''


def start_harness(whitebox):
    t = os.path.join(BUILD, 'harness')
    os.makedirs(t, exist_ok=True)
    forget(t, ['jsparse', 'harness'])
    flags = '--cfg jsparse_verif -A unexpected_cfgs -A warnings' + (' --cfg jsparse_verif_parser' if whitebox else '')
    return cargo(['cargo', '+stable', 'build', '--release', '--offline'] + (['--features', 'whitebox'] if whitebox else []), os.path.join(HERE, 'harness'), t, flags)


def grammar_dump():
    g = os.path.join(BUILD, 'grammar.dump')
    with open(g, 'w') as f: subprocess.run([sys.executable, os.path.join(HERE, 'spec', 'grammar.py'), 'dump'], stdout=f, check=True)
    return g


# ------------------------------------------------------------------ the verifier

PROG = None
BUDGET = 200
PAR_BUDGET = 400


MEM = 3 << 30


def unit_worker(u, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    import tok
    conn.send(tok.run_unit(PROG, u[1], BUDGET))
    conn.close()


def run_units(units, workers):
    """one process per unit; one that dies or takes too long is a unit without an answer"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    todo, run, res = list(reversed(units)), {}, []
    none = lambda u, why: dict(unit=u[1], err=why, obls=[], checks=0, t=0, wall=0, loops=0, invs=0)
    try:
        while todo or run:
            while todo and len(run) < workers:
                u = todo.pop()
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=unit_worker, args=(u, b))
                p.start()
                b.close()
                run[a] = (u, p, time.time())
            for a in wait(list(run), 5):
                u, p, _ = run.pop(a)
                try: res.append(a.recv())
                except EOFError: res.append(none(u, 'the verifier process died'))
                p.join(5)
                if p.is_alive(): p.kill()
            for a in [a for a, x in run.items() if time.time() - x[2] > BUDGET + 40]:
                u, p, _ = run.pop(a)
                p.kill()
                res.append(none(u, 'time limit of the verifier'))
    finally:
        for u, p, _ in run.values(): p.kill()
    return res


def verify(mir, units, workers):
    global PROG
    import core
    try:
        PROG = core.Program(REPO, open(mir[0]).read(), mir[1])
    except Exception as e:
        return [], 'the MIR could not be read: %r' % e
    if units and units[0][0] == 'par':
        import par
        try:
            return par.verify(PROG, PAR_BUDGET), ''
        except Exception as e:
            return [], 'internal: %r' % e
    res = []
    # heavy ones first
    heavy = ['dec', 'zero', 'dq', 'sq', 'inc', 'frac', 'eat', 'radix', 'regex']
    units = sorted(units, key=lambda u: next((i for i, h in enumerate(heavy) if u[1].endswith(h)), 99))
    res = run_units(units, workers)
    return res, ''


def plan(prop):
    import tok
    base = ['cover', 'init', 'next', 'eat']
    cats = {c: t for c, (t, _, _) in tok.categories().items()}
    if prop in ('T01', 'T02', 'T11'): return [('tok', u) for u in tok.units()]
    if prop == 'T03': return [('tok', u) for u in base + ['inc'] + ['cat:' + c for c in cats]]
    if prop[0] == 'T': return [('tok', u) for u in base + ['cat:' + c for c, t in cats.items() if t == prop]]
    return [('par', 'parser')]


# ------------------------------------------------------------------ the falsifier

def harness_run(prop, ms, focus='', workers=8):
    """(findings [(prop, what, replay)], cases, distinct, samples, notes)"""
    exe = os.path.join(BUILD, 'harness', 'release', 'harness')
    mode = 'lex' if prop[0] == 'T' else 'parse'
    d = os.path.join(BUILD, 'slots-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'out')
    if os.path.exists(out): os.remove(out)
    g = os.path.join(BUILD, 'grammar.dump')
    cmd = [exe, mode, '--props', prop, '--grammar', g, '--seed', str(SEED), '--ms', str(ms), '--deep', '1' if TIER == 'thorough' else '0',
           '--workers', str(workers), '--dir', d, '--out', out] + (['--focus', focus] if focus else [])
    rc = None
    try:
        rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=ms / 1000 + 120).returncode
    except subprocess.TimeoutExpired:
        pass
    finds, cases, distinct, samples, notes, suspects = [], 0, 0, [], [], []
    text = open(out).read() if os.path.exists(out) else ''
    for l in text.splitlines():
        k, _, r = l.partition(' ')
        if k == 'cases': cases = int(r)
        elif k == 'distinct': distinct = int(r)
        elif k == 'note': notes.append(r)
        elif k == 'sample': samples.append(r)
        elif k == 'find': finds.append(tuple(r.split('\t')))
        elif k == 'hang': suspects.append(int(r))
        elif k == 'worker-panic': notes.append('falsifier worker stopped: ' + r)
    if not text.endswith('end\n'): suspects = list(range(workers))
    for w in suspects:
        # a case that never came back, or took the process with it: run it alone
        try:
            b = open(os.path.join(d, 'slot%d' % w), 'rb').read()
            case = b[8:8 + int.from_bytes(b[:8], 'little')].decode()
        except Exception:
            continue
        if not case: continue
        f = os.path.join(d, 'suspect')
        open(f, 'w').write('replay: %s\n' % case)
        kind = None
        try:
            r = subprocess.run([exe, 'replay', f, '--grammar', g], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode
            if r not in (0, 1): kind = 'the process died (%d), a stack overflow or an abort' % r
        except subprocess.TimeoutExpired:
            kind = 'no result within 20 s'
        if kind: finds.append(('T02' if mode == 'lex' and 'no result' in kind else 'T11' if mode == 'lex' else 'G11', kind, case))
    shutil.rmtree(d, ignore_errors=True)
    return finds, cases, distinct, samples, notes


def confirm(replay):
    """does the recorded case fail again on its own?"""
    exe = os.path.join(BUILD, 'harness', 'release', 'harness')
    f = os.path.join(BUILD, 'confirm-%d' % os.getpid())
    open(f, 'w').write('replay: %s\n' % replay)
    try:
        r = subprocess.run([exe, 'replay', f, '--grammar', os.path.join(BUILD, 'grammar.dump')], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=40, errors='replace')
        return r.returncode != 0, r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return True, 'no result within 40 s'
    finally:
        os.remove(f)


def known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\w+) replay=\[(.*?)\] (.*)', l)
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out


# ------------------------------------------------------------------ one property

TRUSTED_TOK = [
    'rustc: the MIR it emits is the program that runs (MIR read with debug assertions on, so every overflow check is an obligation)',
    'mirver (this repository): its reading of MIR and its models of the standard-library functions the crate calls (str, slice, iterators, Vec, Option, Cow, char)',
    'z3 4.x (python3-vt): unsat answers',
    'f64 arithmetic of fractions and exponents treated as exact real arithmetic, powi(10, k) as an uninterpreted power of ten (in integer literals up to 2^53 the absence of rounding is an obligation)',
    'source texts of at most isize::MAX bytes, well-formed UTF-8 (the type &str guarantees it)',
    'allocation succeeds',
]
BACK_PAR = 'mirver: exact decision over the finite sets of tokens, line breaks and grammar states that occur (bit sets), no SMT solver'
TRUSTED_PAR = TRUSTED_TOK[:1] + [
    'mirver (this repository): its reading of MIR, its models of the standard-library functions the parser calls (Vec, Option, Result, Cow, str equality, mem::replace, the ? operator) and its decision procedure over finite sets',
    'failure::Error construction, println! and time::precise_time_ns have no effect on the parser',
    'the tokenizer returns, for its hints, no slash where an expression is expected, no regular expression elsewhere, no closing brace where a template continues and no template continuation elsewhere (T07 and T08 discharge this)',
    'spec/grammar.txt is the reference grammar the statement speaks of; mirver reads it with spec/grammar.py',
    'token streams: any sequence of token values a tokenizer can return, ended by end-of-file, shorter than 2^31 tokens',
    'call depth: the call stack is large enough for the nesting of the input',
]


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2].startswith('--repo='): pass
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    thorough = TIER == 'thorough'
    pm, ph = start_mir(), start_harness(True)
    hout = ph.communicate()[0]
    note = []
    have_h = ph.returncode == 0
    if not have_h:
        ph = start_harness(False)
        hout2 = ph.communicate()[0]
        have_h = ph.returncode == 0
        note.append('harness built without the parser hooks' if have_h else 'harness not built')
        if not have_h: log('note: the harness did not build: %s' % hout2[-800:])
    mir, merr = end_mir(pm)
    if not mir: log('note: no MIR: %s' % merr)
    if not mir and not have_h:
        log('ERROR: /repo does not build')
        return 2
    if have_h: grammar_dump()

    # -- verify
    units = plan(prop) if mir else []
    res, err = verify(mir, units, 8) if units else ([], 'no MIR' if not mir else '')
    own, other, errs = [], [], []
    for r in res:
        if r['err']: errs.append('%s: %s' % (r['unit'], r['err'][:400]))
        for o in r['obls']: (own if o[0] == prop else other).append((r['unit'],) + tuple(o))
    if err: errs.append(err)
    rounded = sorted({x for r in res for x in r.get('rounding', [])})
    if prop == 'T09' and rounded: note.append('not shown to be free of rounding in integer literals up to 2^53, only checked by the falsifier: %s' % rounded[:5])
    bad = [o for o in own if o[4] == 'fail']
    undecided = [o for o in own if o[4] not in ('ok', 'fail')]
    obad = [o for o in other if o[4] != 'ok']
    proved = bool(own) and not bad and not undecided and not errs and not obad
    for e in errs: log('verifier gave no answer on %s' % e)
    for o in undecided[:5]: log('undecided: %s [%s] %s' % (o[3], o[0], o[5][:200]))
    for o in bad[:8]: log('failed obligation: %s [%s in %s] %s' % (o[3], o[0], o[2], o[5][:300]))
    log('verifier: %d obligations of %s, %d discharged, %d failed, %d undecided; %d of other properties in the same units, %d not discharged (%.0f s)' % (
        len(own), prop, sum(o[4] == 'ok' for o in own), len(bad), len(undecided), len(other), len(obad), time.time() - T0))

    # -- falsify
    if thorough: ms = 240000 if not proved else 120000
    else: ms = 6000 if proved else 75000 if units else 45000
    finds, cases, distinct, samples, notes = [], 0, 0, [], []
    if have_h:
        focus = focus_of(bad + obad)
        finds, cases, distinct, samples, notes = harness_run(prop, ms, focus)
        log('falsifier: %d cases on the real code, %d findings' % (cases, len([f for f in finds if f[0] == prop])))
    mine = [f for f in finds if f[0] == prop]
    for f in finds:
        if f[0] != prop: log('note: another property: %s %s' % (f[0], f[1][:200]))
    kn = known(prop)
    violation = None
    for p, what, rep in mine:
        if rep in kn:
            log('KNOWN-FINDING: property=%s %s' % (prop, kn[rep]))
            continue
        again, detail = confirm(rep)
        if again:
            violation = (what, rep, detail)
            break
        log('note: not reproduced alone: %s' % what[:300])
    path = os.path.join(EVID, '%s.replay.txt' % prop)
    if os.path.exists(path): os.remove(path)
    rc = 0
    if violation or bad:
        with open(path, 'w') as f:
            f.write('property: %s\n' % prop)
            if violation:
                f.write('what: %s\nreplay: %s\nrun: %s\n\n%s\n' % (violation[0], violation[1], 'build/harness/release/harness replay %s --grammar build/grammar.dump' % path, violation[2]))
            for o in bad[:30]: f.write('failed obligation: %s\n  unit %s, function %s\n  counterexample of the verifier: %s\n' % (o[3], o[0], o[2], o[5]))
        log('VIOLATION property=%s replay=%s%s' % (prop, path, '' if violation else ' no-failing-input-found'))
        rc = 1
    elif not proved:
        log('note: decided by the bounded search only (%d cases)' % cases if have_h else 'note: nothing could be decided')
        if not have_h: rc = 2
    fns = sorted({o[2] for o in own + other} - {'?', 'parser', 'grammar'})
    cov = dict(
        obligations=len(own), discharged=sum(o[4] == 'ok' for o in own), checker_cmd=CHECKER,
        trusted_base=TRUSTED_TOK if prop[0] == 'T' else TRUSTED_PAR,
        failed=[o[3] for o in bad][:20], undecided=[o[3] for o in undecided][:20] + errs[:10],
        functions_under_contract=fns, units=sorted(r['unit'] for r in res),
        obligations_of_other_properties_in_the_same_units=len(other), not_discharged_among_those=len(obad),
        verifier_s=round(sum(r['wall'] for r in res), 1), solver_queries=sum(r['checks'] for r in res), solver_s=round(sum(r['t'] for r in res), 2),
        loops=sum(r['loops'] for r in res), loop_invariant_facts=sum(r['invs'] for r in res), back_end='z3' if prop[0] == 'T' else BACK_PAR,
        cross_check=dict(evaluations=cases, distinct_nontrivial=distinct, notes=notes[:30],
                         rule='bounded search of the falsifier on the real code against the reference, not counted as proved'),
        evaluations=cases, distinct_nontrivial=distinct,
        rule='source texts / token streams made from pieces of the reference, exhaustively up to a bound and then at random from the seed; non-trivial: at least 16 characters in its replay form, counted by hash, up to 6.4 million',
        samples=samples[:6] or ['(none)'], explanation='bounded=%s' % (not proved))
    ob = {}
    for o in own: ob[o[3]] = ob.get(o[3], 0) + 1
    cov['obligation_names'] = ob
    cov['proved'] = proved
    level = level_of(prop)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
                       assumptions=(TRUSTED_TOK if prop[0] == 'T' else TRUSTED_PAR) + note + ([] if proved else ['not proved on this run: bounded stand-in']),
                       wall_s=round(time.time() - T0, 1), violations=1 if rc == 1 else 0), f, indent=1)
    return rc


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: return c['level']
    except Exception:
        pass
    return 'proof' if prop[0] == 'T' else 'exploration'


def focus_of(obls):
    """the constructs whose functions have failed obligations; where one is tried in a wrong context, that place"""
    import par
    r = set()
    for o in obls:
        f = par.NT_OF.get(o[0].split(':')[-1])
        if not f: continue
        m = re.match(r'.*?(\w+) is called with ', o[5])
        r.add('%s>%s' % (f, par.NT_OF[m.group(1)]) if m and m.group(1) in par.NT_OF else f)
    return ','.join(sorted(r, key=lambda x: '>' not in x))


if __name__ == '__main__':
    sys.exit(main())
