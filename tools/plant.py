#!/usr/bin/env python3
"""Development tool: (re)create and validate the planted bugs in /verif/seeded from tools/plant_defs.py.

  python3 tools/plant.py            create and validate every bug that has no directory yet
  python3 tools/plant.py ID...      re-create these
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)

MAIN = r'''// demo lex HINTS TEXT   tokenize (HINTS: one of - e t b per token, last repeated), print the tokens
// demo parse TEXT       print accept, reject, or crash
extern crate jsparse;
use jsparse::tokenizer::{tokens, Hint, IntoTokenizer, TokenRange, Tokenizer};
use std::panic;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    let mode = a[1].clone();
    let r = panic::catch_unwind(move || {
        if mode == "lex" {
            let (hints, text) = (a[2].clone(), a[3].clone());
            let text: &'static str = Box::leak(text.into_boxed_str());
            let hints = hints.into_bytes();
            let mut t = text.into_tokenizer();
            let mut tok = tokens::Token::default();
            let mut r = TokenRange::default();
            for i in 0..200 {
                let h = hints[if i < hints.len() { i } else { hints.len() - 1 }];
                let hint = Hint::default().expression(h == b'e' || h == b'b').template(h == b't' || h == b'b');
                t.next_token(&hint, (&mut tok, &mut r));
                println!("{:?} {}-{} {}:{}-{}:{}", tok, r.start.offset, r.end.offset, r.start.line, r.start.column,
                    r.end.line, r.end.column);
                if let tokens::Token::EOF(_) = tok { break; }
            }
        } else {
            let text: &'static str = Box::leak(a[2].clone().into_boxed_str());
            jsparse::parser::parse_root::<_, ()>(text);
        }
    });
    match r {
        Ok(()) => println!("accept"),
        Err(e) => {
            let s = match e.downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
            };
            if s.starts_with("called `Result::unwrap()`") { println!("reject"); } else { println!("crash {}", s); }
        }
    }
}
'''
DEMO = r'''#!/bin/bash
# %(title)s
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
[workspace]
[dependencies]
jsparse = { path = "$repo" }
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cd "$dir" || exit 3
RUSTFLAGS="--cfg jsparse_verif -Awarnings" CARGO_TARGET_DIR="$dir/target" cargo build --offline -q >build.log 2>&1 || { cat build.log; exit 3; }
bad=0
run() { # expected-output-file args...
    local want="$1"; shift
    local got
    got=$(ulimit -v 4000000; timeout 20 "$dir/target/debug/demo" "$@" 2>/dev/null | grep -v -e '^starting' -e '^Total parsing') || true
    [ -n "$got" ] || got="no answer"
    if [ "$got" != "$want" ]; then
        printf 'input: %%s\nexpected: %%s\ngot: %%s\n' "${*@Q}" "$want" "$got"
        bad=1
    fi
}
%(cases)s
exit $bad
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def q(s):
    return "$'" + ''.join(c if 32 <= ord(c) < 127 and c not in "'\\" else
                          {"'": "\\'", '\\': '\\\\', '\n': '\\n', '\r': '\\r'}.get(c) or
                          ''.join('\\x%02x' % b for b in c.encode()) for c in s) + "'"


def build_demo(repo, d):
    os.makedirs(d + '/src', exist_ok=True)
    open(d + '/src/main.rs', 'w').write(MAIN)
    open(d + '/Cargo.toml', 'w').write('[package]\nname="demo"\nversion="0.1.0"\n[workspace]\n[dependencies]\njsparse={path="%s"}\n' % repo)
    if os.path.exists(repo + '/Cargo.lock'):
        shutil.copy(repo + '/Cargo.lock', d + '/Cargo.lock')
    r = sh('RUSTFLAGS="--cfg jsparse_verif -Awarnings" cargo build --offline -q', cwd=d)
    assert r.returncode == 0, r.stdout
    return d + '/target/debug/demo'


def run_demo(exe, args):
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 4000000; exec "$@"', 'x', exe] + args, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=20)
        o = r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'no answer'
    return '\n'.join(l for l in o.splitlines() if not l.startswith(('starting', 'Total parsing'))) or 'no answer'


def main():
    import plant_defs
    want = sys.argv[1:]
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        clean = None
        for b in plant_defs.BUGS:
            d = os.path.join(SEED, b['id'])
            if (want and b['id'] not in want) or (not want and os.path.exists(d + '/meta.json')):
                continue
            if clean is None:
                clean = build_demo('/repo', tmp + '/cleandemo')
            repo = tmp + '/repo'
            shutil.rmtree(repo, ignore_errors=True)
            sh('cp -a /repo %s' % repo)
            sh('git checkout -q -- . && git clean -fdq', cwd=repo)
            ok = True
            for f, old, new in b['edits']:
                p = repo + '/src/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT MATCHES', s.count(old), repr(old)); ok = False; break
                pos = s[:s.index(old)].count('\n') + 1
                blame = subprocess.check_output(['git', 'blame', '-s', head, '--', 'src/' + f], cwd=repo, text=True).split('\n')
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
            # which removed lines are not original?
            import re
            foreign = []
            f = None
            for l in diff.split('\n'):
                if l.startswith('--- a/'):
                    f = l[6:]; bl = subprocess.check_output(['git', 'blame', '-s', head, '--', f], cwd=repo, text=True).split('\n')
                elif l.startswith('@@'):
                    n = int(re.match(r'@@ -(\d+)', l).group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if not bl[n - 1].startswith('^d28'):
                        foreign.append(l)
                    n += 1
                elif l.startswith(' '):
                    n += 1
            r = sh('CARGO_TARGET_DIR=%s/tt cargo test --offline 2>&1' % tmp, cwd=repo)
            tests = re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed', r.stdout)
            passed = bool(tests) and all(t[0] == 'ok' for t in tests) and sum(int(t[1]) for t in tests) == 12
            exe = build_demo(repo, tmp + '/bugdemo')
            cases, differs = [], 0
            for args in b['cases']:
                a, c = run_demo(clean, args), run_demo(exe, args)
                cases.append("run %s %s" % (q(a), ' '.join(q(x) for x in args)))
                print('   ', str(args)[:60], '->', a.replace('\n', ' | ')[:60], ' // ', 'same' if a == c else c.replace('\n', ' | ')[:60])
                differs += a != c
            good = passed and differs and not foreign
            print(b['id'], 'OK' if good else 'BAD', 'tests', tests, 'foreign', foreign)
            if not good:
                if not passed: print('\n'.join(l for l in r.stdout.split('\n') if 'FAILED' in l or l.startswith('error'))[:400])
                continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/main.rs', 'w').write(MAIN)
            open(d + '/demo.sh', 'w').write(DEMO % {'title': b['what'].replace('\n', ' '), 'cases': '\n'.join(cases)})
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            r2 = sh('bash %s/demo.sh' % d, cwd=repo)
            print('   demo clean rc', r1.returncode, 'bug rc', r2.returncode)
            if r1.returncode != 0 or r2.returncode == 0:
                print(r1.stdout[-400:], r2.stdout[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
