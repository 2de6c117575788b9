#!/usr/bin/env python3
"""Reference grammar: grammar.txt -> one epsilon-free automaton per nonterminal, plus self-checks.

A transition is (guards, sym, mods, target); an accept is a guard tuple.  Guards are evaluated at the next token:
  ('la', X) / ('nla', X)  the next token(s) match / do not match X      ('nolt',)  no line break before the next token
  ('flag', F, bool)       context flag
Symbols: ('p', ';') punctuator, ('k', 'in') identifier name with that text, ('c', 'IDENT') token class, ('n', 'Expr').
"""
import os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['In', 'Yield', 'Await', 'Default', 'Req', 'Call']
RESERVED = set("""break case catch class const continue debugger default delete do else export extends finally for
function if import in instanceof new return super switch this throw try typeof var void while with yield let static enum
implements package protected interface private public null true false await""".split())
PSEUDO = ('LABEL', 'ASYNCFN', 'ASYNCARROW', 'ASYNCCALL', 'UNARYOP', 'ASI')
UNARY_P = ('+', '-', '~', '!')
UNARY_K = ('delete', 'void', 'typeof', 'await')
CLASSES = ('IDENT', 'IDNAME', 'NUMBER', 'STRING', 'REGEX', 'TEMPLATE', 'HEAD', 'MIDDLE', 'TAIL', 'EOF')

TOK = re.compile(r"""\s*(?:(\#[^\n]*)|('[^']+')|("[^"]+")|(\[nolt\])|\[([+-])(\w+)\]|(\w+)|(\{[^}]*\})|([|()*?+;=&!]))""")


def lex(text):
    i, out = 0, []
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SyntaxError(text[i:i + 40])
        i = m.end()
        c, p, k, nolt, s, f, w, mods, op = m.groups()
        if c:
            continue
        if p: out.append(('p', p[1:-1]))
        elif k: out.append(('k', k[1:-1]))
        elif nolt: out.append(('nolt',))
        elif f: out.append(('flag', f, s == '+'))
        elif w: out.append(('w', w))
        elif mods: out.append(('mods', mods[1:-1]))
        else: out.append(('op', op))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end',)

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, op):
        if self.peek() == ('op', op):
            self.i += 1
            return True
        return False

    def alt(self):
        xs = [self.seq()]
        while self.eat('|'):
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq(self):
        xs = []
        while self.peek() not in (('op', '|'), ('op', ')'), ('op', ';'), ('end',)):
            xs.append(self.post())
        return ('seq', xs)

    def post(self):
        a = self.atom()
        while self.peek() in (('op', '*'), ('op', '?'), ('op', '+')):
            a = (self.next()[1], a)
        return a

    def atom(self):
        t = self.next()
        if t == ('op', '('):
            a = self.alt()
            assert self.eat(')')
            return a
        if t == ('op', '&') or t == ('op', '!'):
            return ('guard', ('la' if t[1] == '&' else 'nla', self.sym(self.next())))
        if t[0] in ('nolt', 'flag'):
            return ('guard', t)
        s = self.sym(t)
        mods = ()
        if self.peek()[0] == 'mods':
            mods = tuple((m.strip()[1:], m.strip()[0] == '+') for m in self.next()[1].split(','))
        return ('sym', s, mods)

    def sym(self, t):
        if t[0] in 'pk':
            return t
        assert t[0] == 'w', t
        if t[1] in CLASSES:
            return ('c', t[1])
        if t[1] in PSEUDO:
            return ('x', t[1])      # pseudo-terminal, only in guards
        return ('n', t[1])


class NT:
    def __init__(self, name):
        self.name, self.trans, self.accept = name, [], []   # per state

    def __repr__(self):
        return self.name


def build(name, ast):
    """Thompson construction, then epsilon/guard elimination."""
    eps, step = [], []       # eps[s] = [(guard or None, t)], step[s] = [(sym, mods, t)]

    def new():
        eps.append([]); step.append([])
        return len(eps) - 1

    def go(a, s):
        k = a[0]
        if k == 'seq':
            for x in a[1]:
                s = go(x, s)
            return s
        if k == 'alt':
            e = new()
            for x in a[1]:
                b = new(); eps[s].append((None, b))
                eps[go(x, b)].append((None, e))
            return e
        if k == '*':
            b = new(); eps[s].append((None, b))
            e = go(a[1], b)
            eps[e].append((None, b))
            x = new(); eps[b].append((None, x))
            return x
        if k == '+':
            return go(('seq', [a[1], ('*', a[1])]), s)
        if k == '?':
            e = new(); b = new()
            eps[s].append((None, b)); eps[s].append((None, e))
            eps[go(a[1], b)].append((None, e))
            return e
        if k == 'guard':
            e = new(); eps[s].append((a[1], e))
            return e
        if k == 'sym':
            e = new(); step[s].append((a[1], a[2], e))
            return e
        raise AssertionError(a)

    s0 = new()
    end = go(ast, s0)
    nt = NT(name)
    # closures
    def closure(s):
        seen, todo = set(), [(s, frozenset())]
        out = []
        while todo:
            q, g = todo.pop()
            if (q, g) in seen:
                continue
            seen.add((q, g))
            out.append((q, g))
            for gd, t in eps[q]:
                todo.append((t, g if gd is None else g | {gd}))
        return out
    # subset construction over identical (guards, symbol, context) labels
    k0 = frozenset([s0])
    idx, order = {k0: 0}, [k0]
    i = 0
    while i < len(order):
        ss = order[i]; i += 1
        tr, ac = {}, []
        for s in ss:
            for q, g in closure(s):
                for sym, mods, t in step[q]:
                    tr.setdefault((tuple(sorted(g)), sym, mods), set()).add(t)
                if q == end:
                    e = tuple(sorted(g))
                    if e not in ac: ac.append(e)
        out = []
        for (g, sym, mods), ts in sorted(tr.items(), key=repr):
            k = frozenset(ts)
            if k not in idx:
                idx[k] = len(order); order.append(k)
            out.append((g, sym, mods, idx[k]))
        tr = out
        nt.trans.append(sorted(tr, key=repr)); nt.accept.append(sorted(ac))
    minimize(nt)
    return nt


def minimize(nt):
    """Merge states with equal outgoing behaviour."""
    while True:
        sig, rep = {}, {}
        for s in range(len(nt.trans)):
            k = (repr(nt.trans[s]), repr(nt.accept[s]))
            rep[s] = sig.setdefault(k, s)
        keep = sorted(set(rep.values()))
        if len(keep) == len(nt.trans):
            return
        ren = {o: i for i, o in enumerate(keep)}
        tr = []
        for s in keep:
            xs = []
            for g, sym, mods, t in nt.trans[s]:
                e = (g, sym, mods, ren[rep[t]])
                if e not in xs: xs.append(e)
            tr.append(sorted(xs, key=repr))
        nt.accept = [nt.accept[s] for s in keep]
        nt.trans = tr


class Grammar:
    def __init__(self, path=None):
        toks = lex(open(path or os.path.join(HERE, 'grammar.txt')).read())
        p = P(toks)
        self.nts = {}
        while p.peek() != ('end',):
            name = p.next()[1]
            assert p.eat('='), name
            ast = p.alt()
            assert p.eat(';'), (name, p.peek())
            self.nts[name] = build(name, ast)
        self.start = 'Module'
        self.relevant = self._relevant()
        self.nullable_cache = {}
        self.first_cache = {}

    # flags an NT's language depends on
    def _relevant(self):
        rel = {n: set() for n in self.nts}
        ch = True
        while ch:
            ch = False
            for n, nt in self.nts.items():
                r = set(rel[n])
                for s in range(len(nt.trans)):
                    for g, sym, mods, t in nt.trans[s]:
                        r |= {x[1] for x in g if x[0] == 'flag'}
                        if sym[0] == 'n':
                            r |= rel[sym[1]] - {m[0] for m in mods}
                    for g in nt.accept[s]:
                        r |= {x[1] for x in g if x[0] == 'flag'}
                if r != rel[n]:
                    rel[n] = r; ch = True
        return {n: frozenset(r) for n, r in rel.items()}

    def ctx(self, nt, flags):
        """restrict a dict of flags to those relevant for nt"""
        return tuple(sorted((f, flags[f]) for f in self.relevant[nt]))


# --- abstract tokens: the finite partition of tokens that the grammar can distinguish --------------------------------
PUNCTS = "{ } ( ) [ ] ; , ~ ? : . ... < <= << <<= > >= >> >>= >>> >>>= ! != !== = => == === + += ++ - -= -- % %= * *= ** **= / /= & && &= | || |= ^ ^=".split()


def names_used(g):
    used = set()
    for nt in g.nts.values():
        for s in range(len(nt.trans)):
            for gs, sym, mods, t in nt.trans[s]:
                for x in [sym] + [y[1] for y in gs if y[0] in ('la', 'nla')]:
                    if x[0] == 'k': used.add(x[1])
            for gs in nt.accept[s]:
                for y in gs:
                    if y[0] in ('la', 'nla') and y[1][0] == 'k': used.add(y[1][1])
    return sorted(used)


def token_kinds(g):
    """representatives: ('p', x), ('k', name), ('k', '<ident>'), ('c', 'NUMBER') ..."""
    ks = [('p', p) for p in PUNCTS]
    names = set(names_used(g)) | RESERVED
    ks += [('k', n) for n in sorted(names)] + [('k', '$id')]
    ks += [('c', c) for c in CLASSES if c not in ('IDENT', 'IDNAME')]
    return ks


def match(sym, tok):
    """does grammar terminal sym match abstract token tok"""
    if sym[0] == 'c':
        if sym[1] == 'IDNAME': return tok[0] == 'k'
        if sym[1] == 'IDENT': return tok[0] == 'k' and tok[1] not in RESERVED
    return sym == tok


def match1(x, tok, lt, nxt=None, nxt_lt=None):
    """guard operand x against the token (and, for two-token predicates, the one after)"""
    if x[0] != 'x':
        return match(x, tok)
    n = x[1]
    if n == 'ASI':
        return lt or tok in (('p', '}'), ('c', 'EOF'))
    if n == 'UNARYOP':
        return (tok[0] == 'p' and tok[1] in UNARY_P) or (tok[0] == 'k' and tok[1] in UNARY_K)
    if n == 'LABEL':
        return match(('c', 'IDENT'), tok) and nxt == ('p', ':')
    if n == 'ASYNCFN':
        return tok == ('k', 'async') and nxt == ('k', 'function') and not nxt_lt
    if n == 'ASYNCARROW':
        return tok == ('k', 'async') and nxt is not None and match(('c', 'IDENT'), nxt) and not nxt_lt
    if n == 'ASYNCCALL':
        return tok == ('k', 'async') and nxt == ('p', '(') and not nxt_lt
    raise AssertionError(n)


def guard_ok(g, flags, tok, lt, nxt, nxt_lt):
    if g[0] == 'flag': return flags.get(g[1], False) == g[2]
    if g[0] == 'nolt': return not lt
    r = match1(g[1], tok, lt, nxt, nxt_lt)
    return r if g[0] == 'la' else not r


class Oracle:
    """first/nullable under a complete local environment: (token, lt, next token, next lt) and flags"""
    def __init__(self, g):
        self.g = g
        self.cache = {}

    def enter(self, nt, flags, env, depth=0):
        """-> (can_consume, can_be_empty) for nt started at env"""
        key = (nt, self.g.ctx(nt, flags), env)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = (False, False)
        r = self.at(nt, 0, flags, env)
        self.cache[key] = r
        return r

    def at(self, nt, s, flags, env):
        con, emp = self.options(nt, s, flags, env)
        seen = set()
        todo = [t for t in emp]
        consume = bool(con)
        empty = self.accepts(nt, s, flags, env)
        while todo:
            t = todo.pop()[3]
            if t in seen: continue
            seen.add(t)
            con, emp = self.options(nt, t, flags, env)
            consume |= bool(con)
            empty |= self.accepts(nt, t, flags, env)
            todo += emp
        return (consume, empty)

    def accepts(self, nt, s, flags, env):
        return any(all(guard_ok(x, flags, *env) for x in gs) for gs in self.g.nts[nt].accept[s])

    def options(self, nt, s, flags, env):
        """transitions enabled that consume the token, and those that can match empty"""
        con, emp = [], []
        for tr in self.g.nts[nt].trans[s]:
            gs, sym, mods, t = tr
            if not all(guard_ok(x, flags, *env) for x in gs):
                continue
            if sym[0] == 'n':
                f = dict(flags); f.update(mods)
                c, e = self.enter(sym[1], f, env)
                if c: con.append(tr)
                if e: emp.append(tr)
            elif match(sym, env[0]):
                con.append(tr)
        return con, emp


def reachable(g):
    start = ('Module', (('Await', False), ('Default', False), ('In', True), ('Yield', False), ('Call', False), ('Req', False)))
    seen, todo = set(), [(start[0], dict(start[1]))]
    while todo:
        n, f = todo.pop()
        k = (n, g.ctx(n, f))
        if k in seen: continue
        seen.add(k)
        f = {x: f.get(x, False) for x in FLAGS}
        nt = g.nts[n]
        for s in range(len(nt.trans)):
            for gs, sym, mods, t in nt.trans[s]:
                if sym[0] == 'n' and all(x[0] != 'flag' or f[x[1]] == x[2] for x in gs):
                    f2 = dict(f); f2.update(mods)
                    todo.append((sym[1], f2))
    return seen


def envs(g):
    ks = token_kinds(g)
    for t in ks:
        for lt in (False, True):
            if t[0] == 'k' and (t[1] == 'async' or t[1] not in RESERVED):
                for n in ([('p', ':'), ('p', '('), ('k', 'function'), ('k', '$id'), ('p', ';')] if t[1] == 'async' else [('p', ':'), ('p', ';')]):
                    for nl in ((False, True) if t[1] == 'async' else (False,)):
                        yield (t, lt, n, nl)
            else:
                yield (t, lt, ('p', ';'), False)


def selfcheck(g, verbose=True):
    """At every reachable (nonterminal, context, state) and local environment at most one way to go on."""
    o = Oracle(g)
    bad = 0
    n = 0
    for nt, ctx in sorted(reachable(g)):
        flags = {f: False for f in FLAGS}; flags.update(dict(ctx))
        for s in range(len(g.nts[nt].trans)):
            for env in envs(g):
                n += 1
                con, emp = o.options(nt, s, flags, env)
                if len(con) > 1 or (not con and len(emp) > 1):
                    bad += 1
                    if verbose and bad < 30:
                        print('ambiguous', nt, ctx, s, env, con, emp)
    return n, bad


def fmt_sym(s):
    return s[0] + ':' + s[1]


def fmt_guard(g):
    if g[0] == 'flag': return ('+' if g[2] else '-') + g[1]
    if g[0] == 'nolt': return 'nolt'
    return ('&' if g[0] == 'la' else '!') + fmt_sym(g[1])


def dump(g):
    out = []
    for n, nt in g.nts.items():
        out.append('nt %s' % n)
        for s in range(len(nt.trans)):
            out.append('st')
            for gs, sym, mods, t in nt.trans[s]:
                m = ','.join(('+' if v else '-') + f for f, v in mods) or '.'
                out.append(' '.join(['t', str(t), fmt_sym(sym), m] + [fmt_guard(x) for x in gs]))
            for gs in nt.accept[s]:
                out.append(' '.join(['a'] + [fmt_guard(x) for x in gs]))
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    g = Grammar()
    if len(sys.argv) > 1 and sys.argv[1] == 'dump':
        sys.stdout.write(dump(g))
    else:
        n, bad = selfcheck(g)
        print('nonterminals', len(g.nts), 'states', sum(len(x.trans) for x in g.nts.values()), 'points', n, 'ambiguous', bad)
