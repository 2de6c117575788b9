"""Loop invariants by product exploration: at every loop head the concrete control state (booleans, enum variants, small
counters that the loop resets) and the states of the specification automata at the positions held in the loop's variables are
kept apart; what the loop changes is otherwise forgotten except for the candidate facts that every arrival preserves (Houdini).
The result is an inductive invariant: nothing is unrolled and no bound is involved."""
from std import *
from cfg import *

IMAX32 = 2**31 - 1
BIG = 8      # counters the loop resets to constants are tracked exactly below this


class Restart(Exception):
    pass


class Loop:
    pass


class Leafs:
    """numeric leaves of a memory, in a fixed traversal"""


def walk(v, path, num, skel):
    """collect numeric leaves into num[path] and everything discrete into skel"""
    if isinstance(v, bool): skel.append((path, 'b', v))
    elif is_z3(v) and z3.is_bool(v): skel.append((path, 'sb', v))
    elif is_num(v): num[path] = v
    elif isinstance(v, Agg):
        skel.append((path, 'a', v.name, len(v.vals)))
        for i, x in enumerate(v.vals): walk(x, path + (i,), num, skel)
    elif isinstance(v, Enum):
        skel.append((path, 'e', v.name, v.var))
        for i, x in enumerate(v.vals): walk(x, path + (i,), num, skel)
    elif isinstance(v, Str):
        skel.append((path, 's', v.buf.name))
        if v.buf.data is None:
            num[path + ('off',)] = v.off
            num[path + ('n',)] = v.n
        else: skel.append((path, 'lit', v.off, v.n))
    elif isinstance(v, Ref): skel.append((path, 'r', v.cell, v.path))
    elif isinstance(v, ValRef):
        skel.append((path, 'vr'))
        walk(v.val, path + ('*',), num, skel)
    elif isinstance(v, Buf): skel.append((path, 'buf', v.name))
    elif isinstance(v, Cat):
        skel.append((path, 'cat', len(v.parts)))
        for i, x in enumerate(v.parts): walk(x, path + (i,), num, skel)
    else: skel.append((path, 'o', repr(v)))


def rebuild(v, path, sub):
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): return v
    if is_num(v): return sub.get(path, v)
    if isinstance(v, Agg): return Agg(v.name, [rebuild(x, path + (i,), sub) for i, x in enumerate(v.vals)])
    if isinstance(v, Enum): return Enum(v.name, v.var, [rebuild(x, path + (i,), sub) for i, x in enumerate(v.vals)])
    if isinstance(v, Str) and v.buf.data is None:
        return Str(v.buf, sub.get(path + ('off',), v.off), sub.get(path + ('n',), v.n))
    if isinstance(v, ValRef): return ValRef(rebuild(v.val, path + ('*',), sub))
    if isinstance(v, Cat): return Cat([rebuild(x, path + (i,), sub) for i, x in enumerate(v.parts)])
    return v


class LoopEngine(StdEngine):
    def __init__(self, prog, **kw):
        StdEngine.__init__(self, prog, **kw)
        self.loops_seen = 0
        self.invariants = 0

    # hooks of the specification
    def automata(self):
        """[(name, value(p) term, states)]"""
        return []

    def registers(self):
        """[(name, fn(p) term, sort)]"""
        return []

    def see(self, s, p):
        """instantiate the specification's axioms at position p"""

    def position_ok(self, s, p):
        return False

    def text_end(self):
        return None

    def on_head(self, s):
        fr = s.top
        lk = (fr.id, fr.block)
        if s.ghost.get('at') == lk:
            s.ghost = dict(s.ghost)
            s.ghost['at'] = None
            return True
        inst = s.loops.get(lk)
        if inst is not None:
            self.arrive(inst, s, False)
            return []
        return self.loop(s, lk)

    def loop(self, s, lk):
        fr = s.top
        self.loops_seen += 1
        L = Loop()
        L.lk = lk
        L.body = loop_body(fr.fn, fr.block)
        L.depth = len(s.frames)
        L.fn = fr.fn
        live = liveness(fr.fn)[fr.block]
        keep = {fr.id: live}
        for f, g in zip(s.frames, s.frames[1:]):
            if f.id != fr.id and g.retblock is not None: keep[f.id] = liveness(f.fn)[g.retblock] | {x for x in (g.dest[0],) if g.dest[1]}  if g.dest else liveness(f.fn)[g.retblock]
        for c in list(s.mem):
            if isinstance(c, tuple) and c[0] in keep and c[1] not in keep[c[0]]: del s.mem[c]
        L.entry = s
        L.cells = sorted([c for c in s.mem if not (isinstance(c[0], str) and c[0].startswith('const:'))], key=str)
        consts = const_assigned(fr.fn, L.body)
        L.resets = {loc for loc, pr in consts if not pr}
        L.mod, L.keyed, L.nokey = [], set(), set()
        base = len(self.obls)
        for _ in range(30):
            L.heads, L.work, L.exits, L.ob, L.var = {}, [], {}, {}, {}
            try:
                self.arrive(L, s.fork(), True)
                n = 0
                while L.work:
                    k = L.work.pop(0)
                    n += 1
                    if n > 3000: raise Unsupported('loop invariant does not stabilise')
                    del self.obls[base:]
                    self.explore(L, k)
                    L.ob[k] = self.obls[base:]
                break
            except Restart:
                del self.obls[base:]
                continue
        else: raise Unsupported('loop invariant does not stabilise')
        del self.obls[base:]
        for k in L.heads: self.obls.extend(L.ob[k])
        self.invariants += sum(len(h['cands']) for h in L.heads.values())
        # variant: one position that grows on every iteration
        alive = None
        for k in L.heads:
            if k in L.var: alive = set(L.var[k]) if alive is None else alive & L.var[k]
        if alive is not None:
            self.obls.append(Obl('T02', fr.fn.path, 'every iteration of the loop at %s advances' % fr.block,
                                 'ok' if alive else 'unknown', '' if alive else 'no variable found that grows on every iteration'))
        out = []
        for k in L.heads: out.extend(L.exits[k])
        return out

    def leaves(self, L, s):
        num, skel = {}, []
        for c in L.cells:
            if c not in s.mem: raise Unsupported('local lost in loop')
            walk(s.mem[c], (c,), num, skel)
        return num, skel

    def reset_leaf(self, L, path):
        return path[0][0] == L.lk[0] and path[0][1] in L.resets and len(path) == 1

    def arrive(self, L, s, initial):
        # bools that are not concrete: fork
        num, skel = self.leaves(L, s)
        if not hasattr(L, 'bool0'): L.bool0 = {e[0]: e[2] for e in skel if e[1] == 'sb'}
        skel = [(e[0], 'b=') if e[1] == 'sb' and e[0] in L.bool0 and same(e[2], L.bool0[e[0]]) else e for e in skel]
        for e in skel:
            if e[1] == 'sb':
                for t, val in self.split(s, e[2]):
                    self.set_bool(t, e[0], val)
                    self.arrive(L, t, initial)
                return
        if initial and not hasattr(L, 'num0'):
            L.num0 = num
        # modified leaves
        ch = False
        for p, v in num.items():
            if p in L.mod or p in L.keyed: continue
            if p not in L.num0 or not same(v, L.num0[p]):
                v0 = L.num0.get(p)
                if self.reset_leaf(L, p) and isinstance(v, int) and (isinstance(v0, int) or v0 is None) and p not in L.nokey and not is_float(v):
                    L.keyed.add(p)
                else: L.mod.append(p)
                ch = True
        for p in list(L.keyed):
            v = num.get(p)
            if v is None or isinstance(v, int): continue
            if not self.valid(s, v >= BIG):
                if self.feasible(s, v >= BIG) and False: pass
                L.keyed.discard(p)
                L.nokey.add(p)
                L.mod.append(p)
                ch = True
        if ch: raise Restart()
        key = []
        big = set()
        for e in skel: key.append(e)
        for p, v in num.items():
            if p in L.keyed:
                if isinstance(v, int) and v < BIG: key.append((p, v))
                else:
                    key.append((p, 'big'))
                    big.add(p)
            elif p in L.mod: key.append((p, 'h'))
        hv = {p: v for p, v in num.items() if p in L.mod or p in big}
        self.arrive_pos(L, s, tuple(map(str, key)), hv, initial, num)

    def set_bool(self, s, path, val):
        c = path[0]

        def go(v, p):
            if not p: return val
            if isinstance(v, (Agg, Enum)):
                vs = list(v.vals)
                vs[p[0]] = go(vs[p[0]], p[1:])
                return Agg(v.name, vs) if isinstance(v, Agg) else Enum(v.name, v.var, vs)
            if isinstance(v, ValRef): return ValRef(go(v.val, p[1:]))
            raise Unsupported('boolean leaf')
        s.mem[c] = go(s.mem[c], path[1:])

    def pos_terms(self, L, hv, num):
        """[(name, term)] of the source positions the loop's variables denote"""
        offs, own = {}, {}
        for p, v in num.items():
            if p[-1] == 'off' and p not in L.mod:
                offs[str(v)] = v
                if p[0][0] == L.lk[0]: own[str(v)] = v
        offs = own or offs or {'0': 0}
        out = []
        for p, v in hv.items():
            if is_float(v) or p[-1] == 'n': continue
            if len(p) == 1 and p[0][0] == L.lk[0] and L.fn.locals.get(p[0][1], 'usize') != 'usize': continue
            if p[-1] == 1 and len(p) > 1 and self.iter_leaf(L, p):
                out.append(((p, '0'), v))
                continue
            for o, ov in sorted(offs.items()): out.append(((p, o), add(v, ov)))
        return out

    def arrive_pos(self, L, s, key, hv, initial, num):
        """fork on the automata's states at the positions"""
        pos = self.pos_terms(L, hv, num)
        work = [(s, key, 0, [])]
        while work:
            s, key, i, seen = work.pop()
            if i == len(pos):
                for t, k in self.arrive_char(L, s, key, hv): self.arrive_key(L, t, k, hv, initial, num, seen)
                continue
            if isinstance(i, tuple):
                i = i[1]
                name, p = ('end', pos[i][0]), self.text_end()
            else: name, p = pos[i]
            dup = None
            for nm, q in seen:
                if same(p, q) or self.valid(s, eq(p, q)): dup = nm
            if dup:
                work.append((s, key + ('%s=%s' % (name, dup),), i + 1, seen))
                continue
            if not self.position_ok(s, p):
                e = self.text_end()
                if e is not None and len(name) == 2 and len(name[0]) == 1 and not isinstance(name[0][0], str) and self.valid(s, le(0, p)):
                    # a position that may lie past the text: there, what counts is the end of the text
                    for t, past in self.split(s, lt(e, p)):
                        if past: work.append((t, key + ('%s>N' % (name,),), i, seen + [(name, p)]) if False else (t, key + ('%s>N' % (name,),), ('end', i), seen))
                        else: work.append((t, key + ('%s<N' % (name,),), i, seen))
                    continue
                work.append((s, key + ('%s-' % (name,),), i + 1, seen))
                continue
            self.see(s, p)
            self.see(s, sub(p, 1))
            cur = [(s, key)]
            for an, q, states in self.automata():
                nxt = []
                for t, k in cur:
                    vals = []
                    term = q(p)
                    while True:
                        r = self.check(t, *[term != v for v in vals])
                        if r == 'unsat': break
                        if r != 'sat': raise Unsupported('solver gave up')
                        v = self.solver.model().eval(zv(term), model_completion=True).as_long()
                        vals.append(v)
                        if len(vals) > 12: break
                    if len(vals) > 12:
                        nxt.append((t, k + ('%s@%s?' % (an, name),)))
                        continue
                    for v in vals:
                        u = t.fork() if len(vals) > 1 else t
                        if len(vals) > 1: self.assume(u, zv(term) == v)
                        nxt.append((u, k + ('%s@%s=%d' % (an, name, v),)))
                cur = nxt
            for t, k in cur: work.append((t, k, i + 1, seen + [(name, p)]))

    def arrive_char(self, L, s, key, hv):
        """fork on whether a character the loop remembers equals a constant the function compares with"""
        cur = [(s, key)]
        for p, v in hv.items():
            if len(p) != 1 or p[0][0] != L.lk[0] or L.fn.locals.get(p[0][1]) not in ('char', 'u8'): continue
            for c in const_compared(L.fn):
                nxt = []
                for t, k in cur:
                    for u, e in self.split(t, eq(v, c)): nxt.append((u, k + ('%s%s%d' % (p, '==' if e else '!=', c),)))
                cur = nxt
        return cur

    def iter_leaf(self, L, p):
        """the offset of an iterator over the source is a position by itself"""
        v = L.entry.mem.get(p[0])
        for x in p[1:-1]:
            if x == '*': v = v.val
            else: v = v.vals[x]
        return isinstance(v, Agg) and v.name in ('SliceIter', 'Chars')

    def cand_list(self, L, hv, num, pos, s):
        """candidate facts: [(name, f)] with f(values, positions) -> condition"""
        out = []
        v0s = L.num0
        small = [v for p, v in num.items() if p in L.keyed and isinstance(v, int) and v < BIG]
        ints = [p for p, v in hv.items() if not is_float(v)]
        reals = [p for p, v in hv.items() if is_float(v)]
        strs = {}
        for p, v in num.items():
            if p[-1] == 'n' and p not in L.mod:
                o = num[p[:-1] + ('off',)]
                strs[str(v)] = v
                if not same(o, 0): strs['%s+%s' % (v, o)] = add(v, o)
        ends = {str(v): v for p, v in num.items() if p not in L.mod and p not in L.keyed and p[-1] != 'off' and is_z3(v) and not is_float(v) and 'B(' not in str(v)}
        strs.update(ends)
        for p in ints:
            v0 = v0s.get(p)
            if v0 is not None:
                out.append((('ge', p), lambda V, P, p=p, v0=v0: le(v0, V[p])))
            if v0 is not None: out.append((('eq0', p), lambda V, P, p=p, v0=v0: eq(v0, V[p])))
            if isinstance(hv[p], int): out.append((('eqc', p), lambda V, P, p=p, c=hv[p]: eq(c, V[p])))
            for c in sorted({0, 1, 2, BIG} | {k + d for k in small for d in (0, 1)}): out.append((('ge', p, c), lambda V, P, p=p, c=c: le(c, V[p])))
            out.append((('lei', p), lambda V, P, p=p: le(V[p], IMAX32)))
            for nm, t in strs.items():
                out.append((('le', p, nm), lambda V, P, p=p, t=t: le(V[p], t)))
            for nm, t in strs.items():
                out.append((('eqs', p, nm), lambda V, P, p=p, t=t: eq(V[p], t)))
        for i, p in enumerate(ints):
            for q in ints:
                if p == q: continue
                if ints.index(p) < ints.index(q):
                    d = simp(zv(sub(hv[p], hv[q]))) if is_z3(sub(hv[p], hv[q])) else sub(hv[p], hv[q])
                    if isinstance(d, int): out.append((('diff', p, q), lambda V, P, p=p, q=q, d=d: eq(sub(V[p], V[q]), d)))
                    if p in v0s and q in v0s:
                        out.append((('deq', p, q), lambda V, P, p=p, q=q: eq(sub(V[p], v0s[p]), sub(V[q], v0s[q]))))
                        out.append((('sum', p, q), lambda V, P, p=p, q=q: eq(add(V[p], V[q]), add(v0s[p], v0s[q]))))
                if p in v0s and q in v0s:
                    out.append((('dle', p, q), lambda V, P, p=p, q=q: le(sub(V[p], v0s[p]), sub(V[q], v0s[q]))))
                out.append((('lev', p, q), lambda V, P, p=p, q=q: le(V[p], V[q])))
        for p in ints:
            if p[-1] in ('n', 'off'): continue
            for c in const_compared(L.fn):
                out.append((('nec', p, c), lambda V, P, p=p, c=c: bnot(eq(c, V[p]))))
                out.append((('eqk', p, c), lambda V, P, p=p, c=c: eq(c, V[p])))
        for nm, _ in pos:
            for an, q, states in self.automata():
                for st in range(states):
                    out.append((('nx', an, st, nm), lambda V, P, q=q, st=st, nm=nm: bor(le(self.text_end(), P[nm]), zv(q(add(P[nm], 1))) != st)))
        for nm, _ in pos:
            out.append((('bd', nm), lambda V, P, nm=nm: self.is_boundary(P[nm])))
            for fn, f in self.pos_facts(): out.append((('pf', fn, nm), lambda V, P, f=f, nm=nm: f(P[nm])))
            p0 = getattr(L, 'pos0', {}).get(nm)
            if p0 is not None and self.check(s) == 'sat':
                for an, q, states in self.automata():
                    c = self.solver.model().eval(zv(q(p0)), model_completion=True).as_long()
                    out.append((('from', an, nm), lambda V, P, q=q, p0=p0, c=c: eq(q(p0), c)))
            for rn, f, sort in self.registers():
                if nm in getattr(L, 'pos0', {}): out.append((('keep', rn, nm), lambda V, P, f=f, nm=nm: eq(f(P[nm]), f(zv(L.pos0[nm])))))
                if sort == 'int':
                    for p, v in num.items():
                        if p not in L.mod and p not in L.keyed and is_z3(v) and not is_float(v):
                            out.append((('regc', p, rn, nm), lambda V, P, v=v, f=f, nm=nm: eq(v, f(P[nm]))))
                if sort == 'real':
                    for p in reals: out.append((('reg', p, rn, nm), lambda V, P, p=p, f=f, nm=nm: eq(V[p], f(P[nm]))))
                else:
                    for p in ints:
                        out.append((('reg', p, rn, nm), lambda V, P, p=p, f=f, nm=nm: eq(V[p], f(P[nm]))))
                        out.append((('regm', p, rn, nm), lambda V, P, p=p, f=f, nm=nm: eq(V[p], z3.If(f(P[nm]) > IMAX32, z3.IntVal(IMAX32), f(P[nm])))))
        for p in reals:
            for c in (0, 1): out.append((('ge', p, c), lambda V, P, p=p, c=c: le(Fraction(c), V[p])))
        for nm, f in self.global_facts(): out.append((('glob', nm), lambda V, P, f=f: f()))
        return out

    def global_facts(self):
        return []

    def is_boundary(self, p):
        return True

    def pos_facts(self):
        return []

    def arrive_key(self, L, s, key, hv, initial, num, pos):
        P = dict(pos)
        if initial: L.pos0 = {**getattr(L, 'pos0', {}), **P}
        h = L.heads.get(key)
        if not initial and s.ghost.get('head') and s.ghost['head'][0] is L:
            hk, old = s.ghost['head'][1:]
            g = L.var.get(hk)
            cand = g if g is not None else {p for p in hv if not is_float(hv[p])}
            L.var[hk] = {p for p in cand if p in hv and p in old and self.valid(s, lt(old[p], hv[p])) and
                         any(self.position_ok(s, add(old[p], o)) or self.position_ok(s, add(hv[p], o)) for o in [0] + [v for q, v in num.items() if q[-1] == 'off' and q not in L.mod])}
        if h is None:
            cands = [(n, f) for n, f in self.cand_list(L, hv, num, pos, s)]
            keep = [(n, f) for n, f in cands if self.valid(s, f(hv, P))]
            L.heads[key] = dict(cands=keep, exemplar=s, hv=list(hv), pos=[(n, p) for n, p in pos], num=num)
            L.work.append(key)
            return
        conds = [(c, c[1](hv, P) if self.has(c, hv, P) else False) for c in h['cands']]
        if self.valid(s, band(*[x for _, x in conds])): return
        keep = [c for c, x in conds if self.valid(s, x)]
        if len(keep) < len(h['cands']):
            h['cands'] = keep
            if key not in L.work: L.work.append(key)

    def has(self, c, hv, P):
        return True

    def explore(self, L, key):
        h = L.heads[key]
        ex = h['exemplar']
        s = L.entry.fork()
        sub = {}
        for p in h['hv']:
            v = ex_v = None
            nm = '.'.join(str(x) for x in (p[0][1],) + p[1:]) if isinstance(p[0], tuple) else str(p)
            sub[p] = self.fresh('h' + nm, 'real' if is_float(h['num'][p]) else 'int')
        for c in L.cells:
            s.mem[c] = rebuild(ex.mem[c], (c,), sub)
        num = {}
        sk = []
        for c in L.cells: walk(s.mem[c], (c,), num, sk)
        pos = self.pos_terms(L, sub, num)
        P = {}
        chosen = {n for n, _ in h['pos']}
        eqs = {}
        past = [(n, p) for n, p in pos if '%s>N' % (n,) in key]
        for n, p in past: pos = pos + [(('end', n), self.text_end())]
        for n, p in pos: P[n] = p
        try:
            for n, p in past: self.assume(s, lt(self.text_end(), p))
            for p in getattr(L, 'pos0', {}).values():
                self.see(s, p)
                self.see(s, sub_(p, 1))
            for n, p in pos:
                if n in chosen:
                    self.see(s, p)
                    self.see(s, sub_(p, 1))
                    self.assume(s, self.position_cond(p))
            for n, p in pos:
                if n in chosen:
                    for e in self.ends_of(L, h['num']):
                        self.see(s, e)
                        for a in self.reach_facts(p, e): self.assume(s, a)
            # facts the key stands for
            for item in key:
                if '@' in item or '=' in item: pass
            for a in self.key_facts(key, pos, P, chosen): self.assume(s, a)
            for p in h['hv']:
                if p in L.keyed: self.assume(s, sub[p] >= BIG)
            V = dict(sub)
            for n, f in h['cands']: self.assume(s, f(V, P))
            if self.check(s) == 'unsat':
                L.exits[key] = []
                L.var.setdefault(key, {p for p in sub})
                return
        except Stop:
            L.exits[key] = []
            return
        s.loops = dict(s.loops)
        s.loops[L.lk] = L
        s.ghost = dict(s.ghost)
        outer = s.ghost.get('head')
        s.ghost['at'] = L.lk
        s.ghost['head'] = (L, key, dict(sub))
        L.var.pop(key, None)
        exits = []
        work = [s]
        while work:
            t = work.pop()
            try:
                nxt = self.step_block(t)
            except Stop:
                continue
            for u in reversed(nxt):
                d = len(u.frames)
                if d < L.depth or (d == L.depth and u.top.block not in L.body):
                    u.loops = {k: v for k, v in u.loops.items() if k != L.lk}
                    u.ghost = dict(u.ghost)
                    u.ghost['head'] = outer
                    exits.append(u)
                else: work.append(u)
        L.exits[key] = exits

    def ends_of(self, L, num):
        """fixed ends of views of the text the loop runs in, other than the end of the text itself"""
        out = {}
        for p, v in num.items():
            if p in L.mod or p in L.keyed or not is_z3(v) or is_float(v) or p[0][0] != L.lk[0]: continue
            if p[-1] == 'n': v = add(v, num[p[:-1] + ('off',)])
            elif p[-1] != 2 or not self.iter_leaf(L, p): continue
            v = simp(zv(v))
            if str(v) != str(self.text_end()): out[str(v)] = v
        return [out[k] for k in sorted(out)]

    def reach_facts(self, p, e):
        return []

    def key_facts(self, key, pos, P, chosen):
        out = []
        auto = {a[0]: a for a in self.automata()}
        names = {str(n): n for n, _ in pos}
        for item in key:
            m = re.match(r'^(\w+)@(.*)=(\d+)$', item)
            if m and m.group(2) in names:
                out.append(eq(auto[m.group(1)][1](P[names[m.group(2)]]), int(m.group(3))))
                continue
            m = re.match(r'^(\(.*\))=(\(.*\))$', item)
            if m and m.group(1) in names and m.group(2) in names:
                out.append(eq(P[names[m.group(1)]], P[names[m.group(2)]]))
        return out

    def position_cond(self, p):
        return True


sub_ = sub
