"""The reference grammar as a machine over sets of environments.

An element is (token kind, line break before it); an environment is an element together with the class of the token after
it (only as fine as the grammar's two-token predicates need).  Sets of elements and of environments are bit masks.
A machine is a stack of frames (nonterminal, state, context); the context of a frame holds one value per grammar flag:
0, 1, or 2 (the value the flag has where the activation under verification started; not known yet).
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec'))
import grammar as G

FL = G.FLAGS
FI = {f: i for i, f in enumerate(FL)}
# classes of the next token: representative (token, line break)
NEXT = [(('p', ':'), False), (('p', '('), False), (('p', '('), True), (('k', 'function'), False), (('k', 'function'), True),
        (('k', '$id'), False), (('k', '$id'), True), (('p', ';'), False)]
NC = len(NEXT)
OTHER = NC - 1


class NeedFlag(Exception):
    """the answer depends on an unknown flag, for these environments"""
    def __init__(self, flag, mask):
        Exception.__init__(self, flag)
        self.flag, self.mask = flag, mask


class Mach:
    NOLT = frozenset(['nolt'])

    def __init__(self, extra_names=(), extra_puncts=()):
        self.g = G.Grammar()
        ks = [('p', p) for p in G.PUNCTS] + [('p', '?' + p) for p in extra_puncts]
        names = sorted(set(G.names_used(self.g)) | G.RESERVED | {n for n in extra_names if n.isidentifier()})
        ks += [('k', n) for n in names] + [('k', '$id')]
        ks += [('c', c) for c in G.CLASSES if c not in ('IDENT', 'IDNAME')]
        self.kinds = ks
        self.elems = [(k, lt) for k in ks for lt in (False, True)]
        self.ne = len(self.elems)
        self.all = (1 << self.ne) - 1
        self.eall = (1 << (self.ne * NC)) - 1
        self.caches = {}
        self.rel = self.g.relevant
        # element -> class as a next token
        self.ncls = []
        for k, lt in self.elems:
            c = OTHER
            if k == ('p', ':'): c = 0
            elif k == ('p', '('): c = 1 + lt
            elif k == ('k', 'function'): c = 3 + lt
            elif G.match(('c', 'IDENT'), k): c = 5 + lt
            self.ncls.append(c)
        self.cls_elems = [self.emask(lambda i, c=c: self.ncls[i] == c) for c in range(NC)]
        self.term = {}
        self.gm = {}
        self.first_c, self.cons_c, self.consy_c, self.step_c = {}, {}, {}, {}
        self.ctx_c, self.exp_c, self.proj_c = {}, {}, {}
        self.reserved = self.emask(lambda i: self.elems[i][0][0] == 'k' and self.elems[i][0][1] in G.RESERVED)
        self.idname = self.emask(lambda i: self.elems[i][0][0] == 'k')
        self.ident = self.idname & ~self.reserved
        self.slash = self.emask(lambda i: self.elems[i][0] in (('p', '/'), ('p', '/=')))
        self.regex = self.emask(lambda i: self.elems[i][0] == ('c', 'REGEX'))
        self.eof = self.emask(lambda i: self.elems[i][0] == ('c', 'EOF'))
        self._follow = self._follow2 = None

    # ---- masks
    def emask(self, f):
        m = 0
        for i in range(self.ne):
            if f(i): m |= 1 << i
        return m

    def env(self, d0, d1):
        """environments of a current token in d0 and a next one in d1"""
        k = (d0, d1)
        r = self.exp_c.get(k)
        if r is None:
            cl = 0
            for c in range(NC):
                if self.cls_elems[c] & d1: cl |= 1 << c
            r, m, i = 0, d0, 0
            while m:
                b = m & -m
                r |= cl << ((b.bit_length() - 1) * NC)
                m ^= b
            self.exp_c[k] = r
        return r

    def cur(self, env):
        """elements that occur as the current token"""
        r = self.proj_c.get(env)
        if r is None:
            r, m, full = 0, env, (1 << NC) - 1
            while m:
                i = ((m & -m).bit_length() - 1) // NC
                r |= 1 << i
                m &= ~(full << (i * NC))
            self.proj_c[env] = r
        return r

    def nxt(self, env):
        """elements that may occur as the next token"""
        cl, m, full = 0, env, (1 << NC) - 1
        while m:
            i = ((m & -m).bit_length() - 1) // NC
            cl |= (m >> (i * NC)) & full
            m &= ~(full << (i * NC))
        r = 0
        for c in range(NC):
            if cl >> c & 1: r |= self.cls_elems[c]
        return r

    def unlt(self, env):
        """the same tokens without the line breaks before them"""
        for i in range(self.ne):
            if self.elems[i][1]:
                x = env >> (i * NC) & ((1 << NC) - 1)
                if x: env = env & ~(x << (i * NC)) | x << ((i - 1) * NC)
        r = 0
        for i in range(0, self.ne):
            x = env >> (i * NC) & ((1 << NC) - 1)
            if x:
                for a, b in ((2, 1), (4, 3), (6, 5)):
                    if x >> a & 1: x = x & ~(1 << a) | 1 << b
                r |= x << (i * NC)
        return r

    def show(self, d, n=8):
        out = []
        for i in range(self.ne):
            if d >> i & 1: out.append(('LT ' if self.elems[i][1] else '') + self.elems[i][0][1])
        return ' | '.join(out[:n]) + (' | ... (%d)' % len(out) if len(out) > n else '')

    def termmask(self, sym):
        r = self.term.get(sym)
        if r is None:
            r = self.term[sym] = self.env(self.emask(lambda i: G.match(sym, self.elems[i][0])), self.all)
        return r

    def guard(self, g):
        """mask of a token guard"""
        r = self.gm.get(g)
        if r is None:
            r = 0
            for i, (k, lt) in enumerate(self.elems):
                for c, (n, nl) in enumerate(NEXT):
                    if G.guard_ok(g, {}, k, lt, n, nl): r |= 1 << (i * NC + c)
            self.gm[g] = r
        return r

    def guards(self, gs, ctx, d):
        """-> (mask of d where the token guards hold, flag guard state: True, False or the unknown flag)"""
        fl = True
        for g in gs:
            if g[0] == 'flag':
                v = ctx[FI[g[1]]]
                if v == 2: fl = g[1] if fl is True else fl
                elif bool(v) != g[2]: return 0, False
            else:
                d &= self.guard(g)
                if not d: return 0, False
        return d, fl

    def restrict(self, nt, ctx):
        k = (nt, ctx)
        r = self.ctx_c.get(k)
        if r is None:
            r = self.ctx_c[k] = tuple(v if FL[i] in self.rel[nt] else 0 for i, v in enumerate(ctx))
        return r

    def sub(self, nt, ctx, mods):
        if mods:
            c = list(ctx)
            for f, v in mods: c[FI[f]] = int(v)
            ctx = tuple(c)
        return self.restrict(nt, ctx)

    # ---- one frame
    def first(self, nt, q, ctx, d):
        """(environments of d that the rest of the frame can consume, those for which it can end at once)"""
        k = (nt, q, ctx, d)
        r = self.first_c.get(k)
        if r is not None: return r
        con, emp, empties = 0, 0, []
        for m, fl, sym, cx, t, gs in self.trans(nt, q, ctx, d):
            if sym[0] != 'n':
                c, e = m & self.termmask(sym), 0
            else:
                c, e = self.first(sym[1], 0, cx, m)
            if fl is not True and (c or e): raise NeedFlag(fl, c | e)
            con |= c
            if e: empties.append((e, t))
        for e, t in empties:
            e &= ~con
            if not e: continue
            c2, e2 = self.first(nt, t, ctx, e)
            con |= c2
            emp |= e2
        for gs in self.g.nts[nt].accept[q]:
            m, fl = self.guards(gs, ctx, d & ~con)
            if m and fl is not True: raise NeedFlag(fl, m)
            emp |= m
        emp &= ~con
        self.first_c[k] = (con, emp)
        return con, emp

    def trans(self, nt, q, ctx, d):
        """enabled transitions: (environments, flag guard state, symbol, its context, target, guards)"""
        for gs, sym, mods, t in self.g.nts[nt].trans[q]:
            m, fl = self.guards(gs, ctx, d)
            if m: yield m, fl, sym, self.sub(sym[1], ctx, mods) if sym[0] == 'n' else None, t, gs

    def cons(self, nt, q, ctx, d):
        """ways to consume one token: [(environments, frames that replace this one, features)]"""
        k = (nt, q, ctx, d)
        r = self.cons_c.get(k)
        if r is not None: return r
        out, empties, con = [], [], 0
        for m, fl, sym, cx, t, gs in self.trans(nt, q, ctx, d):
            nolt = self.NOLT if any(x == ('nolt',) or x[0] == 'la' and 'ASYNC' in str(x) for x in gs) else frozenset()
            if sym[0] != 'n':
                c = m & self.termmask(sym)
                if c:
                    if fl is not True: raise NeedFlag(fl, c)
                    con |= c
                    out.append((c, ((nt, t, ctx),), nolt | {sym[1], 'in ' + nt}))
                continue
            c, e = self.first(sym[1], 0, cx, m)
            if fl is not True and (c or e): raise NeedFlag(fl, c | e)
            if c:
                con |= c
                for m2, fr, fe in self.cons(sym[1], 0, cx, c): out.append((m2, ((nt, t, ctx),) + fr, fe | nolt))
            if e: empties.append((e, t))
        for e, t in empties:
            if e & ~con: out.extend(self.cons(nt, t, ctx, e & ~con))
        self.cons_c[k] = out
        return out

    def consy(self, nt, q, ctx, d, y):
        """ways to go on with the nonterminal y: [(environments, frames after it, context of y, features)]"""
        k = (nt, q, ctx, d, y)
        r = self.consy_c.get(k)
        if r is not None: return r
        out, empties, con = [], [], 0
        for m, fl, sym, cx, t, gs in self.trans(nt, q, ctx, d):
            if sym[0] != 'n':
                c = m & self.termmask(sym)
                if c and fl is not True: raise NeedFlag(fl, c)
                con |= c
                continue
            c, e = self.first(sym[1], 0, cx, m)
            if fl is not True and (c or e): raise NeedFlag(fl, c | e)
            if c:
                con |= c
                nolt = self.NOLT if any(x == ('nolt',) or x[0] == 'la' and 'ASYNC' in str(x) for x in gs) else frozenset()
                if sym[1] == y: out.append((c, ((nt, t, ctx),), cx, nolt))
                else: out.extend((m2, ((nt, t, ctx),) + fr, cy, fe | nolt) for m2, fr, cy, fe in self.consy(sym[1], 0, cx, c, y))
            if e: empties.append((e, t))
        for e, t in empties:
            if e & ~con: out.extend(self.consy(nt, t, ctx, e & ~con, y))
        self.consy_c[k] = out
        return out

    # ---- the stack
    def tidy(self, M):
        """frames that can only end, other than the base, say nothing"""
        out = [M[0]]
        for f in M[1:]:
            N = self.g.nts[f[0]]
            if not N.trans[f[1]] and () in N.accept[f[1]]: continue
            out.append(f)
        return tuple(out)

    def step(self, M, d):
        """-> ([(environments, next machine, features)], environments for which the base can end at once, stuck ones)"""
        k = (M, d)
        r = self.step_c.get(k)
        if r is not None: return r
        out, rest, stuck = [], d, 0
        for i in range(len(M) - 1, -1, -1):
            nt, q, ctx = M[i]
            con, emp = self.first(nt, q, ctx, rest)
            if con & emp: emp &= ~con            # a construct ends only when nothing continues it
            if con:
                for m, fr, fe in self.cons(nt, q, ctx, con): out.append((m, self.tidy(M[:i] + fr), fe))
            stuck |= rest & ~con & ~emp
            rest = emp
            if not rest: break
        r = self.step_c[k] = (out, rest, stuck)
        return r

    def stepy(self, M, d, y):
        """-> [(environments, machine after y, context of y)]"""
        out, rest = [], d
        for i in range(len(M) - 1, -1, -1):
            nt, q, ctx = M[i]
            con, emp = self.first(nt, q, ctx, rest)
            emp &= ~con
            if con:
                for m, fr, cy, fe in self.consy(nt, q, ctx, con, y): out.append((m, self.tidy(M[:i] + fr), cy, fe))
            rest = emp
            if not rest: break
        return out

    def product(self, M, d, y, ctx):
        """the nonterminal y in place of what the top frame expects: the top frame's states after y, when each of y's
        transitions has its like there"""
        nt, q0, c0 = M[-1]
        Y = self.g.nts[y]
        N = self.g.nts[nt]
        seen, todo, ends = {(0, q0)}, [(0, q0)], set()
        while todo:
            a, b = todo.pop()
            if Y.accept[a]: ends.add(b)
            for gs, sym, mods, t in Y.trans[a]:
                hit = None
                for gs2, sym2, mods2, t2 in N.trans[b]:
                    if sym2 == sym and gs2 == gs and (sym[0] != 'n' or self.sub(sym[1], ctx, mods) == self.sub(sym[1], c0, mods2)): hit = t2
                if hit is None: return None
                if (t, hit) not in seen:
                    seen.add((t, hit))
                    todo.append((t, hit))
        if len(ends) != 1: return None
        return M[:-1] + ((nt, ends.pop(), c0),)

    def subst(self, M, flag, v):
        i = FI[flag]
        return tuple((nt, q, c[:i] + (v,) + c[i + 1:] if c[i] == 2 else c) for nt, q, c in M)

    # ---- what may follow a nonterminal
    def follow(self):
        if self._follow is None:
            reach = []
            for nt, cx in G.reachable(self.g):
                c = tuple(int(dict(cx).get(f, False)) for f in FL)
                reach.append((nt, self.restrict(nt, c)))
            sl = self.env(self.slash | self.regex, self.all) & self.env(self.all, self.cls_elems[OTHER])
            fol = {k: 0 for k in reach}
            vec = {k: set() for k in reach}
            start = [k for k in reach if k[0] == self.g.start]
            for k in start: vec[k].add(0)
            edges = []
            for nt, ctx in reach:
                for q in range(len(self.g.nts[nt].trans)):
                    for gs, sym, mods, t in self.g.nts[nt].trans[q]:
                        if sym[0] != 'n': continue
                        if any(x[0] == 'flag' and bool(ctx[FI[x[1]]]) != x[2] for x in gs): continue
                        edges.append(((nt, ctx), (sym[1], self.sub(sym[1], ctx, mods)), t))
            ch = True
            while ch:
                ch = False
                for p, y, t in edges:
                    con, emp = self.first(p[0], t, p[1], self.eall)
                    emp &= ~con
                    f = fol[y] | con | (emp & fol[p])
                    if f != fol[y]: fol[y] = f; ch = True
                    for v in list(vec[p]):
                        w = (con & sl) | (emp & v)
                        if w not in vec[y]: vec[y].add(w); ch = True
            self._follow = (fol, vec)
        return self._follow

    def follow2(self):
        """(nonterminal, context) -> {what a slash may be after one more token: environments of that token}"""
        if self._follow2 is None:
            fol, vec = self.follow()
            sl = self.env(self.slash | self.regex, self.all) & self.env(self.all, self.cls_elems[OTHER])
            other = self.env(self.all, self.cls_elems[OTHER])
            edges = []
            for nt, ctx in fol:
                for q in range(len(self.g.nts[nt].trans)):
                    for gs, sym, mods, t in self.g.nts[nt].trans[q]:
                        if sym[0] != 'n': continue
                        if any(x[0] == 'flag' and bool(ctx[FI[x[1]]]) != x[2] for x in gs): continue
                        edges.append(((nt, ctx), (sym[1], self.sub(sym[1], ctx, mods)), t))
            f2 = {k: {} for k in fol}
            keep = {}
            for p, y, t in edges:
                con, emp = self.first(p[0], t, p[1], other)
                emp &= ~con
                keep.setdefault((p, y), 0)
                keep[(p, y)] |= emp
                if not con: continue
                for m, fr, fe in self.cons(p[0], t, p[1], con):
                    alts, comp, stuck = self.step(fr, sl)
                    c = 0
                    for a, _, _ in alts: c |= a
                    for v in (vec[p] if comp else {0}):
                        w = c | (comp & v)
                        f2[y][w] = f2[y].get(w, 0) | m
            ch = True
            while ch:
                ch = False
                for (p, y), emp in keep.items():
                    for w, m in f2[p].items():
                        n = f2[y].get(w, 0) | (m & emp)
                        if n != f2[y].get(w, 0):
                            f2[y][w] = n
                            ch = True
            self._follow2 = f2
        return self._follow2

    def follow2_of(self, nt, ctx):
        out = {}
        for (n, c), x in self.follow2().items():
            if n == nt and all(a == b or b == 2 for a, b in zip(c, ctx)):
                for w, m in x.items(): out[w] = out.get(w, 0) | m
        return out

    def follow_of(self, nt, ctx):
        fol, vec = self.follow()
        f, v = 0, set()
        for (n, c), x in fol.items():
            if n == nt and all(a == b or b == 2 for a, b in zip(c, ctx)):
                f |= x
                v |= vec[(n, c)]
        return f, v


if __name__ == '__main__':
    import time
    t = time.time()
    m = Mach()
    m.follow()
    print(m.ne, 'elements', time.time() - t)
