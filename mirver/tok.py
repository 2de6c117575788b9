"""Contracts of the tokenizer and their verification: T01-T11."""
import sys
from loops import *

B = z3.Function('B', z3.IntSort(), z3.IntSort())
N = z3.Int('N')
SRC = Buf('source')
FMUL = z3.Function('fmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
P10 = z3.Function('pow10', z3.IntSort(), z3.RealSort())
ISIZE = 2**63 - 1


def rng(x, a, b): return z3.And(x >= a, x <= b)
def digit(x): return rng(x, 48, 57)
def lower(x): return rng(x, 97, 122)
def upper(x): return rng(x, 65, 90)
def hexd(x): return z3.Or(digit(x), rng(x, 97, 102), rng(x, 65, 70))
def word(x): return z3.Or(lower(x), upper(x), digit(x), x == 36, x == 95)
def cont(x): return rng(x, 0x80, 0xBF)
def inside(p): return z3.And(zv(p) >= 0, zv(p) < N)
def E(c): return ord(c)


def lt3(p):
    return z3.And(B(p) == 0xE2, B(zv(p) + 1) == 0x80, z3.Or(B(zv(p) + 2) == 0xA8, B(zv(p) + 2) == 0xA9))


def is_lt(p): return z3.Or(B(p) == 10, B(p) == 13, lt3(p))


def is_blank(p):
    b = B(p)
    return z3.Or(b == 9, b == 11, b == 12, b == 32, z3.And(b == 0xC2, B(zv(p) + 1) == 0xA0),
                 z3.And(b == 0xEF, B(zv(p) + 1) == 0xBB, B(zv(p) + 2) == 0xBF))


def hexval(b): return z3.If(b <= 57, b - 48, z3.If(b >= 97, b - 87, b - 55))


class Automaton:
    def __init__(self, name, states, delta, start):
        """delta(q, p) -> list of (condition, state name), first match; start: [(position, state)]"""
        self.name, self.states, self.delta, self.start = name, states, delta, start
        self.ix = {s: i for i, s in enumerate(states)}
        self.F = z3.Function('Q' + name, z3.IntSort(), z3.IntSort())

    def at(self, p, st):
        return self.F(zv(p)) == self.ix[st]

    def step(self, p):
        """value of delta at position p from the state there"""
        q = self.F(zv(p))
        r = z3.IntVal(self.ix['DEAD'])
        for st in reversed(self.states):
            e = z3.IntVal(self.ix['DEAD'])
            for c, t in reversed(self.delta(st, zv(p))): e = z3.If(c, z3.IntVal(self.ix[t]), e) if c is not True else z3.IntVal(self.ix[t])
            r = z3.If(q == self.ix[st], e, r)
        return r

    def axioms(self, p):
        """unfolding of the definition at p"""
        q = self.F(zv(p))
        p = zv(p)
        return [z3.Implies(z3.And(inside(p), p >= self.start[0][0]), self.F(p + 1) == self.step(p)), rng(q, 0, len(self.states) - 1)]

    def reach(self, p, e):
        """lemma (by induction over the text): the state at e is reachable from the state at an earlier position p"""
        if not hasattr(self, '_reach'):
            step = {st: {t for _, t in self.delta(st, z3.Int('_p'))} | {'DEAD'} for st in self.states}
            R = {st: {st} | step[st] for st in self.states}
            while True:
                n = {st: set().union(*[R[x] for x in R[st]]) for st in self.states}
                if n == R: break
                R = n
            self._reach = R
        out = []
        for st in self.states:
            no = [x for x in self.states if x not in self._reach[st]]
            if no: out.append(z3.Implies(self.F(zv(p)) == self.ix[st], z3.And(*[self.F(zv(e)) != self.ix[x] for x in no])))
        return z3.Implies(z3.And(zv(p) >= self.start[0][0], zv(p) <= zv(e), zv(e) <= N), z3.And(*out))

    def start_axioms(self):
        return [self.F(zv(p)) == self.ix[s] for p, s in self.start]


def auto_string(quote):
    def body(p):
        b = B(p)
        return [(b == quote, 'DONE'), (b == E('\\'), 'ESC'), (is_lt(p), 'REJ'), (True, 'BODY')]

    def d(st, p):
        b = B(p)
        if st == 'BODY': return body(p)
        if st == 'ESC':
            return [(b == 13, 'ESCCR'), (b == 10, 'BODY'), (lt3(p), 'BODY'), (b == E('x'), 'X0'), (b == E('u'), 'U0'), (b == E('0'), 'Z'),
                    (rng(b, 49, 57), 'REJ'), (True, 'BODY')]
        if st == 'ESCCR': return [(b == 10, 'BODY')] + body(p)
        if st == 'Z': return [(digit(b), 'REJ')] + body(p)
        if st == 'X0': return [(hexd(b), 'X1'), (True, 'REJ')]
        if st == 'X1': return [(hexd(b), 'BODY'), (True, 'REJ')]
        if st == 'U0': return [(b == E('{'), 'L0'), (hexd(b), 'U1'), (True, 'REJ')]
        if st in ('U1', 'U2', 'U3'): return [(hexd(b), {'U1': 'U2', 'U2': 'U3', 'U3': 'BODY'}[st]), (True, 'REJ')]
        if st == 'L0': return [(hexd(b), 'L1'), (True, 'REJ')]
        if st == 'L1': return [(hexd(b), 'L1'), (b == E('}'), 'BODY'), (True, 'REJ')]
        if st == 'REJ': return [(True, 'REJ')]
        return []
    return Automaton('str', ['BODY', 'ESC', 'ESCCR', 'Z', 'X0', 'X1', 'U0', 'U1', 'U2', 'U3', 'L0', 'L1', 'DONE', 'REJ', 'DEAD'], d, [(1, 'BODY')])


def auto_template():
    def body(p):
        b = B(p)
        return [(b == E('\\'), 'ESC'), (b == E('`'), 'TICK'), (b == E('$'), 'DOL'), (True, 'BODY')]

    def d(st, p):
        if st == 'BODY': return body(p)
        if st == 'DOL': return [(B(p) == E('{'), 'BRACE')] + body(p)
        if st == 'ESC': return [(True, 'BODY')]
        return []
    return Automaton('tmpl', ['BODY', 'ESC', 'DOL', 'TICK', 'BRACE', 'DEAD'], d, [(1, 'BODY')])


def auto_regex():
    def d(st, p):
        b = B(p)
        if st == 'REJ': return [(True, 'REJ')]
        if st == 'FL': return [(lower(b), 'FL')]
        if st == 'DEAD': return []
        r = [(is_lt(p), 'REJ')]
        if st == 'BODY': return r + [(b == E('\\'), 'ESC'), (b == E('['), 'CLS'), (b == E('/'), 'FL'), (True, 'BODY')]
        if st == 'CLS': return r + [(b == E('\\'), 'CESC'), (b == E(']'), 'BODY'), (True, 'CLS')]
        if st == 'ESC': return r + [(True, 'BODY')]
        if st == 'CESC': return r + [(True, 'CLS')]
    return Automaton('regex', ['BODY', 'CLS', 'ESC', 'CESC', 'FL', 'REJ', 'DEAD'], d, [(1, 'BODY')])


def auto_line():
    def d(st, p): return [(is_lt(p), 'DEAD'), (True, 'BODY')] if st == 'BODY' else []
    return Automaton('line', ['BODY', 'DEAD'], d, [(2, 'BODY')])


def auto_block():
    def d(st, p):
        b = B(p)
        if st == 'BODY': return [(b == E('*'), 'STAR'), (True, 'BODY')]
        if st == 'STAR': return [(b == E('/'), 'DONE'), (b == E('*'), 'STAR'), (True, 'BODY')]
        return []
    return Automaton('block', ['BODY', 'STAR', 'DONE', 'DEAD'], d, [(2, 'BODY')])


def auto_name():
    def d(st, p): return [(word(B(p)), 'IN')] if st == 'IN' else []
    return Automaton('name', ['IN', 'DEAD'], d, [(0, 'IN')])


def auto_number():
    def elook(p):
        b, b1, b2 = B(p), B(p + 1), B(p + 2)
        return z3.And(z3.Or(b == E('e'), b == E('E')), z3.Or(digit(b1), z3.And(z3.Or(b1 == E('+'), b1 == E('-')), digit(b2))))

    def d(st, p):
        b, b1 = B(p), B(p + 1)
        x = lambda *cs: z3.Or(*[b == E(c) for c in cs])
        if st == 'S':
            pre = z3.Or(*[b1 == E(c) for c in 'xXoObB'])
            return [(z3.And(b == 48, pre), 'PX'), (b == 48, 'ZERO'), (digit(b), 'INT'), (b == E('.'), 'DOT1')]
        if st == 'PX': return [(x('x', 'X'), 'X0'), (x('o', 'O'), 'O0'), (x('b', 'B'), 'B0')]
        if st == 'X0': return [(hexd(b), 'X1'), (True, 'REJ')]
        if st == 'X1': return [(hexd(b), 'X1')]
        if st == 'O0': return [(rng(b, 48, 55), 'O1'), (True, 'REJ')]
        if st == 'O1': return [(rng(b, 48, 55), 'O1'), (digit(b), 'REJ')]
        if st == 'B0': return [(rng(b, 48, 49), 'B1'), (True, 'REJ')]
        if st == 'B1': return [(rng(b, 48, 49), 'B1'), (digit(b), 'REJ')]
        if st == 'ZERO': return [(b == E('.'), 'DOT'), (elook(p), 'E')]
        if st == 'INT': return [(digit(b), 'INT'), (b == E('.'), 'DOT'), (elook(p), 'E')]
        if st in ('DOT', 'FR'): return [(digit(b), 'FR'), (elook(p), 'E')]
        if st == 'DOT1': return [(digit(b), 'FR')]
        if st == 'E': return [(z3.Or(b == E('+'), b == E('-')), 'ES'), (digit(b), 'EX')]
        if st in ('ES', 'EX'): return [(digit(b), 'EX')]
        if st == 'REJ': return [(True, 'REJ')]
        return []
    return Automaton('num', ['S', 'PX', 'X0', 'X1', 'O0', 'O1', 'B0', 'B1', 'ZERO', 'INT', 'DOT', 'FR', 'DOT1', 'E', 'ES', 'EX', 'REJ', 'DEAD'], d, [(0, 'S')])


ACC = ['X1', 'O1', 'B1', 'ZERO', 'INT', 'DOT', 'FR', 'EX']


def auto_blank(p0):
    def d(st, p):
        b = B(p)
        if st == 'RUN':
            return [(z3.Or(b == 9, b == 11, b == 12, b == 32), 'RUN'), (z3.And(b == 0xC2, B(p + 1) == 0xA0), 'C1'),
                    (z3.And(b == 0xEF, B(p + 1) == 0xBB, B(p + 2) == 0xBF), 'F1')]
        if st == 'C1': return [(True, 'RUN')]
        if st == 'F1': return [(True, 'F2')]
        if st == 'F2': return [(True, 'RUN')]
        return []
    return Automaton('blank', ['RUN', 'C1', 'F1', 'F2', 'DEAD'], d, [(p0, 'RUN')])


def auto_cr():
    def d(st, p): return [(B(p) == 13, 'CR'), (True, 'NO')]
    return Automaton('cr', ['NO', 'CR', 'DEAD'], d, [(0, 'NO')])


def real_of(i): return z3.ToReal(i)


class TokEngine(LoopEngine):
    """One verification run: a function, its precondition and its specification."""

    def __init__(self, prog, **kw):
        LoopEngine.__init__(self, prog, **kw)
        self.autos = []
        self.regs = []       # (name, F, sort, axiom(p) list)
        self.contracts = {}
        self.stop_tag = 'T11'
        self.diag = None
        self.reached = {'return': 0, 'panic': 0}

    # ---- specification state
    def automata(self):
        return [(a.name, lambda p, a=a: a.F(zv(p)), len(a.states)) for a in self.autos]

    def registers(self):
        return [(n, lambda p, F=F: F(zv(p)), sort) for n, F, sort, _ in self.regs]

    def utf8(self, p):
        p = zv(p)
        out = []
        r = lambda q: z3.If(inside(q), rng(B(q), 0, 255), B(q) == -1)
        b, b1, b2, b3, bm = B(p), B(p + 1), B(p + 2), B(p + 3), B(p - 1)
        out += [r(p), r(p + 1), r(p + 2), r(p + 3), r(p - 1)]
        out.append(z3.And(b != 0xC0, b != 0xC1, b < 0xF5))
        out.append(z3.Implies(cont(b), bm >= 0x80))
        out.append(z3.Implies(rng(b, 0xC2, 0xDF), z3.And(cont(b1), z3.Not(cont(b2)))))
        out.append(z3.Implies(rng(b, 0xE0, 0xEF), z3.And(cont(b1), cont(b2), z3.Not(cont(b3)))))
        out.append(z3.Implies(rng(b, 0xF0, 0xF4), z3.And(cont(b1), cont(b2), cont(b3), z3.Not(cont(B(p + 4))))))
        out.append(z3.Implies(rng(b, 0, 0x7F), z3.Not(cont(b1))))
        out.append(z3.Implies(p == 0, z3.Not(cont(b))))
        # a three-byte character is recognised at its lead byte only
        out.append(z3.Implies(z3.And(rng(bm, 0, 0x7F)), z3.Not(cont(b))))
        return z3.And(*out)

    def see(self, s, p):
        p = simp(zv(p)) if is_z3(p) else p
        k = str(p)
        if k in s.known: return
        s.known.add(k)
        self.assume(s, self.utf8(p))
        for a in self.autos:
            for x in a.axioms(p): self.assume(s, x)
        for n, F, sort, ax in self.regs:
            for x in ax(zv(p)): self.assume(s, x)

    def src_byte(self, s, p):
        p = simp(zv(p)) if is_z3(p) else p
        self.see(s, p)
        return B(zv(p))

    def position_ok(self, s, p):
        return self.valid(s, z3.And(zv(p) >= 0, zv(p) <= N))

    def text_end(self):
        return N

    def reach_facts(self, p, e):
        return [a.reach(q, e) for a in self.autos for q in (p, add(p, 1))]

    def position_cond(self, p):
        return z3.And(zv(p) >= 0, zv(p) <= N)

    def is_boundary(self, p):
        return z3.Not(cont(B(zv(p))))

    def boundary(self, s, st, i):
        if st.buf.data is not None: return True
        p = add(st.off, i)
        self.see(s, p)
        return z3.Not(cont(B(zv(p))))

    def decode(self, s, buf, off, end):
        if buf.data is not None: return StdEngine.decode(self, s, buf, off, end)
        self.see(s, off)
        b = B(zv(off))
        out = []
        for w, c in ((1, z3.And(b >= 0, b < 0x80)), (2, rng(b, 0xC2, 0xDF)), (3, rng(b, 0xE0, 0xEF)), (4, rng(b, 0xF0, 0xF4))):
            if not self.feasible(s, c): continue
            t = s.fork()
            self.assume(t, c)
            # a well-formed text: the character's bytes lie inside, and the next one starts a character
            self.assume(t, z3.And(zv(off) + w <= N))
            for k in range(1, w + 1): self.see(t, add(off, k))
            if w == 1: ch = b
            else:
                ch = self.fresh('char')
                lo, hi = {2: (0x80, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, 0x10FFFF)}[w]
                self.assume(t, rng(ch, lo, hi))
                p = zv(off)
                if w == 2: self.assume(t, (ch == 0xA0) == z3.And(b == 0xC2, B(p + 1) == 0xA0))
                if w == 3:
                    for cp in (0x2028, 0x2029, 0xFEFF):
                        e = chr(cp).encode('utf8')
                        self.assume(t, (ch == cp) == z3.And(b == e[0], B(p + 1) == e[1], B(p + 2) == e[2]))
            if not self.valid(t, zv(off) + w <= zv(end)):
                raise Unsupported('a view that may end inside a character')
            out.append((t, ch, w))
        return out

    def powi(self, s, a, b):
        if isinstance(a, Fraction) and a == 10: return P10(zv(b))
        raise Unsupported('powi')

    def binop(self, s, op, a, b, dest):
        r = self.binop0(s, op, a, b, dest)
        if op in ('Add', 'Sub', 'Mul') and is_float(r) and is_z3(r) and self.regs and self.regs[0][0] == 'VAL': self.exact(s, a, b, r)
        return r

    def integral(self, s, v):
        """is the real term v an integer (VAL is one everywhere: it only ever multiplies and adds integers)?"""
        if not is_z3(v): return Fraction(v).denominator == 1
        if z3.is_rational_value(v): return v.denominator_as_long() == 1
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return True
        if z3.is_add(v) or z3.is_mul(v) or z3.is_sub(v): return all(self.integral(s, x) for x in v.children())
        if z3.is_app_of(v, z3.Z3_OP_ITE): return self.integral(s, v.arg(1)) and self.integral(s, v.arg(2))
        if v.decl().name() == 'VAL': return True
        return self.valid(s, z3.Or(*[v == self.regs[0][1](zv(q)) for q in self.near(s)]))

    def near(self, s):
        out = {}
        for k in s.known:
            p = self.terms.get(k)
            if p is None: continue
            out[k] = p
            q = simp(zv(add(p, 1)))
            out[str(q)] = q
        return list(out.values())

    terms = {}

    def exact(self, s, a, b, r):
        """an operation on f64: where the literal is an integer of at most 2^53, nothing is rounded.  Every intermediate value is an integer between
        0 and VAL(q) for a position q, and VAL never decreases (run_cover), so it is at most the value of the whole literal.
        Not an obligation: where this argument does not apply, exactness is left assumed, and reported as such."""
        A, VAL = self.autos[0], self.regs[0][1]
        ps = self.near(s)
        if not ps: return
        frac = [q for q in ('DOT', 'DOT1', 'FR', 'E', 'ES', 'EX', 'REJ') if q in A.ix]
        if self.valid(s, z3.Or(*[A.at(p, q) for p in ps for q in frac])): return       # not an integer literal
        ok = self.integral(s, r) and self.valid(s, z3.And(r >= 0, z3.Or(*[z3.And(inside(zv(sub(q, 1))), r <= VAL(zv(q))) for q in ps] + [r <= 15])))
        self.obls.append(Obl('T09', s.frames[0].fn.path, 'no rounding in an integer literal up to 2^53', 'ok' if ok else 'assumed', str(r)[:200]))

    def binop0(self, s, op, a, b, dest):
        if op == 'Mul' and (is_float(a) or is_float(b)) and is_z3(a) and is_z3(b):
            for x, y in ((a, b), (b, a)):
                if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
                    i = x.arg(0)
                    if self.valid(s, rng(i, 0, 15)):
                        r = y * 15
                        for k in reversed(range(15)): r = z3.If(i == k, y * k, r)
                        return r
            return self.fmul(s, a, b)
        return LoopEngine.binop(self, s, op, a, b, dest)

    def fmul(self, s, a, b):
        a, b = zv(a), zv(b)
        r = FMUL(a, b)
        self.assume(s, z3.And(z3.Implies(a == 0, r == 0), z3.Implies(b == 0, r == 0), z3.Implies(b == 1, r == a), z3.Implies(a == 1, r == b), FMUL(b, a) == r))
        return r

    def pos_facts(self):
        r = [('mid', lambda p: z3.Not(mid(p)))] if any(n == 'LINE' for n, *_ in self.regs) else []
        if any(a.name == 'str' for a in self.autos): r.append(('nodigit', lambda p: z3.Not(digit(B(zv(p))))))
        return r

    # ---- panics
    def on_panic(self, s, kind, msg):
        if 'unreachable code' in msg or 'assertion' in msg: kind = 'unreachable'
        if kind == 'panic' and self.diag is not None:
            self.reached['panic'] += 1
            tag, cond = self.diag(s)
            if cond is None:
                self.prove(s, False, tag, 'no diagnostic where the text is well formed (%s)' % clean(msg))
            else:
                self.prove(s, cond, tag, 'diagnostic only where the specification rejects (%s)' % clean(msg))
            return
        self.prove(s, False, 'T11', '%s cannot happen (%s)' % ({'assert': 'arithmetic or index failure', 'callee': 'panic in a library call', 'unreachable': 'reaching unreachable code', 'panic': 'a panic here'}[kind], clean(msg)))

    def contract(self, s, key, fn, args):
        if fn is not None and fn.path in self.contracts: return self.contracts[fn.path](s, args)
        return None

    def count(self, s):
        """vacuity guard: a return that is really reachable under the assumptions"""
        if self.check(s) == 'sat': self.reached['return'] += 1


def clean(m):
    m = re.sub(r'\s+', ' ', m.replace('fmt:', ''))
    return m[:80]


# ------------------------------------------------------------------ read_next, one run per category of first characters

PUNCT_NAMES = {
    'CurlyOpen': '{', 'CurlyClose': '}', 'ParenOpen': '(', 'ParenClose': ')', 'SquareOpen': '[', 'SquareClose': ']', 'Period': '.', 'Ellipsis': '...',
    'Semicolon': ';', 'Comma': ',', 'Question': '?', 'Colon': ':', 'Tilde': '~', 'LAngle': '<', 'LAngleEq': '<=', 'LAngleAngle': '<<', 'LAngleAngleEq': '<<=',
    'RAngle': '>', 'RAngleEq': '>=', 'RAngleAngle': '>>', 'RAngleAngleEq': '>>=', 'RAngleAngleAngle': '>>>', 'RAngleAngleAngleEq': '>>>=', 'Eq': '=',
    'Arrow': '=>', 'EqEq': '==', 'EqEqEq': '===', 'Exclam': '!', 'ExclamEq': '!=', 'ExclamEqEq': '!==', 'Plus': '+', 'PlusEq': '+=', 'PlusPlus': '++',
    'Minus': '-', 'MinusEq': '-=', 'MinusMinus': '--', 'Slash': '/', 'SlashEq': '/=', 'Percent': '%', 'PercentEq': '%=', 'Star': '*', 'StarEq': '*=',
    'StarStar': '**', 'StarStarEq': '**=', 'Amp': '&', 'AmpEq': '&=', 'AmpAmp': '&&', 'Bar': '|', 'BarEq': '|=', 'BarBar': '||', 'Caret': '^', 'CaretEq': '^=',
}
PUNCT_FIRST = sorted({v[0] for v in PUNCT_NAMES.values()} - {'/', '}'})


def prefix(w):
    return z3.And(*[B(i) == E(c) for i, c in enumerate(w)])


def first(*cs): return z3.Or(*[B(0) == E(c) for c in cs])


PUNCT_START = z3.And(first(*PUNCT_FIRST), z3.Not(z3.And(B(0) == E('.'), digit(B(1)))))
HT, HX, HS = z3.Bool('hint_template'), z3.Bool('hint_expression'), z3.Bool('hint_strict')
COMMENT1 = z3.And(B(0) == E('/'), z3.Or(B(1) == E('/'), B(1) == E('*')))


def categories():
    c = {}
    c['eof'] = ('T02', N == 0, None)
    c['lt'] = ('T03', is_lt(0), None)
    for i, ch in enumerate([['.', '?', ':', '~', ',', ';', '(', ')', '[', ']', '{'], ['<', '>', '='], ['!', '+', '-', '&', '|'], ['^', '%', '*']]):
        c['punct%d' % i] = ('T04', z3.And(first(*ch), PUNCT_START), None)
    c['curly'] = ('T04', z3.And(B(0) == E('}'), z3.Not(HT)), None)
    c['line'] = ('T05', z3.And(B(0) == E('/'), B(1) == E('/')), auto_line)
    c['block'] = ('T05', z3.And(B(0) == E('/'), B(1) == E('*')), auto_block)
    c['dq'] = ('T06', B(0) == 34, lambda: auto_string(34))
    c['sq'] = ('T06', B(0) == 39, lambda: auto_string(39))
    c['tick'] = ('T07', B(0) == E('`'), auto_template)
    c['cont'] = ('T07', z3.And(B(0) == E('}'), HT), auto_template)
    c['regex'] = ('T08', z3.And(B(0) == E('/'), z3.Not(COMMENT1), HX), auto_regex)
    c['div'] = ('T08', z3.And(B(0) == E('/'), z3.Not(COMMENT1), z3.Not(HX)), None)
    c['radix'] = ('T09', z3.And(B(0) == 48, z3.Or(*[B(1) == E(x) for x in 'xXoObB'])), auto_number)
    c['zero'] = ('T09', z3.And(B(0) == 48, z3.Not(z3.Or(*[B(1) == E(x) for x in 'xXoObB']))), auto_number)
    c['dec'] = ('T09', z3.And(digit(B(0)), B(0) != 48), auto_number)
    c['frac'] = ('T09', z3.And(B(0) == E('.'), digit(B(1))), auto_number)
    c['name'] = ('T10', word_start(), auto_name)
    c['other'] = ('T10', z3.And(N > 0, z3.Not(z3.Or(*[x for _, x, _ in c.values()])), z3.Not(is_blank(0))), None)
    return c


def word_start():
    return z3.And(word(B(0)), z3.Not(digit(B(0))))


def tok_variant(v, var, inner=None):
    """the payload struct's fields by name, when v is Token::var(payload)"""
    return isinstance(v, Enum) and v.name == 'Token' and v.var == var


class Post:
    """what a token must be, category by category"""

    def __init__(self, eng, cat, tag):
        self.eng, self.cat, self.tag = eng, cat, tag

    def fields(self, v):
        a = v.vals[0]
        names = None
        for fs in self.eng.prog.types.structs.get(a.name, []):
            if len(fs) == len(a.vals): names = fs
        if names is None: raise Unsupported('fields of ' + str(a.name))
        return dict(zip(names, a.vals))

    def text(self, s, v, a, b):
        """the string v is exactly the source from a to b"""
        e = self.eng
        w = e.as_str(s, v)
        if w.buf is not SRC:
            return band(w.n == 0, eq(sub(b, a), 0))
        return band(eq(w.n, sub(b, a)), bor(eq(w.off, a), eq(w.n, 0)))

    def check(self, s, tok, size):
        e, tag, cat = self.eng, self.tag, self.cat
        A = e.autos[0] if e.autos else None
        end = size
        e.see(s, end)
        e.see(s, sub(end, 1))
        P = lambda c, what, t=tag: e.prove(s, c, t, what)
        # what holds of every token
        P(z3.And(zv(size) >= 0, zv(size) <= N), 'the token lies inside the text', 'T01')
        P(z3.Not(cont(B(zv(size)))), 'the token ends on a character boundary', 'T01')
        P(z3.Not(z3.And(zv(size) >= 1, B(zv(size) - 1) == 13, B(zv(size)) == 10)) , 'the token does not end inside a CRLF pair', 'T03')
        if cat != 'eof': P(bnot(eq(size, 0)), 'a token other than end-of-file is not empty', 'T02')
        if not isinstance(tok, Enum): raise Unsupported('token %r' % (tok,))
        if cat != 'eof' and tok.var == 'EOF': P(False, 'end-of-file only at the end', 'T02')
        kinds = {'eof': 'EOF', 'lt': 'LineTerminator', 'line': 'Comment', 'block': 'Comment', 'dq': 'StringLiteral', 'sq': 'StringLiteral', 'tick': 'Template',
                 'cont': 'Template', 'regex': 'RegularExpressionLiteral', 'radix': 'NumericLiteral', 'zero': 'NumericLiteral', 'dec': 'NumericLiteral',
                 'frac': 'NumericLiteral', 'name': 'IdentifierName', 'div': 'Punctuator', 'curly': 'Punctuator'}
        want = kinds.get(cat, 'Punctuator' if cat.startswith('punct') else None)
        if want is None:
            P(False, 'a character that starts no token is diagnosed')
            return
        if tok.var != want:
            P(False, 'kind of token: %s, not %s' % (want, tok.var))
            return
        if cat == 'eof': P(eq(size, 0), 'end-of-file is empty')
        elif cat == 'lt':
            P(zv(size) == z3.If(B(0) == 0xE2, 3, z3.If(z3.And(B(0) == 13, B(1) == 10), 2, 1)), 'extent of a line terminator (CRLF is one)')
        elif want == 'Punctuator':
            k = tok.vals[0]
            if isinstance(k, Enum): k = k.var
            else: raise Unsupported('punctuator %r' % (k,))
            w = PUNCT_NAMES.get(k)
            if w is None:
                P(False, 'punctuator kind %s' % k)
                return
            P(prefix(w), 'the text starts with the spelling of %s' % k)
            P(eq(size, len(w)), 'length of %s' % k)
            for x in PUNCT_NAMES.values():
                if len(x) > len(w) and x.startswith(w): P(z3.Not(prefix(x)), 'no longer punctuator than %s' % k)
        elif want == 'Comment':
            f = self.fields(tok)
            fm = f['format'].var if isinstance(f['format'], Enum) else None
            if cat == 'line':
                P(band(A.at(end, 'BODY'), bor(eq(end, N), is_lt(end))), 'a line comment extends to the line terminator or the end')
                P(self.text(s, f['value'], 2, end), 'text of a line comment')
                P(fm == 'Line', 'format of a line comment')
            else:
                P(A.at(end, 'DONE'), 'a block comment extends to the first closing delimiter')
                P(self.text(s, f['value'], 2, sub(end, 2)), 'text of a block comment')
                P(fm == 'Block', 'format of a block comment')
        elif want == 'StringLiteral':
            f = self.fields(tok)
            P(A.at(end, 'DONE'), 'a string ends at its first matching unescaped quote')
            P(self.text(s, f['value'], 1, sub(end, 1)), 'text of a string')
        elif want == 'Template':
            f = self.fields(tok)
            fm = f['format'].var
            tick = fm in ('NoSubstitution', 'Tail')
            P(A.at(end, 'TICK' if tick else 'BRACE'), 'a template chunk ends at the first unescaped backtick or dollar-brace')
            P(fm in (('NoSubstitution', 'Head') if cat == 'tick' else ('Middle', 'Tail')), 'kind of a template chunk by its opening')
            for n in ('raw', 'cooked'): P(self.text(s, f[n], 1, sub(end, 1 if tick else 2)), '%s text of a template chunk' % n)
        elif want == 'RegularExpressionLiteral':
            f = self.fields(tok)
            w = e.as_str(s, f['pattern'])
            c = add(w.off, w.n)
            e.see(s, c)
            P(band(A.at(end, 'FL'), bnot(lower(B(zv(end))))), 'a regular expression extends over its maximal flags')
            P(band(z3.Or(A.at(c, 'BODY')), B(zv(c)) == E('/'), A.at(add(c, 1), 'FL')), 'the body ends at the first slash outside of escapes and classes')
            P(self.text(s, f['pattern'], 1, c), 'text of the pattern')
            P(self.text(s, f['flags'], add(c, 1), end), 'text of the flags')
        elif want == 'NumericLiteral':
            f = self.fields(tok)
            P(band(bor(*[A.at(end, q) for q in ACC]), z3.Or(zv(end) == N, A.step(end) == A.ix['DEAD'])), 'a number extends as far as possible')
            VAL, FR, SC, EX, SG = [r[1] for r in e.regs]
            m = VAL(zv(end)) + FR(zv(end))
            ex = EX(zv(end))
            pw = e.fmul(s, m, P10(z3.If(SG(zv(end)) == 1, ex, -ex)))
            val = f['value']
            hasexp = A.at(end, 'EX')
            P(z3.Implies(z3.Not(hasexp), zv(val) == m), 'value of a number without exponent')
            P(z3.Implies(z3.And(hasexp, ex <= IMAX32), zv(val) == pw), 'value of a number with exponent')
        elif want == 'IdentifierName':
            f = self.fields(tok)
            P(band(A.at(end, 'IN'), bnot(word(B(zv(end))))), 'an identifier name is maximal')
            P(self.text(s, f['name'], 0, end), 'text of an identifier name')


def number_regs(A):
    I, R = z3.IntSort(), z3.RealSort()
    VAL, FR, SC = (z3.Function(n, I, R) for n in ('VAL', 'FRAC', 'SCALE'))
    EX, SG = z3.Function('EXP', I, I), z3.Function('SIGN', I, I)
    at = lambda p, *st: z3.Or(*[A.F(p) == A.ix[x] for x in st])

    def dig(y, d, top):
        r = y * top
        for k in reversed(range(top)): r = z3.If(d == k, y * k, r)
        return r

    def ax(p):
        b, n = B(p), p + 1
        d = hexval(b)
        rd = z3.ToReal(d)
        isd = digit(b)
        out = [z3.Implies(inside(p), z3.And(
            VAL(n) == z3.If(z3.And(at(p, 'S', 'INT'), isd), VAL(p) * 10 + rd,
                            z3.If(z3.And(at(p, 'X0', 'X1'), hexd(b)), VAL(p) * 16 + rd,
                                  z3.If(z3.And(at(p, 'O0', 'O1'), rng(b, 48, 55)), VAL(p) * 8 + rd,
                                        z3.If(z3.And(at(p, 'B0', 'B1'), rng(b, 48, 49)), VAL(p) * 2 + rd, VAL(p))))),
            z3.Implies(z3.And(at(p, 'DOT', 'DOT1', 'FR'), isd), z3.And(FR(n) == FR(p) + dig(SC(p), d, 9), SC(n) == SC(p) / 10)),
            z3.Implies(z3.Not(z3.And(at(p, 'DOT', 'DOT1', 'FR'), isd)), z3.And(FR(n) == FR(p), SC(n) == SC(p))),
            EX(n) == z3.If(z3.And(at(p, 'E', 'ES', 'EX'), isd), EX(p) * 10 + d, EX(p)),
            SG(n) == z3.If(z3.And(at(p, 'E'), b == E('-')), -1, SG(p))))]
        # the state of the number fixes what has not been read yet
        out.append(z3.Implies(at(p, 'S', 'PX', 'X0', 'O0', 'B0', 'DOT1'), VAL(p) == 0))
        out.append(z3.Implies(at(p, 'S', 'PX', 'X0', 'X1', 'O0', 'O1', 'B0', 'B1', 'ZERO', 'INT', 'DOT', 'DOT1'), z3.And(FR(p) == 0, SC(p) == z3.Q(1, 10))))
        out.append(z3.Implies(z3.Not(at(p, 'EX', 'ES', 'REJ', 'DEAD')), z3.And(EX(p) == 0, SG(p) == 1)))
        out.append(z3.Implies(at(p, 'ES'), EX(p) == 0))
        out.append(z3.Implies(at(p, 'ZERO'), VAL(p) == 0))
        out.append(z3.And(EX(p) >= 0, z3.Or(SG(p) == 1, SG(p) == -1), VAL(p) >= 0, FR(p) >= 0, SC(p) > 0))
        return out
    return [('VAL', VAL, 'real', ax), ('FRAC', FR, 'real', lambda p: []), ('SCALE', SC, 'real', lambda p: []), ('EXP', EX, 'int', lambda p: []), ('SIGN', SG, 'int', lambda p: [])]


def find_by_sig(prog, name, pred):
    fs = [f for p, f in prog.fns.items() if p.split('::')[-1] == name and 'tokenizer' in p]
    if len(fs) == 1: return fs[0]
    fs = [f for p, f in prog.fns.items() if 'tokenizer' in p and pred(f)]
    return fs[0] if len(fs) == 1 else None


def sig(f): return [last_seg(f.locals[a]) for a in f.args], last_seg(f.ret)


def anchors(prog):
    a = {}
    a['read_next'] = find_by_sig(prog, 'read_next', lambda f: sig(f) == (['&str', '&Hint', '&Token'], 'usize'))
    a['eat_whitespace'] = find_by_sig(prog, 'eat_whitespace', lambda f: sig(f)[0] == ['&str', '&Position'])
    a['increment_position'] = find_by_sig(prog, 'increment_position', lambda f: sig(f)[0] == ['&str', 'usize', '&Position'])
    nt = [f for k, fs in prog.by_key.items() for f in fs if isinstance(k, tuple) and k[1] == 'Tokenizer' and k[2] == 'next_token']
    a['next_token'] = nt[0] if len(nt) == 1 else None
    it = [f for k, fs in prog.by_key.items() for f in fs if isinstance(k, tuple) and k[1] == 'IntoTokenizer' and k[2] == 'into_tokenizer' and 'str' in k[0]]
    a['into_tokenizer'] = it[0] if len(it) == 1 else None
    return a


def start(eng, fn, argvals, pre):
    s = State()
    fr = Frame(fn, fn.path.split('::')[-1] + '#0', 'bb0', 0, None, None)
    s.frames.append(fr)
    for a, v in zip(fn.args, argvals): s.mem[(fr.id, a)] = v
    s.ghost = {'at': None}
    for c in pre: eng.assume(s, c)
    return s


def run_category(prog, cat, budget):
    eng = TokEngine(prog)
    eng.deadline = time.time() + budget
    tag, cond, mk = categories()[cat]
    fn = anchors(prog)['read_next']
    if fn is None: raise Unsupported('read_next not found')
    A = mk() if mk else None
    if A:
        eng.autos = [A]
        if A.name == 'num': eng.regs = number_regs(A)
    hint = struct_value(prog, 'Hint', {'expression': HX, 'template': HT, 'strict': HS})
    pre = [z3.And(N >= 0, N <= ISIZE), cond] + (A.start_axioms() if A else [])
    s = start(eng, fn, [Str(SRC, 0, N), ValRef(hint), Ref('token')], pre)
    s.mem['token'] = Opaque('previous token')
    for p in (0, 1): eng.see(s, p)
    post = Post(eng, cat, tag)

    def diag(st):
        if A is None:
            return tag, (z3.BoolVal(True) if cat == 'other' else None)
        if cat == 'name': return tag, None
        rej = []
        ps = {}
        for k in st.known:
            p = eng.terms[k]
            ps[k] = p
            n = simp(zv(add(p, 1)))
            ps[str(n)] = n
        for p in ps.values():
            if 'REJ' in A.ix: rej.append(z3.And(zv(p) >= 0, zv(p) <= N, A.at(p, 'REJ')))
            live = [q for q in A.states if q not in ('DONE', 'DEAD', 'TICK', 'BRACE', 'FL') and not (A.name == 'num' and q in ACC)]
            if A.name != 'line': rej.append(z3.And(zv(p) == N, z3.Or(*[A.at(p, q) for q in live])))
        return tag, bor(*rej) if rej else None
    eng.diag = diag
    eng.terms = {}
    old_see = eng.see

    def see(st, p):
        p = simp(zv(p)) if is_z3(p) else p
        eng.terms[str(p)] = p
        q = simp(zv(add(p, 1)))
        eng.terms.setdefault(str(q), q)
        old_see(st, p)
    eng.see = see
    # positions after a seen one count as well
    def on_return(st, val):
        eng.count(st)
        tok = st.mem['token']
        post.check(st, tok, val)
    eng.on_return = on_return
    for k in list(s.known): eng.terms[k] = int(k)
    eng.run(s)
    if not eng.reached['return'] and not eng.reached['panic']: raise Unsupported('no path of read_next was reached for category ' + cat)
    return eng


def struct_value(prog, name, vals):
    for fs in prog.types.structs.get(name, []):
        if set(fs) == set(vals): return Agg(name, [vals[f] for f in fs])
    raise Unsupported('fields of struct %s' % name)


# ------------------------------------------------------------------ the other contracts

LINE = z3.Function('LINE', z3.IntSort(), z3.IntSort())
COL = z3.Function('COL', z3.IntSort(), z3.IntSort())


def line_regs():
    def ax(p):
        b, bm = B(p), B(p - 1)
        lead = z3.Not(cont(b))
        nl = z3.Or(b == 13, z3.And(b == 10, bm != 13), lt3(p))
        zero = z3.Or(b == 13, b == 10, lt3(p))
        return [z3.Implies(inside(p), z3.And(LINE(p + 1) == z3.If(nl, LINE(p) + 1, LINE(p)),
                                             COL(p + 1) == z3.If(zero, 0, z3.If(lead, COL(p) + 1, COL(p)))))]
    return [('LINE', LINE, 'int', ax), ('COL', COL, 'int', lambda p: [])]


def mid(p):
    """between CR and LF"""
    return z3.And(zv(p) >= 1, B(zv(p) - 1) == 13, B(zv(p)) == 10)


def base_pre(p0):
    return [z3.And(N >= 0, N <= ISIZE, p0 >= 0, p0 <= N), z3.Not(cont(B(p0))), z3.Not(mid(p0))]


def pos_value(prog, off, line, col):
    return struct_value(prog, 'Position', {'offset': off, 'line': line, 'column': col})


def pos_get(prog, v):
    fs = prog.types.structs['Position'][0]
    d = dict(zip(fs, v.vals))
    return d['offset'], d['line'], d['column']


def run_eat(prog, budget):
    fn = anchors(prog)['eat_whitespace']
    if fn is None: raise Unsupported('eat_whitespace not found')
    eng = TokEngine(prog)
    eng.deadline = time.time() + budget
    p0, l0, c0 = z3.Ints('p0 l0 c0')
    A = auto_blank(p0)
    eng.autos, eng.regs = [A], line_regs()
    pre = base_pre(p0) + A.start_axioms() + [l0 == LINE(p0), c0 == COL(p0), c0 >= 0, c0 <= p0, l0 >= 1, l0 <= p0 + 1]
    s = start(eng, fn, [Str(SRC, 0, N), Ref('pos')], pre)
    s.mem['pos'] = pos_value(prog, p0, l0, c0)
    eng.see(s, p0)

    def ret(st, val):
        eng.count(st)
        p, l, c = pos_get(prog, st.mem['pos'])
        eng.see(st, p)
        P = lambda cnd, what, t: eng.prove(st, cnd, t, what)
        P(band(le(p0, p), le(p, N)), 'blanks are skipped forward and inside the text', 'T01')
        P(A.at(p, 'RUN'), 'only blanks are skipped', 'T01')
        P(z3.Not(is_blank(p)), 'all blanks are skipped', 'T01')
        P(z3.Not(cont(B(zv(p)))), 'skipping ends on a character boundary', 'T01')
        P(eq(l, LINE(zv(p))), 'line after blanks', 'T03')
        P(eq(c, COL(zv(p))), 'column after blanks', 'T03')
        P(le(c, p), 'column is at most the offset', 'T11')
        P(z3.Not(mid(p)), 'blanks do not end inside a CRLF pair', 'T03')
    eng.on_return = ret
    eng.run(s)
    if not eng.reached['return']: raise Unsupported('eat_whitespace does not return')
    return eng


def run_inc(prog, budget):
    fn = anchors(prog)['increment_position']
    if fn is None: raise Unsupported('increment_position not found')
    eng = TokEngine(prog)
    eng.deadline = time.time() + budget
    p0, l0, c0, sz = z3.Ints('p0 l0 c0 size')
    A = auto_cr()
    eng.autos, eng.regs = [A], line_regs()
    pre = base_pre(p0) + A.start_axioms() + [l0 == LINE(p0), c0 == COL(p0), c0 >= 0, c0 <= p0, l0 >= 1, l0 <= p0 + 1,
                                             sz >= 0, p0 + sz <= N, z3.Not(cont(B(p0 + sz)))]
    s = start(eng, fn, [Str(SRC, p0, N - p0), sz, Ref('pos')], pre)
    s.mem['pos'] = pos_value(prog, p0, l0, c0)
    for p in (p0, sub(p0, 1), add(p0, sz), sub(add(p0, sz), 1)): eng.see(s, p)

    def ret(st, val):
        eng.count(st)
        p, l, c = pos_get(prog, st.mem['pos'])
        eng.see(st, p)
        P = lambda cnd, what, t: eng.prove(st, cnd, t, what)
        P(eq(p, p0 + sz), 'the offset advances by the size of the token', 'T01')
        P(eq(l, LINE(zv(p))), 'line after a token', 'T03')
        P(eq(c, COL(zv(p))), 'column after a token', 'T03')
        P(band(le(c, p), le(l, add(p, 1))), 'line and column are at most the offset', 'T11')
    eng.on_return = ret
    eng.run(s)
    if not eng.reached['return']: raise Unsupported('increment_position does not return')
    return eng


def run_next(prog, budget):
    an = anchors(prog)
    fn = an['next_token']
    if fn is None: raise Unsupported('next_token not found')
    for n in ('read_next', 'eat_whitespace', 'increment_position'):
        if an[n] is None: raise Unsupported(n + ' not found')
    eng = TokEngine(prog)
    eng.deadline = time.time() + budget
    p0, l0, c0 = z3.Ints('p0 l0 c0')
    A = auto_blank(p0)
    eng.autos, eng.regs = [A], line_regs()
    pre = base_pre(p0) + A.start_axioms() + [l0 == LINE(p0), c0 == COL(p0), c0 >= 0, c0 <= p0, l0 >= 1, l0 <= p0 + 1]
    selfty = struct_value(prog, 'SliceTokenizer', {'code': Str(SRC, 0, N), 'position': pos_value(prog, p0, l0, c0)})
    hint = struct_value(prog, 'Hint', {'expression': HX, 'template': HT, 'strict': HS})
    s = start(eng, fn, [Ref('self'), ValRef(hint), Agg('', (Ref('token'), Ref('range')))], pre)
    s.mem['self'] = selfty
    s.mem['token'] = Opaque('previous token')
    zero = pos_value(prog, 0, 0, 0)
    s.mem['range'] = struct_value(prog, 'TokenRange', {'start': zero, 'end': zero})
    eng.see(s, p0)

    def source(st, v):
        w = eng.as_str(st, v)
        if w.buf is not SRC: raise Unsupported('text argument')
        return w

    def eat(st, args):
        w = source(st, args[0])
        o, l, c = pos_get(prog, eng.deref(st, args[1]))
        eng.prove(st, band(eq(w.off, 0), eq(w.n, N)), 'T01', 'blanks are skipped in the whole text')
        eng.prove(st, band(eq(o, p0), eq(l, l0), eq(c, c0)), 'T01', 'blanks are skipped from the current position')
        p, l1, c1 = eng.fresh('p1'), eng.fresh('l1'), eng.fresh('c1')
        eng.see(st, p)
        eng.assume(st, z3.And(p0 <= p, p <= N, A.at(p, 'RUN'), z3.Not(is_blank(p)), z3.Not(cont(B(p))), l1 == LINE(p), c1 == COL(p), c1 <= p, c1 >= 0,
                              l1 >= 1, l1 <= p + 1, z3.Not(mid(p))))
        eng.store(st, args[1].cell, args[1].path, pos_value(prog, p, l1, c1))
        st.ghost = dict(st.ghost, p1=p)
        return [(st, UNIT)]

    def rd(st, args):
        w = source(st, args[0])
        p1 = st.ghost.get('p1', p0)
        eng.see(st, w.off)
        eng.prove(st, band(eq(w.off, p1), eq(add(w.off, w.n), N)), 'T01', 'the token is read from right after the blanks')
        eng.prove(st, bnot(is_blank(w.off)), 'T11', 'read_next is not called at a blank')
        eng.prove(st, same(eng.deref(st, args[1]), hint), 'T08', 'the hint is passed on unchanged')
        if not (isinstance(args[2], Ref) and args[2].cell == 'token'): raise Unsupported('token argument')
        size = eng.fresh('size')
        e = add(w.off, size)
        eng.see(st, e)
        isnew = eng.fresh('eof', 'bool')
        eng.assume(st, z3.And(size >= 0, zv(e) <= N, z3.Not(cont(B(zv(e)))), z3.Not(z3.And(size >= 1, B(zv(e) - 1) == 13, B(zv(e)) == 10)),
                              (size == 0) == (zv(w.off) == N), isnew == (zv(w.off) == N)))
        eng.store(st, args[2].cell, args[2].path, Opaque('new token'))
        st.ghost = dict(st.ghost, size=size, eof=isnew)
        return [(st, size)]

    def inc(st, args):
        w = source(st, args[0])
        o, l, c = pos_get(prog, eng.deref(st, args[2]))
        sz = args[1]
        eng.see(st, w.off)
        eng.prove(st, band(eq(w.off, o), eq(add(w.off, w.n), N)), 'T03', 'the position advances over the text of the token')
        eng.prove(st, band(le(0, sz), le(add(o, sz), N)), 'T11', 'the size lies inside the text')
        e = add(o, sz)
        eng.see(st, e)
        eng.prove(st, band(eq(l, LINE(zv(o))), eq(c, COL(zv(o)))), 'T03', 'line and column are right before the token')
        eng.prove(st, bnot(mid(o)), 'T03', 'the position before the token is not inside a CRLF pair')
        eng.prove(st, bnot(cont(B(zv(e)))), 'T11', 'the size ends on a character boundary')
        l1, c1 = eng.fresh('l2'), eng.fresh('c2')
        eng.assume(st, z3.And(l1 == LINE(zv(e)), c1 == COL(zv(e)), c1 >= 0, c1 <= zv(e), l1 >= 1, l1 <= zv(e) + 1))
        eng.store(st, args[2].cell, args[2].path, pos_value(prog, e, l1, c1))
        return [(st, UNIT)]
    eng.contracts = {an['eat_whitespace'].path: eat, an['read_next'].path: rd, an['increment_position'].path: inc}

    def ret(st, val):
        eng.count(st)
        me = st.mem['self']
        fs = prog.types.structs['SliceTokenizer'][0]
        d = dict(zip(fs, me.vals))
        P = lambda cnd, what, t: eng.prove(st, cnd, t, what)
        p1, size, iseof = (st.ghost.get(k) for k in ('p1', 'size', 'eof'))
        if p1 is None or size is None: raise Unsupported('next_token without its parts')
        P(same(d['code'], Str(SRC, 0, N)), 'the text stays the same', 'T01')
        tr = dict(zip(prog.types.structs['TokenRange'][0], st.mem['range'].vals))
        so, sl, sc = pos_get(prog, tr['start'])
        eo, el, ec = pos_get(prog, tr['end'])
        po, pl, pc_ = pos_get(prog, d['position'])
        P(isinstance(st.mem['token'], Opaque) and st.mem['token'].tag == 'new token', 'the token is handed out', 'T01')
        P(eq(so, p1), 'the range starts right after the blanks', 'T01')
        P(eq(eo, add(p1, size)), 'the range ends where the token ends', 'T01')
        P(band(le(so, eo), le(eo, N)), 'the range is ordered and inside the text', 'T01')
        P(eq(po, eo), 'the next token is read from the end of this one', 'T01')
        P(bnot(cont(B(zv(eo)))), 'the range ends on a character boundary', 'T01')
        P(z3.Implies(zv(so) < N, zv(eo) > zv(so)), 'progress before the end', 'T02')
        P(zv(iseof) == (zv(p1) == N), 'end-of-file exactly when only blanks remain', 'T02')
        P(z3.Implies(zv(p1) == N, zv(po) == N), 'end-of-file is empty and repeats', 'T02')
        P(band(eq(sl, LINE(zv(so))), eq(sc, COL(zv(so)))), 'line and column of the start', 'T03')
        P(band(eq(el, LINE(zv(eo))), eq(ec, COL(zv(eo)))), 'line and column of the end', 'T03')
        P(band(eq(pl, el), eq(pc_, ec)), 'the tokenizer goes on from the reported line and column', 'T03')
        P(band(bnot(mid(so)), bnot(mid(eo))), 'positions are never inside a CRLF pair', 'T03')
        P(band(le(pc_, po), le(pl, add(po, 1)), le(0, pc_), le(1, pl)), 'invariant of the position', 'T11')
    eng.on_return = ret
    eng.run(s)
    if not eng.reached['return']: raise Unsupported('next_token does not return')
    return eng


def run_init(prog, budget):
    fn = anchors(prog)['into_tokenizer']
    if fn is None: raise Unsupported('into_tokenizer not found')
    eng = TokEngine(prog)
    s = start(eng, fn, [Str(SRC, 0, N)], [z3.And(N >= 0, N <= ISIZE)])

    def ret(st, val):
        eng.count(st)
        d = dict(zip(prog.types.structs['SliceTokenizer'][0], val.vals))
        o, l, c = pos_get(prog, d['position'])
        eng.prove(st, same(d['code'], Str(SRC, 0, N)), 'T01', 'the tokenizer starts with the whole text')
        eng.prove(st, eq(o, 0), 'T01', 'the tokenizer starts at offset 0')
        eng.prove(st, band(eq(l, 1), eq(c, 0)), 'T03', 'the tokenizer starts at line 1, column 0')
    eng.on_return = ret
    eng.run(s)
    if not eng.reached['return']: raise Unsupported('into_tokenizer does not return')
    return eng


def run_cover(prog, budget):
    """the categories of read_next are exhaustive: every non-blank text falls under one of them"""
    eng = TokEngine(prog)
    s = State()
    eng.assume(s, z3.And(N >= 0, N <= ISIZE))
    eng.autos = []
    for p in (0, 1): eng.see(s, p)
    fn = anchors(prog)['read_next']
    s.frames = [Frame(fn, 'x', 'bb0', 0, None, None)] if fn else []
    cs = categories()
    for t in sorted({c[0] for c in cs.values()}):
        eng.prove(s, z3.Or(is_blank(0), *[c[1] for c in cs.values()]), t, 'every text falls under one of the categories')
    A = auto_number()
    p, regs = z3.Int('p'), number_regs(A)
    lem = z3.Solver()
    lem.set('timeout', 20000)
    lem.add(inside(p), *regs[0][3](p))
    lem.add(z3.Not(z3.And(regs[0][1](p + 1) >= regs[0][1](p))))
    eng.obls.append(Obl('T09', 'grammar', 'the value of an integer literal never decreases while it is read', 'ok' if lem.check() == z3.unsat else 'unknown'))
    return eng


def units():
    return ['cover', 'init', 'eat', 'inc', 'next'] + ['cat:' + c for c in categories()]


def run_unit(prog, u, budget=150):
    t = time.time()
    eng = None
    err = None
    try:
        if u.startswith('cat:'): eng = run_category(prog, u[4:], budget)
        else: eng = {'cover': run_cover, 'init': run_init, 'eat': run_eat, 'inc': run_inc, 'next': run_next}[u](prog, budget)
    except Unsupported as e:
        err = str(e)
    except MemoryError:
        err = 'memory limit of the verifier'
    except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, RecursionError, ValueError, AssertionError) as e:
        import traceback
        err = 'internal: ' + traceback.format_exc()[-600:]
    rounding = [o for o in (eng.obls if eng else []) if o.status == 'assumed']
    if rounding: eng.obls = [o for o in eng.obls if o.status != 'assumed']
    return dict(unit=u, err=err, rounding=[o.detail for o in rounding], obls=[(o.tag, o.fn, o.what, o.status, o.detail, o.ms) for o in (eng.obls if eng else [])],
                checks=eng.nchecks if eng else 0, t=eng.tcheck if eng else 0, wall=time.time() - t,
                loops=eng.loops_seen if eng else 0, invs=eng.invariants if eng else 0)


if __name__ == '__main__':
    import glob
    d = glob.glob('/verif/build/mir/debug/deps/jsparse-*.mir')[0]
    files = sorted(set(re.findall(r'(\S+\.rs)', open(d[:-4] + '.d').read())))
    prog = Program('/repo', open(d).read(), files)
    for u in sys.argv[1:] or units():
        r = run_unit(prog, u)
        bad = [o for o in r['obls'] if o[3] != 'ok']
        print('%-12s %s obls=%d bad=%d checks=%d solver=%.1f wall=%.1f loops=%d' % (u, r['err'] or 'ok', len(r['obls']), len(bad), r['checks'], r['t'], r['wall'], r['loops']), flush=True)
        for o in bad[:8]: print('    ', o[0], o[3], o[2], o[4][:300])
