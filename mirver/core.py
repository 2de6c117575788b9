"""Path-wise symbolic execution of MIR with z3 terms; contracts and loop policies are supplied by tok.py and par.py."""
import os, subprocess, tempfile, time
from fractions import Fraction
import z3
from mir import *


class Agg:
    """struct, tuple or array"""
    __slots__ = ('name', 'vals')

    def __init__(self, name, vals):
        self.name, self.vals = name, tuple(vals)

    def __repr__(self):
        return '%s%r' % (self.name or '', self.vals)


class Enum:
    __slots__ = ('name', 'var', 'vals')

    def __init__(self, name, var, vals=()):
        self.name, self.var, self.vals = name, var, tuple(vals)

    def __repr__(self):
        return '%s::%s%r' % (self.name, self.var, self.vals)


class SymEnum:
    """An enum value whose variant is not known: discriminant term, payload(variant, field) -> value"""
    __slots__ = ('name', 'disc', 'payload', 'tag')

    def __init__(self, name, disc, payload, tag):
        self.name, self.disc, self.payload, self.tag = name, disc, payload, tag

    def __repr__(self):
        return 'SymEnum(%s,%s)' % (self.name, self.tag)


class SymVar:
    __slots__ = ('e', 'var')

    def __init__(self, e, var):
        self.e, self.var = e, var


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return '&%s%s' % (self.cell, ''.join('.%s' % (p,) for p in self.path))


class ValRef:
    """Shared reference to a value that has no cell."""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return '&(%r)' % (self.val,)


class Str:
    """&str, &[u8] or the data behind it: n bytes of buf from off."""
    __slots__ = ('buf', 'off', 'n')

    def __init__(self, buf, off, n):
        self.buf, self.off, self.n = buf, off, n

    def __repr__(self):
        return 'Str(%s,%s,%s)' % (self.buf, self.off, self.n)


class Opaque:
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return '<%s>' % self.tag

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


class FnItem:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


UNIT = Agg('', ())
UNINIT = Opaque('uninit')


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool) or (is_z3(v) and z3.is_arith(v))


def is_float(v):
    return isinstance(v, Fraction) or (is_z3(v) and v.sort() == z3.RealSort())


def zv(v):
    """as a z3 term"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(str(v))
    return v


def fold(v):
    """simplify to a Python constant when the term is one"""
    if not is_z3(v): return v
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    return v


def simp(v):
    if not is_z3(v): return v
    return fold(z3.simplify(v))


def bnot(v):
    if isinstance(v, bool): return not v
    return fold(z3.Not(v))


def band(*vs):
    vs = [v for v in vs if v is not True]
    if any(v is False for v in vs): return False
    if not vs: return True
    return vs[0] if len(vs) == 1 else z3.And(*vs)


def bor(*vs):
    vs = [v for v in vs if v is not False]
    if any(v is True for v in vs): return True
    if not vs: return False
    return vs[0] if len(vs) == 1 else z3.Or(*vs)


def eq(a, b):
    if not is_z3(a) and not is_z3(b): return a == b
    return fold(zv(a) == zv(b))


def lt(a, b):
    if not is_z3(a) and not is_z3(b): return a < b
    return fold(zv(a) < zv(b))


def le(a, b):
    if not is_z3(a) and not is_z3(b): return a <= b
    return fold(zv(a) <= zv(b))


def add(a, b):
    if not is_z3(a) and not is_z3(b): return a + b
    if not is_z3(b) and b == 0: return a
    if not is_z3(a) and a == 0: return b
    return simp(zv(a) + zv(b))


def sub(a, b):
    if not is_z3(a) and not is_z3(b): return a - b
    if not is_z3(b) and b == 0: return a
    return simp(zv(a) - zv(b))


def mul(a, b):
    if not is_z3(a) and not is_z3(b): return a * b
    return simp(zv(a) * zv(b))


def same(a, b):
    """structural identity of values"""
    if a is b: return True
    if is_z3(a) or is_z3(b): return is_z3(a) and is_z3(b) and a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, Agg): return len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, Enum): return a.var == b.var and len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, Ref): return a.cell == b.cell and a.path == b.path
    if isinstance(a, ValRef): return same(a.val, b.val)
    if isinstance(a, Str): return a.buf is b.buf and same(a.off, b.off) and same(a.n, b.n)
    if isinstance(a, SymEnum): return a.tag == b.tag and same(a.disc, b.disc)
    if hasattr(a, 'same'): return a.same(b)
    return a == b


class Frame:
    __slots__ = ('fn', 'id', 'block', 'i', 'dest', 'retblock', 'wrap')

    def __init__(self, fn, id, block, i, dest, retblock, wrap=None):
        self.fn, self.id, self.block, self.i, self.dest, self.retblock, self.wrap = fn, id, block, i, dest, retblock, wrap

    def copy(self):
        return Frame(self.fn, self.id, self.block, self.i, self.dest, self.retblock, self.wrap)


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ()          # linked list (cond, parent) kept as tuple of conds
        self.known = set()    # instantiated axioms
        self.ghost = {}
        self.trace = ()
        self.loops = {}

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.known = set(self.known)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.loops = dict(self.loops)
        return s

    @property
    def top(self):
        return self.frames[-1]


class Stop(Exception):
    """The current path ends here (subsumed or infeasible)."""


class Obl:
    __slots__ = ('tag', 'fn', 'what', 'status', 'detail', 'ms')

    def __init__(self, tag, fn, what, status, detail='', ms=0):
        self.tag, self.fn, self.what, self.status, self.detail, self.ms = tag, fn, what, status, detail, ms


LIBMODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'libmodel.rs')


def load_lib():
    """the reference definitions of library functions, lowered to MIR by the compiler"""
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, 'lib.mir')
        r = subprocess.run(['rustc', '+stable', '--edition', '2015', '--crate-type', 'lib', '--emit=mir', '-A', 'warnings', '-C', 'overflow-checks=off', LIBMODEL, '-o', o],
                           capture_output=True, text=True)
        if r.returncode: raise Exception('the reference definitions do not compile: ' + r.stderr[-2000:])
        fns, _, _ = parse_file(open(o).read())
    return fns


class Program:
    def __init__(self, root, text, files):
        self.fns, self.consts, self.allocs = parse_file(text)
        self.types = Types(root, files)
        self.by_key = {}
        for p, f in self.fns.items():
            for k in self.keys_of(p):
                self.by_key.setdefault(k, []).append(f)
        self.lib = load_lib()
        self.consts_by = {}
        for p, f in self.consts.items():
            for k in self.keys_of(p):
                self.consts_by.setdefault(k, []).append(f)

    def keys_of(self, path):
        """lookup keys of a definition: free function path, (type, method) or (type, trait, method)"""
        m = re.match(r'(.*?)<impl at ([^:>]+):(\d+):(\d+): \d+:\d+>::(.*)$', path)
        if m:
            rel, line, col, name = m.group(2), int(m.group(3)), int(m.group(4)), m.group(5)
            im = self.types.impls.get((rel, line, col)) or self.types.impls.get((rel, line))
            if im is None: return []
            tr, ty = im
            return [(ty, tr, name)]
        return [path]

    def variants(self, ename, hint=None):
        if ename == 'Option': return [('None', 0, None), ('Some', 1, None)]
        if ename == 'Result': return [('Ok', 1, None), ('Err', 1, None)]
        if ename == 'ControlFlow': return [('Continue', 1, None), ('Break', 1, None)]
        if ename == 'Cow': return [('Borrowed', 1, None), ('Owned', 1, None)]
        if ename == 'Ordering': return [('Less', 0, None), ('Equal', 0, None), ('Greater', 0, None)]
        c = self.types.enums.get(ename)
        if not c: return None
        if hint:
            for vs in c:
                if vs and any(v[0] == hint for v in vs):
                    if len([x for x in c if x and any(v[0] == hint for v in x)]) > 1: raise Unsupported('ambiguous enum ' + ename)
                    return vs
        if len(c) != 1 or c[0] is None: raise Unsupported('enum ' + ename)
        return c[0]

    def var_index(self, ename, var):
        for i, v in enumerate(self.variants(ename, var)):
            if v[0] == var: return i
        raise Unsupported('variant %s::%s' % (ename, var))


class Engine:
    def __init__(self, prog, timeout_ms=10000):
        self.prog = prog
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stack = []
        self.obls = []
        self.nchecks = 0
        self.tcheck = 0.0
        self.fresh_n = 0
        self.max_depth = 60
        self.steps = 0
        self.max_steps = 3000000
        self.deadline = None
        self.cover = {}
        self.last_model = None

    # ---- solver
    def fresh(self, name, sort='int'):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return {'int': z3.Int, 'bool': z3.Bool, 'real': z3.Real}[sort](n)

    def sync(self, pc):
        st = self.stack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]: k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, s, *extra):
        """'sat' / 'unsat' / 'unknown' of the path condition with extra conjuncts"""
        ex = []
        for e in extra:
            if e is True: continue
            if e is False: return 'unsat'
            ex.append(e)
        self.sync(s.pc)
        t = time.time()
        self.nchecks += 1
        r = str(self.solver.check(*ex))
        self.tcheck += time.time() - t
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the verifier')
        return r

    def assume(self, s, c):
        if c is True: return
        if c is False: raise Stop()
        s.pc = s.pc + (c,)

    def feasible(self, s, c=True):
        if c is False: return False
        if c is True and not s.pc: return True
        return self.check(s, c) != 'unsat'

    def valid(self, s, c):
        if c is True: return True
        if c is False: return self.check(s) == 'unsat'
        return self.check(s, z3.Not(c)) == 'unsat'

    def prove(self, s, c, tag, what, fn=None):
        """An obligation: c holds on every state of this path."""
        fn = fn or (s.frames[0].fn.path if s.frames else '?')
        t = time.time()
        if c is True:
            self.obls.append(Obl(tag, fn, what, 'ok'))
            return True
        n = False if c is False else c
        r = self.check(s, bnot(n)) if n is not False else self.check(s)
        ms = (time.time() - t) * 1000
        if r == 'unsat':
            self.obls.append(Obl(tag, fn, what, 'ok', '', ms))
            return True
        det = ''
        if r == 'sat':
            try:
                det = self.describe(s, self.solver.model())
            except Exception as e:
                det = 'model: %s' % e
        self.obls.append(Obl(tag, fn, what, 'fail' if r == 'sat' else 'unknown', det, ms))
        return False

    def describe(self, s, m):
        return ' '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:1500]

    # ---- memory
    def load(self, s, cell, path):
        v = s.mem.get(cell, UNINIT) if not isinstance(cell, ValRef) else cell.val
        for p in path:
            v = self.proj(s, v, p)
        return v

    def proj(self, s, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, (Agg, Enum)):
                return v.vals[p[1]]
            if isinstance(v, SymVar):
                return v.e.payload(v.var, p[1])
            if hasattr(v, 'field'):
                return v.field(p[1])
            raise Unsupported('field %d of %r' % (p[1], v))
        if k == 'v':
            if isinstance(v, Enum):
                if v.var != p[1]: raise Unsupported('downcast of %r to %s' % (v, p[1]))
                return v
            if isinstance(v, SymEnum): return SymVar(v, p[1])
            raise Unsupported('downcast of %r' % (v,))
        if k == 'i':
            if isinstance(v, Agg) and isinstance(p[1], int):
                return v.vals[p[1]]
            if isinstance(v, Agg):
                r = None
                for i, x in enumerate(v.vals):
                    if isinstance(x, (Ref, Opaque)): raise Unsupported('symbolic index')
                    r = x if r is None else z3.If(zv(p[1]) == i, zv(x), zv(r))
                return r
            if isinstance(v, Str): return self.byte(s, v, p[1])
            raise Unsupported('index of %r' % (v,))
        raise Unsupported('projection %r' % (p,))

    def store(self, s, cell, path, val):
        if isinstance(cell, ValRef): raise Unsupported('store through a shared reference')
        if not path:
            s.mem[cell] = val
            return
        s.mem[cell] = self.upd(s, s.mem.get(cell, UNINIT), path, val)

    def upd(self, s, v, path, val):
        if not path: return val
        p = path[0]
        if p[0] == 'f' or (p[0] == 'i' and isinstance(p[1], int)):
            if isinstance(v, (Agg, Enum)):
                vals = list(v.vals)
                vals[p[1]] = self.upd(s, vals[p[1]], path[1:], val)
                return Agg(v.name, vals) if isinstance(v, Agg) else Enum(v.name, v.var, vals)
            if v is UNINIT:
                vals = [UNINIT] * (p[1] + 1)
                vals[p[1]] = self.upd(s, UNINIT, path[1:], val)
                return Agg('?', vals)
            if hasattr(v, 'with_field'):
                return v.with_field(p[1], self.upd(s, v.field(p[1]), path[1:], val))
        if p[0] == 'v' and isinstance(v, Enum):
            if v.var != p[1]: raise Unsupported('store in another variant')
            return self.upd(s, v, path[1:], val)
        raise Unsupported('store %r in %r' % (path, v))

    def resolve(self, s, place, fr=None):
        fr = fr or s.top
        loc, projs = place
        cell, path = (fr.id, loc), ()
        for p in projs:
            if p[0] == 'deref':
                v = self.load(s, cell, path)
                if isinstance(v, Ref): cell, path = v.cell, v.path
                elif isinstance(v, ValRef): cell, path = v, ()
                elif isinstance(v, Str): cell, path = ValRef(v), ()
                elif hasattr(v, 'deref'): cell, path = ValRef(v.deref()), ()
                else: raise Unsupported('dereference of %r' % (v,))
            elif p[0] == 'ix':
                path = path + (('i', self.load(s, (fr.id, p[1]), ())),)
            elif p[0] == 'cix':
                if p[2]: raise Unsupported('index from the end')
                path = path + (('i', p[1]),)
            else:
                path = path + (p,)
        return cell, path

    def read(self, s, place):
        cell, path = self.resolve(s, place)
        return self.load(s, cell, path)

    def operand(self, s, op):
        k = op[0]
        if k in ('copy', 'move'):
            v = self.read(s, op[1])
            if v is UNINIT: raise Unsupported('read of uninitialised %s in %s' % (op[1], s.top.fn.path))
            return v
        return self.const(s, op[1])

    def const(self, s, c):
        k = c[0]
        if k == 'int': return c[1]
        if k == 'bool': return c[1]
        if k == 'float':
            f = float(c[1])
            return Fraction(repr(f)) if 'e' not in repr(f) and 'inf' not in repr(f) and 'nan' not in repr(f) else Fraction(c[1])
        if k == 'char': return c[1]
        if k == 'str': return self.lit(c[1].encode('utf8'))
        if k == 'bytes': return self.lit(c[1].encode('latin1'))
        if k == 'unit': return UNIT
        if k == 'lim':
            t, w = c[1], c[2]
            b = 64 if t.endswith('size') else int(t[1:]) if t != 'char' else 0
            if t[0] == 'u': return (1 << b) - 1 if w == 'MAX' else 0
            if t[0] == 'i': return (1 << (b - 1)) - 1 if w == 'MAX' else -(1 << (b - 1))
        if k == 'alloc':
            a = self.prog.allocs.get(c[1])
            if a and a[0] == 'static': return ValRef(self.eval_const(s, a[1]))
        if k == 'path':
            return self.const_path(s, c[1])
        raise Unsupported('constant %r' % (c,))

    def const_path(self, s, p):
        if p.endswith('}}'):
            name = last_seg(p[:p.index('{{')].strip())
            body = p[p.index('{{') + 2:-2].strip()
            parent = strip_generics(p[:p.index('{{')]).strip().split('::')
            if body: raise Unsupported('constant ' + p)
            if len(parent) > 1 and self.prog.types.enums.get(parent[-2]): return Enum(parent[-2], name)
            return Agg(name, ())
        m = re.match(r'(.*)::promoted\[(\d+)\]$', p)
        if m:
            return self.eval_const(s, p)
        sp = strip_generics(p).split('::')
        if len(sp) > 1 and self.is_enum(sp[-2], sp[-1]): return Enum(sp[-2], sp[-1])
        if p in self.prog.consts_by: return self.eval_const(s, p)
        return FnItem(p)

    def is_enum(self, e, v):
        vs = self.prog.types.enums.get(e)
        if vs: return any(x and any(y[0] == v for y in x) for x in vs)
        return e in ('Option', 'Result', 'ControlFlow', 'Cow') and any(y[0] == v for y in self.prog.variants(e))

    def eval_const(self, s, path):
        key = path
        f = None
        m = re.match(r'(.*)::promoted\[(\d+)\]$', path)
        if path in self.prog.consts: f = self.prog.consts[path]
        elif m:
            k = self.callee_key(m.group(1))
            name = k[2] if isinstance(k, tuple) else k
            for p, g in self.prog.consts.items():
                if not p.endswith('::promoted[%s]' % m.group(2)): continue
                q = p[:p.rindex('::promoted')]
                if k in self.prog.keys_of(q) or q == k: f = g
        else:
            for p, g in self.prog.consts.items():
                if p == path: f = g
        if f is None: raise Unsupported('constant ' + path)
        if 'error' in f.blocks: raise Unsupported(f.blocks['error'])
        # straight-line evaluation
        fid = 'const:' + path
        st = State()
        st.mem = s.mem
        st.frames = [Frame(f, fid, 'bb0', 0, None, None)]
        b = 'bb0'
        while True:
            for x in f.blocks[b]:
                if x[0] == 'assign': self.assign(st, x[1], x[2])
                elif x[0] == 'return': return s.mem[(fid, '_0')]
                elif x[0] == 'goto': b = x[1]
                elif x[0] == 'call':
                    r = self.intrinsic(st, x[2], [self.operand(st, a) for a in x[3]], x)
                    if not r or len(r) != 1: raise Unsupported('constant ' + path)
                    c, p = self.resolve(st, x[1])
                    self.store(st, c, p, r[0][1]); b = x[4]
                else: raise Unsupported('constant ' + path)

    lits = {}

    def lit(self, b):
        raise Unsupported('string literal')

    def byte(self, s, st, i):
        raise Unsupported('byte')

    # ---- rvalues
    def int_type(self, s, place):
        t = s.top.fn.locals.get(place[0], '')
        for p in place[1]:
            if p[0] != 'f': return None
            parts = split_top(t[1:-1]) if t.startswith('(') else []
            if p[1] >= len(parts): return None
            t = parts[p[1]]
        return t

    RANGE = {'usize': (0, 2**64 - 1), 'u64': (0, 2**64 - 1), 'u32': (0, 2**32 - 1), 'u16': (0, 65535), 'u8': (0, 255),
             'isize': (-2**63, 2**63 - 1), 'i64': (-2**63, 2**63 - 1), 'i32': (-2**31, 2**31 - 1), 'i16': (-32768, 32767),
             'i8': (-128, 127), 'char': (0, 0x10ffff)}

    def rvalue(self, s, rv, dest):
        k = rv[0]
        if k == 'use': return self.operand(s, rv[1])
        if k == 'ref':
            cell, path = self.resolve(s, rv[1])
            if isinstance(cell, ValRef):
                v = self.load(s, cell, path)
                return v if isinstance(v, Str) else ValRef(v)
            v = self.load(s, cell, path)
            if isinstance(v, Str) and rv[1][1] and rv[1][1][-1] == ('deref',): return v
            return Ref(cell, path)
        if k == 'bin': return self.binop(s, rv[1], self.operand(s, rv[2]), self.operand(s, rv[3]), dest)
        if k == 'un':
            v = self.operand(s, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): return bnot(v)
                raise Unsupported('bitwise not')
            if rv[1] == 'Neg': return sub(0, v) if not is_float(v) else fold(-zv(v)) if is_z3(v) else -v
            if rv[1] == 'PtrMetadata':
                if isinstance(v, Str): return v.n
                if isinstance(v, Ref):
                    t = self.load(s, v.cell, v.path)
                    if isinstance(t, Agg): return len(t.vals)
                raise Unsupported('metadata of %r' % (v,))
        if k == 'len':
            v = self.read(s, rv[1])
            if isinstance(v, Str): return v.n
            if isinstance(v, Agg): return len(v.vals)
        if k == 'disc': return self.disc(s, self.read(s, rv[1]))
        if k == 'cast':
            v = self.operand(s, rv[1])
            kind = rv[3]
            if kind.startswith('IntToFloat'): return Fraction(v) if isinstance(v, int) else z3.ToReal(v)
            if kind.startswith('IntToInt'):
                if isinstance(v, bool): return int(v)
                if is_z3(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
                lo, hi = self.RANGE[rv[2]]
                if isinstance(v, Enum): v = self.disc(s, v)
                if isinstance(v, int):
                    if lo <= v <= hi: return v
                    m = hi - lo + 1
                    return (v - lo) % m + lo
                if self.valid(s, z3.And(v >= lo, v <= hi)): return v
                if lo == 0: return fold(v % (hi + 1))
                raise Unsupported('narrowing cast')
            if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Transmute'): return v
            raise Unsupported('cast ' + kind)
        if k == 'tuple': return Agg('', [self.operand(s, o) for o in rv[1]])
        if k == 'array': return Agg('[]', [self.operand(s, o) for o in rv[1]])
        if k == 'repeat':
            n = parse_const(rv[2].replace('const ', ''))
            if n[0] == 'int' and n[1] <= 64: return Agg('[]', [self.operand(s, rv[1])] * n[1])
            raise Unsupported('array')
        if k == 'struct':
            if rv[1].startswith('{closure@'): return Agg(rv[1], [self.operand(s, o) for _, o in rv[2]])
            name = last_seg(rv[1])
            sp = strip_generics(rv[1]).split('::')
            if len(sp) > 1 and self.is_enum(sp[-2], name):
                vs = [v for v in self.prog.variants(sp[-2], name) if v[0] == name][0]
                d = {n: self.operand(s, o) for n, o in rv[2]}
                return Enum(sp[-2], name, [d[n] for n in vs[2]])
            fs = self.struct_fields(name, [n for n, _ in rv[2]])
            d = {n: self.operand(s, o) for n, o in rv[2]}
            return Agg(name, [d[n] for n in fs])
        if k == 'ctor':
            vals = [self.operand(s, o) for o in rv[2]]
            sp = strip_generics(rv[1]).split('::')
            name = sp[-1]
            if len(sp) > 1 and self.is_enum(sp[-2], name): return Enum(sp[-2], name, vals)
            return Agg(name, vals)
        raise Unsupported('rvalue %r' % (rv,))

    STD_STRUCTS = {'RangeFrom': ['start'], 'RangeTo': ['end'], 'Range': ['start', 'end'], 'RangeFull': []}

    def struct_fields(self, name, given):
        if name in self.STD_STRUCTS: return self.STD_STRUCTS[name]
        for fs in self.prog.types.structs.get(name, []):
            if set(fs) == set(given): return fs
        raise Unsupported('struct ' + name)

    def disc(self, s, v):
        if isinstance(v, Enum): return self.prog.var_index(v.name, v.var)
        if isinstance(v, SymEnum): return v.disc
        raise Unsupported('discriminant of %r' % (v,))

    def binop(self, s, op, a, b, dest):
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            t = self.int_type(s, (dest[0], dest[1] + (('f', 0),)))
            lo, hi = self.RANGE[t]
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            if isinstance(r, int): return Agg('', (r, not (lo <= r <= hi)))
            return Agg('', (r, bor(lt(r, lo), lt(hi, r))))
        if isinstance(a, Enum) and isinstance(b, Enum): a, b = self.disc(s, a), self.disc(s, b)
        isb = lambda v: isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return bnot(eq(a, b))
        if isb(a) and isb(b):
            if op == 'BitAnd': return band(a, b)
            if op == 'BitOr': return bor(a, b)
            if op == 'BitXor': return bnot(eq(a, b))
        if not (is_num(a) and is_num(b)): raise Unsupported('%s of %r and %r' % (op, a, b))
        if op == 'Lt': return lt(a, b)
        if op == 'Le': return le(a, b)
        if op == 'Gt': return lt(b, a)
        if op == 'Ge': return le(b, a)
        if is_float(a) or is_float(b):
            if op == 'Add': return add(a, b)
            if op == 'Sub': return sub(a, b)
            if op == 'Mul': return mul(a, b)
            if op == 'Div':
                if not is_z3(b) and b != 0: return mul(a, Fraction(1) / Fraction(b))
        elif op == 'Rem' or op == 'Div':
            if isinstance(b, int) and b > 0:
                if isinstance(a, int) and a >= 0: return a % b if op == 'Rem' else a // b
                if is_z3(a) and self.valid(s, a >= 0): return fold(a % b) if op == 'Rem' else fold(a / b)
        elif op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            t = self.int_type(s, dest)
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            lo, hi = self.RANGE[t]
            if isinstance(r, int) and lo <= r <= hi: return r
            if is_z3(r) and self.valid(s, z3.And(r >= lo, r <= hi)): return r
        elif op == 'BitOr' and b == 32 and (isinstance(a, int) or self.valid(s, z3.And(zv(a) >= 0, zv(a) <= 255))):
            return a | 32 if isinstance(a, int) else z3.If((a / 32) % 2 == 1, a, a + 32)
        elif isinstance(a, int) and isinstance(b, int):
            if op == 'BitAnd': return a & b
            if op == 'BitOr': return a | b
            if op == 'BitXor': return a ^ b
        raise Unsupported('operation %s on %r, %r' % (op, a, b))

    def assign(self, s, dest, rv):
        v = self.rvalue(s, rv, dest)
        cell, path = self.resolve(s, dest)
        self.store(s, cell, path, v)

    # ---- calls
    def callee_key(self, c):
        """lookup key of a callee as printed at a call site"""
        r = self.prog.__dict__.setdefault('_keys', {}).get(c)
        if r is None: r = self.prog._keys[c] = self.callee_key0(c)
        return r

    def callee_key0(self, c):
        c = c.strip()
        if c.startswith('<'):
            j = match_close(c, 0)
            inner, rest = c[1:j], c[j + 1:]
            parts = _as(inner)
            meth = strip_generics(rest).lstrip(':')
            if parts: return (last_seg(parts[0]), last_seg(parts[1]), meth)
            return (last_seg(inner), None, meth)
        i = c.find('<')
        while i >= 0 and not c.startswith('<impl ', i):     # not inside of generic arguments
            i = c.find('<', match_close(c, i))
        if i >= 0:
            j = match_close(c, i)
            inner = c[i + 6:j]
            meth = strip_generics(c[j + 1:]).lstrip(':')
            if inner.startswith('at '): return c
            return (last_seg(inner), None, meth)
        sg = strip_generics(c)
        if sg in self.prog.by_key: return sg
        sp = sg.split('::')
        if len(sp) >= 2: return (sp[-2], None, sp[-1])
        return sg

    def find_fn(self, key, nargs=None):
        fs = self.prog.by_key.get(key)
        if fs and len(fs) == 1: return fs[0]
        return None

    def intrinsic(self, s, callee, args, st):
        """-> list of (state, value) or None"""
        return None

    def contract(self, s, key, fn, args):
        return None

    def on_panic(self, s, kind, msg):
        raise Unsupported('panic')

    def on_head(self, s):
        return True

    def on_return(self, s, val):
        pass

    def is_droppable(self, ty):
        return None

    def call(self, s, st):
        """-> list of successor states"""
        dest, callee, argops, ret = st[1], st[2], st[3], st[4]
        args = [self.operand(s, a) for a in argops]
        r = self.intrinsic(s, callee, args, st)
        if r is None:
            key = self.callee_key(callee)
            fn = self.find_fn(key)
            c = self.contract(s, key, fn, args)
            if c is not None:
                r = c
            else:
                if fn is None: raise Unsupported('call of ' + callee)
                return [self.enter(s, fn, args, dest, ret)]
        out = []
        for t, v in r:
            if ret is None: continue
            if dest is not None:
                cell, path = self.resolve(t, dest)
                self.store(t, cell, path, v)
            t.top.block, t.top.i = ret, 0
            out.append(t)
        return out

    def enter(self, s, fn, args, dest, ret):
        if 'error' in fn.blocks: raise Unsupported(fn.path + ': ' + fn.blocks['error'])
        if len(s.frames) > self.max_depth: raise Unsupported('inlining too deep at ' + fn.path)
        if sum(1 for f in s.frames if f.fn is fn) > 1: raise Unsupported('recursion without a contract: ' + fn.path)
        self.fresh_n += 1
        fid = '%s#%d' % (fn.path.split('::')[-1], self.fresh_n)
        s.frames.append(Frame(fn, fid, 'bb0', 0, dest, ret))
        for a, v in zip(fn.args, args): s.mem[(fid, a)] = v
        return s

    def branch(self, s, alts):
        """alts: [(cond, block)] exhaustive and exclusive -> states"""
        out = []
        live = [(c, b) for c, b in alts if c is not False]
        for k, (c, b) in enumerate(live):
            if c is True:
                t = s
            elif not self.feasible(s, c):
                continue
            else:
                t = s.fork()
                self.assume(t, c)
            t.top.block, t.top.i = b, 0
            out.append(t)
            if c is True: break
        return out

    def run(self, s0):
        """Explore every path from s0."""
        work = [s0]
        while work:
            s = work.pop()
            try:
                nxt = self.step_block(s)
            except Stop:
                continue
            work.extend(reversed(nxt))

    def step_block(self, s):
        fr = s.top
        self.steps += 1
        if self.steps > self.max_steps: raise Unsupported('too many steps')
        if fr.i == 0 and fr.block in fr.fn.heads:
            r = self.on_head(s)
            if r is not True: return r or []
        blk = fr.fn.blocks.get(fr.block)
        if blk is None: raise Unsupported('block %s of %s' % (fr.block, fr.fn.path))
        while fr.i < len(blk):
            st = blk[fr.i]
            fr.i += 1
            k = st[0]
            if k == 'assign':
                self.assign(s, st[1], st[2])
            elif k == 'goto':
                fr.block, fr.i = st[1], 0
                return [s]
            elif k == 'switch':
                v = self.operand(s, st[1])
                if isinstance(v, bool): v = int(v)
                alts, rest = [], True
                isb = is_z3(v) and z3.is_bool(v)
                groups = {}
                for c, b in st[2]: groups.setdefault(b, []).append(c)
                for b, cs in groups.items():
                    if isb: cond = bor(*[v if c else bnot(v) for c in cs])
                    else: cond = bor(*[eq(v, c) for c in cs])
                    alts.append((cond, b))
                rest = bnot(bor(*[c for c, _ in alts]))
                if st[3] is not None: alts.append((rest, st[3]))
                return self.branch(s, alts)
            elif k == 'assert':
                c = self.operand(s, st[1])
                if not st[2]: c = bnot(c)
                if c is not True:
                    if self.feasible(s, bnot(c)):
                        t = s.fork()
                        self.assume(t, bnot(c))
                        try:
                            self.on_panic(t, 'assert', st[3])
                        except Stop:
                            pass
                    if not self.feasible(s, c): return []
                    self.assume(s, c)
                fr.block, fr.i = st[4], 0
                return [s]
            elif k == 'call':
                return self.call(s, st)
            elif k == 'drop':
                r = self.drop(s, st)
                if r is not None: return r
                fr.block, fr.i = st[2], 0
                return [s]
            elif k == 'return':
                v = s.mem.get((fr.id, '_0'), UNIT)
                if fr.wrap: v = Enum(fr.wrap[0], fr.wrap[1], [v])
                s.frames.pop()
                if not s.frames:
                    self.on_return(s, v)
                    return []
                for key in [c for c in s.mem if isinstance(c, tuple) and c[0] == fr.id]: del s.mem[key]
                if fr.dest is not None:
                    cell, path = self.resolve(s, fr.dest)
                    self.store(s, cell, path, v)
                s.top.block, s.top.i = fr.retblock, 0
                return [s]
            elif k == 'unreachable':
                if self.feasible(s): self.on_panic(s, 'unreachable', 'unreachable code')
                return []
            elif k == 'setdisc':
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('statement %r' % (st,))
        raise Unsupported('block without terminator')

    def drop(self, s, st):
        return None


def _as(inner):
    """'A as B' at top level"""
    depth, i = 0, 0
    while i < len(inner):
        c = inner[i]
        if c in '([{<': depth += 1
        elif c in ')]}' or (c == '>' and inner[i - 1] not in '-='): depth -= 1
        elif depth == 0 and inner.startswith(' as ', i): return inner[:i], inner[i + 4:]
        i += 1
    return None
