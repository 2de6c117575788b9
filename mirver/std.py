"""Models of the standard library functions that the verified code calls (trusted: they are what the documentation says)."""
from core import *


class Buf:
    """bytes behind strings; data is None for the source text"""
    def __init__(self, name, data=None):
        self.name, self.data = name, data

    def __repr__(self):
        return self.name if self.data is None else repr(self.data)


NONE = Enum('Option', 'None')


def some(v):
    return Enum('Option', 'Some', (v,))


class Cat:
    """an owned string: the concatenation of parts"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def same(self, o):
        return len(self.parts) == len(o.parts) and all(same(a, b) for a, b in zip(self.parts, o.parts))

    def __repr__(self):
        return 'Cat%r' % (self.parts,)


PLAIN_INT = {'usize', 'u64', 'u32', 'u16', 'u8', 'isize', 'i64', 'i32', 'i16', 'i8'}


class StdEngine(Engine):
    def __init__(self, prog, **kw):
        Engine.__init__(self, prog, **kw)
        self.lit_cache = {}

    def lit(self, b):
        if b not in self.lit_cache: self.lit_cache[b] = Str(Buf(repr(b), b), 0, len(b))
        return self.lit_cache[b]

    def byte(self, s, st, i):
        """the byte of a string at an index known to be in range"""
        p = add(st.off, i)
        if st.buf.data is not None:
            if isinstance(p, int): return st.buf.data[p]
            raise Unsupported('index of a literal')
        return self.src_byte(s, p)

    def src_byte(self, s, p):
        raise Unsupported('source byte')

    # ---- helpers
    def deref(self, s, v):
        while True:
            if isinstance(v, Ref): v = self.load(s, v.cell, v.path)
            elif isinstance(v, ValRef): v = v.val
            else: return v

    def deref1(self, s, v):
        if isinstance(v, Ref): return self.load(s, v.cell, v.path)
        if isinstance(v, ValRef): return v.val
        raise Unsupported('reference expected: %r' % (v,))

    def as_str(self, s, v):
        v = self.deref(s, v)
        if isinstance(v, Enum) and v.name == 'Cow': v = self.deref(s, v.vals[0])
        if isinstance(v, Cat) and len(v.parts) == 1: v = v.parts[0]
        if isinstance(v, Str): return v
        raise Unsupported('string expected: %r' % (v,))

    def str_eq(self, s, a, b):
        """condition under which two strings are equal"""
        if a.buf.data is not None and b.buf.data is not None and all(isinstance(x, int) for x in (a.off, a.n, b.off, b.n)):
            return a.buf.data[a.off:a.off + a.n] == b.buf.data[b.off:b.off + b.n]
        if a.buf.data is None: a, b = b, a
        if a.buf.data is not None and isinstance(a.off, int) and isinstance(a.n, int) and b.buf.data is None:
            cs = [eq(b.n, a.n)]
            for k in range(a.n):
                cs.append(eq(self.src_byte_opt(s, add(b.off, k)), a.buf.data[a.off + k]))
            return band(*cs)
        if a.buf is b.buf and same(a.off, b.off) and same(a.n, b.n): return True
        raise Unsupported('string comparison')

    def src_byte_opt(self, s, p):
        return self.src_byte(s, p)

    def split(self, s, c):
        """[(state, truth)] for a condition"""
        if c is True or c is False: return [(s, c)]
        t, f = self.feasible(s, c), self.feasible(s, bnot(c))
        if t and not f: return [(s, True)]
        if f and not t: return [(s, False)]
        a, b = s.fork(), s.fork()
        self.assume(a, c)
        self.assume(b, bnot(c))
        return [(a, True), (b, False)]

    def require(self, s, c, msg):
        """the callee panics unless c"""
        if c is True: return
        if self.feasible(s, bnot(c)):
            t = s.fork()
            self.assume(t, bnot(c))
            try:
                self.on_panic(t, 'callee', msg)
            except Stop:
                pass
        if not self.feasible(s, c): raise Stop()
        self.assume(s, c)

    def boundary(self, s, st, i):
        if st.buf.data is not None: return True
        return True

    def slice(self, s, st, rng, is_str):
        n = st.n
        if isinstance(rng, Agg) and rng.name == 'Range': a, b = rng.vals
        elif isinstance(rng, Agg) and rng.name == 'RangeFrom': a, b = rng.vals[0], n
        elif isinstance(rng, Agg) and rng.name == 'RangeTo': a, b = 0, rng.vals[0]
        elif isinstance(rng, Agg) and rng.name == 'RangeFull': a, b = 0, n
        else: raise Unsupported('range %r' % (rng,))
        self.require(s, band(le(a, b), le(b, n)), 'slice index out of range')
        if is_str:
            self.require(s, band(self.boundary(s, st, a), self.boundary(s, st, b)), 'slice index not on a character boundary')
        return Str(st.buf, add(st.off, a), sub(b, a))

    # ---- iterators: Agg('SliceIter', (buf, off, end)), ...
    def it_next(self, s, it):
        """-> [(state, item or None, iterator)]"""
        if it.name == 'SliceIter':
            buf, off, end = it.vals
            out = []
            for t, more in self.split(s, lt(off, end)):
                if more:
                    v = self.byte(t, Str(buf, 0, end), off)
                    out.append((t, ValRef(v), Agg('SliceIter', (buf, add(off, 1), end))))
                else: out.append((t, None, it))
            return out
        if it.name == 'Bytes':
            return [(t, v.val if v is not None else None, Agg('Bytes', (i,))) for t, v, i in self.it_next(s, it.vals[0])]
        if it.name in ('Copied', 'Cloned'):
            return [(t, self.deref1(t, v) if v is not None else None, Agg(it.name, (i,))) for t, v, i in self.it_next(s, it.vals[0])]
        if it.name == 'Enumerate':
            inner, k = it.vals
            return [(t, Agg('', (k, v)) if v is not None else None, Agg('Enumerate', (i, add(k, 1) if v is not None else k)))
                    for t, v, i in self.it_next(s, inner)]
        if it.name == 'Chars':
            out = []
            buf, off, end = it.vals
            for t, more in self.split(s, lt(off, end)):
                if not more:
                    out.append((t, None, it))
                    continue
                for u, c, w in self.decode(t, buf, off, end):
                    out.append((u, c, Agg('Chars', (buf, add(off, w), end))))
            return out
        if it.name == 'CharIndices':
            inner, base = it.vals
            return [(t, Agg('', (sub(inner.vals[1], base), v)) if v is not None else None, Agg('CharIndices', (i, base)))
                    for t, v, i in self.it_next(s, inner)]
        if it.name == 'Skip':
            inner, k = it.vals
            if not isinstance(k, int) or k > 8: raise Unsupported('skip by %r' % (k,))
            cur = [(s, inner, 0)]
            for _ in range(k):
                nx = []
                for t, i, done in cur:
                    if done:
                        nx.append((t, i, 1))
                        continue
                    for u, v, j in self.it_next(t, i): nx.append((u, j, 0 if v is not None else 1))
                cur = nx
            out = []
            for t, i, done in cur:
                if done: out.append((t, None, Agg('Skip', (i, 0))))
                else:
                    for u, v, j in self.it_next(t, i): out.append((u, v, Agg('Skip', (j, 0))))
            return out
        if it.name == 'Peekable':
            inner, pk = it.vals
            if isinstance(pk, Enum) and pk.var == 'Some':
                v = pk.vals[0]
                return [(s, v.vals[0] if v.var == 'Some' else None, Agg('Peekable', (inner, NONE)))]
            return [(t, v, Agg('Peekable', (i, NONE))) for t, v, i in self.it_next(s, inner)]
        if it.name == 'VecIter':
            vals = it.vals
            if not vals: return [(s, None, it)]
            return [(s, vals[0], Agg('VecIter', vals[1:]))]
        if it.name == 'Range':
            a, b = it.vals
            return [(t, a if more else None, Agg('Range', (add(a, 1), b)) if more else it) for t, more in self.split(s, lt(a, b))]
        if it.name == 'RangeFrom':
            a = it.vals[0]
            return [(s, a, Agg('RangeFrom', (add(a, 1),)))]
        raise Unsupported('iterator ' + str(it.name))

    def decode(self, s, buf, off, end):
        """-> [(state, char, width)] of the character at off"""
        if buf.data is not None:
            b = buf.data[off:end].decode('utf8')[0]
            return [(s, ord(b), len(b.encode('utf8')))]
        raise Unsupported('chars')

    def char_class(self, name, c):
        r = lambda a, b: band(le(ord(a), c), le(c, ord(b)))
        lower, upper, digit = r('a', 'z'), r('A', 'Z'), r('0', '9')
        return {
            'is_ascii_digit': lambda: digit,
            'is_ascii_lowercase': lambda: lower,
            'is_ascii_uppercase': lambda: upper,
            'is_ascii_alphabetic': lambda: bor(lower, upper),
            'is_ascii_alphanumeric': lambda: bor(lower, upper, digit),
            'is_ascii_hexdigit': lambda: bor(digit, r('a', 'f'), r('A', 'F')),
            'is_ascii': lambda: le(c, 127),
            'is_ascii_whitespace': lambda: bor(eq(c, 9), eq(c, 10), eq(c, 12), eq(c, 13), eq(c, 32)),
        }[name]()

    def default_of(self, s, ty):
        ty = ty.strip()
        if ty == 'bool': return False
        if ty in PLAIN_INT: return 0
        if ty.startswith('std::option::Option'): return NONE
        if ty.startswith('std::vec::Vec'): return Agg('Vec', ())
        return None

    # ---- calls
    def intrinsic(self, s, callee, args, st):
        r = self.std_call(s, callee, args, st)
        if r is None or isinstance(r, list): return r
        return [(s, r)]

    def std_call(self, s, callee, args, st):
        c = callee
        key = self.callee_key(c)
        if isinstance(key, str):
            seg = strip_generics(c).split('::')
            if seg[-1] == 'begin_panic': self.panic(s, 'panic', self.msg(s, args))
            if seg[-2:] == ['panicking', 'panic_fmt']: self.panic(s, 'panic', self.msg(s, args))
            return None
        ty, tr, m = key
        if m in ('begin_panic', 'panic_fmt', 'panic_display', 'panic_str', 'panic_explicit') and tr is None and ty in ('rt', 'panicking'):
            self.panic(s, 'panic', self.msg(s, args))
        if ty == 'panicking':
            if m in ('panic', 'panic_nounwind'):
                msg = self.msg(s, args)
                self.panic(s, 'unreachable' if 'unreachable' in msg or 'assertion' in msg else
                           'panic', msg)
            if m == 'unreachable_display': self.panic(s, 'unreachable', self.msg(s, args))
            if m.startswith('assert_failed'): self.panic(s, 'unreachable', 'assertion failed')
            if m.startswith('panic'): self.panic(s, 'callee', m)
        if ty in ('Arguments', 'Argument'): return Opaque('fmt:' + self.msg(s, args))
        if tr == 'Index' and m == 'index' and ty in ('str', '[u8]'):
            return self.slice(s, self.as_str(s, args[0]), args[1], ty == 'str')
        if ty == 'str' and tr is None or (ty == '[u8]' and tr is None):
            v = None
            if m in ('as_bytes', 'len', 'is_empty', 'starts_with', 'chars', 'char_indices', 'bytes', 'iter', 'get', 'first', 'as_str', 'is_char_boundary', 'as_ref', 'to_owned', 'to_string', 'get_unchecked', 'split_at'):
                v = self.as_str(s, args[0])
            if m == 'as_bytes': return v
            if m == 'len': return v.n
            if m == 'is_empty': return eq(v.n, 0)
            if m == 'starts_with':
                p = self.deref(s, args[1])
                if isinstance(p, Str) and p.buf.data is not None:
                    cs = [le(p.n, v.n)]
                    for k in range(p.n): cs.append(eq(self.src_byte_opt(s, add(v.off, k)) if v.buf.data is None else self.byte(s, v, k), p.buf.data[p.off + k]))
                    return band(*cs)
                if isinstance(p, int):
                    e = chr(p).encode('utf8')
                    return band(le(len(e), v.n), *[eq(self.src_byte_opt(s, add(v.off, k)), e[k]) for k in range(len(e))])
            if m == 'is_char_boundary':
                return band(le(args[1], v.n), self.boundary(s, v, args[1]))
            if m == 'chars': return Agg('Chars', (v.buf, v.off, add(v.off, v.n)))
            if m == 'char_indices': return Agg('CharIndices', (Agg('Chars', (v.buf, v.off, add(v.off, v.n))), v.off))
            if m == 'iter': return Agg('SliceIter', (v.buf, v.off, add(v.off, v.n)))
            if m == 'bytes': return Agg('Bytes', (Agg('SliceIter', (v.buf, v.off, add(v.off, v.n))),))
            if m in ('get', 'first') and ty == '[u8]':
                i = args[1] if m == 'get' else 0
                if is_num(i):
                    out = []
                    for t, ok in self.split(s, lt(i, v.n)):
                        out.append((t, some(ValRef(self.byte(t, v, i))) if ok else NONE))
                    return out
        if tr == 'Iterator' or (ty in ('Peekable',) and tr is None):
            if m in ('enumerate', 'skip', 'peekable', 'copied', 'cloned', 'by_ref') and isinstance(args[0], Agg):
                it = args[0]
                if m == 'enumerate': return Agg('Enumerate', (it, 0))
                if m == 'skip':
                    if not isinstance(args[1], int) or args[1] > 8: raise Unsupported('skip')
                    cur = [(s, it)]
                    for _ in range(args[1]): cur = [(u, j) for t, i in cur for u, v, j in self.it_next(t, i)]
                    return [(t, Agg('Skip', (i, 0))) for t, i in cur]
                if m == 'peekable': return Agg('Peekable', (it, NONE))
                if m == 'copied': return Agg('Copied', (it,))
                if m == 'cloned': return Agg('Cloned', (it,))
            if m == 'next':
                ref = args[0]
                it = self.deref1(s, ref)
                out = []
                for t, v, i in self.it_next(s, it):
                    self.store(t, ref.cell, ref.path, i)
                    out.append((t, some(v) if v is not None else NONE))
                return out
            if m == 'peek':
                ref = args[0]
                it = self.deref1(s, ref)
                if it.vals[1].var == 'Some': return some(ValRef(it.vals[1].vals[0].vals[0])) if it.vals[1].vals[0].var == 'Some' else NONE
                out = []
                for t, v, i in self.it_next(s, it.vals[0]):
                    pk = some(v) if v is not None else NONE
                    self.store(t, ref.cell, ref.path, Agg('Peekable', (i, some(pk))))
                    out.append((t, some(ValRef(v)) if v is not None else NONE))
                return out
            if m == 'nth':
                ref = args[0]
                k = args[1]
                if isinstance(k, int) and k <= 8:
                    cur = [(s, self.deref1(s, ref), NONE)]
                    for _ in range(k + 1):
                        nx = []
                        for t, i, last in cur:
                            for u, v, j in self.it_next(t, i): nx.append((u, j, some(v) if v is not None else NONE))
                        cur = nx
                    for t, i, _ in cur: self.store(t, ref.cell, ref.path, i)
                    return [(t, v) for t, i, v in cur]
            if m == 'collect' and isinstance(args[0], Agg) and args[0].name == 'VecIter':
                if 'String' in c: return self.concat(s, args[0].vals)
        if tr == 'IntoIterator' and m == 'into_iter':
            v = args[0]
            if isinstance(v, Agg):
                if v.name == 'Vec': return Agg('VecIter', v.vals)
                return v
            w = self.deref(s, v)
            if isinstance(w, Str) and ty == '&[u8]': return Agg('SliceIter', (w.buf, w.off, add(w.off, w.n)))
            return v
        if tr in ('Into', 'From') and m in ('into', 'from'):
            return self.convert(s, key, c, args[0])
        if ty == 'Cow':
            if tr == 'Deref' and m == 'deref': return self.as_str(s, args[0])
            if tr == 'Clone' and m == 'clone': return self.deref(s, args[0])
        if tr in ('PartialEq',) and m in ('eq', 'ne') and ty in ('str', 'Cow', '&str', '&Cow', 'String', '&String', '&&str'):
            e = self.str_eq(s, self.as_str(s, args[0]), self.as_str(s, args[1]))
            return e if m == 'eq' else bnot(e)
        if tr in ('PartialEq', 'PartialOrd') and m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(args) == 2:
            a, b = self.peel(s, args[0]), self.peel(s, args[1])
            if is_num(a) and is_num(b):
                return {'eq': eq(a, b), 'ne': bnot(eq(a, b)), 'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[m]
            if m in ('eq', 'ne') and isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name == 'Option':
                r = None
                if a.var != b.var: r = False
                elif a.var == 'None': r = True
                else:
                    x, y = self.peel(s, a.vals[0]), self.peel(s, b.vals[0])
                    if is_num(x) and is_num(y): r = eq(x, y)
                if r is not None: return r if m == 'eq' else bnot(r)
        if tr in ('Add', 'Sub', 'Mul') and ty.lstrip('&') in PLAIN_INT and m == tr.lower():
            a, b = self.peel(s, args[0]), self.peel(s, args[1])
            if is_num(a) and is_num(b):
                v = {'add': add, 'sub': sub, 'mul': mul}[m](a, b)
                lo, hi = self.RANGE[ty.lstrip('&')]
                self.require(s, band(le(lo, v), le(v, hi)), 'arithmetic overflow')
                return v
        if tr == 'PartialEq' and m in ('eq', 'ne') and ty.startswith('&'):
            f = self.find_fn((ty.lstrip('&'), 'PartialEq', 'eq'))
            if f is not None and m == 'eq':
                a, b = args
                while True:
                    x = self.deref1(s, a)
                    if not isinstance(x, (Ref, ValRef)): break
                    a, b = x, self.deref1(s, b)
                return [('enter', f, (a, b))]
        if ty == 'Vec':
            if m in ('new', 'with_capacity') : return Agg('Vec', ())
            if m == 'push':
                v = self.deref1(s, args[0])
                if isinstance(v, Agg) and v.name == 'Vec':
                    self.store(s, args[0].cell, args[0].path, Agg('Vec', v.vals + (args[1],)))
                    return UNIT
            if m == 'pop':
                v = self.deref1(s, args[0])
                if isinstance(v, Agg) and v.name == 'Vec':
                    if not v.vals: return NONE
                    self.store(s, args[0].cell, args[0].path, Agg('Vec', v.vals[:-1]))
                    return some(v.vals[-1])
            if m in ('len', 'is_empty'):
                v = self.deref1(s, args[0])
                if isinstance(v, Agg) and v.name == 'Vec': return len(v.vals) if m == 'len' else not v.vals
        if ty == 'Option' and tr is None:
            v = self.deref(s, args[0])
            if isinstance(v, Enum):
                if m in ('unwrap', 'expect'):
                    if v.var == 'None': self.panic(s, 'callee', 'unwrap of None')
                    return v.vals[0]
                if m == 'is_some': return v.var == 'Some'
                if m == 'is_none': return v.var == 'None'
                if m == 'unwrap_or': return v.vals[0] if v.var == 'Some' else args[1]
                if m == 'take' and isinstance(args[0], Ref):
                    self.store(s, args[0].cell, args[0].path, NONE)
                    return v
                if m == 'as_ref':
                    return some(Ref(args[0].cell, args[0].path + (('f', 0),)) if isinstance(args[0], Ref) else ValRef(v.vals[0])) if v.var == 'Some' else NONE
                if m in ('cloned', 'copied'): return some(self.deref1(s, v.vals[0])) if v.var == 'Some' else NONE
                if m == 'ok_or': return Enum('Result', 'Ok', (v.vals[0],)) if v.var == 'Some' else Enum('Result', 'Err', (args[1],))
        if ty == 'Result' and tr is None:
            v = self.deref(s, args[0])
            if isinstance(v, Enum):
                if m in ('unwrap', 'expect'):
                    if v.var == 'Err': self.panic(s, 'callee', 'unwrap of Err')
                    return v.vals[0]
                if m == 'is_ok': return v.var == 'Ok'
                if m == 'is_err': return v.var == 'Err'
                if m == 'ok': return some(v.vals[0]) if v.var == 'Ok' else NONE
        if tr == 'Try' and m == 'branch':
            v = args[0]
            if isinstance(v, Enum):
                if v.var in ('Ok', 'Some'): return Enum('ControlFlow', 'Continue', v.vals)
                return Enum('ControlFlow', 'Break', (Enum(v.name, v.var, v.vals),))
        if tr == 'FromResidual' and m == 'from_residual':
            v = args[0]
            if isinstance(v, Enum) and v.var in ('Err', 'None'): return v
        if m == 'err_msg': return Opaque('error')
        if ty == 'mem' and m == 'replace':
            old = self.deref1(s, args[0])
            self.store(s, args[0].cell, args[0].path, args[1])
            return old
        if ty == 'mem' and m == 'swap':
            a, b = self.deref1(s, args[0]), self.deref1(s, args[1])
            self.store(s, args[0].cell, args[0].path, b)
            self.store(s, args[1].cell, args[1].path, a)
            return UNIT
        if ty == 'mem' and m == 'take':
            old = self.deref1(s, args[0])
            d = Enum('Option', 'None') if isinstance(old, Enum) and old.name == 'Option' else False if isinstance(old, bool) else 0 if isinstance(old, int) else None
            if d is not None:
                self.store(s, args[0].cell, args[0].path, d)
                return old
        if tr == 'Default' and m == 'default':
            mm = re.match(r'<(.*) as ', c)
            d = self.default_of(s, mm.group(1)) if mm else None
            if d is not None: return d
        if tr == 'Clone' and m == 'clone' and ty in PLAIN_INT | {'bool', 'char'}: return self.deref(s, args[0])
        if tr in ('Ord', None) and ty in ('cmp', *PLAIN_INT) and m in ('min', 'max') and is_num(args[0]) and is_num(args[1]):
            cnd = le(args[0], args[1])
            a, b = (args[0], args[1]) if m == 'min' else (args[1], args[0])
            return a if cnd is True else b if cnd is False else z3.If(cnd, zv(a), zv(b))
        if tr is None and ty in PLAIN_INT and is_num(args[0]):
            lo, hi = self.RANGE[ty]
            op = {'add': add, 'sub': sub, 'mul': mul}.get(m.split('_')[-1])
            if m.startswith('saturating_') and op:
                v = op(args[0], args[1])
                if isinstance(v, int): return min(max(v, lo), hi)
                return z3.If(v > hi, z3.IntVal(hi), z3.If(v < lo, z3.IntVal(lo), v))
            if m.startswith('checked_') and op:
                v = op(args[0], args[1])
                return [(t, some(v) if ok else NONE) for t, ok in self.split(s, band(le(lo, v), le(v, hi)))]
            if m.startswith('is_ascii') : return self.char_class(m, args[0])
        if m.startswith('is_ascii') and tr is None and ty in ('u8', 'char'):
            return self.char_class(m, self.deref(s, args[0]))
        if ty == 'char' and m == 'len_utf8' and tr is None:
            ch = args[0]
            if isinstance(ch, int): return len(chr(ch).encode('utf8'))
            return z3.If(ch < 128, z3.IntVal(1), z3.If(ch < 0x800, z3.IntVal(2), z3.If(ch < 0x10000, z3.IntVal(3), z3.IntVal(4))))
        if ty == 'f64' and m == 'powi': return self.powi(s, args[0], args[1])
        return None

    def powi(self, s, a, b):
        raise Unsupported('powi')

    def convert(self, s, key, callee, v):
        ty, tr, m = key
        tgt = ty if tr == 'From' else None
        mm = re.search(r'(?:Into|From)<(.*)>>::', callee)
        other = last_seg(mm.group(1)) if mm else None
        if tr == 'Into': src, tgt = ty, other
        else: src = other
        if tgt == 'Cow':
            w = self.deref(s, v)
            if isinstance(w, Str): return Enum('Cow', 'Borrowed', (w,))
            if isinstance(w, Cat): return Enum('Cow', 'Owned', (w,))
        if tgt == 'String':
            w = self.deref(s, v)
            if isinstance(w, Str): return Cat((w,))
        if tgt == 'Error': return Opaque('error')
        if src == tgt: return v
        if tr == 'Into':
            f = [g for k, g in ((k, g) for k, gs in self.prog.by_key.items() for g in gs)
                 if isinstance(k, tuple) and k[0] == tgt and k[1] == 'From' and k[2] == 'from' and last_seg(g.locals[g.args[0]].lstrip('&')) == src]
            if len(f) == 1: return [('enter', f[0], (v,))]
        if src in PLAIN_INT and (tgt in PLAIN_INT or tgt == 'f64') and is_num(v):
            return v if tgt != 'f64' else (Fraction(v) if isinstance(v, int) else z3.ToReal(v))
        return None

    def concat(self, s, vals):
        return Cat([self.as_str(s, v) for v in vals])

    def msg(self, s, args):
        for a in args:
            if isinstance(a, Opaque): return a.tag
            try:
                v = self.deref(s, a)
            except Exception:
                continue
            if isinstance(v, Str) and v.buf.data is not None: return v.buf.data.decode('utf8', 'replace')
            if isinstance(v, Opaque): return v.tag
        return ''

    def panic(self, s, kind, msg):
        self.on_panic(s, kind, msg)
        raise Stop()

    def call(self, s, st):
        dest, callee, argops, ret = st[1], st[2], st[3], st[4]
        args = [self.operand(s, a) for a in argops]
        r = None
        key = self.callee_key(callee)
        fn = self.find_fn(key)
        if fn is None and isinstance(key, tuple) and key[1] is not None:
            g = self.find_fn((key[0], None, key[2]))
            if g is not None and False: fn = g
        c = self.contract(s, key, fn, args)
        if c is not None: r = c
        elif fn is not None: return [self.enter(s, fn, args, dest, ret)]
        else:
            r = self.libcall(s, key, args, dest, ret)
            if r: return r[1] if r[0] == 'go' else self.put(r[1], dest, ret)
            r = self.intrinsic(s, callee, args, st)
            if r is None: raise Unsupported('call of ' + callee)
            if r and r[0][0] == 'enter': return [self.enter(s, r[0][1], r[0][2], dest, ret)]
        return self.put(r, dest, ret)

    def put(self, r, dest, ret):
        out = []
        for t, v in r:
            if ret is None: continue
            if dest is not None:
                cell, path = self.resolve(t, dest)
                self.store(t, cell, path, v)
            t.top.block, t.top.i = ret, 0
            out.append(t)
        return out

    # ---- library functions by their reference definitions (libmodel.rs), and functions that call a function value
    LOOPS = ('position', 'count', 'find', 'find_map', 'any', 'all', 'fold', 'for_each', 'last')
    ADAPTERS = {'take_while': 'TakeWhile', 'skip_while': 'SkipWhile', 'filter': 'Filter', 'map': 'Map'}

    def libcall(self, s, key, args, dest, ret):
        """-> ('go', states) or ('val', [(state, value)]) or None"""
        if not isinstance(key, tuple) or not args: return None
        ty, tr, m = key
        if tr in ('FnOnce', 'FnMut', 'Fn') and m in ('call_once', 'call_mut', 'call'):
            if not isinstance(args[1], Agg): raise Unsupported('arguments of a closure')
            return self.apply(s, args[0], list(args[1].vals), None, dest, ret)
        lib = None
        if tr == 'Iterator':
            it = self.peel(s, args[0])
            if m in self.ADAPTERS and isinstance(args[0], Agg):
                nm = self.ADAPTERS[m]
                return 'val', [(s, Agg(nm, (args[0], False, args[1]) if nm.endswith('While') else (args[0], args[1])))]
            if m in self.LOOPS and isinstance(it, Agg): lib = 'Iterator_' + m
            if m == 'next' and isinstance(it, Agg) and it.name in self.ADAPTERS.values(): lib = it.name + '_next'
        if (ty, tr) == ('str', None) and m == 'find':
            p = self.peel(s, args[1])
            if isinstance(p, Str): lib = 'str_find_str'
            elif is_num(p): lib = 'str_find_char'
            elif isinstance(p, (FnItem, Agg)) and ('{closure@' in str(p) or isinstance(p, FnItem)): lib = 'str_find_fn'
        if (ty, tr) == ('[u8]', None) and m == 'contains':
            x = self.peel(s, args[1])
            v = self.peel(s, args[0])
            if isinstance(v, Agg) and v.name == '[]' and all(is_num(y) for y in v.vals): return 'val', [(s, bor(*[eq(x, y) for y in v.vals]))]
            if isinstance(v, Str) and v.buf.data is not None: return 'val', [(s, bor(*[eq(x, v.buf.data[v.off + k]) for k in range(v.n)]))]
            lib = 'slice_contains'
        if ty in ('Option', 'Result') and tr is None and isinstance(args[0], Enum):
            v = args[0]
            good = v.var in ('Some', 'Ok')
            val = lambda x: ('val', [(s, x)])
            err = list(v.vals) if v.name == 'Result' else []
            if m == 'map': return self.apply(s, args[1], list(v.vals), (v.name, v.var), dest, ret) if good else val(v)
            if m == 'map_err': return val(v) if good else self.apply(s, args[1], list(v.vals), ('Result', 'Err'), dest, ret)
            if m == 'and_then': return self.apply(s, args[1], list(v.vals), None, dest, ret) if good else val(v)
            if m == 'map_or': return self.apply(s, args[2], list(v.vals), None, dest, ret) if good else val(args[1])
            if m == 'map_or_else': return self.apply(s, args[2], list(v.vals), None, dest, ret) if good else self.apply(s, args[1], err, None, dest, ret)
            if m == 'unwrap_or_else': return val(v.vals[0]) if good else self.apply(s, args[1], err, None, dest, ret)
            if m == 'or_else': return val(v) if good else self.apply(s, args[1], err, None, dest, ret)
            if m == 'ok_or_else': return val(Enum('Result', 'Ok', v.vals)) if good else self.apply(s, args[1], [], ('Result', 'Err'), dest, ret)
            if m in ('is_some_and', 'is_ok_and'): return self.apply(s, args[1], list(v.vals), None, dest, ret) if good else val(False)
            if m == 'is_none_or': return self.apply(s, args[1], list(v.vals), None, dest, ret) if good else val(True)
            if m == 'or': return val(v if good else args[1])
        if (ty, tr, m) == ('bool', None, 'then'):
            out = []
            for t, b in self.split(s, args[0]):
                if b: out += self.apply(t, args[1], [], ('Option', 'Some'), dest, ret)[1]
                else: out += self.put([(t, NONE)], dest, ret)
            return 'go', out
        if lib is None: return None
        f = self.prog.lib[lib]
        return 'go', [self.enter(s, f, list(args), dest, ret)]

    def peel(self, s, v):
        while True:
            if isinstance(v, Ref): v = self.load(s, v.cell, v.path)
            elif isinstance(v, ValRef): v = v.val
            else: return v

    def apply(self, s, f, args, wrap, dest, ret):
        """call the function value f"""
        g = self.peel(s, f)
        ty = g.name if isinstance(g, Agg) else g.path if isinstance(g, FnItem) else ''
        m = re.search(r'\{closure@[^}]*\}', ty)
        if m:
            fs = [x for p, x in self.prog.fns.items() if x.args and m.group(0) in x.locals[x.args[0]] and re.search(r'\{closure#\d+\}$', p)]
            if len(fs) != 1: raise Unsupported('closure ' + ty)
            x = fs[0]
            if x.locals[x.args[0]].startswith('&'):
                if not isinstance(f, Ref):
                    cell = ('C', len(s.frames), s.top.block)
                    s.mem[cell] = g
                    f = Ref(cell)
            else: f = g
            t = self.enter(s, x, [f] + args, dest, ret)
            t.top.wrap = wrap
            return 'go', [t]
        if isinstance(g, FnItem):
            x = self.find_fn(self.callee_key(g.path))
            if x is not None:
                t = self.enter(s, x, args, dest, ret)
                t.top.wrap = wrap
                return 'go', [t]
            sp = strip_generics(g.path).split('::')
            if len(sp) > 1 and self.is_enum(sp[-2], sp[-1]): r = [(s, Enum(sp[-2], sp[-1], args))]
            else:
                r = self.intrinsic(s, g.path, args, None)
                if r and r[0][0] == 'enter': r = None
            if r is not None: return 'go', self.put([(t, Enum(wrap[0], wrap[1], [v]) if wrap else v) for t, v in r], dest, ret)
        raise Unsupported('call of %r' % (g,))
