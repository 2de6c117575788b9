"""Reader of rustc's textual MIR (--emit=mir, untrimmed paths) and of the type declarations it refers to.

What is read is the compiler's own intermediate representation of /repo's sources; nothing is re-written by hand.
Dropped: cleanup (unwinding) blocks, debug info, types other than those of locals.
"""
import re, os
import functools


class Unsupported(Exception):
    pass


class Fn:
    def __init__(self, path, args, ret, locals_, blocks, where):
        self.path, self.args, self.ret, self.locals, self.blocks, self.where = path, args, ret, locals_, blocks, where
        self._heads = None

    @property
    def heads(self):
        if self._heads is None:
            self._heads = loop_heads(self)
        return self._heads


# ---------------------------------------------------------------- text helpers

def split_top(s, sep=','):
    """Split at top level, outside of brackets, strings and character constants."""
    out, depth, cur, i = [], 0, [], 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-f]+\}|\\x..|\\.|[^'\\])'", s[i:])
            if m:
                cur.append(m.group(0)); i += m.end()
                continue
        if s.startswith('->', i) or s.startswith('=>', i):
            cur.append(s[i:i + 2]); i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur)); cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur)
    if last.strip() or out:
        out.append(last)
    return [x.strip() for x in out if x.strip() != '']


def match_close(s, i):
    """Index of the bracket closing the one at i."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            i = j + 1
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-f]+\}|\\x..|\\.|[^'\\])'", s[i:])
            if m:
                i += m.end()
                continue
        if s.startswith('->', i) or s.startswith('=>', i):
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise Unsupported('unbalanced: ' + s)


@functools.lru_cache(None)
def strip_generics(p):
    """Remove ::<...> groups and lifetime/type arguments that follow a path segment."""
    out, i = [], 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            i = match_close(p, i + 2) + 1
            continue
        if p[i] == '<' and i > 0 and (p[i - 1].isalnum() or p[i - 1] == '_'):
            i = match_close(p, i) + 1
            continue
        if p[i] in '<(':
            # a bracket group that is not a generic argument list: keep, strip inside
            j = match_close(p, i)
            out.append(p[i] + strip_generics(p[i + 1:j]) + p[j])
            i = j + 1
            continue
        out.append(p[i]); i += 1
    return ''.join(out)


ESC = re.compile(r'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)')


def unescape(s):
    def f(m):
        if m.group(2): return chr(int(m.group(2), 16))
        if m.group(3): return chr(int(m.group(3), 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(m.group(1), m.group(1))
    return ESC.sub(f, s)


# ---------------------------------------------------------------- places, operands, rvalues

def parse_place(s):
    """-> (local, [proj...]); proj: ('deref',) ('f', n) ('v', name) ('ix', local) ('cix', n, from_end)"""
    p, rest = _place(s.strip())
    if rest.strip():
        raise Unsupported('place: ' + s)
    return p


def _place(s):
    if s.startswith('_'):
        m = re.match(r'_\d+', s)
        base, rest = (m.group(0), ()), s[m.end():]
    elif s.startswith('(*'):
        j = match_close(s, 0)
        p, r = _place(s[2:j])
        if r.strip(): raise Unsupported('place: ' + s)
        base, rest = (p[0], p[1] + (('deref',),)), s[j + 1:]
    elif s.startswith('('):
        j = match_close(s, 0)
        p, r = _place(s[1:j])
        m = re.match(r'\.(\d+): ', r)
        if m:
            base = (p[0], p[1] + (('f', int(m.group(1))),))
        else:
            m = re.match(r' as (\w+)$', r)
            if not m: raise Unsupported('place: ' + s)
            base = (p[0], p[1] + (('v', m.group(1)),))
        rest = s[j + 1:]
    else:
        raise Unsupported('place: ' + s)
    while rest.startswith('['):
        j = match_close(rest, 0)
        ix = rest[1:j]
        if re.match(r'_\d+$', ix):
            pr = ('ix', ix)
        else:
            m = re.match(r'(-?)(\d+) of \d+$', ix)
            if not m: raise Unsupported('place: ' + s)
            pr = ('cix', int(m.group(2)), bool(m.group(1)))
        base = (base[0], base[1] + (pr,))
        rest = rest[j + 1:]
    return base, rest


def parse_const(c):
    c = c.strip()
    m = re.match(r'(-?\d+)_([iu](?:8|16|32|64|128|size))$', c)
    if m: return ('int', int(m.group(1)), m.group(2))
    if c == 'true': return ('bool', True)
    if c == 'false': return ('bool', False)
    m = re.match(r'(-?[\d.]+(?:[eE][+-]?\d+)?)f(32|64)$', c)
    if m: return ('float', m.group(1))
    if c.startswith('"'): return ('str', unescape(c[1:-1]))
    if c.startswith('b"'): return ('bytes', unescape(c[2:-1]))
    if c.startswith("'"): return ('char', ord(unescape(c[1:-1])))
    if c == '()': return ('unit',)
    m = re.match(r'\{(alloc\d+): ', c)
    if m: return ('alloc', m.group(1))
    m = re.match(r'([iu](?:8|16|32|64|128|size)|char)::(MAX|MIN)$', c)
    if m: return ('lim', m.group(1), m.group(2))
    return ('path', c)


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '): s = s[9:]
    if s.startswith('copy '): return ('copy', parse_place(s[5:]))
    if s.startswith('move '): return ('move', parse_place(s[5:]))
    if s.startswith('const '): return ('const', parse_const(s[6:]))
    if '::' in s and re.match(r'[A-Za-z_<]', s): return ('const', ('path', s))     # a function item
    raise Unsupported('operand: ' + s)


BIN = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr',
       'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'Offset', 'Cmp'}
UN = {'Not', 'Neg', 'PtrMetadata'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '): s = s[9:]
    if re.match(r'(copy|move|const) ', s):
        # use or cast
        parts = _split_as(s)
        if parts: return ('cast', parse_operand(parts[0]), parts[1], parts[2])
        return ('use', parse_operand(s))
    if s.startswith('&'):
        t = s[1:]
        for pre in ('raw const ', 'raw mut ', 'mut ', 'fake shallow ', 'fake ', 'two_phase '):
            if t.startswith(pre): t = t[len(pre):]
        t = t.strip()
        return ('ref', parse_place(t))
    m = re.match(r'(\w+)\((.*)\)$', s)
    if m:
        op, inner = m.group(1), m.group(2)
        if op == 'discriminant': return ('disc', parse_place(inner))
        if op == 'Len': return ('len', parse_place(inner))
        if op in ('CopyForDeref', 'deref_copy'): return ('use', ('copy', parse_place(inner)))
        if op in BIN:
            a, b = split_top(inner)
            return ('bin', op, parse_operand(a), parse_operand(b))
        if op in UN: return ('un', op, parse_operand(inner))
    if s.startswith('deref_copy '): return ('use', ('copy', parse_place(s[11:])))
    if s == '()': return ('tuple', [])
    if s.startswith('(') and match_close(s, 0) == len(s) - 1:
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('[') and match_close(s, 0) == len(s) - 1:
        inner = s[1:-1]
        sc = split_top(inner, ';')
        if len(sc) == 2: return ('repeat', parse_operand(sc[0]), sc[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    # aggregates
    if s.endswith('}'):
        i = s.index(' {')
        # the brace may sit inside of generic arguments; take the last top level one
        path = s[:i].strip()
        body = s[i + 2:-1]
        fields = []
        for f in split_top(body):
            k, v = f.split(':', 1)
            fields.append((k.strip(), parse_operand(v)))
        return ('struct', path, fields)
    if s.endswith(')'):
        # Path::Variant(ops): find the opening bracket of the last group
        i = _last_group(s)
        return ('ctor', s[:i], [parse_operand(x) for x in split_top(s[i + 1:-1])])
    if re.match(r'[\w:<]', s):
        return ('ctor', s, [])
    raise Unsupported('rvalue: ' + s)


def _last_group(s):
    i = 0
    last = None
    while i < len(s):
        if s[i] in '([{<':
            j = match_close(s, i)
            if j == len(s) - 1: return i
            i = j + 1
        else:
            i += 1
    raise Unsupported('group: ' + s)


def _split_as(s):
    """'move _1 as T (Kind)' -> (operand, T, kind) when ' as ' is at top level"""
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == '\\' else 1
            i = j + 1
            continue
        if c in '([{<': depth += 1
        elif c in ')]}>' and not s.startswith('->', i - 1): depth -= 1
        elif depth == 0 and s.startswith(' as ', i):
            rest = s[i + 4:]
            m = re.match(r'(.*) \((\w+.*)\)$', rest)
            return s[:i], m.group(1), m.group(2)
        i += 1
    return None


def parse_targets(t):
    """'[return: bb1, unwind: bb2]' -> bb1; a bare target (or 'unwind continue') is where a diverging call unwinds to"""
    t = t.strip()
    m = re.search(r'(?:return|success): (bb\d+)', t)
    return m.group(1) if m else None


def split_call(s):
    """'CALLEE(ARGS)' -> callee, args text"""
    i = _last_group(s)
    return s[:i], s[i + 1:-1]


def parse_stmt(l):
    l = l.rstrip(';').strip()
    if l.startswith(('StorageLive', 'StorageDead', 'nop', 'PlaceMention', 'FakeRead', 'AscribeUserType', 'Retag', 'Coverage', 'ConstEvalCounter', 'BackwardIncompatibleDropHint')):
        return ('nop',)
    if l in ('return', 'unreachable', 'resume'): return (l,)
    if l.startswith('goto -> '): return ('goto', l[8:])
    if l.startswith('falseEdge') or l.startswith('falseUnwind'):
        m = re.search(r'real: (bb\d+)', l)
        return ('goto', m.group(1))
    if l.startswith('switchInt('):
        j = match_close(l, 9)
        op = parse_operand(l[10:j])
        m = re.match(r' -> \[(.*)\]$', l[j + 1:])
        cases, other = [], None
        for c in m.group(1).split(', '):
            k, b = c.split(': ')
            if k == 'otherwise': other = b
            else: cases.append((int(k), b))
        return ('switch', op, cases, other)
    if l.startswith('drop('):
        j = match_close(l, 4)
        return ('drop', parse_place(l[5:j]), parse_targets(l[j + 1:].strip()[3:]))
    if l.startswith('assert('):
        j = match_close(l, 6)
        parts = split_top(l[7:j])
        cond = parts[0]
        neg = cond.startswith('!')
        return ('assert', parse_operand(cond[1:] if neg else cond), not neg, parts[1] if len(parts) > 1 else '', parse_targets(l[j + 1:].strip()[3:]))
    # calls: an arrow outside of brackets
    k = _top_arrow(l)
    if k is not None:
        left, tgt = l[:k].strip(), l[k + 4:]
        i = _top_eq(left)
        dest, call = (left[:i], left[i + 3:]) if i is not None else (None, left)
        callee, args = split_call(call)
        return ('call', parse_place(dest) if dest else None, callee, [parse_operand(a) for a in split_top(args)], parse_targets(tgt))
    i = _top_eq(l)
    if i is None: raise Unsupported('statement: ' + l)
    dest = l[:i]
    if dest.startswith('discriminant('):
        return ('setdisc', parse_place(dest[13:-1]), int(l[i + 3:]))
    return ('assign', parse_place(dest), parse_rvalue(l[i + 3:]))


def _top_eq(l):
    depth = 0
    i = 0
    while i < len(l):
        c = l[i]
        if c == '"': return None
        if c in '([{<': depth += 1
        elif c in ')]}' or (c == '>' and l[i - 1] not in '-='): depth -= 1
        elif depth == 0 and l.startswith(' = ', i): return i
        i += 1
    return None


def _top_arrow(l):
    depth = 0
    i = 0
    while i < len(l):
        c = l[i]
        if c == '"':
            j = i + 1
            while l[j] != '"': j += 2 if l[j] == '\\' else 1
            i = j + 1
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-f]+\}|\\x..|\\.|[^'\\])'", l[i:])
            if m: i += m.end(); continue
        if depth == 0 and l.startswith(' -> ', i): return i
        if l.startswith('->', i) or l.startswith('=>', i): i += 2; continue
        if c in '([{<': depth += 1
        elif c in ')]}>': depth -= 1
        i += 1
    return None


# ---------------------------------------------------------------- whole file

def parse_file(text):
    """-> (fns: path -> Fn, consts: path -> Fn without args, allocs: name -> ('static', path) | bytes)"""
    lines = text.split('\n')
    fns, consts, allocs = {}, {}, {}
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('fn ') or l.startswith('const ') or l.startswith('static ') or re.match(r'\w.*promoted\[\d+\].*= \{$', l):
            if not l.endswith('{'):
                m = re.match(r'const (.*?): .*? = (const .*);$', l)
                i += 1
                continue
            j = i + 1
            while lines[j] != '}': j += 1
            body = lines[i + 1:j]
            try:
                f = parse_fn(l, body)
            except Exception as e:  # only fatal when the function is needed
                m = re.match(r'(?:fn|const|static) (?:mut )?(.*)', l)
                f = Fn(header_path(l), [], '', {}, {'error': '%s: %s' % (type(e).__name__, e)}, l)
            (fns if l.startswith('fn ') else consts)[f.path] = f
            i = j + 1
            continue
        m = re.match(r'(alloc\d+) \(static: ([\w:]+),', l)
        if m:
            allocs[m.group(1)] = ('static', m.group(2))
        i += 1
    return fns, consts, allocs


def header_path(l):
    l = re.sub(r'^(fn|const|static) (mut )?', '', l)
    if '(' in l or ':' in l:
        # path up to the argument list or the type
        i = 0
        while i < len(l):
            c = l[i]
            if c in '<{':
                i = match_close(l, i) + 1
                continue
            if c == '(' or l.startswith(': ', i): return l[:i]
            i += 1
    return l


def parse_fn(header, body):
    isfn = header.startswith('fn ')
    path = header_path(header)
    rest = re.sub(r'^(fn|const|static) (mut )?', '', header)[len(path):]
    args, locals_ = [], {}
    if isfn:
        j = match_close(rest, 0)
        for a in split_top(rest[1:j]):
            k, t = a.split(':', 1)
            args.append(k.strip()); locals_[k.strip()] = t.strip()
        m = re.match(r' -> (.*) \{$', rest[j + 1:])
        ret = m.group(1) if m else '()'
    else:
        ret = rest[2:].rsplit(' = {', 1)[0]
    blocks = {}
    cur = None
    for l in body:
        s = l.strip()
        m = re.match(r'let (?:mut )?(_\d+): (.*);$', s)
        if m and cur is None:
            locals_[m.group(1)] = m.group(2)
            continue
        m = re.match(r'(bb\d+)( \(cleanup\))?: \{$', s)
        if m:
            cur = [] if not m.group(2) else None
            if cur is not None: blocks[m.group(1)] = cur
            incleanup = bool(m.group(2))
            continue
        if s == '}' or not s or cur is None:
            if s == '}' and l == '    }': cur = None if True else cur
            continue
        st = parse_stmt(s)
        if st[0] != 'nop': cur.append(st)
    m = re.search(r'<impl at ([^>]*?):(\d+):\d+: \d+:\d+>', path)
    return Fn(path, args, ret, locals_, blocks, header)


def succs(st):
    k = st[0]
    if k == 'goto': return [st[1]]
    if k == 'switch': return [b for _, b in st[2]] + ([st[3]] if st[3] else [])
    if k in ('drop',): return [st[2]]
    if k == 'assert': return [st[4]]
    if k == 'call': return [st[4]] if st[4] else []
    return []


def loop_heads(fn):
    """Targets of back edges (natural loops; MIR from Rust source is reducible)."""
    order, seen, heads = [], {}, set()
    stack = [('bb0', iter(succs(fn.blocks['bb0'][-1])))]
    seen['bb0'] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen[s] = 1
                stack.append((s, iter(succs(fn.blocks[s][-1]))))
                break
            elif seen[s] == 1:
                heads.add(s)
        else:
            seen[b] = 2
            stack.pop()
    return heads


# ---------------------------------------------------------------- declarations in the sources

class Types:
    """struct fields and enum variants of the crate, by last path segment, from the source text."""

    def __init__(self, root, files):
        self.enums = {}    # name -> [(variant, arity)]   (several enums may share a name: keyed by module too)
        self.structs = {}  # name -> [field names]
        self.impls = {}    # (file, line) -> (trait or None, type)
        for f in files:
            self.read(f, open(os.path.join(root, f), encoding='utf8').read())

    def read(self, rel, text):
        src = blank_comments(text)
        for m in re.finditer(r'\benum\s+(\w+)\s*(<[^{]*>)?\s*\{', src):
            j = brace_end(src, m.end() - 1)
            vs = []
            for v in split_top(src[m.end():j].replace('\n', ' ')):
                v = re.sub(r'#\[[^\]]*\]', '', v).strip()
                mm = re.match(r'(\w+)\s*(.*)$', v)
                rest = mm.group(2)
                if '=' in rest and not rest.startswith('('):
                    vs = None
                    break
                names = None
                ar = 0
                if rest.startswith('('): ar = len(split_top(rest[1:match_close(rest, 0)]))
                elif rest.startswith('{'):
                    names = [x.split(':')[0].replace('pub ', '').strip() for x in split_top(rest[1:match_close(rest, 0)])]
                    ar = len(names)
                vs.append((mm.group(1), ar, names))
            self.enums.setdefault(m.group(1), []).append(vs)
        for m in re.finditer(r'\bstruct\s+(\w+)\s*(<[^({;]*?>)?\s*(where[^{;]*)?\{', src):
            j = brace_end(src, m.end() - 1)
            fs = [re.sub(r'#\[[^\]]*\]|pub(\([^)]*\))?\s', '', x).split(':')[0].strip() for x in split_top(src[m.end():j].replace('\n', ' '))]
            self.structs.setdefault(m.group(1), []).append([f for f in fs if f])
        line = 1
        for m in re.finditer(r'\bimpl\b', src):
            line = src.count('\n', 0, m.start()) + 1
            j = m.end()
            t = src[j:src.index('{', j)].replace('\n', ' ')
            t = t.split(' where')[0].strip()
            if t.startswith('<'): t = t[match_close(t, 0) + 1:].strip()
            if ' for ' in t:
                a, b = t.split(' for ', 1)
            else:
                a, b = None, t
            self.impls[(rel, line)] = (last_seg(a) if a else None, last_seg(b))
        # derives: '#[derive(A, B)]' at line L, columns of each trait name
        for i, l in enumerate(src.split('\n')):
            for m in re.finditer(r'\b[A-Z]\w+\b', l) if 'derive(' in l else []:
                self.impls[(rel, i + 1, m.start() + 1)] = (m.group(0), derive_target(src, i))


def derive_target(src, i):
    m = re.search(r'\b(?:struct|enum)\s+(\w+)', '\n'.join(src.split('\n')[i:]))
    return m.group(1) if m else '?'


@functools.lru_cache(None)
def last_seg(t):
    t = t.strip()
    neg = ''
    while t.startswith('&'):
        t = re.sub(r"^&('\w+ )?(mut )?", '', t).strip()
        neg += '&'
    t = strip_generics(t).strip()
    t = t.split('::')[-1].strip()
    return neg + re.sub(r'^(dyn|mut) ', '', t)


def blank_comments(t):
    out, i = [], 0
    while i < len(t):
        if t.startswith('//', i):
            j = t.find('\n', i)
            j = len(t) if j < 0 else j
            out.append(' ' * (j - i)); i = j
        elif t.startswith('/*', i):
            j = t.index('*/', i) + 2
            out.append(re.sub(r'[^\n]', ' ', t[i:j])); i = j
        elif t[i] == '"':
            j = i + 1
            while t[j] != '"': j += 2 if t[j] == '\\' else 1
            out.append('"' + re.sub(r'[^\n]', '_', t[i + 1:j]) + '"'); i = j + 1
        elif t[i] == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^'\\])'", t[i:])
            if m:
                out.append("'" + '_' * (m.end() - 2) + "'"); i += m.end()
            else:
                out.append(t[i]); i += 1
        else:
            out.append(t[i]); i += 1
    return ''.join(out)


def brace_end(s, i):
    d = 0
    while True:
        if s[i] == '{': d += 1
        elif s[i] == '}':
            d -= 1
            if d == 0: return i
        i += 1
