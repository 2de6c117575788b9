"""Contracts of the parser's functions, checked on their MIR against the reference grammar.

The contract of a parsing function f with grammar symbol NT and grammar context c (its flags and bool parameters):

  requires  the buffered tokens are the next tokens of the stream, the context in the parser is c, hint.template =
            flags.expect_template = "the innermost open brace or substitution is a substitution"
  ensures   Ok(Some): the tokens consumed are a sentence of NT in c, and nothing continues it
            Ok(None): nothing was consumed and the next tokens do not begin NT in c
            Err:      no program goes on from here with the tokens seen
            flags, flags_stack and hint.template are as at entry

Every function is run symbolically over its MIR with the reference grammar's machine (gmach.py) as ghost state; calls of
functions under contract advance the machine by the callee's symbol and use only its contract (and its exits: how many
tokens it leaves buffered, which tokens it may stop at).  Loops are handled by exploring their abstract states until
nothing new appears; the state space is finite, so this covers every iteration.  Nothing is bounded.
"""
import time
import core
from core import *
from mir import *
import cfg
import gmach
from gmach import G, Mach, NeedFlag, FI, FL, NC, OTHER

NT_OF = {
    'parse_module': 'Module', 'parse_import_declaration': 'Import', 'parse_export_declaration': 'Export',
    'parse_declaration': 'Decl', 'parse_let_declaration': 'LetDecl', 'parse_const_declaration': 'ConstDecl',
    'parse_lexical_declarator': 'LexBinding', 'parse_statement': 'Statement', 'parse_block_statement': 'Block',
    'parse_variable_statement': 'VarStmt', 'parse_var_declarator': 'VarBinding', 'parse_binding_pattern': 'Pattern',
    'parse_object_binding_pattern': 'ObjPattern', 'parse_array_binding_pattern': 'ArrPattern',
    'parse_binding_property': 'BindProp', 'parse_property_name': 'PropName', 'parse_binding_rest_element': 'Rest',
    'parse_binding_element': 'BindElem', 'parse_initializer': 'Init', 'parse_expression_statement': 'ExprStmt',
    'parse_if_statement': 'If', 'parse_do_while_statement': 'DoWhile', 'parse_while_statement': 'While',
    'parse_for_statement': 'For', 'parse_switch_statement': 'Switch', 'parse_default_clause': 'DefaultClause',
    'parse_case_clause': 'CaseClause', 'parse_continue_statement': 'Continue', 'parse_break_statement': 'Break',
    'parse_return_statement': 'Return', 'parse_with_statement': 'With', 'parse_labelled_statement': 'Labelled',
    'parse_throw_statement': 'Throw', 'parse_try_statement': 'Try', 'parse_debugger_statement': 'Debugger',
    'parse_function_declaration': 'FunctionDecl', 'parse_function_expression': 'FunctionExpr',
    'parse_function_params': 'Params', 'parse_class_declaration': 'ClassDecl', 'parse_class_expression': 'ClassExpr',
    'parse_class_heritage': 'Heritage', 'parse_class_body': 'ClassBody', 'parse_class_item': 'ClassItem',
    'parse_expression': 'Expr', 'parse_assignment_expression': 'Assign', 'parse_conditional_expression': 'Cond',
    'parse_logical_or_expression': 'Binary', 'parse_fancy': 'Binary', 'parse_exponential_expression': 'Exp',
    'parse_unary_expression': 'Unary', 'parse_update_expression': 'Update', 'parse_left_hand_expression': 'LHE',
    'parse_call_arguments': 'Args', 'parse_primary_expression': 'Primary', 'parse_template_literal_expression': 'Template',
    'parse_array_literal_expression': 'Array', 'parse_object_literal_expression': 'Object', 'parse_object_property': 'Prop',
    'parse_cover_parenthesized_expression': 'Paren',
}
MORE = ('Yield', 'Await', 'Default')
BOOL_FLAG = {'LexBinding': 'Req', 'LHE': 'Call'}          # the grammar flag a bool parameter stands for
FLAG_OF = {'allow_in': 'In', 'allow_yield': 'Yield', 'allow_await': 'Await', 'allow_default': 'Default'}
PUNCT_NAMES = {
    'CurlyOpen': '{', 'CurlyClose': '}', 'ParenOpen': '(', 'ParenClose': ')', 'SquareOpen': '[', 'SquareClose': ']', 'Period': '.', 'Ellipsis': '...',
    'Semicolon': ';', 'Comma': ',', 'Question': '?', 'Colon': ':', 'Tilde': '~', 'LAngle': '<', 'LAngleEq': '<=', 'LAngleAngle': '<<', 'LAngleAngleEq': '<<=',
    'RAngle': '>', 'RAngleEq': '>=', 'RAngleAngle': '>>', 'RAngleAngleEq': '>>=', 'RAngleAngleAngle': '>>>', 'RAngleAngleAngleEq': '>>>=', 'Eq': '=',
    'Arrow': '=>', 'EqEq': '==', 'EqEqEq': '===', 'Exclam': '!', 'ExclamEq': '!=', 'ExclamEqEq': '!==', 'Plus': '+', 'PlusEq': '+=', 'PlusPlus': '++',
    'Minus': '-', 'MinusEq': '-=', 'MinusMinus': '--', 'Slash': '/', 'SlashEq': '/=', 'Percent': '%', 'PercentEq': '%=', 'Star': '*', 'StarEq': '*=',
    'StarStar': '**', 'StarStarEq': '**=', 'Amp': '&', 'AmpEq': '&=', 'AmpAmp': '&&', 'Bar': '|', 'BarEq': '|=', 'BarBar': '||', 'Caret': '^', 'CaretEq': '^=',
}
TOKEN_CLASS = {'RegularExpressionLiteral': ('REGEX',), 'NumericLiteral': ('NUMBER',), 'StringLiteral': ('STRING',),
               'Template': ('TEMPLATE', 'HEAD', 'MIDDLE', 'TAIL'), 'EOF': ('EOF',)}
FORMAT = {'NoSubstitution': 'TEMPLATE', 'Head': 'HEAD', 'Middle': 'MIDDLE', 'Tail': 'TAIL'}


class Split(Exception):
    """the statement has to be run once per mask of the variable's domain"""
    def __init__(self, var, masks):
        Exception.__init__(self, var)
        self.var, self.masks = var, masks


class FinVal:
    """a value that is a function of a variable with a finite domain"""
    __slots__ = ('var', 'parts')

    def __init__(self, var, parts):
        self.var, self.parts = var, tuple(parts)

    def __repr__(self):
        return 'FinVal(%r: %r)' % (self.var, [p[0] for p in self.parts])


class Tok:
    """what a token position holds: the token, its punctuator, its name, or its template format"""
    __slots__ = ('kind', 'var')

    def __init__(self, kind, var):
        self.kind, self.var = kind, var

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.var)


class StrC:
    __slots__ = ('s',)

    def __init__(self, s): self.s = s

    def __repr__(self): return repr(self.s)

    def __eq__(self, o): return isinstance(o, StrC) and o.s == self.s

    def __hash__(self): return hash(self.s)


class Vec:
    """base: beneath these elements lie the ones saved before the function was entered, an unknown number of them"""
    __slots__ = ('vals', 'base')

    def __init__(self, vals=(), base=False): self.vals, self.base = tuple(vals), base

    def __repr__(self): return 'Vec%r' % (self.vals,)


class Depth:
    """k more than the number of contexts saved before the function was entered"""
    __slots__ = ('k',)

    def __init__(self, k): self.k = k

    def __repr__(self): return 'depth at entry + %d' % self.k


DVAR = ('D', 'depth')     # that number: 0, 1, .. DCAP - 1, at least DCAP
DCAP = 256
DALL = (1 << DCAP + 1) - 1


class Unk:
    """an unknown integer or boolean nothing depends on"""
    def __repr__(self): return 'unknown'


UNK = Unk()
HAV = Unk()      # what a field of the parser holds that no contract speaks of: what fails on a path chosen by it is not decided


class Closure:
    __slots__ = ('ty', 'vals')

    def __init__(self, ty, vals): self.ty, self.vals = ty, tuple(vals)

    def __repr__(self): return self.ty


class Big:
    """an integer of at least k"""
    __slots__ = ('k',)

    def __init__(self, k): self.k = k

    def __repr__(self): return '>=%d' % self.k


FIELDS = ('hint', 'flags', 'flags_stack', 'count', 'tok', 'tokens', 'index')      # the fields of Parser the contracts speak of
CAP = 4       # loop counters and lists of which only the length matters are told apart up to here
MANY = Opaque('many')      # a list with more elements than that


class PS:
    """state of one path"""
    __slots__ = ('frames', 'mem', 'doms', 'v', 'M', 'modes', 'consumed', 'dead', 'last', 'nv', 'again', 'first', 'opens', 'eofd', 'taint')

    def fork(self):
        s = PS()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.doms = dict(self.doms)
        s.v, s.M, s.modes, s.consumed, s.dead, s.last, s.nv, s.again, s.first = self.v, self.M, self.modes, self.consumed, self.dead, self.last, self.nv, False, self.first
        s.opens, s.eofd, s.taint = self.opens, self.eofd, getattr(self, 'taint', False)
        return s

    @property
    def top(self):
        return self.frames[-1]


class Summary:
    """what a function under contract does, as far as its callers need to know"""
    def __init__(self):
        self.exits = {}     # (kind, count, expression hint, payload, flag values) -> list of (next token, token after it)
        self.r0 = set()     # hints with which the first token may be requested
        self.bad = []       # (first token, second token) the function must not be called with
        self.r1 = {}        # hint of the second token's request -> first tokens

    def key(self):
        return (tuple(sorted((repr(k), tuple(sorted(v))) for k, v in self.exits.items())), tuple(sorted(self.r0)), tuple(sorted(self.r1.items())), tuple(sorted(self.bad)))

    def add(self, k, d0, d1): self.put(self.exits.setdefault(k, []), d0, d1)

    def put(self, l, d0, d1):
        for a, b in l:
            if d0 | a == a and d1 | b == b: return
        l[:] = [(a, b) for a, b in l if not (a | d0 == d0 and b | d1 == d1)]
        for i, (a, b) in enumerate(l):
            if b == d1: l[i] = (a | d0, b); return
            if a == d0: l[i] = (a, b | d1); return
        l.append((d0, d1))


MACH = {}


def machine(prog):
    m = getattr(prog, '_mach', None)
    if m is None:
        pv = [v[0] for v in prog.variants('PunctuatorToken')]
        lits = set()
        for p, f in list(prog.fns.items()) + list(prog.consts.items()):
            if 'parser' not in p or 'error' in f.blocks: continue
            for blk in f.blocks.values():
                for st in blk: collect(st, lits)
        m = Mach(lits, [v for v in pv if v not in PUNCT_NAMES])
        prog._mach = m
        E = lambda f: m.emask(lambda i: f(*m.elems[i][0]))
        m.punct = [(j, E(lambda c, x: c == 'p' and x == PUNCT_NAMES.get(v, '?' + v))) for j, v in enumerate(pv)]
        m.tok = []
        for j, v in enumerate(prog.variants('Token')):
            n = v[0]
            if n == 'Punctuator': k = E(lambda c, x: c == 'p')
            elif n == 'IdentifierName': k = m.idname
            else: k = E(lambda c, x: c == 'c' and x in TOKEN_CLASS.get(n, ()))
            m.tok.append((j, k))
        m.fmt = [(j, E(lambda c, x: c == 'c' and x == FORMAT.get(v[0]))) for j, v in enumerate(prog.variants('TemplateFormat'))]
        m.ltm = m.emask(lambda i: m.elems[i][1])
        m.byname = {}
        for i, (k, lt_) in enumerate(m.elems):
            if k[0] == 'k': m.byname[k[1]] = m.byname.get(k[1], 0) | 1 << i
        P = lambda x: E(lambda c, y: (c, y) == x)
        m.open, m.close, m.head, m.tail, m.middle = P(('p', '{')), P(('p', '}')), P(('c', 'HEAD')), P(('c', 'TAIL')), P(('c', 'MIDDLE'))
        # (opening delimiter, does it close: no, yes, and open again), tokens
        m.delims = [((o, k), P(t)) for o, k, t in (
            ('{', '', ('p', '{')), ('{', 'y', ('p', '}')), ('(', '', ('p', '(')), ('(', 'y', ('p', ')')), ('[', '', ('p', '[')), ('[', 'y', ('p', ']')),
            ('${', '', ('c', 'HEAD')), ('${', 'm', ('c', 'MIDDLE')), ('${', 'y', ('c', 'TAIL')))]
        m.sl_env = m.env(m.slash | m.regex, m.cls_elems[OTHER])
        m.div_env = m.env(P(('p', '/')), m.cls_elems[OTHER])
        m.reg_env = m.env(m.regex, m.cls_elems[OTHER])
    return m


def collect(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str): out.add(x[1])
        for y in x: collect(y, out)
    elif isinstance(x, list):
        for y in x: collect(y, out)


class ParEngine(Engine):
    def __init__(self, prog, db, key, deadline):
        Engine.__init__(self, prog)
        self.m = machine(prog)
        self.db = db                       # key -> Summary
        self.key = key
        self.deadline = min(deadline, time.time() + 100) if deadline else None
        self.sum = Summary()
        self.deps = set()
        self.zero_calls = set()
        self.memo = {}
        self.edges = {}
        self.nodes = 0
        self.found = {}                    # (tag, what, place) -> [status, detail, n]
        self.pend = []
        self.fields = prog.types.structs['Parser'][0]
        self.flag_fields = prog.types.structs['GrammarFlags'][0]
        self.hint_fields = prog.types.structs['Hint'][0]
        self.pure = {}
        self.loops_seen, self.invariants = 0, 0
        self.reached = False

    # ---- obligations
    def ob(self, tag, what, ok, s=None, detail=''):
        fr = s.frames[0] if s is not None and s.frames else None
        at = '%s:%d' % (fr.block, fr.i) if fr else 'end'
        k = (tag, what, at)
        o = self.found.get(k)
        if o is None: o = self.found[k] = ['ok', '', 0]
        o[2] += 1
        if not ok and o[0] != 'fail' and (o[0] == 'ok' or not getattr(s, 'taint', False)):
            o[0] = 'unknown' if getattr(s, 'taint', False) else 'fail'
            o[1] = (detail() if callable(detail) else detail)[:600]
        return ok

    # ---- finite values
    def norm(self, s, v):
        if isinstance(v, FinVal):
            d = s.doms[v.var]
            ps = [(x, m & d) for x, m in v.parts if m & d]
            if not ps: raise Stop()
            if len(ps) == 1: return ps[0][0]
            return FinVal(v.var, ps)
        return v

    def concrete(self, s, v):
        v = self.norm(s, v)
        if isinstance(v, FinVal): raise Split(v.var, [m for _, m in v.parts])
        return v

    def fmap(self, v, f):
        parts = {}
        for x, m in v.parts:
            y = f(x)
            parts[y] = parts.get(y, 0) | m
        if len(parts) == 1: return next(iter(parts))
        return FinVal(v.var, sorted(parts.items(), key=lambda p: (str(type(p[0])), p[0])))

    def binop(self, s, op, a, b, dest):
        a, b = self.norm(s, a), self.norm(s, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            u = HAV if a is HAV or b is HAV else UNK
            for x, y in ((a, b), (b, a)):      # (what is known of the other operand may decide)
                if op == 'BitAnd' and x is False or op == 'BitOr' and x is True: return x
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'BitOr', 'BitXor'): return u
            if op in ('Add', 'Sub', 'Mul'): return u
            if op in ('AddWithOverflow', 'SubWithOverflow') and u is HAV: return Agg('', (HAV, HAV))
            raise Unsupported('%s of an unknown value' % op)
        if isinstance(a, Big) or isinstance(b, Big): return self.big(s, op, a, b, dest)
        if isinstance(a, Depth) or isinstance(b, Depth): return self.depth(s, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ('Sub', 'Add', 'Div', 'Mul'): return Opaque('number')
            if op in ('SubWithOverflow', 'AddWithOverflow'): return Agg('', (Opaque('number'), False))
        if isinstance(a, FinVal) and isinstance(b, FinVal):
            if a.var != b.var: raise Split(a.var, [m for _, m in a.parts])
            parts = {}
            for x, m in a.parts:
                for y, n in b.parts:
                    if m & n:
                        r = Engine.binop(self, s, op, x, y, dest)
                        parts[r] = parts.get(r, 0) | m & n
            return FinVal(a.var, sorted(parts.items()))
        if isinstance(a, FinVal): return self.fmap(a, lambda x: Engine.binop(self, s, op, x, b, dest))
        if isinstance(b, FinVal): return self.fmap(b, lambda y: Engine.binop(self, s, op, a, y, dest))
        r = Engine.binop(self, s, op, a, b, dest)
        if op in ('AddWithOverflow', 'Add') and b == 1 and isinstance(a, int) and a >= CAP and s.top.fn.heads and self.wide(s, dest, op):
            return Agg('', (Big(CAP + 1), False)) if op != 'Add' else Big(CAP + 1)
        return r

    def wide(self, s, dest, op):
        t = self.int_type(s, (dest[0], dest[1] + (('f', 0),)) if op != 'Add' else dest)
        return t in ('usize', 'u64', 'i64', 'isize', 'u32', 'i32')

    def big(self, s, op, a, b, dest):
        """a counter that only grows with the tokens read does not overflow 31 bits (assumed: shorter token streams)"""
        if isinstance(a, Big) and isinstance(b, int):
            k = a.k
            if op in ('AddWithOverflow', 'Add') and b >= 0:
                if not self.wide(s, dest, op): raise Unsupported('a counter of few bits')
                return Agg('', (a, False)) if op != 'Add' else a
            if op in ('Eq', 'Ne') and b < k: return op == 'Ne'
            if op in ('Gt', 'Le') and b < k: return op == 'Gt'
            if op in ('Ge', 'Lt') and b <= k: return op == 'Ge'
        if isinstance(b, Big) and isinstance(a, int):
            flip = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}
            if op in flip: return self.big(s, flip[op], b, a, dest)
        raise Unsupported('%s of a counter' % op)

    def depth(self, s, op, a, b):
        """the number of saved contexts does not reach 2^31 (assumed: shorter token streams)"""
        flip = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}
        if isinstance(a, Depth) and isinstance(b, Depth):
            x, y = a.k, b.k
            if op in flip: return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
            if op in ('Sub', 'SubUnchecked') and x >= y: return x - y
            if op == 'SubWithOverflow': return Agg('', (max(x - y, 0), x < y))
        elif isinstance(a, Depth) and isinstance(b, int):
            if op in flip: return self.depth_cmp(s, op, b - a.k)
            if op in ('Add', 'AddUnchecked'): return Depth(a.k + b)
            if op == 'AddWithOverflow': return Agg('', (Depth(a.k + b), False))
            if op in ('Sub', 'SubUnchecked'): return Depth(a.k - b)
            if op == 'SubWithOverflow': return Agg('', (Depth(a.k - b), self.depth_cmp(s, 'Lt', b - a.k)))
        elif isinstance(b, Depth) and isinstance(a, int):
            if op in flip: return self.depth(s, flip[op], b, a)
            if op in ('Add', 'AddUnchecked', 'AddWithOverflow'): return self.depth(s, op, b, a)
        raise Unsupported('%s of the number of saved contexts' % op)

    def depth_cmp(self, s, op, n):
        if op in ('Lt', 'Ge'):
            if n > DCAP: raise Unsupported('a depth of more than %d' % DCAP)
            yes = (1 << max(n, 0)) - 1
        elif op in ('Le', 'Gt'): return self.depth_cmp(s, {'Le': 'Lt', 'Gt': 'Ge'}[op], n + 1)
        else:
            if n >= DCAP: raise Unsupported('a depth of more than %d' % DCAP)
            yes = 1 << n if n >= 0 else 0
        if op in ('Ge', 'Ne'): yes = DALL & ~yes
        d = s.doms[DVAR]
        if not d & ~yes: return True
        if not d & yes: return False
        return FinVal(DVAR, ((False, DALL & ~yes), (True, yes)))

    def disc(self, s, v):
        v = self.norm(s, v)
        if isinstance(v, Tok):
            parts = {'tok': self.m.tok, 'punct': self.m.punct, 'fmt': self.m.fmt}.get(v.kind)
            if parts is None: raise Unsupported('discriminant of %r' % (v,))
            return self.norm(s, FinVal(v.var, parts))
        if isinstance(v, Enum) and v.name in ('Option', 'Result', 'ControlFlow', 'Cow'): return self.prog.var_index(v.name, v.var)
        return Engine.disc(self, s, v)

    def proj(self, s, v, p):
        v = self.norm(s, v)
        if isinstance(v, Tok):
            if p[0] == 'v' and v.kind == 'tok':
                j = self.prog.var_index('Token', p[1])
                m = self.m.tok[j][1]
                if s.doms[v.var] & ~m: raise Unsupported('downcast of an undecided token')
                return Enum('Token', p[1], [self.payload(v.var, p[1])])
            raise Unsupported('projection %r of %r' % (p, v))
        if isinstance(v, Closure) and p[0] == 'f': return v.vals[p[1]]
        return Engine.proj(self, s, v, p)

    def payload(self, var, variant):
        if variant == 'Punctuator': return Tok('punct', var)
        if variant == 'IdentifierName':
            return Agg('IdentifierNameToken', [Tok('name', var) if f == 'name' else Opaque(f) for f in self.prog.types.structs['IdentifierNameToken'][0]])
        if variant == 'Template':
            return Agg('TemplateToken', [Tok('fmt', var) if f == 'format' else Opaque(f) for f in self.prog.types.structs['TemplateToken'][0]])
        return Opaque(variant)

    def lit(self, b): return ValRef(StrC(b.decode('utf8', 'replace')))

    def rvalue(self, s, rv, dest):
        k = rv[0]
        if k == 'un' and rv[1] == 'Not':
            v = self.norm(s, self.operand(s, rv[2]))
            if isinstance(v, FinVal): return self.fmap(v, lambda x: not x)
            if isinstance(v, Unk): return v
            return Engine.rvalue(self, s, ('un', 'Not', rv[2]), dest)
        if k == 'cast':
            v = self.norm(s, self.operand(s, rv[1]))
            if isinstance(v, (FinVal, Opaque, Unk)):
                if isinstance(v, FinVal): return self.fmap(v, lambda x: int(x))
                return v
            if isinstance(v, bool): return int(v)
            if isinstance(v, Depth):
                if self.int_type(s, dest) not in ('usize', 'u64', 'i64', 'isize', 'u32', 'i32'): raise Unsupported('a counter of few bits')
                return v
        if k == 'use': return self.norm(s, self.operand(s, rv[1]))
        if k == 'struct' and rv[1].startswith('{closure@'): return Closure(rv[1], [self.operand(s, o) for _, o in rv[2]])
        return Engine.rvalue(self, s, rv, dest)

    def operand(self, s, op):
        v = Engine.operand(self, s, op)
        if op[0] == 'move' and not op[1][1]: self.pend.append((s.top.id, op[1][0]))
        return v

    # ---- parser object
    def pget(self, s, f): return s.mem['P'].vals[self.fields.index(f)]

    def pset(self, s, f, v):
        p = s.mem['P']
        vals = list(p.vals)
        vals[self.fields.index(f)] = v
        s.mem['P'] = Agg(p.name, vals)

    def havoc(self, s):
        for f in self.fields:
            if f not in FIELDS: self.pset(s, f, HAV)

    def hget(self, s, f): return self.norm(s, self.pget(s, 'hint').vals[self.hint_fields.index(f)])

    def hset(self, s, f, v):
        h = self.pget(s, 'hint')
        vals = list(h.vals)
        vals[self.hint_fields.index(f)] = v
        self.pset(s, 'hint', Agg(h.name, vals))

    def flag(self, s, f): return self.norm(s, self.pget(s, 'flags').vals[self.flag_fields.index(f)])

    def count(self, s):
        c = self.concrete(s, self.pget(s, 'count'))
        if not isinstance(c, int): raise Unsupported('token count %r' % (c,))
        return c

    # ---- domains
    def restrict(self, s, var, mask):
        d = s.doms[var] & mask
        if not d: return False
        s.doms[var] = d
        if isinstance(var, tuple) and var[1] in FLAG_OF and d in (1, 2) and s.M is not None:
            s.M = self.m.subst(s.M, FLAG_OF[var[1]], d >> 1)
        return True

    def E(self, s): return self.m.env(s.doms[s.v[0]], s.doms[s.v[1]])

    def split_env(self, s, parts):
        """parts: disjoint environments; make the state fall under one of them"""
        E = self.E(s)
        parts = [p & E for p in parts]
        parts = [p for p in parts if p]
        if len(parts) < 2: return
        full = (1 << NC) - 1
        groups = {}
        d = s.doms[s.v[0]]
        while d:
            b = d & -d
            i = (b.bit_length() - 1) * NC
            groups.setdefault(tuple((p >> i) & full for p in parts), 0)
            groups[tuple((p >> i) & full for p in parts)] |= b
            d ^= b
        if len(groups) > 1: raise Split(s.v[0], sorted(groups.values()))
        sig = next(iter(groups))
        cls = [self.m.cls_elems[c] for c in range(NC)]
        masks = []
        for g in sig:
            m = 0
            for c in range(NC):
                if g >> c & 1: m |= cls[c]
            if m & s.doms[s.v[1]]: masks.append(m & s.doms[s.v[1]])
        if len(masks) > 1: raise Split(s.v[1], masks)

    def newvar(self, s, dom=None):
        s.nv += 1
        s.doms[s.nv] = self.m.all if dom is None else dom
        return s.nv

    # ---- ghost: what a slash must be
    def slash_ok(self, M, e):
        """is the hint e right for a token read when the machine is M?  -> (ok, explanation)"""
        alts, comp, stuck = self.m.step(M, self.m.sl_env)
        con = 0
        for a, _, _ in alts: con |= a
        vecs = {0}
        if comp: vecs = self.m.follow_of(M[0][0], M[0][2])[1] or {0}
        for v in vecs:
            adm = con | (comp & v)
            if adm & self.m.div_env:
                if e: return False, 'a division may follow, but a regular expression is expected'
            elif adm & self.m.reg_env:
                if not e: return False, 'a regular expression may follow, but a division is expected'
        return True, ''

    def look_ok(self, M, d0, e):
        """the same for the token after the current one, which is one of d0"""
        env = self.m.env(d0, self.m.cls_elems[OTHER])
        alts, comp, stuck = self.m.step(M, env)
        if comp:
            for w, mask in self.m.follow2_of(M[0][0], M[0][2]).items():
                if not mask & comp: continue
                if w & self.m.div_env and e or not w & self.m.div_env and w & self.m.reg_env and not e:
                    return False, self.m.show(self.m.cur(mask & comp)) + ': hint %s' % e
        for a, M2, _ in alts:
            ok, why = self.slash_ok(M2, e)
            if not ok: return ok, self.m.show(self.m.cur(a)) + ': ' + why
        return True, ''

    def check_mode(self, s):
        t = self.hget(s, 'template')
        want = s.modes[-1] if s.modes else self.norm(s, FinVal(('F', 'expect_template'), ((False, 1), (True, 2))))
        ok = self.eqv(s, t, want)
        self.ob('G06', 'template treatment of a closing brace matches the innermost open construct when a token is requested', ok, s,
                'asked for %r, innermost is a substitution: %r' % (t, want))

    def eqv(self, s, a, b):
        a, b = self.norm(s, a), self.norm(s, b)
        if isinstance(a, FinVal) and isinstance(b, FinVal): return a.var == b.var and a.parts == b.parts
        if isinstance(a, FinVal) or isinstance(b, FinVal): return False
        return self.canon(s, a, {}) == self.canon(s, b, {})

    def producible(self, e, t):
        """tokens the tokenizer can return for these hints"""
        d = self.m.all
        if e is True: d &= ~self.m.slash
        if e is False: d &= ~self.m.regex
        if t is True: d &= ~self.m.close
        if t is False: d &= ~(self.m.middle | self.m.tail)
        return d

    def read0(self, s):
        """token_and_line: the next token is requested unless it is buffered"""
        if self.count(s) == 0:
            e = self.concrete(s, self.hget(s, 'expression'))
            self.check_mode(s)
            if s.dead is None:
                if not s.consumed:
                    self.sum.r0.add(e)
                    if self.key[0] == 'parse_module': self.slash_at(s, s.M, e, 'first')
                else:
                    self.slash_at(s, s.M, e, 'next')
            if not self.restrict(s, s.v[0], self.producible(e, self.hget(s, 'template'))): raise Stop()
            self.hset(s, 'expression', False)
            self.pset(s, 'count', 1)
            self.pset(s, 'index', Opaque('index'))

    def slash_at(self, s, M, e, which):
        ok, why = self.slash_ok(M, e)
        self.ob('G07', 'the hint says expression exactly where a regular expression may start (%s token)' % which, ok, s, why)

    def read1(self, s, e):
        """the token after the current one is requested with hint e"""
        self.check_mode(s)
        if s.dead is None:
            d0 = s.doms[s.v[0]]
            if not s.consumed and self.key[0] != 'parse_module':
                self.sum.r1[e] = self.sum.r1.get(e, 0) | d0
            else:
                self.look_at(s, d0, e)
        if not self.restrict(s, s.v[1], self.producible(e, self.hget(s, 'template'))): raise Stop()
        self.pset(s, 'count', 2)

    def look_at(self, s, d0, e):
        ok, why = self.look_ok(s.M, d0, e)
        self.ob('G07', 'the hint says expression exactly where a regular expression may start (token looked ahead to)', ok, s, why)

    def result_line(self, var): return FinVal(var, ((False, self.m.all & ~self.m.ltm), (True, self.m.ltm)))

    def lookahead_result(self, var):
        return Agg('LookaheadResult', [self.result_line(var) if f == 'line' else Tok('tok', var) for f in self.prog.types.structs['LookaheadResult'][0]])

    def die(self, s, why):
        """no program of the grammar goes on from here"""
        if s.M is not None: why = self.why_stuck(s)
        s.M, s.dead = None, why
        if not s.consumed: s.first = (s.doms[s.v[0]], s.doms[s.v[1]])

    def why_stuck(self, s):
        """what rule of the language keeps the token from being consumed here"""
        E, M = self.E(s), s.M
        why = 'stuck'
        try:
            if not self.m.cur(E) & ~self.m.reserved:
                ids = self.m.env(self.m.byname['$id'], self.m.all)
                if any('IDENT' in fe for _, _, fe in self.m.step(M, ids)[0]): why += ' reserved'
            E2 = self.m.unlt(E)
            if E2 != E and any('nolt' in fe for _, _, fe in self.m.step(M, E2)[0]): why += ' nolt'
        except NeedFlag: pass
        return why

    def potential(self, M):
        """the rules that decide how M goes on, whatever comes next"""
        r = self.m.caches.get(('pot', M))
        if r is None:
            r = frozenset()
            try:
                for _, _, fe in self.m.step(M, self.m.eall)[0]: r |= fe
            except NeedFlag: pass
            self.m.caches[('pot', M)] = r
        return r

    RULES = {'G08': ('in Semi', 'in DoSemi'), 'G09': ('nolt',), 'G10': ('IDENT',)}

    def obt(self, what, s, detail, bad, alts=(), fol=0, inc=False):
        """an obligation of the grammar, under each property whose rule is at stake; it fails in the environments bad (where
        one of alts goes on) and fol (where the construct is complete)"""
        pot = self.potential(s.M) if s.M is not None else frozenset()
        base = 'G13' if inc else 'G14'
        self.ob(base, what, not bad and not fol, s, detail)
        for tag, fs in sorted(self.RULES.items()):
            if inc and tag != 'G08': continue
            here = any(f in pot for f in fs)
            cov = 0
            for a, _, fe in alts:
                if any(f in fe for f in fs): cov |= a
            if not here and not cov: continue
            fails = bool(bad or fol)
            if bad and not inc and bad & ~cov: fails = False
            if fol and (tag != 'G08' or not here): fails = False
            self.ob(tag, what, not fails, s, detail)

    def left(self, s):
        tags = ['G13']
        if s.dead and 'nolt' in s.dead: tags.append('G09')
        if s.dead and 'reserved' in s.dead: tags.append('G10')
        return tags

    NO_EXPR_RESERVED = ('this', 'super', 'null', 'true', 'false')

    def c_token_and_line(self, s, args):
        self.read0(s)
        return [(s, Agg('', (self.result_line(s.v[0]), ValRef(Tok('tok', s.v[0])))))]

    def c_ident_lookahead(self, s, args):
        if self.count(s) == 0:
            self.read0(s)
        if self.count(s) < 2:
            d = s.doms[s.v[0]]
            names = self.m.idname
            if d & names and d & ~names: raise Split(s.v[0], [names, self.m.all & ~names])
            if not d & names: return [(s, Enum('Option', 'None'))]
            no = self.m.ident
            for n in self.NO_EXPR_RESERVED: no |= self.m.byname.get(n, 0)
            if d & no and d & ~no: raise Split(s.v[0], [no, names & ~no])
            self.read1(s, not d & no)
        return [(s, Enum('Option', 'Some', [ValRef(self.lookahead_result(s.v[1]))]))]

    def c_pop(self, s, args):
        c = self.count(s)
        if not self.ob('G12', 'the token counter does not underflow', c > 0, s, 'pop with no token buffered'): raise Stop()
        var = s.v[0]
        d = s.doms[var]
        # the brace/substitution nesting
        eff = [(o, x & d) for o, x in self.m.delims if x & d]
        effects = [x for _, x in eff]
        rest = d
        for x in effects: rest &= ~x
        if rest and effects: raise Split(var, effects + [rest])
        if len(effects) > 1: raise Split(var, effects)
        if s.dead is None:
            E = self.E(s)
            alts, comp, stuck = self.m.step(s.M, E)
            byM = {}
            for mask, M2, fe in alts:
                byM.setdefault(M2, [0, frozenset()])
                byM[M2][0] |= mask
                byM[M2][1] |= fe
            self.split_env(s, [x[0] for x in byM.values()] + [comp, stuck])
            if comp & E:
                fol = E & comp & self.m.follow_of(s.M[0][0], s.M[0][2])[0]
                self.ob('G13', 'no token is consumed after the end of the construct', not fol, s, lambda: 'consumes %s' % self.m.show(self.m.cur(fol)))
                self.die(s, 'stuck')
            elif byM:
                s.M = next(iter(byM))
            else:
                self.die(s, 'stuck')
        if effects:
            (op, closes), x = eff[0]
            if closes:
                self.ob('G04', 'a closing delimiter is consumed by the construct that consumed its opening one', s.opens[-1:] == (op,), s,
                        lambda: '%s where %s' % (self.m.show(x), '%s is open' % s.opens[-1] if s.opens else 'nothing is open'))
                s.opens = s.opens[:-1]
            if closes != 'y':
                s.opens += (op,)
                if len(s.opens) > 12: raise Unsupported('delimiters opened in a loop')
            if x & self.m.open: s.modes += (False,)
            elif x & self.m.head: s.modes += (True,)
            elif not x & (self.m.close | self.m.tail): pass
            elif s.modes: s.modes = s.modes[:-1]
            elif s.dead is None: raise Unsupported('a closing brace of another construct')
        s.consumed, s.last = True, None
        s.eofd = self.key[0] == 'parse_module' and not d & ~self.m.eof
        s.v = (s.v[1], self.newvar(s))
        self.pset(s, 'count', c - 1)
        self.pset(s, 'index', Opaque('index'))
        return [(s, Tok('tok', var))]

    CONTRACTS = {'token_and_line': c_token_and_line, 'ident_lookahead': c_ident_lookahead, 'pop': c_pop}

    # ---- calls of functions under contract
    def context(self, s, nt, params):
        c = [0] * len(FL)
        for f, g in FLAG_OF.items():
            v = self.flag(s, f)
            if isinstance(v, Unk): raise Unsupported('unknown flag')
            c[FI[g]] = 2 if isinstance(v, FinVal) else int(v)
            if isinstance(v, FinVal) and (v.var != ('F', f) or v.parts != ((False, 1), (True, 2))): raise Split(v.var, [m for _, m in v.parts])
        if nt in BOOL_FLAG and params: c[FI[BOOL_FLAG[nt]]] = int(params[0])
        return self.m.restrict(nt, tuple(c))

    def call_nt(self, s, name, nt, args, dest, ret):
        params = []
        for a in args[1:]:
            a = self.norm(s, a)
            if isinstance(a, FinVal): self.concrete(s, a)
            if isinstance(a, bool): params.append(a)
            elif isinstance(a, int) or isinstance(a, Unk): pass
            else: raise Unsupported('argument %r of %s' % (a, name))
        params = tuple(params)
        if len(params) > (1 if nt in BOOL_FLAG else 0): raise Unsupported('parameters of ' + name)
        cnt = self.count(s)
        e = self.concrete(s, self.hget(s, 'expression'))
        ctx = self.context(s, nt, params)
        E = self.E(s)
        if cnt == 2 and s.doms[s.v[0]] & ~self.m.idname: raise Unsupported('lookahead buffered behind another token than a name')
        con, emp = self.m.first(nt, 0, ctx, E)
        if s.dead is None:
            self.split_env(s, [con, E & ~con])
        key = (name, params, cnt, e)
        self.deps.add(key)
        if not s.consumed: self.zero_calls.add(key)
        S = self.db.get(key)
        if S is None: raise Stop()
        # preconditions
        pn = dict(pins(self.m, nt))
        pm = mode_pin(self.m, nt)
        if pm is not None: pn['expect_template'] = pm
        for f, x in pn.items():
            v = self.concrete(s, self.flag(s, f))
            if v != bool(x) and s.dead is None:
                for tag in ('G05', 'G06') if f == 'expect_template' else ('G05', 'G13', 'G14'):
                    self.ob(tag, 'a construct is parsed in a context the grammar gives it', False, s, '%s called with %s=%s' % (name, f, v))
                raise Stop()
            if v != bool(x): raise Unsupported('%s called with %s=%s, where the grammar never has it' % (name, f, v))
        for f in ('is_module', 'is_strict'):
            if self.flag(s, f) is not True: raise Unsupported('%s not set at a call' % f)
        t = self.hget(s, 'template')
        want = s.modes[-1] if s.modes else self.norm(s, FinVal(('F', 'expect_template'), ((False, 1), (True, 2))))
        ft = self.flag(s, 'expect_template')
        ok = self.eqv(s, t, want) and self.eqv(s, ft, want)
        if not self.ob('G06', 'at a call, the template context is that of the innermost open construct', ok, s,
                       '%s: hint %r, context %r, innermost is a substitution: %r' % (name, t, ft, want)): raise Stop()
        if s.dead is None:
            if cnt == 0:
                for r in S.r0:
                    if not s.consumed:
                        self.sum.r0.add(r)
                        if self.key[0] == 'parse_module': self.slash_at(s, s.M, r, 'first')
                    else: self.slash_at(s, s.M, r, 'next')
            for r, mask in S.r1.items():
                d = mask & s.doms[s.v[0]]
                if not d: continue
                if not s.consumed and self.key[0] != 'parse_module': self.sum.r1[r] = self.sum.r1.get(r, 0) | d
                else: self.look_at(s, d, r)
        if s.dead is None:
            for a, b in S.bad:
                x, y = s.doms[s.v[0]] & a, s.doms[s.v[1]] & b
                if not x or not y: continue
                if not s.consumed and self.key[0] != 'parse_module': self.sum.put(self.sum.bad, x, y)
                else:
                    for tag in ('G13',): self.ob(tag, 'a construct is only tried where it can be told from others', False, s, '%s before %s' % (name, self.m.show(x)))
        # the machine after the construct
        inside = s.dead is not None or bool(con & E)
        M2s = None
        if s.dead is None and inside:
            alts = self.m.stepy(s.M, E, nt)
            byM = {}
            for mask, M2, cy, fe in alts:
                byM.setdefault((M2, cy), 0)
                byM[(M2, cy)] |= mask
            cover = 0
            for x in byM.values(): cover |= x
            if cover & E != E:
                M3 = self.m.product(s.M, E, nt, ctx) if not cover & E else None
                if M3 is not None: byM = {(M3, ctx): E}
                else: self.split_env(s, list(byM.values()) + [E & ~cover])
            else:
                self.split_env(s, list(byM.values()))
            byM = {k: x for k, x in byM.items() if x & E}
            if byM:
                (M2, cy), _ = next(iter(byM.items()))
                bad = [FL[i] for i in range(len(FL)) if cy[i] != ctx[i]]
                det = '%s is called with %s, the grammar has %s' % (name, self.show_ctx(ctx, nt), self.show_ctx(cy, nt))
                # yield, await and nameless declarations are only ever permitted in addition to what is possible without
                more = [f for f, x, y in ((FL[i], ctx[i], cy[i]) for i in range(len(FL))) if x != y and (f not in MORE or y == 0 or x == 1)]
                less = [f for f, x, y in ((FL[i], ctx[i], cy[i]) for i in range(len(FL))) if x != y and (f not in MORE or y == 1 or x == 0)]
                self.ob('G05', 'a construct is parsed in the context the grammar gives it', not bad, s, det)
                self.ob('G13', 'a construct is parsed in the context the grammar gives it', not more, s, det)
                self.ob('G14', 'a construct is parsed in the context the grammar gives it', not less, s, det)
                if bad: raise Stop()
                M2s = M2
        out = []
        base = s
        for (kind, c2, e2, payload, fl), envs in S.exits.items():
            for d0, d1 in envs:
                t = base.fork()
                ok = True
                for f, v in fl:
                    cur = self.flag(t, f)
                    if isinstance(cur, FinVal):
                        if not self.restrict(t, cur.var, 1 << int(v)): ok = False
                    elif cur != v: ok = False
                if not ok: continue
                if kind == 'N' or kind == 'X':
                    if base.dead is None and inside and kind == 'N': continue
                    if not self.restrict(t, t.v[0], d0) or not self.restrict(t, t.v[1], d1): continue
                    if c2 >= 1 and cnt == 0: self.pset(t, 'index', Opaque('index'))
                elif kind == 'S':
                    if not inside: continue
                    if base.dead is None:
                        if M2s is None:
                            self.die(t, 'call of %s' % name)
                        else: t.M = M2s if t.M is base.M else self.resubst(t, M2s)
                    t.consumed, t.last, t.eofd = True, None, False
                    t.v = (self.newvar(t, d0), self.newvar(t, d1))
                else:
                    if base.dead is None: t.M, t.dead = None, 'error in ' + name
                    t.consumed, t.last, t.eofd = True, None, False
                    t.v = (self.newvar(t), self.newvar(t))
                self.pset(t, 'count', c2)
                self.hset(t, 'expression', e2)
                self.havoc(t)
                if kind in ('N', 'S'):
                    v = Enum('Result', 'Ok', [Enum('TokenResult', 'Some' if kind == 'S' else 'None', [payload_val(payload)] if kind == 'S' else [])])
                else: v = Enum('Result', 'Err', [Opaque('error')])
                out.append((t, v))
        return out

    def resubst(self, t, M):
        for f, g in FLAG_OF.items():
            d = t.doms.get(('F', f), 3)
            if d in (1, 2): M = self.m.subst(M, g, d >> 1)
        return M

    def show_ctx(self, c, nt):
        r = ' '.join(('+', '-', '?')[(v == 0) + 2 * (v == 2)] + FL[i] for i, v in enumerate(c) if FL[i] in self.m.rel[nt])
        return r or 'no context'

    # ---- intrinsics
    def intrinsic(self, s, callee, args, st):
        key = self.callee_key(callee)
        m = key[2] if isinstance(key, tuple) else key.split('::')[-1]
        ty = key[0].lstrip('&') if isinstance(key, tuple) else ''
        if isinstance(key, tuple):
            r = self.slices(s, ty, key[1], m, args)
            if r is not None: return r
        if m == 'branch' and key[1] == 'Try':
            v = args[0]
            if v.var == 'Ok': return [(s, Enum('ControlFlow', 'Continue', v.vals))]
            return [(s, Enum('ControlFlow', 'Break', [v]))]
        if m == 'from_residual': return [(s, Enum('Result', 'Err', args[0].vals))]
        if m == 'err_msg': return [(s, Opaque('error'))]
        if m == 'from' and ty == 'Error': return [(s, Opaque('error'))]
        if m == 'panic' or m in ('unreachable_display', 'panic_fmt', 'begin_panic', 'panic_display'):
            self.on_panic(s, 'panic', m)
            return []
        if m in ('eq', 'ne') and key[1] == 'PartialEq' and ty in ('str', 'Cow', 'String'):
            r = self.str_eq(s, self.peel(s, args[0]), self.peel(s, args[1]))
            if m == 'ne': r = (not r) if isinstance(r, bool) else self.fmap(r, lambda x: not x)
            return [(s, r)]
        if ty in ('str', 'String') and isinstance(key, tuple) and key[1] is None and args:
            r = self.str_method(s, m, [self.peel(s, a) for a in args])
            if r is not None: return [(s, r)]
        if m == 'deref' and ty == 'Cow': return [(s, ValRef(self.peel(s, args[0])))]
        if m in ('to_string', 'to_owned', 'into_owned', 'clone') and ty in ('str', 'Cow', 'String') and isinstance(self.peel(s, args[0]), (Tok, StrC)): return [(s, self.peel(s, args[0]))]
        if m == 'new' and ty == 'String': return [(s, StrC(''))]
        if m == 'from' and ty in ('String', 'Cow') and isinstance(self.peel(s, args[0]), (Tok, StrC)): return [(s, self.peel(s, args[0]))]
        if m in ('deref', 'index') and ty in ('String', 'str') and (len(args) < 2 or 'RangeFull' in callee): return [(s, ValRef(self.peel(s, args[0])))]
        if (m == 'as_ref' or m == 'as_str') and ty not in ('Option', 'Result'): return [(s, ValRef(self.peel(s, args[0])))]
        if m in ('deref', 'deref_mut') and ty == 'Vec' or m in ('as_slice', 'as_mut_slice') and ty == 'Vec': return [(s, args[0])]
        if m == 'index' and ty == 'Vec':
            v, i = self.peel(s, args[0]), args[1]
            if isinstance(v, Vec) and v.base and isinstance(i, Depth) and 0 <= i.k < len(v.vals): return [(s, ValRef(v.vals[i.k]))]
        if ty == 'Vec' or m in ('last', 'len', 'is_empty') and args and isinstance(self.peel(s, args[0]), Vec):
            if m in ('new', 'with_capacity'): return [(s, Vec())]
            el = re.search(r'(?:Vec::<|impl \[)(.*)[>\]]+::', callee)
            plain = el and 'GrammarFlags' not in el.group(1)      # only its length matters
            r = args[0]
            v = self.peel(s, r)
            if isinstance(v, Vec):
                n = None if any(isinstance(x, Opaque) and x.tag == 'many' for x in v.vals) else len(v.vals)
                if m == 'push' and isinstance(r, Ref):
                    if plain:
                        if not self.lengths_matter(): return [(s, UNIT)]
                        w = v if n is None else Vec(v.vals + (UNIT,)) if n < CAP else Vec((UNIT,) * CAP + (MANY,))
                    else:
                        if len(v.vals) > 12: raise Unsupported('a list that grows')
                        w = Vec(v.vals + (args[1],), v.base)
                    self.store(s, r.cell, r.path, w)
                    return [(s, UNIT)]
                if m == 'pop' and isinstance(r, Ref):
                    if plain: raise Unsupported('pop of a list')
                    if not v.vals:
                        if v.base:
                            e = self.depth_cmp(s, 'Eq', 0)
                            if isinstance(e, FinVal): raise Split(DVAR, [m for _, m in e.parts])
                            if not e:
                                self.ob('G05', 'no saved context is left over or missing', False, s, 'a context saved outside is taken')
                                raise Stop()
                        return [(s, Enum('Option', 'None'))]
                    self.store(s, r.cell, r.path, Vec(v.vals[:-1], v.base))
                    return [(s, Enum('Option', 'Some', [v.vals[-1]]))]
                if v.base:
                    if m == 'is_empty': return [(s, self.depth_cmp(s, 'Eq', -len(v.vals)))]
                    if m == 'len': return [(s, Depth(len(v.vals)))]
                    if m == 'truncate' and isinstance(r, Ref) and isinstance(args[1], Depth) and args[1].k >= 0:
                        self.store(s, r.cell, r.path, Vec(v.vals[:args[1].k], True))
                        return [(s, UNIT)]
                    if m in ('truncate', 'last') and (m != 'last' or not v.vals): raise Unsupported('contexts saved outside')
                if m == 'is_empty': return [(s, not v.vals)]
                if m == 'len': return [(s, n if n is not None else Big(CAP + 1))]
                if m == 'last' and not plain: return [(s, Enum('Option', 'Some', [ValRef(v.vals[-1])]) if v.vals else Enum('Option', 'None'))]
                if m == 'clear' and isinstance(r, Ref):
                    self.store(s, r.cell, r.path, Vec())
                    return [(s, UNIT)]
                if m == 'truncate' and isinstance(r, Ref) and isinstance(args[1], int) and n is not None:
                    self.store(s, r.cell, r.path, Vec(v.vals[:args[1]]))
                    return [(s, UNIT)]
        if ty in ('Option', 'Result') and m in ('is_some', 'is_none', 'is_ok', 'is_err'):
            v = self.peel(s, args[0])
            return [(s, v.var == {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[m])]
        if ty in ('Option', 'Result') and m in ('unwrap', 'expect'):
            v = args[0]
            if v.var in ('Some', 'Ok'): return [(s, v.vals[0])]
            self.on_panic(s, 'unwrap', 'unwrap of ' + v.var)
            return []
        if ty in ('Option', 'Result') and args:
            v = args[0]
            if m in ('as_ref', 'as_mut'):
                w = self.peel(s, v)
                if isinstance(w, Enum):
                    if not w.vals: return [(s, w)]
                    if m == 'as_ref': return [(s, Enum(w.name, w.var, [ValRef(w.vals[0])]))]
                    if isinstance(v, Ref): return [(s, Enum(w.name, w.var, [Ref(v.cell, v.path + (('v', w.var), ('f', 0)))]))]
            if m == 'take' and isinstance(v, Ref):
                w = self.load(s, v.cell, v.path)
                self.store(s, v.cell, v.path, Enum('Option', 'None'))
                return [(s, w)]
            if isinstance(v, Enum) and v.name in ('Option', 'Result'):
                good = v.var in ('Some', 'Ok')
                if m == 'unwrap_or': return [(s, v.vals[0] if good else args[1])]
                if m == 'ok': return [(s, Enum('Option', 'Some', v.vals) if good else Enum('Option', 'None'))]
                if m == 'ok_or': return [(s, Enum('Result', 'Ok', v.vals) if good else Enum('Result', 'Err', [args[1]]))]
                if m in ('cloned', 'copied'): return [(s, Enum(v.name, v.var, [self.peel(s, x) for x in v.vals]))]
                if m == 'or': return [(s, v if good else args[1])]
                if m == 'and': return [(s, args[1] if good else v)]
        if m in ('min', 'max') and key[1] == 'Ord' and all(type(x) is int for x in args): return [(s, min(args) if m == 'min' else max(args))]
        if m == 'then_some' and isinstance(args[0], bool): return [(s, Enum('Option', 'Some', [args[1]]) if args[0] else Enum('Option', 'None'))]
        if m == 'replace' and isinstance(args[0], Ref):
            r = args[0]
            v = self.load(s, r.cell, r.path)
            self.store(s, r.cell, r.path, args[1])
            return [(s, v)]
        if m == 'clone' and len(args) == 1 and self.find_fn(key) is None: return [(s, self.peel(s, args[0]))]
        if m == 'default' and ty == 'bool': return [(s, False)]
        return None

    def lengths_matter(self):
        r = self.prog.__dict__.get('_lengths')
        if r is None:
            r = False
            for p, f in self.prog.fns.items():
                if 'parser' not in p or 'error' in f.blocks: continue
                for blk in f.blocks.values():
                    for st in blk:
                        if st[0] == 'call' and isinstance(st[2], str) and re.search(r'(Vec::<.*>|<impl \[.*\]>)::(is_empty|len|truncate|clear)$', st[2]): r = True
            self.prog._lengths = r
        return r

    def higher(self, s, callee, key, args):
        """library functions that call a function they are given: -> ('call', f, arguments, wrap) or ('is', value) or None"""
        if not isinstance(key, tuple): return None
        ty, tr, m = key
        ty = ty.lstrip('&')
        if m in ('call_once', 'call_mut', 'call') and tr in ('FnOnce', 'FnMut', 'Fn'):
            if not isinstance(args[1], Agg): raise Unsupported('arguments of a closure')
            return 'call', args[0], list(args[1].vals), None
        if ty in ('Option', 'Result') and args and isinstance(args[0], Enum):
            v = args[0]
            good = v.var in ('Some', 'Ok')
            if m == 'map': return ('call', args[1], list(v.vals), (v.name, v.var)) if good else ('is', v)
            if m == 'map_err': return ('is', v) if good else ('call', args[1], list(v.vals), ('Result', 'Err'))
            if m == 'and_then': return ('call', args[1], list(v.vals), None) if good else ('is', v)
            if m == 'map_or': return ('call', args[2], list(v.vals), None) if good else ('is', args[1])
            if m == 'map_or_else': return ('call', args[2], list(v.vals), None) if good else ('call', args[1], list(v.vals) if v.name == 'Result' else [], None)
            if m == 'unwrap_or_else': return ('is', v.vals[0]) if good else ('call', args[1], list(v.vals), None)
            if m == 'or_else': return ('is', v) if good else ('call', args[1], list(v.vals), None)
            if m == 'ok_or_else': return ('is', Enum('Result', 'Ok', v.vals)) if good else ('call', args[1], [], ('Result', 'Err'))
            if m in ('is_some_and', 'is_ok_and'): return ('call', args[1], list(v.vals), None) if good else ('is', False)
            if m == 'is_none_or': return ('call', args[1], list(v.vals), None) if good else ('is', True)
        if ty == 'bool' and m == 'then' and isinstance(args[0], bool):
            return ('call', args[1], [], ('Option', 'Some')) if args[0] else ('is', Enum('Option', 'None'))
        return None

    def closure_fn(self, s, f):
        """-> (function, what to pass first) of a function value"""
        g = self.peel(s, f)
        ty = g.ty if isinstance(g, Closure) else g.path if isinstance(g, FnItem) else ''
        m = re.search(r'\{closure@[^}]*\}', ty)
        if m:
            fs = [x for p, x in self.prog.fns.items() if x.args and m.group(0) in x.locals[x.args[0]] and re.search(r'\{closure#\d+\}$', p)]
            if len(fs) != 1: raise Unsupported('closure ' + ty)
            x = fs[0]
            if x.locals[x.args[0]].startswith('&'):
                if not isinstance(f, Ref):
                    cell = ('C', len(s.frames), s.top.block)
                    s.mem[cell] = g
                    f = Ref(cell)
            else: f = g
            return x, [f]
        if isinstance(g, FnItem):
            x = self.find_fn(self.callee_key(g.path))
            if x is not None: return x, []
            sp = strip_generics(g.path).split('::')
            if len(sp) > 1 and self.is_enum(sp[-2], sp[-1]): return ('ctor', sp[-2], sp[-1]), []
        raise Unsupported('call of %r' % (g,))

    def peel(self, s, v):
        while True:
            if isinstance(v, Ref): v = self.load(s, v.cell, v.path)
            elif isinstance(v, ValRef): v = v.val
            else: return v

    def str_eq(self, s, a, b):
        if isinstance(a, StrC) and isinstance(b, StrC): return a.s == b.s
        if isinstance(a, StrC): a, b = b, a
        if isinstance(a, Tok) and a.kind == 'name' and isinstance(b, StrC):
            y = self.m.byname.get(b.s, 0)
            return self.norm(s, FinVal(a.var, ((False, self.m.all & ~y), (True, y))))
        raise Unsupported('string comparison of %r and %r' % (a, b))

    def str_method(self, s, m, args):
        """of a constant, of the name of a token, or of what a literal holds (anything)"""
        f = {'is_empty': lambda x: not x, 'len': lambda x: len(x.encode()),
             'starts_with': lambda x: x.startswith(pat), 'ends_with': lambda x: x.endswith(pat), 'contains': lambda x: pat in x,
             'eq_ignore_ascii_case': lambda x: x.lower() == pat.lower()}.get(m)
        if f is None: return None
        pat = None
        if len(args) > 1:
            pat = args[1].s if isinstance(args[1], StrC) else chr(args[1]) if isinstance(args[1], int) and not isinstance(args[1], bool) else None
            if pat is None: return None
        v = args[0]
        if isinstance(v, StrC) and v.s != '$id': return f(v.s)
        if isinstance(v, StrC): return False if m == 'is_empty' else UNK
        if isinstance(v, Tok) and v.kind == 'name':
            d, names = s.doms[v.var], dict(self.m.byname)
            other = self.m.all
            for n, x in names.items():
                if n != '$id': other &= ~x
            if m == 'is_empty': return False
            if d & other and d & ~other: raise Split(v.var, [other, self.m.all & ~other])
            if d & other: return UNK
            parts = {}
            for n, x in names.items():
                if x & d and n != '$id': parts[f(n)] = parts.get(f(n), 0) | x
            return self.norm(s, FinVal(v.var, sorted(parts.items())))
        if isinstance(v, Opaque): return UNK
        return None

    def on_panic(self, s, kind, msg):
        self.ob('G12', 'no assertion, unwrap or unreachable marker of the parser fails', False, s, '%s %s in %s' % (kind, msg, s.top.fn.path))

    LIBFN = ('position', 'any', 'all', 'find', 'count')

    def libfn(self, s, key, args):
        """searches of a constant list, by their reference definitions (libmodel.rs)"""
        if not isinstance(key, tuple) or key[1] != 'Iterator' or key[2] not in self.LIBFN or not args: return None
        it = self.peel(s, args[0])
        return self.prog.lib['Iterator_' + key[2]] if isinstance(it, Agg) and it.name == 'SliceIter' else None

    def slices(self, s, ty, tr, m, args):
        """constant lists"""
        if not args: return None
        if m in ('iter', 'into_iter', 'contains', 'len', 'is_empty', 'get', 'first', 'last') and tr in (None, 'IntoIterator'):
            v = self.peel(s, args[0])
            if isinstance(v, Agg) and v.name == 'SliceIter' and m == 'into_iter': return [(s, v)]
            if isinstance(v, Agg) and v.name == '[]':
                if m == 'iter' or m == 'into_iter' and isinstance(args[0], (Ref, ValRef)): return [(s, Agg('SliceIter', (v, 0)))]
                if m == 'len': return [(s, len(v.vals))]
                if m == 'is_empty': return [(s, not v.vals)]
                if m == 'contains':
                    x, r = self.peel(s, args[1]), False
                    for y in v.vals:
                        y = self.peel(s, y)
                        if isinstance(x, (StrC, Tok)) and isinstance(y, StrC): r = self.binop(s, 'BitOr', r, self.str_eq(s, x, y), None)
                        else: r = self.binop(s, 'BitOr', r, self.binop(s, 'Eq', x, y, None), None)
                    return [(s, r)]
        if m == 'next' and tr == 'Iterator' and isinstance(args[0], Ref):
            v = self.load(s, args[0].cell, args[0].path)
            if isinstance(v, Agg) and v.name == 'SliceIter':
                a, i = v.vals
                if i >= len(a.vals): return [(s, Enum('Option', 'None'))]
                self.store(s, args[0].cell, args[0].path, Agg('SliceIter', (a, i + 1)))
                return [(s, Enum('Option', 'Some', [ValRef(a.vals[i])]))]
        return None

    # ---- pure functions of a name and flags
    def pure_name(self, s, fn, args):
        """a function from flags and a name to bool, evaluated on every name; None when it is not of that form"""
        if fn.locals.get('_0') != 'bool': return None
        names = [(i, self.peel(s, a)) for i, a in enumerate(args)]
        nm = [(i, a) for i, a in names if isinstance(a, Tok) and a.kind == 'name']
        if len(nm) != 1: return None
        for i, a in names:
            t = fn.locals[fn.args[i]]
            if '&mut' in t: return None
            if a is nm[0][1]: continue
            if not isinstance(a, Agg) and not isinstance(a, bool): return None
        i, a = nm[0]
        var = a.var
        ck = (fn.path, tuple(self.canon(s, x, {}) for j, x in names if j != i))
        cache = self.prog.__dict__.setdefault('_pure', {})
        tab = cache.setdefault(ck, {})
        parts = {}
        d = s.doms[var]
        for name, mask in self.m.byname.items():
            if not mask & d: continue
            if name not in tab: tab[name] = self.eval_pure(s, fn, args, i, name)
            r = tab[name]
            if r is None: return None
            parts[r] = parts.get(r, 0) | mask
        if len(parts) == 1: return next(iter(parts))
        return FinVal(var, sorted(parts.items()))

    def eval_pure(self, s, fn, args, i, name):
        """-> bool, or None when the answer depends on an undecided flag"""
        sub = PureEngine(self)
        t = PS()
        t.frames, t.mem = [], {k: v for k, v in s.mem.items()}
        t.doms, t.v, t.M, t.modes, t.consumed, t.dead, t.last, t.nv, t.again, t.first = dict(s.doms), s.v, None, (), True, 'pure', None, s.nv, False, None
        t.opens, t.eofd, t.taint = (), False, False
        t.doms[DVAR] = DALL       # (the result is kept for other states)
        a2 = list(args)
        a2[i] = ValRef(StrC(name if name != '$id' else '$id'))
        depth = len(s.frames)
        return sub.evaluate(t, fn, a2, depth)

    # ---- one statement
    def canon(self, s, v, ren):
        v = self.norm(s, v)
        if isinstance(v, bool): return ('b', v)
        if isinstance(v, int): return v
        if isinstance(v, Agg): return (v.name,) + tuple(self.canon(s, x, ren) for x in v.vals)
        if isinstance(v, Enum): return (v.name, v.var) + tuple(self.canon(s, x, ren) for x in v.vals)
        if isinstance(v, FinVal): return ('F', self.ren(s, v.var, ren), v.parts)
        if isinstance(v, Tok): return (v.kind, self.ren(s, v.var, ren))
        if isinstance(v, Ref): return ('R', v.cell, v.path)
        if isinstance(v, ValRef): return ('V', self.canon(s, v.val, ren))
        if isinstance(v, Vec): return ('Vec', v.base) + tuple(self.canon(s, x, ren) for x in v.vals)
        if isinstance(v, StrC): return ('s', v.s)
        if isinstance(v, Opaque): return ('o', v.tag)
        if isinstance(v, Unk): return 'unk' if v is UNK else 'hav'
        if isinstance(v, Big): return ('big', v.k)
        if isinstance(v, Depth): return ('depth', v.k)
        if isinstance(v, Closure): return ('clo', v.ty) + tuple(self.canon(s, x, ren) for x in v.vals)
        if isinstance(v, FnItem): return ('f', v.path)
        if isinstance(v, Fraction): return ('q', v)
        raise Unsupported('value %r' % (v,))

    def ren(self, s, var, ren):
        if isinstance(var, tuple): return var
        if var == s.v[0]: return 'v0'
        if var == s.v[1]: return 'v1'
        r = ren.get(var)
        if r is None: r = ren[var] = ('o', len(ren), s.doms[var])
        return r

    def state_key(self, s):
        ren = {}
        fs = []
        n = len(s.frames)
        for k, f in enumerate(s.frames):
            b = f.block if k == n - 1 else s.frames[k + 1].retblock
            live = cfg.liveness(f.fn)[b]
            dest = s.frames[k + 1].dest if k < n - 1 else None
            if dest is not None and dest[1]: live = live | {dest[0]}
            for c in [c for c in s.mem if isinstance(c, tuple) and c[0] == f.id and c[1] not in live]: del s.mem[c]
            loc = sorted((c[1], self.canon(s, v, ren)) for c, v in s.mem.items() if isinstance(c, tuple) and c[0] == f.id and v is not UNINIT)
            fs.append((f.fn.path, f.block if k == n - 1 else None, f.retblock, f.dest, f.wrap, tuple(loc)))
        P = self.canon(s, s.mem['P'], ren) if 'P' in s.mem else None
        clo = sorted((c, self.canon(s, v, ren)) for c, v in s.mem.items() if isinstance(c, tuple) and c[0] == 'C')
        if clo: P = (P, tuple(clo))
        used = {k: d for k, d in s.doms.items() if isinstance(k, tuple)}
        return (tuple(fs), P, s.M, s.modes, s.consumed, s.dead, s.opens, s.eofd, s.taint, tuple(sorted(used.items())))

    def prune_doms(self, s):
        pass

    def at_join(self, s):
        """-> False when this state is covered by one seen before"""
        k = self.state_key(s)
        d = (s.doms[s.v[0]], s.doms[s.v[1]])
        l = self.memo.get(k)
        if l is None:
            self.nodes += 1
            l = self.memo[k] = [self.nodes, []]
        if s.last is not None: self.edges.setdefault(s.last, set()).add(l[0])
        s.last = l[0]
        for a, b in l[1]:
            if d[0] | a == a and d[1] | b == b: return False
        l[1][:] = [(a, b) for a, b in l[1] if not (a | d[0] == d[0] and b | d[1] == d[1])] + [d]
        return True

    def explore(self, s0):
        work = [s0]
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the verifier')
            try:
                nxt = self.step_block(s)
            except Stop:
                continue
            except Split as x:
                self.pend = []
                nxt = self.split(s, x.var, x.masks)
            except NeedFlag as x:
                self.pend = []
                f = [a for a, g in FLAG_OF.items() if g == x.flag]
                if not f: raise Unsupported('flag ' + x.flag)
                nxt = self.split(s, ('F', f[0]), [1, 2])
            work.extend(nxt)

    def split(self, s, var, masks):
        out = []
        d = s.doms[var]
        if any(m & d == d for m in masks): raise Unsupported('a split that does not split')
        for m in masks:
            if not m & d: continue
            t = s.fork()
            t.again = t.top.i == 0      # the same statement once more, not another visit of the block
            if self.restrict(t, var, m): out.append(t)
        return out

    def flush(self, s, keep=None):
        for c in self.pend:
            if c != keep: s.mem.pop(c, None)
        self.pend = []

    def step_block(self, s):
        self.steps += 1
        if self.steps > 2000000: raise Unsupported('too many steps')
        fr = s.top
        fn = fr.fn
        again, s.again = s.again, False
        if fr.i == 0 and not again:
            if len(cfg.preds(fn).get(fr.block, ())) > 1 or fr.block in fn.heads:
                if not self.at_join(s): return []
        blk = fn.blocks.get(fr.block)
        if blk is None: raise Unsupported('block %s of %s' % (fr.block, fn.path))
        while True:
            if fr.i >= len(blk): raise Unsupported('block without terminator')
            st = blk[fr.i]
            k = st[0]
            self.pend = []
            if k == 'assign':
                self.assign(s, st[1], st[2])
                self.flush(s, (fr.id, st[1][0]))
                fr.i += 1
            elif k == 'goto':
                fr.block, fr.i = st[1], 0
                return [s]
            elif k == 'switch':
                v = self.norm(s, self.operand(s, st[1]))
                if isinstance(v, Unk):
                    out = []
                    for b in [b for _, b in st[2]] + ([st[3]] if st[3] is not None else []):
                        t = s.fork()
                        if v is HAV: t.taint = True
                        t.top.block, t.top.i = b, 0
                        out.append(t)
                    return out
                if isinstance(v, FinVal):
                    # one state per target
                    tg = {}
                    for x, m in v.parts:
                        b = next((b for c, b in st[2] if c == int(x)), st[3])
                        tg[b] = tg.get(b, 0) | m
                    out = []
                    for b, m in tg.items():
                        if b is None: continue
                        t = s.fork()
                        if not self.restrict(t, v.var, m): continue
                        self.flush2(t)
                        t.top.block, t.top.i = b, 0
                        out.append(t)
                    self.pend = []
                    return out
                if not isinstance(v, (bool, int)): raise Unsupported('switch on %r' % (v,))
                b = next((b for c, b in st[2] if c == int(v)), st[3])
                self.flush(s)
                if b is None: raise Unsupported('switch without target')
                fr.block, fr.i = b, 0
                return [s]
            elif k == 'assert':
                c = self.norm(s, self.operand(s, st[1]))
                if c is UNK: raise Unsupported('assertion on an unknown value')
                if c is HAV:
                    t = s.fork()
                    t.taint = True
                    self.on_panic(t, 'assertion', st[3])
                    c = st[2]
                c = self.concrete(s, c)
                if c != st[2]:
                    self.on_panic(s, 'assertion', st[3])
                    return []
                self.ob('G12', 'no assertion, unwrap or unreachable marker of the parser fails', True, s)
                fr.block, fr.i = st[4], 0
                return [s]
            elif k == 'call':
                return self.do_call(s, st)
            elif k == 'drop':
                cell = (fr.id, st[1][0])
                ty = fn.locals.get(st[1][0], '')
                if 'ParserProxy' in ty and not st[1][1]:
                    if not re.match(r'(parser::)?ParserProxy<', ty): raise Unsupported('drop of ' + ty)
                    if cell not in s.mem: raise Unsupported('drop of a moved proxy')
                    d = self.find_fn(('ParserProxy', 'Drop', 'drop'))
                    if d is None: raise Unsupported('no drop of ParserProxy')
                    t = self.enter2(s, d, [Ref(cell)], None, st[2])
                    return [t]
                if 'ParserProxy' in ty: raise Unsupported('drop of a part with a proxy')
                if not st[1][1]: s.mem.pop(cell, None)
                fr.block, fr.i = st[2], 0
                return [s]
            elif k == 'return':
                v = s.mem.get((fr.id, '_0'), UNIT)
                if fr.wrap: v = Enum(fr.wrap[0], fr.wrap[1], [v])
                if len(s.frames) == 1:
                    self.on_exit(s, v)
                    return []
                s.frames.pop()
                for c in [c for c in s.mem if isinstance(c, tuple) and c[0] == fr.id]: del s.mem[c]
                if fr.dest is not None:
                    cell, path = self.resolve(s, fr.dest)
                    self.store(s, cell, path, v)
                s.top.block, s.top.i = fr.retblock, 0
                return [s]
            elif k == 'unreachable':
                self.on_panic(s, 'unreachable', 'code')
                return []
            else:
                raise Unsupported('statement %r' % (st,))

    def flush2(self, t):
        for c in self.pend: t.mem.pop(c, None)

    def enter2(self, s, fn, args, dest, ret):
        if 'error' in fn.blocks: raise Unsupported(fn.path + ': ' + fn.blocks['error'])
        if len(s.frames) > 40: raise Unsupported('inlining too deep at ' + fn.path)
        if any(f.fn is fn for f in s.frames): raise Unsupported('recursion without a contract: ' + fn.path)
        fid = s.frames[-1].id + 1 if s.frames else 0
        s.frames.append(Frame(fn, fid, 'bb0', 0, dest, ret))
        for a, v in zip(fn.args, args): s.mem[(fid, a)] = v
        return s

    def nt_name(self, key, fn):
        if fn is None: return None
        n = key[2] if isinstance(key, tuple) else key.split('::')[-1]
        if isinstance(key, tuple) and key[0] == 'Parser' and n in NT_OF: return n
        return None

    def do_call(self, s, st):
        dest, callee, argops, ret = st[1], st[2], st[3], st[4]
        if not isinstance(callee, str): raise Unsupported('call of a value')
        args = [self.norm(s, self.operand(s, a)) for a in argops]
        pend = self.pend
        key = self.callee_key(callee)
        fn = self.find_fn(key)
        if fn is None and isinstance(key, tuple) and key[1] is None:
            pass
        name = key[2] if isinstance(key, tuple) else key.split('::')[-1]
        r = None
        if isinstance(key, tuple) and key[0] == 'Parser' and name in self.CONTRACTS and fn is not None:
            r = self.CONTRACTS[name](self, s, args)
            for u, _ in r: self.havoc(u)
        elif self.nt_name(key, fn):
            r = self.call_nt(s, name, NT_OF[name], args, dest, ret)
        if r is None and fn is not None and 'error' not in fn.blocks:
            v = self.pure_name(s, fn, args)
            if v is not None: r = [(s, v)]
        if r is None and fn is None:
            f = self.libfn(s, key, args)
            if f is not None:
                self.flush(s)
                return [self.enter2(s, f, args, dest, ret)]
            h = self.higher(s, callee, key, args)
            if h and h[0] == 'is': r = [(s, self.norm(s, h[1]))]
            elif h:
                f, first = self.closure_fn(s, h[1])
                if isinstance(f, tuple):
                    v = Enum(f[1], f[2], h[2])
                    r = [(s, Enum(h[3][0], h[3][1], [v]) if h[3] else v)]
                else:
                    nm, fk = f.path.split('::')[-1], None
                    if not first: fk = self.callee_key(self.peel(s, h[1]).path)
                    if isinstance(fk, tuple) and fk[0] == 'Parser' and nm in self.CONTRACTS:
                        r = self.CONTRACTS[nm](self, s, h[2])
                        for u, _ in r: self.havoc(u)
                    elif fk and self.nt_name(fk, f): r = self.call_nt(s, nm, NT_OF[nm], h[2], dest, ret)
                    else:
                        self.flush(s)
                        t = self.enter2(s, f, first + h[2], dest, ret)
                        t.top.wrap = h[3]
                        return [t]
                    if h[3]: r = [(t, Enum(h[3][0], h[3][1], [v])) for t, v in r]
        if r is None and fn is None or r is None and key[1:] == ('PartialEq', 'eq') and key[0].lstrip('&') in ('str', 'Cow', 'String'):
            r = self.intrinsic(s, callee, args, st)
            if r is None: raise Unsupported('call of ' + callee)
        if r is None:
            self.flush(s)
            return [self.enter2(s, fn, args, dest, ret)]
        out = []
        for t, v in r:
            if ret is None: continue
            self.pend = pend
            self.flush2(t)
            if dest is not None:
                cell, path = self.resolve(t, dest)
                self.store(t, cell, path, v)
            t.top.block, t.top.i = ret, 0
            out.append(t)
        self.pend = []
        return out

    # ---- the end of the function
    def on_exit(self, s, v):
        self.reached = True
        name = self.key[0]
        # G05
        p0, p1 = self.entry, s.mem['P']
        f0, f1 = p0.vals[self.fields.index('flags')], p1.vals[self.fields.index('flags')]
        bad = [f for f, a, b in zip(self.flag_fields, f0.vals, f1.vals) if not self.eqv(s, a, b)]
        if name != 'parse_module' or True:
            self.ob('G05', 'the grammar context after the construct is the one before it', not bad, s, 'changed: ' + ' '.join(bad))
            self.ob('G05', 'no saved context is left over or missing', isinstance(self.pget(s, 'flags_stack'), Vec) and self.pget(s, 'flags_stack').vals == () and self.pget(s, 'flags_stack').base, s, 'stack %r' % (self.pget(s, 'flags_stack'),))
            ok = self.eqv(s, self.hget(s, 'template'), p0.vals[self.fields.index('hint')].vals[self.hint_fields.index('template')])
            self.ob('G05', 'the template hint after the construct is the one before it', ok, s)
            self.ob('G06', 'the template hint after the construct is the one before it', ok, s)
        if bad: return
        c = self.count(s)
        e = self.concrete(s, self.hget(s, 'expression'))
        E = self.E(s)
        d0, d1 = s.doms[s.v[0]], s.doms[s.v[1]]
        fl = tuple(sorted((k[1], bool(d >> 1)) for k, d in s.doms.items() if isinstance(k, tuple) and k[1] in FLAG_OF and d in (1, 2)))
        if name == 'parse_module': fl = ()
        nt, ctx = self.nt, self.ctx
        where = lambda env: self.m.show(self.m.cur(env)) if env & self.m.eall != self.m.eall else 'anything'
        if not (isinstance(v, Enum) and v.name == 'Result'): raise Unsupported('result %r' % (v,))
        if v.var == 'Err':
            if s.dead is not None:
                for tag in self.left(s): self.ob(tag, 'a path that left the grammar ends in an error', True, s)
            if s.dead is None:
                alts, comp, stuck = self.m.step(s.M, E)
                con = 0
                for a, _, fe in alts: con |= a
                fol = comp & self.m.follow_of(s.M[0][0], s.M[0][2])[0] if s.consumed else 0
                if not s.consumed: comp = 0
                if c == 2 and con & E:
                    # the error may be due to the second token
                    con = 0
                    for a, M2, _ in alts:
                        alts2, comp2, _ = self.m.step(M2, self.m.env(d1, self.m.all))
                        if alts2 or comp2: con |= a
                self.obt('an error is reported only where no program goes on', s, lambda: 'error before %s' % where(con & E | fol), con & E, alts, fol)
                if c == 2 and s.doms[s.v[0]] & ~self.m.idname: raise Unsupported('lookahead buffered behind another token than a name')
            if s.consumed: self.sum.add(('E', c, e, None, fl), self.m.all, self.m.all)
            else: self.sum.add(('X', c, e, None, fl), d0, d1)
            return
        some = not (isinstance(v.vals[0], Enum) and v.vals[0].var == 'None')
        if some or s.opens:
            self.ob('G04', 'every delimiter a construct opened is closed when it ends', not s.opens, s, lambda: 'open: ' + ' '.join(s.opens))
        if name == 'parse_module':
            self.ob('G03', 'a parse succeeds only after end-of-file was consumed', s.eofd, s)
        if s.dead is not None and s.first is not None and name != 'parse_module':
            # not a construct of the grammar from its first token on: the callers have to rule it out
            self.sum.put(self.sum.bad, *s.first)
            self.sum.add(('S', c, e, None, fl), d0 if c >= 1 else self.m.all, d1 if c >= 2 else self.m.all)
            return
        for tag in self.left(s): self.ob(tag, 'a path that left the grammar ends in an error', s.dead is None, s, lambda: str(s.dead))
        if s.dead is not None: return
        alts, comp, stuck = self.m.step(s.M, E)
        con = 0
        for a, _, fe in alts: con |= a
        if c == 2 and s.doms[s.v[0]] & ~self.m.idname: raise Unsupported('lookahead buffered behind another token than a name')
        r = v.vals[0]
        if isinstance(r, Enum) and r.var == 'None':
            self.ob('G01', 'a construct that is not there consumes nothing', not s.consumed, s)
            self.ob('G13', 'a construct that is not there consumes nothing', not s.consumed, s)
            self.obt('a construct is declined only where it cannot begin', s, lambda: 'declined before %s' % where(con & E), con & E, alts)
            if not s.consumed: self.sum.add(('N', c, e, None, fl), d0, d1)
            return
        if isinstance(r, Enum) and r.name != 'TokenResult' or not isinstance(r, (Enum, Agg)): raise Unsupported('result %r' % (r,))
        inc = E & ~comp & ~con
        self.obt('a construct is reported only when complete', s, lambda: 'complete before %s, the grammar is not' % where(inc), inc, inc=True)
        self.obt('a construct ends only where nothing continues it', s, lambda: 'ends before %s' % where(con & E), con & E, alts)
        self.ob('G11', 'no construct matches without consuming input', s.consumed, s)
        if name == 'parse_module':
            return
        p = r.vals[0] if isinstance(r, Enum) and r.vals else UNIT
        p = p if isinstance(p, bool) else None
        self.sum.add(('S', c, e, p, fl), d0 if c >= 1 else self.m.all, d1 if c >= 2 else self.m.all)

    # ---- start
    def start(self):
        name, params, cnt, e = self.key
        fn = find(self.prog, name)
        if fn is None: raise Unsupported('no function ' + name)
        s = PS()
        s.frames, s.mem, s.doms, s.nv = [], {}, {}, 1
        s.modes, s.consumed, s.dead, s.last, s.again, s.first = (), False, None, None, False, None
        s.opens, s.eofd, s.taint = (), False, False
        module = name == 'parse_module'
        fl = []
        pin = {} if module else dict(pins(self.m, NT_OF[name]))
        pm = mode_pin(self.m, NT_OF[name])
        if not module and pm is not None: pin['expect_template'] = pm
        for f in self.flag_fields:
            if module: fl.append(False)
            elif f in pin: fl.append(bool(pin[f]))
            elif f in ('is_module', 'is_strict'): fl.append(True)
            else:
                fl.append(FinVal(('F', f), ((False, 1), (True, 2))))
        for f in list(self.flag_fields) + ['strict']: s.doms[('F', f)] = 3
        s.doms[DVAR] = 1 if module else DALL      # how many contexts are saved already
        hint = []
        for f in self.hint_fields:
            if f == 'expression': hint.append(e)
            elif f == 'template': hint.append(bool(pm) if module or pm is not None else FinVal(('F', 'expect_template'), ((False, 1), (True, 2))))
            else: hint.append(False if module else UNK)
        if module or pm is not None: s.modes = (bool(pm),)
        vals = []
        for f in self.fields:
            if f == 'hint': vals.append(Agg('Hint', hint))
            elif f == 'flags': vals.append(Agg('GrammarFlags', fl))
            elif f == 'flags_stack': vals.append(Vec((), True))
            elif f == 'count': vals.append(cnt)
            elif f in ('tok', 'tokens', 'index'): vals.append(Opaque(f))
            else: vals.append(HAV)
        s.mem['P'] = Agg('Parser', vals)
        self.entry = s.mem['P']
        self.nt = NT_OF[name]
        c = [0] * len(FL)
        if module: c[FI['In']] = 1       # the context of a whole module
        else:
            for f, g in FLAG_OF.items(): c[FI[g]] = pin.get(f, 2)
        args, k = [Ref('P')], 0
        for a in fn.args[1:]:
            t = fn.locals[a]
            if t == 'bool':
                if k >= len(params): raise Unsupported('parameters of ' + name)
                args.append(params[k])
                k += 1
            elif t in ('u8', 'u16', 'u32', 'usize', 'i32'): args.append(UNK)
            else: raise Unsupported('parameter type %s of %s' % (t, name))
        if self.nt in BOOL_FLAG: c[FI[BOOL_FLAG[self.nt]]] = int(params[0])
        self.ctx = self.m.restrict(self.nt, tuple(c))
        s.M = ((self.nt, 0, self.ctx),)
        s.doms[0], s.doms[1] = self.m.all, self.m.all
        if cnt == 2: s.doms[0] = self.m.idname
        s.v = (0, 1)
        self.enter2(s, fn, args, None, None)
        return s

    def analyse(self):
        s = self.start()
        self.explore(s)
        cyc = cycle(self.edges)
        self.ob('G11', 'every loop iteration consumes a token', cyc is None, None)
        for h in find(self.prog, self.key[0]).heads: self.loops_seen += 1
        self.invariants = len(self.memo)
        return self.sum


class PureEngine(ParEngine):
    """runs one function without effects to its result"""
    def __init__(self, parent):
        self.__dict__.update(parent.__dict__)
        self.memo, self.edges, self.found, self.pend = {}, {}, {}, []
        self.result = set()

    def evaluate(self, t, fn, args, depth):
        t.frames = [Frame(fn, depth + 1, 'bb0', 0, None, None)]
        for a, v in zip(fn.args, args): t.mem[(depth + 1, a)] = v
        try:
            self.explore(t)
        except Unsupported:
            return None
        if len(self.result) != 1: return None
        r = next(iter(self.result))
        return r if isinstance(r, bool) else None

    def at_join(self, s): return True

    def pure_name(self, s, fn, args): return None

    def read0(self, s): raise Unsupported('effect')

    def c_pop(self, s, args): raise Unsupported('effect')

    def call_nt(self, *a): raise Unsupported('effect')

    def on_panic(self, *a): raise Unsupported('panic')

    def on_exit(self, s, v):
        v = self.norm(s, v)
        if isinstance(v, FinVal):
            for x, _ in v.parts: self.result.add(x)
        else: self.result.add(v)


def pins(m, nt):
    """flags that have one value wherever the grammar uses nt"""
    r = m.caches.get(('pins', nt))
    if r is None:
        r = {}
        cs = [c for n, c in m.follow()[0] if n == nt]
        for f, g in FLAG_OF.items():
            vs = {c[FI[g]] for c in cs}
            if g in m.rel[nt] and len(vs) == 1: r[f] = vs.pop()
        m.caches[('pins', nt)] = r
    return r


def mode_pin(m, nt):
    """what the innermost open brace or substitution is wherever the grammar uses nt: True a substitution, False not, None either"""
    r = m.caches.get('modes')
    if r is None:
        r = {n: set() for n in m.g.nts}
        todo = [(m.g.start, False)]
        while todo:
            n, b = todo.pop()
            if b in r[n]: continue
            r[n].add(b)
            seen, w = {(0, (b,))}, [(0, (b,))]
            while w:
                q, st = w.pop()
                for gs, sym, mods, t in m.g.nts[n].trans[q]:
                    s2 = st
                    if sym[0] == 'n': todo.append((sym[1], st[-1]))
                    elif sym == ('p', '{'): s2 = st + (False,)
                    elif sym == ('c', 'HEAD'): s2 = st + (True,)
                    elif sym in (('p', '}'), ('c', 'TAIL')): s2 = st[:-1]
                    if not s2 or len(s2) > 8: raise Unsupported('braces of the grammar symbol ' + n)
                    if (t, s2) not in seen:
                        seen.add((t, s2))
                        w.append((t, s2))
        m.caches['modes'] = r
    return next(iter(r[nt])) if len(r[nt]) == 1 else None


def payload_val(p): return UNIT if p is None else p


def find(prog, name):
    fs = prog.by_key.get(('Parser', None, name)) or []
    return fs[0] if len(fs) == 1 else None


def cycle(edges):
    """some node on a cycle, or None"""
    color = {}
    for r in edges:
        if r in color: continue
        stack = [(r, iter(edges.get(r, ())))]
        color[r] = 1
        while stack:
            n, it = stack[-1]
            for x in it:
                c = color.get(x)
                if c == 1: return x
                if c is None:
                    color[x] = 1
                    stack.append((x, iter(edges.get(x, ()))))
                    break
            else:
                color[n] = 2
                stack.pop()
    return None


# ------------------------------------------------------------------ all functions

ROOT = ('parse_module', (), 0, False)


class Result:
    """what one run of a function leaves"""
    def __init__(self, key, eng, err, t):
        self.key, self.err, self.t = key, err, t
        self.sum, self.deps, self.zero_calls, self.found = eng.sum, eng.deps, eng.zero_calls, eng.found
        self.steps, self.loops, self.invs, self.reached = eng.steps, eng.loops_seen, eng.invariants, eng.reached


MEM = 3 << 30


def run_one(prog, db, key, deadline):
    t = time.time()
    eng = ParEngine(prog, db, key, deadline)
    err = None
    try: eng.analyse()
    except Unsupported as x: err = str(x)
    except MemoryError:
        eng.memo = eng.edges = None
        err = 'memory limit of the verifier'
    except (KeyError, IndexError, AttributeError, TypeError, RecursionError, ValueError, AssertionError, StopIteration):
        import traceback
        err = 'internal: ' + traceback.format_exc()[-500:]
    return Result(key, eng, err, time.time() - t)


def worker(prog, conn, deadline):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    db = {}
    while True:
        try: x = conn.recv()
        except EOFError: return
        if x is None: return
        key, upd = x
        db.update(upd)
        conn.send(run_one(prog, db, key, deadline))


def solve(prog, deadline=None, log=None, procs=None):
    """least solution of the contracts' exits: -> (summaries, results by key, number of runs)"""
    import multiprocessing as mp, os
    from multiprocessing.connection import wait
    machine(prog).follow2()
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    ws, pr = [], []
    for _ in range(procs):
        a, b = ctx.Pipe()
        q = ctx.Process(target=worker, args=(prog, b, deadline))
        q.start()
        b.close()
        ws.append(a)
        pr.append(q)
    known = {w: {} for w in ws}           # what each worker has: key -> version
    db, ver, res, deps_of, cost = {}, {}, {}, {}, {}
    dirty, running, n = {ROOT}, {}, 0
    try:
        while dirty or running:
            free = [w for w in ws if w not in running]
            for w in free:
                todo = [k for k in dirty if k not in running.values()]
                if not todo: break
                k = min(todo, key=lambda k: (cost.get(k, 0), repr(k)))
                # an expensive run waits for cheap ones that may still change what it depends on
                if cost.get(k, 0) > 2.0 and any(cost.get(x, 0) < cost[k] / 3 for x in running.values()): break
                dirty.discard(k)
                upd = {x: db[x] for x in db if known[w].get(x) != ver[x]}
                known[w].update({x: ver[x] for x in upd})
                w.send((k, upd))
                running[w] = k
            for w in wait(list(running)):
                key = running.pop(w)
                try: r = w.recv()
                except EOFError: raise Unsupported('a worker of the verifier died')
                n += 1
                if n > 8000: raise Unsupported('no fixpoint of the contracts\' exits')
                if log: log('%-40s %5.1fs steps=%d memo=%d exits=%d %s' % (key, r.t, r.steps, r.invs, len(r.sum.exits), r.err or ''))
                cost[key] = max(cost.get(key, 0), r.t)
                res[key] = r
                S, old = r.sum, db.get(key)
                before = None
                if old is not None:
                    before = old.key()
                    for k, l in old.exits.items():
                        for a, b in l: S.add(k, a, b)
                    S.r0 |= old.r0
                    for a, b in old.bad: S.put(S.bad, a, b)
                    for k, v in old.r1.items(): S.r1[k] = S.r1.get(k, 0) | v
                for d in r.deps:
                    deps_of.setdefault(d, set()).add(key)
                    if d not in db and d not in running.values(): dirty.add(d)
                if any(known[w].get(d) != ver.get(d) for d in r.deps): dirty.add(key)     # changed while it ran
                if before is None or before != S.key():
                    db[key] = S
                    ver[key] = ver.get(key, 0) + 1
                    dirty |= deps_of.get(key, set())
                else:
                    db[key] = S if old is None else old
    finally:
        for w in ws:
            try: w.send(None)
            except OSError: pass
            w.close()
        for q in pr:
            q.join(1)
            if q.is_alive(): q.kill()
    return db, res, n


# ------------------------------------------------------------------ what check.py runs

def lemma(m):
    """facts about the reference grammar that the properties take from it: [(tag, what, ok, detail)]"""
    out = []
    pair = {('p', ')'): ('p', '('), ('p', ']'): ('p', '['), ('p', '}'): ('p', '{'), ('c', 'TAIL'): ('c', 'HEAD')}
    opens = set(pair.values())
    for n, N in m.g.nts.items():
        ok, seen, w = True, {(0, ())}, [(0, ())]
        while w and ok:
            q, st = w.pop()
            if N.accept[q] and st: ok = False
            for gs, sym, mods, t in N.trans[q]:
                s2 = st
                if sym in opens: s2 = st + (sym,)
                elif sym in pair:
                    if not st or st[-1] != pair[sym]: ok = False
                    s2 = st[:-1]
                elif sym == ('c', 'MIDDLE') and (not st or st[-1] != ('c', 'HEAD')): ok = False
                if len(s2) > 8: ok = False
                if ok and (t, s2) not in seen:
                    seen.add((t, s2))
                    w.append((t, s2))
        out.append(('G04', 'every construct of the grammar closes what it opens, in order', ok, n))
    ok = not any(k[0] == 'k' and k[1] in G.RESERVED and G.match(('c', 'IDENT'), k) for k in m.kinds)
    out.append(('G10', 'the identifiers of the grammar are not reserved', ok, ''))
    return out


def verify(prog, budget, log=None):
    """all of the parser: [unit results] as of tok.run_unit"""
    import buf
    t = time.time()
    deadline = t + budget
    out = []
    mk = lambda u, err, obls, wall, loops, invs: dict(unit=u, err=err, obls=obls, checks=0, t=0, wall=wall, loops=loops, invs=invs)
    st = lambda x: 'ok' if x else 'fail'
    try:
        db, res, n = solve(prog, deadline, log)
    except Unsupported as x:
        return [mk('parser', str(x), [], time.time() - t, 0, 0)]
    names = {}
    for key, r in res.items():
        fn = find(prog, key[0])
        names.setdefault(key[0], []).append(r)
    for name, rs in sorted(names.items()):
        fn = find(prog, name)
        path = fn.path if fn else name
        obls = [(tag, path, what, s, '%s: %s' % (at, det) if det else at, 0) for r in rs for (tag, what, at), (s, det, c) in sorted(r.found.items())]
        errs = sorted({r.err for r in rs if r.err})
        out.append(mk('parser:' + name, '; '.join(errs) or None, obls, sum(r.t for r in rs), len(fn.heads) if fn and 'error' not in fn.blocks else 0, sum(r.invs for r in rs)))
    c = cycle({k: [d for d in r.zero_calls if d in res] for k, r in res.items()})
    root = res.get(ROOT)
    obls = [('G11', 'parser', 'no cycle of calls without a token consumed', st(c is None), '' if c is None else 'through %s' % (c,), 0),
            ('G03', 'parser', 'there is an accepting parse', 'ok' if root and root.reached else 'unknown', '', 0)]
    obls += [(tag, 'grammar', what, st(ok), d, 0) for tag, what, ok, d in lemma(machine(prog))]
    out.append(mk('parser', None, obls, time.time() - t, 0, n))
    for u in buf.units(prog):
        t1 = time.time()
        try: e, path, err = buf.run(prog, u, deadline)
        except (KeyError, IndexError, AttributeError, TypeError, RecursionError, ValueError, AssertionError, StopIteration):
            import traceback
            e, path, err = None, u, 'internal: ' + traceback.format_exc()[-500:]
        obls = [(tag, path, what, s, '%s: %s' % (at, det) if det else at, 0) for (tag, what, at), (s, det, c) in sorted(e.found.items())] if e else []
        out.append(mk(u, err, obls, time.time() - t1, e.loops_seen if e else 0, e.invariants if e else 0))
    return out


if __name__ == '__main__':
    import sys, glob
    d = glob.glob('/verif/build/mir/debug/deps/jsparse-*.mir')[0]
    files = sorted(set(re.findall(r'(\S+\.rs)', open(d[:-4] + '.d').read())))
    prog = Program('/repo', open(d).read(), files)
    t = time.time()
    res = verify(prog, 3000, (lambda x: print(x, flush=True)) if '-v' in sys.argv else None)
    tot = bad = 0
    tags = {}
    for r in res:
        if r['err']: print('ERR', r['unit'], r['err'])
        for o in r['obls']:
            tot += 1
            tags[o[0]] = tags.get(o[0], 0) + 1
            if o[3] != 'ok':
                bad += 1
                print('BAD', r['unit'], o)
    print(tot, 'obligations', bad, 'bad', time.time() - t, 's', dict(sorted(tags.items())))
