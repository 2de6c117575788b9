"""Contracts of the parser's token buffer (token_and_line, ident_lookahead, pop, with everything they call), of the
identifier test and of the entry points, checked on their MIR.

Ghost state: the tokens the tokenizer returned, in order, and whether a line break was seen since the last significant one.
view(P) is what the buffer holds: the `count` tokens starting at `index`.

  token_and_line   ensures  view is unchanged, or was empty and is the next significant token, requested with the hints
                            in effect; the result is the head of view; hint.expression is off once it was used
  ident_lookahead  ensures  as token_and_line; None when the head is not a name, else the second token, which is requested
                            with `expression` exactly after a name an expression may follow
  pop              requires a token is buffered
                   ensures  the result is the head of view, view is its tail, nothing else changes
  every buffered token carries its line flag: a line terminator, or a comment over several lines, before it

The loop over trivia is explored in its abstract states until nothing new appears, so it is covered for every number of
trivia tokens.
"""
from par import *
import par

NEVER_EXPR = ('this', 'super', 'null', 'true', 'false')      # reserved words that are operands


LINES = 3      # a token of many lines: at least so many line breaks


class Lin:
    """a line number of the raw token n: that of its start plus k lines, or (many) at least so many"""
    __slots__ = ('n', 'k', 'many')

    def __init__(self, n, k, many=False): self.n, self.k, self.many = n, k, many

    def __repr__(self): return 'line%+d%s' % (self.k, '..' if self.many else '')


def span(a, b):
    """what is known of the difference of two line numbers: lowest and highest value, None without bound"""
    return None if b.many else a.k - b.k, None if a.many else a.k - b.k


class BufEngine(ParEngine):
    CONTRACTS = {}

    def __init__(self, prog, fn, what, deadline):
        ParEngine.__init__(self, prog, {}, (what, (), 0, False), deadline)
        self.fn, self.what = fn, what

    # ---- values
    def binop(self, s, op, a, b, dest):
        a, b = self.norm(s, a), self.norm(s, b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            base = op.replace('WithOverflow', '')
            pair = lambda r, o=False: Agg('', (r, o)) if base != op else r
            if base in ('Add', 'Sub') and isinstance(a, Lin) and isinstance(b, int):
                # (line numbers stay far from the ends of their type)
                return pair(Lin(a.n, a.k + b if base == 'Add' else a.k - b, a.many))
            if base == 'Add' and isinstance(a, int): return pair(Lin(b.n, a + b.k, b.many))
            if not isinstance(a, Lin) or not isinstance(b, Lin) or a.n != b.n: raise Unsupported('line numbers of different tokens')
            lo, hi = span(a, b)
            if base == 'Sub':
                if lo is not None and lo == hi and lo >= 0: return pair(lo)
                if lo is not None and lo >= 0: return pair(Big(lo))
                if hi is not None and hi < 0 and base != op: return pair(0, True)
                raise Unsupported('a difference of line numbers')
            lt = True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
            gt = True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
            eq = True if lo == hi == 0 else False if lt or gt else None
            r = {'Eq': eq, 'Ne': None if eq is None else not eq, 'Lt': lt, 'Ge': None if lt is None else not lt, 'Gt': gt, 'Le': None if gt is None else not gt}.get(op)
            if r is None: raise Unsupported('%s of line numbers' % op)
            return r
        return ParEngine.binop(self, s, op, a, b, dest)

    def canon(self, s, v, ren):
        if isinstance(v, Lin): return ('lin', ren.setdefault(('lin', v.n), ('l', len(ren))), v.k, v.many)
        return ParEngine.canon(self, s, v, ren)

    def nt_name(self, key, fn): return None

    def rng(self, n, multi):
        """TokenRange of the n-th token of the tokenizer"""
        st = self.prog.types.structs
        fields = {'start': Lin(n, 0), 'end': Lin(n, multi, multi == LINES)}
        def pos(k): return Agg('TokenPosition', [fields[k] if f == 'line' else Opaque(f) for f in self.posfields])
        self.posfields = next(fs for name, ls in st.items() for fs in ls if set(fs) == {'offset', 'line', 'column'} or set(fs) >= {'line', 'column'})
        return Agg('TokenRange', [pos(f) if f in fields else Opaque(f) for f in st['TokenRange'][0]])

    # ---- the tokenizer
    def next_token(self, s, args):
        """one raw token, of any kind"""
        lt, n = s.modes
        hint = self.peel(s, args[1])
        out = args[2]
        if self.reads(s) <= n:
            self.ob('G01', 'only the tokens asked for are read from the tokenizer', False, s, 'token %d is read' % (n + 1))
            return []
        self.ob('G01', 'only the tokens asked for are read from the tokenizer', True, s)
        e, t, st = (self.norm(s, hint.vals[self.hint_fields.index(f)]) for f in ('expression', 'template', 'strict'))
        want = self.want_e(s, n)
        self.ob('G07', 'a token is requested with the expression hint in effect for it', self.eqv(s, e, want), s, 'asked %r, should be %r' % (e, want))
        self.ob('G06', 'a token is requested with the template hint in effect', self.eqv(s, t, self.ent_hint('template')), s, 'asked %r' % (t,))
        kinds = [(Enum('Token', 'Whitespace', [Opaque('Whitespace')]), 0, lt), (Enum('Token', 'LineTerminator', [Opaque('LineTerminator')]), 1, True)]
        kinds += [(Enum('Token', 'Comment', [Opaque('Comment')]), k, lt or k > 0) for k in (0, 1, 2, LINES)] + [(None, k, lt) for k in (0, 1, 2, LINES)]
        res = []
        for tok, multi, lt2 in kinds:
            u = s.fork()
            u.last, u.nv = None, u.nv + 1
            if tok is None:
                var = ('N', n)
                u.doms[var] = self.m.ltm if lt else self.m.all & ~self.m.ltm
                tok = Tok('tok', var)
                u.modes = (False, n + 1)
            else: u.modes = (lt2, n)
            o = out.vals
            self.store(u, o[0].cell, o[0].path, tok)
            self.store(u, o[1].cell, o[1].path, self.rng(u.nv, multi))
            res.append((u, UNIT))
        return res

    def reads(self, s):
        """how many significant tokens may have been read by now"""
        n0 = max(0, 1 - self.c0) if self.what in ('token_and_line', 'ident_lookahead') else 0
        if self.what != 'ident_lookahead' or self.c0 == 2: return n0
        var = self.head()
        if var not in s.doms: return n0
        d = s.doms[var]
        if d & self.m.idname and d & ~self.m.idname: raise Split(var, [self.m.idname, self.m.all & ~self.m.idname])
        return n0 + (1 if d & self.m.idname else 0)

    def want_e(self, s, n):
        if self.c0 == 0 and n == 0: return self.ent_hint('expression')
        return FinVal(self.head(), ((False, self.m.all & ~self.expr_names()), (True, self.expr_names())))

    def expr_names(self):
        """reserved words after which an operand may follow"""
        no = self.m.ident
        for x in NEVER_EXPR: no |= self.m.byname.get(x, 0)
        return self.m.idname & ~no

    def head(self): return ('N', 0) if self.c0 == 0 else ('T', 0)

    def ent_hint(self, f):
        return self.entry.vals[self.fields.index('hint')].vals[self.hint_fields.index(f)]

    def intrinsic(self, s, callee, args, st):
        key = self.callee_key(callee)
        m = key[2] if isinstance(key, tuple) else key.split('::')[-1]
        if m == 'next_token' and key[0] == 'T': return self.next_token(s, args)
        if m == 'into' and len(args) == 1: return [(s, Opaque('token'))]
        if m == 'default' and key[0] in ('usize', 'u64', 'u32'): return [(s, 0)]
        return ParEngine.intrinsic(self, s, callee, args, st)

    # ---- states
    def begin(self, c, i):
        self.c0, self.i0 = c, i
        s = PS()
        s.frames, s.mem, s.doms, s.nv = [], {}, {}, 1
        s.modes, s.consumed, s.dead, s.last, s.again, s.first, s.M = (False, 0), True, None, None, False, None, None
        s.opens, s.eofd, s.taint = (), False, False
        s.doms[0] = s.doms[1] = self.m.all
        s.v = (0, 1)
        fl = []
        for f in self.flag_fields:
            if f in ('is_module', 'is_strict'): fl.append(True)
            else:
                s.doms[('F', f)] = 3
                fl.append(FinVal(('F', f), ((False, 1), (True, 2))))
        hint = []
        for f in self.hint_fields:
            s.doms[('H', f)] = 3
            hint.append(FinVal(('H', f), ((False, 1), (True, 2))))
        slots = []
        for k in range(2):
            j = (k - i) % 2
            if j < c:
                s.doms[('T', j)] = self.m.all if j or c == 1 else self.m.idname   # (two tokens are buffered only behind a name: ident_lookahead)
                slots.append(self.lookahead_result(('T', j)))
            else: slots.append(Agg('LookaheadResult', [UNK if f == 'line' else Opaque('stale') for f in self.prog.types.structs['LookaheadResult'][0]]))
        vals = []
        for f in self.fields:
            if f == 'hint': vals.append(Agg('Hint', hint))
            elif f == 'flags': vals.append(Agg('GrammarFlags', fl))
            elif f == 'flags_stack': vals.append(Opaque('saved contexts'))
            elif f == 'count': vals.append(c)
            elif f == 'index': vals.append(i)
            elif f == 'tokens': vals.append(Agg('[]', slots))
            elif f == 'tok': vals.append(Opaque('tok'))
            else: vals.append(HAV)
        s.mem['P'] = self.entry = Agg('Parser', vals)
        self.enter2(s, self.fn, [Ref('P')], None, None)
        return s

    def slot_is(self, s, slot, var):
        fs = self.prog.types.structs['LookaheadResult'][0]
        line, tok = slot.vals[fs.index('line')], self.norm(s, slot.vals[fs.index('token')])
        return isinstance(tok, Tok) and tok.kind == 'tok' and tok.var == var, self.eqv(s, line, self.result_line(var))

    def on_exit(self, s, v):
        self.reached = True
        what, c = self.what, self.c0
        names = [('T', j) for j in range(c)] + [('N', j) for j in range(s.modes[1])]
        if self.reads(s) > s.modes[1]:
            self.ob('G01', 'the tokens asked for are read', False, s)
            return
        self.ob('G01', 'the tokens asked for are read', True, s)
        if what == 'pop': names = names[1:]
        c2, i2 = self.concrete(s, self.pget(s, 'count')), self.concrete(s, self.pget(s, 'index'))
        self.ob('G01', 'the buffer holds exactly the tokens not consumed yet', c2 == len(names) and i2 in (0, 1), s, 'count %r index %r, %d tokens' % (c2, i2, len(names)))
        if c2 != len(names) or i2 not in (0, 1): return
        toks = self.pget(s, 'tokens').vals
        for j, var in enumerate(names):
            a, b = self.slot_is(s, toks[(i2 + j) % 2], var)
            self.ob('G01', 'buffered tokens stay in order', a, s, 'token %d is %r' % (j, toks[(i2 + j) % 2]))
            self.ob('G02', 'a token is flagged exactly when a line break precedes it', b, s, lambda: 'line flag %r' % (toks[(i2 + j) % 2],))
        fr = [f for f in ('flags', 'flags_stack', 'tok') if not self.eqv2(s, self.pget(s, f), self.entry.vals[self.fields.index(f)])]
        self.ob('G05', 'the token buffer leaves the grammar context alone', not fr, s, 'changed: ' + ' '.join(fr))
        ok = self.eqv(s, self.hget(s, 'template'), self.ent_hint('template'))
        self.ob('G06', 'the token buffer leaves the template hint alone', ok, s)
        e = self.hget(s, 'expression')
        want = self.ent_hint('expression') if c else False
        if what == 'pop': want = self.ent_hint('expression')
        self.ob('G07', 'the expression hint is off once its token was read', self.eqv(s, e, want), s, 'hint %r' % (e,))
        if what == 'pop':
            t = self.norm(s, v)
            self.ob('G01', 'pop hands out the first unconsumed token', isinstance(t, Tok) and t.kind == 'tok' and t.var == ('T', 0), s, 'result %r' % (t,))
        elif what == 'token_and_line':
            t = self.peel(s, v.vals[1])
            self.ob('G01', 'the token looked at is the first unconsumed one', isinstance(t, Tok) and t.kind == 'tok' and t.var == names[0], s, 'result %r' % (t,))
            self.ob('G02', 'the line flag reported is that of the token', self.eqv(s, v.vals[0], self.result_line(names[0])), s, 'result %r' % (v.vals[0],))
        else:
            d = s.doms[names[0]]
            isn, non = bool(d & self.m.idname), bool(d & ~self.m.idname)
            if v.var == 'None':
                self.ob('G01', 'a token is looked ahead to exactly behind a name', not isn, s)
            else:
                self.ob('G01', 'a token is looked ahead to exactly behind a name', not non and len(names) > 1, s)
                if len(names) > 1:
                    a, b = self.slot_is(s, self.peel(s, v.vals[0]), names[1])
                    self.ob('G01', 'the token looked ahead to is the second unconsumed one', a, s)
                    self.ob('G02', 'the line flag of the token looked ahead to is its own', b, s)

    def eqv2(self, s, a, b): return self.canon(s, a, {}) == self.canon(s, b, {})

    def run(self):
        cs = (1, 2) if self.what == 'pop' else (0, 1, 2)
        for c in cs:
            for i in (0, 1):
                self.memo, self.edges = {}, {}
                self.explore(self.begin(c, i))
                self.ob('G11', 'every turn of a loop in the token buffer reads a token', cycle(self.edges) is None, None)
                self.invariants += len(self.memo)
        if not self.reached: raise Unsupported('no normal end of ' + self.what)


class NameEngine(ParEngine):
    """is_binding_identifier on every name that any comparison can tell apart"""
    CONTRACTS = {}

    def __init__(self, prog, deadline):
        ParEngine.__init__(self, prog, {}, ('is_binding_identifier', (), 0, False), deadline)

    def run(self, fn):
        m = self.m
        for y in (False, True):
            for aw in (False, True):
                s = PS()
                s.frames, s.mem, s.doms, s.nv = [], {}, {0: m.all, 1: m.all}, 1
                s.modes, s.consumed, s.dead, s.last, s.again, s.first, s.M, s.v = (), True, None, None, False, None, None, (0, 1)
                s.opens, s.eofd, s.taint = (), False, False
                fl = []
                for f in self.flag_fields:
                    if f in ('is_module', 'is_strict'): fl.append(True)
                    elif f == 'allow_yield': fl.append(y)
                    elif f == 'allow_await': fl.append(aw)
                    else:
                        s.doms[('F', f)] = 3
                        fl.append(FinVal(('F', f), ((False, 1), (True, 2))))
                s.mem['P'] = Agg('GrammarFlags', fl)
                for name, mask in sorted(m.byname.items()):
                    if len(fn.args) != 2: raise Unsupported('parameters of is_binding_identifier')
                    r = self.eval_pure(s, fn, [Ref('P'), None], 1, name)
                    if r is None: raise Unsupported('is_binding_identifier(%s)' % name)
                    want = not mask & m.reserved
                    self.ob('G10', 'exactly the names that are not reserved may be bound', r == want, None, '%s: %s' % (name, r))
        self.reached = True


class EntryEngine(ParEngine):
    """the public entry points: a fresh parser, and success only when parse_module succeeded"""
    CONTRACTS = {}

    def __init__(self, prog, fn, deadline):
        ParEngine.__init__(self, prog, {}, ('from_tokenizer', (), 0, False), deadline)
        self.fn = fn

    def run(self):
        s = PS()
        s.frames, s.mem, s.doms, s.nv = [], {}, {0: self.m.all, 1: self.m.all}, 1
        s.modes, s.consumed, s.dead, s.last, s.again, s.first, s.M, s.v = ('none',), True, None, None, False, None, None, (0, 1)
        s.opens, s.eofd, s.taint = (), False, False
        self.enter2(s, self.fn, [Opaque('source')], None, None)
        self.explore(s)
        self.ob('G03', 'the entry point can report success', self.reached, None)

    def nt_name(self, key, fn): return None

    def do_call(self, s, st):
        key = self.callee_key(st[2]) if isinstance(st[2], str) else None
        if isinstance(key, tuple) and key[0] == 'Parser' and key[2] == 'parse_module':
            args = [self.norm(s, self.operand(s, a)) for a in st[3]]
            self.flush(s)
            P = self.peel(s, args[0])
            if not isinstance(P, Agg) or P.name != 'Parser': raise Unsupported('parse_module of %r' % (P,))
            get = lambda f: P.vals[self.fields.index(f)]
            flags, hint = get('flags').vals, get('hint').vals
            self.ob('G01', 'a parse begins with an empty token buffer', get('count') == 0, s, 'count %r' % (get('count'),))
            ok = isinstance(get('flags_stack'), Vec) and not get('flags_stack').vals and all(x is False for x in flags)
            self.ob('G05', 'a parse begins in the empty grammar context', ok, s, '%r' % (flags,))
            self.ob('G06', 'a parse begins outside of any template', hint[self.hint_fields.index('template')] is False, s)
            self.ob('G07', 'a parse begins without a hint of its own', hint[self.hint_fields.index('expression')] is False, s)
            self.ob('G01', 'the source given is what is parsed', repr(get('tok')) == repr(Opaque('tokenizer of the source')), s, repr(get('tok')))
            if s.modes != ('none',): raise Unsupported('a second parse')
            out = []
            for r in ('Ok', 'Err'):
                t = s.fork()
                t.modes = (r,)
                v = Enum('Result', r, [UNIT if r == 'Ok' else Opaque('error')])
                cell, path = self.resolve(t, st[1])
                self.store(t, cell, path, v)
                t.top.block, t.top.i = st[4], 0
                out.append(t)
            return out
        return ParEngine.do_call(self, s, st)

    def intrinsic(self, s, callee, args, st):
        key = self.callee_key(callee)
        m = key[2] if isinstance(key, tuple) else key.split('::')[-1]
        if m == 'into_tokenizer': return [(s, Opaque('tokenizer of the source') if isinstance(args[0], Opaque) and args[0].tag == 'source' else Opaque('?'))]
        r = ParEngine.intrinsic(self, s, callee, args, st)
        if r is not None: return r
        if any(isinstance(a, Ref) and isinstance(self.peel(s, a), Agg) and self.peel(s, a).name == 'Parser' for a in args): raise Unsupported('call of ' + callee)
        return [(s, Opaque(m))]

    def canon(self, s, v, ren):
        return ParEngine.canon(self, s, v, ren)

    def on_panic(self, s, kind, msg):
        # a parse that failed is reported by a panic of the entry point
        if s.modes == ('Err',) and kind == 'unwrap': return
        ParEngine.on_panic(self, s, kind, msg)

    def on_exit(self, s, v):
        self.reached = True
        self.ob('G03', 'success is reported only when the parse of the whole module succeeded', s.modes == ('Ok',), s, repr(s.modes))


def units(prog):
    out = [('buffer:' + n) for n in ('token_and_line', 'ident_lookahead', 'pop')] + ['names']
    out += ['entry:%d' % i for i, f in enumerate(entries(prog))]
    return out


def entries(prog):
    return sorted((f for p, f in prog.fns.items() if p.endswith('::from_tokenizer') and f.blocks), key=lambda f: f.path)


def run(prog, u, deadline):
    """-> (engine, function name, error)"""
    kind, _, x = u.partition(':')
    err = None
    if kind == 'buffer':
        fn = find(prog, x)
        if fn is None: return None, x, 'no function ' + x
        e = BufEngine(prog, fn, x, deadline)
        go = e.run
    elif kind == 'names':
        fs = [f for p, f in prog.fns.items() if p == 'parser::is_binding_identifier']
        if len(fs) != 1: return None, 'is_binding_identifier', 'no function is_binding_identifier'
        e = NameEngine(prog, deadline)
        go = lambda: e.run(fs[0])
        x = fs[0].path
    else:
        fn = entries(prog)[int(x)]
        e = EntryEngine(prog, fn, deadline)
        go, x = e.run, fn.path
    try: go()
    except Unsupported as y: err = str(y)
    return e, x, err


if __name__ == '__main__':
    import sys
    sys.path.insert(0, '/tmp/w')
    from callees import load
    prog = load()
    for u in units(prog):
        e, x, err = run(prog, u, None)
        print(u, x, err, e and (e.steps, len(e.found)))
        if e:
            for (tag, what, at), (st, det, c) in e.found.items():
                print('  ', tag, at, what, st, c, det[:150] if st != 'ok' else '')
