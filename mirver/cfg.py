"""Control-flow facts about one function: natural loops and live locals."""
from mir import succs


def preds(fn):
    if getattr(fn, '_preds', None) is None:
        p = {b: [] for b in fn.blocks}
        for b, blk in fn.blocks.items():
            for t in succs(blk[-1]): p.setdefault(t, []).append(b)
        fn._preds = p
    return fn._preds


def back_sources(fn):
    """head -> sources of its back edges"""
    if getattr(fn, '_back', None) is None:
        back, seen = {}, {'bb0': 1}
        stack = [('bb0', iter(succs(fn.blocks['bb0'][-1])))]
        while stack:
            b, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen[t] = 1
                    stack.append((t, iter(succs(fn.blocks[t][-1]))))
                    break
                elif seen[t] == 1: back.setdefault(t, set()).add(b)
            else:
                seen[b] = 2
                stack.pop()
        fn._back = back
    return fn._back


def loop_body(fn, head):
    cache = fn.__dict__.setdefault('_bodies', {})
    if head not in cache:
        body, work = {head}, list(back_sources(fn).get(head, ()))
        p = preds(fn)
        while work:
            b = work.pop()
            if b in body: continue
            body.add(b)
            work.extend(p.get(b, ()))
        cache[head] = body
    return cache[head]


def place_uses(pl, out):
    if pl[1]: out.add(pl[0])
    for p in pl[1]:
        if p[0] == 'ix': out.add(p[1])


def op_uses(op, out):
    if op[0] in ('copy', 'move'):
        out.add(op[1][0])
        place_uses(op[1], out)


def rv_uses(rv, out, taken):
    k = rv[0]
    if k in ('use', 'cast', 'repeat'): op_uses(rv[1], out)
    elif k == 'ref':
        out.add(rv[1][0])
        place_uses(rv[1], out)
        if not any(p[0] == 'deref' for p in rv[1][1]): taken.add(rv[1][0])
    elif k == 'bin':
        op_uses(rv[2], out)
        op_uses(rv[3], out)
    elif k == 'un': op_uses(rv[2], out)
    elif k in ('len', 'disc'):
        out.add(rv[1][0])
        place_uses(rv[1], out)
    elif k in ('tuple', 'array'):
        for o in rv[1]: op_uses(o, out)
    elif k == 'struct':
        for _, o in rv[2]: op_uses(o, out)
    elif k == 'ctor':
        for o in rv[2]: op_uses(o, out)


def liveness(fn):
    """block -> locals live at its start; locals whose address is taken are always live"""
    if getattr(fn, '_live', None) is not None: return fn._live
    gen, kill, taken = {}, {}, set()
    for b, blk in fn.blocks.items():
        g, k = set(), set()
        for st in blk:
            u, d = set(), None
            if st[0] == 'assign':
                rv_uses(st[2], u, taken)
                if st[1][1]: u.add(st[1][0]); place_uses(st[1], u)
                else: d = st[1][0]
            elif st[0] == 'switch' or st[0] == 'assert': op_uses(st[1], u)
            elif st[0] == 'drop':
                u.add(st[1][0])
                place_uses(st[1], u)
            elif st[0] == 'call':
                for o in st[3]: op_uses(o, u)
                if st[1] is not None:
                    if st[1][1]: u.add(st[1][0]); place_uses(st[1], u)
                    else: d = st[1][0]
                if isinstance(st[2], str): pass
            elif st[0] == 'return': u.add('_0')
            elif st[0] == 'setdisc': u.add(st[1][0])
            g |= u - k
            if d: k.add(d)
        gen[b], kill[b] = g, k
    live = {b: set(gen[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b, blk in fn.blocks.items():
            o = set()
            for t in succs(blk[-1]): o |= live.get(t, set())
            n = gen[b] | (o - kill[b])
            if n != live[b]:
                live[b] = n
                ch = True
    for b in live: live[b] |= taken
    fn._live = live
    return live


def const_assigned(fn, body):
    """places given a constant in the loop body (whole local or a field path)"""
    out = set()
    for b in body:
        for st in fn.blocks.get(b, ()):
            if st[0] == 'assign' and st[2][0] == 'use' and st[2][1][0] == 'const':
                out.add((st[1][0], tuple(st[1][1])))
    return out


def const_compared(fn):
    """small constants a value of the function is compared with"""
    r = getattr(fn, '_cmp', None)
    if r is None:
        r = set()
        for blk in fn.blocks.values():
            for st in blk:
                if st[0] == 'switch': r |= {v for v, _ in st[2] if isinstance(v, int)}
                if st[0] == 'assign' and st[2][0] == 'bin' and st[2][1] in ('Eq', 'Ne'):
                    for o in st[2][2:4]:
                        if o[0] == 'const' and o[1][0] in ('int', 'char'): r.add(o[1][1])
        r = fn._cmp = sorted(r)
    return r
