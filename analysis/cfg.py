"""dominators, natural loops and slices over one function's blocks (engine.Fn)"""


def dominators(f):
    """block -> set of blocks dominating it (reachable blocks only)"""
    order = f.order
    pos = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    changed = True

    def meet(a, b):
        while a != b:
            while pos[a] > pos[b]:
                a = idom[a]
            while pos[b] > pos[a]:
                b = idom[b]
        return a
    while changed:
        changed = False
        for b in order:
            if b == 0:
                continue
            n = None
            for p in f.pred[b]:
                if p in idom:
                    n = p if n is None else meet(n, p)
            if n is not None and idom.get(b) != n:
                idom[b] = n
                changed = True
    return idom


def dom(idom, a, b):
    """does a dominate b"""
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]


def loops(f, idom):
    """header -> (blocks, latches)"""
    out = {}
    for t in f.order:
        for h in f.succ[t]:
            if h in idom and dom(idom, h, t):
                body, lat = out.setdefault(h, (set([h]), set()))
                lat.add(t)
                st = [t]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in f.pred[x] if p in idom]
    return out


def operands(ins):
    op = ins[0]
    if op == 'load':
        return [ins[3]]
    if op == 'store':
        return [ins[3], ins[4]]
    if op == 'gep':
        return [ins[3]] + [v for v, _ in ins[5]]
    if op == 'cast':
        return [ins[4]]
    if op in ('bin', 'icmp'):
        return [ins[4], ins[5]]
    if op == 'phi':
        return [v for v, _ in ins[3]]
    if op == 'select':
        return [ins[3], ins[4], ins[5]]
    if op == 'call':
        return list(ins[4]) + ([ins[3]] if isinstance(ins[3], list) else [])
    if op in ('br', 'switch', 'extract'):
        return [ins[3]]
    if op == 'ret':
        return [ins[3]] if ins[3] else []
    if op == 'other':
        return list(ins[4])
    return []


def baseof(f, op):
    """the object a pointer operand points into: ('alloca', id), ('arg', k), ('global', n), ('load', id), ..."""
    seen = set()
    while op[0] == 'v':
        if op[1] in seen:
            return ('?',)
        seen.add(op[1])
        d = f.defs.get(op[1])
        if not d:
            return ('?',)
        if d[0] == 'gep':
            op = d[3]
        elif d[0] == 'cast':
            op = d[4]
        elif d[0] == 'alloca':
            return ('alloca', d[1])
        elif d[0] == 'load':
            return ('load', d[1])
        elif d[0] == 'call':
            return ('call', d[1])
        elif d[0] == 'phi':
            return ('phi', d[1])
        else:
            return ('?',)
    if op[0] == 'a':
        return ('arg', op[1])
    if op[0] == 'g':
        return ('global', op[1])
    return ('?',)
