"""Path-sensitive exploration of one function: which operations ran, what is known of their results, what is returned.

Every path is followed; states that agree on what is still used are merged.  Values: ('c', n), ('s', id) the result of
instruction id, ('p', pred, id, n) the truth of a comparison of it.  Known of a result: ('eq', n) or ('ne', {n..}).
"""
LIMIT = 60000
MASK = (1 << 64) - 1


TOP = (None, None, frozenset())


def allows(con, n):
    """can a result about which con is known be n"""
    if con is None:
        return True
    lo, hi, ex = con
    return (lo is None or lo <= n) and (hi is None or n <= hi) and n not in ex


def only(con, n):
    """is the result known to be n"""
    return con is not None and con[0] == n and con[1] == n


def both(con, pred, n):
    """con and (result pred n); False when impossible"""
    lo, hi, ex = con or TOP
    if pred == 'eq':
        return (n, n, frozenset()) if allows(con, n) else False
    if pred == 'ne':
        ex = ex | frozenset([n])
    else:
        m = {'slt': n - 1, 'sle': n, 'sgt': n + 1, 'sge': n}.get(pred)
        if m is None:
            return con or TOP
        if pred in ('slt', 'sle'):
            hi = m if hi is None or m < hi else hi
        else:
            lo = m if lo is None or m > lo else lo
    while lo is not None and lo in ex:
        ex = ex - frozenset([lo])
        lo += 1
    while hi is not None and hi in ex:
        ex = ex - frozenset([hi])
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return False
    return (lo, hi, frozenset(x for x in ex if (lo is None or x > lo) and (hi is None or x < hi)))


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule',
       'ule': 'ugt'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class St(object):
    __slots__ = ('env', 'con', 'mem', 'ev')

    def __init__(self, env, con, mem, ev):
        self.env, self.con, self.mem, self.ev = env, con, mem, ev

    def copy(self):
        return St(dict(self.env), dict(self.con), dict(self.mem), self.ev)


class Client(object):
    """what to watch"""
    start = ()      # events that hold at the entry

    def call(self, st, ins):
        """after the result of the call was given a fresh symbol"""

    def step(self, st, ins):
        """any other instruction"""

    def forget(self, st, sym, con):
        """the last use of a symbol is behind; ev may need what was known of it"""

    def holds(self, ev):
        """symbols the events still need"""
        return ()

    def ret(self, st, ins, val):
        """a return"""


class Explorer(object):
    def __init__(self, u, f, client, limit=LIMIT):
        self.u, self.f, self.cl, self.limit = u, f, client, limit
        self.n = 0
        self.cut = False
        self.scalars = self.tracked()
        self.once = self.used_once()

    def tracked(self):
        """local variables kept in memory that hold a scalar and are only read, written and passed on"""
        out = set()
        f = self.f
        bad = set()
        for b in f.order:
            for i in f.blocks[b]:
                if i[0] == 'gep' and i[3][0] == 'v':
                    bad.add(i[3][1])
                elif i[0] == 'store' and i[3][0] == 'v':
                    bad.add(i[3][1])
                elif i[0] == 'cast' and i[4][0] == 'v':
                    bad.add(i[4][1])
                elif i[0] == 'phi':
                    bad |= set(v[1] for v, _ in i[3] if v[0] == 'v')
                elif i[0] == 'select':
                    bad |= set(v[1] for v in i[4:6] if v[0] == 'v')
        for a, (size, ty, _) in f.allocas.items():
            if a not in bad and ty in ('i32', 'i8', 'i64', 'ptr'):
                out.add(a)
        return out

    def used_once(self):
        """results looked at in one place only: nothing learned there is of use later"""
        f = self.f
        uses = {}
        keep = set()
        for b in f.order:
            for i in f.blocks[b]:
                op = i[0]
                if op in ('icmp', 'br', 'switch'):
                    ops = [i[4], i[5]] if op == 'icmp' else [i[3]]
                    for o in ops:
                        if o[0] == 'v':
                            uses[o[1]] = uses.get(o[1], 0) + 1
                elif op in ('phi', 'select', 'ret', 'cast', 'bin', 'store'):
                    ops = ([v for v, _ in i[3]] if op == 'phi' else i[3:6] if op == 'select' else [i[3]] if op in ('ret', 'store')
                           else [i[4]] if op == 'cast' else [])
                    for o in ops:
                        if o and o[0] == 'v':
                            keep.add(o[1])
        return set(k for k, n in uses.items() if n < 2 and k not in keep)

    def field(self, st, op):
        """the place a pointer leads to: (what it was computed from, offset)"""
        off = 0
        for _ in range(8):
            if op[0] == 'g':
                return (('g', op[1]), off + op[2])
            if op[0] != 'v':
                break
            d = self.f.defs.get(op[1])
            if d and d[0] == 'gep' and not d[5]:
                op, off = d[3], off + d[4]
                continue
            if d and d[0] == 'cast':
                op = d[4]
                continue
            break
        v = self.val(st, op)
        return (v, off) if v and v[0] == 's' else None

    def fresh(self, base, k):
        """was base allocated here, and is k reached from something else"""
        d = self.f.defs.get(base[1]) if base[0] == 's' else None
        return bool(k and k[0] != base and d and d[0] == 'call' and d[3] in ('malloc', 'calloc'))

    def val(self, st, op):
        if op is None:
            return None
        k = op[0]
        if k == 'v':
            return st.env.get(op[1], ('s', op[1]))
        if k == 'i':
            return ('c', op[1])
        if k == 'n':
            return ('c', 0)
        if k == 'a':
            return ('s', -10 - op[1])
        return None

    def con(self, st, v):
        """what is known of a value"""
        if v is None:
            return None
        if v[0] == 'c':
            return (v[1], v[1], frozenset())
        if v[0] == 's':
            return st.con.get(v[1])
        return None

    def run(self):
        f = self.f
        st = St({}, {}, {}, frozenset(self.cl.start))
        work = [(0, None, st)]
        seen = {}
        while work:
            b, pred, st = work.pop()
            # phis read the edge's values at once
            new = []
            for ins in f.blocks[b]:
                if ins[0] != 'phi':
                    break
                v = None
                for o, p in ins[3]:
                    if p == pred:
                        v = self.val(st, o)
                new.append((ins[1], v))
            st = st.copy()
            for k, v in new:
                self.drop(st, k)
            for k, v in new:
                if v is not None and v != ('s', k) and k not in f.indphi and not (v[0] == 's' and v[1] in set(x for x, _ in new)):
                    st.env[k] = v
            self.prune(st, b, [k for k, _ in new])
            key = (frozenset(st.env.items()), frozenset(st.con.items()), frozenset(st.mem.items()), st.ev)
            if key in seen.setdefault(b, set()):
                continue
            seen[b].add(key)
            self.n += 1
            if self.n > self.limit:
                self.cut = True
                return self
            self.block(b, st, work)
        return self

    def prune(self, st, b, extra):
        live = self.f.livein[b]
        ex = set(extra)
        for k in list(st.env):
            if k not in live and k not in ex:
                del st.env[k]
        la = self.f.liveallocas[b]
        hold = set(self.cl.holds(st.ev))
        for k in list(st.mem):
            if isinstance(k, tuple):
                v = st.mem[k]
                if v[0] != 's' or v[1] not in hold:
                    del st.mem[k]
            elif k not in la:
                del st.mem[k]
        used = set(k for k in live if k not in st.env) | (ex - set(st.env))
        for v in list(st.env.values()) + list(st.mem.values()):
            if v and v[0] == 's':
                used.add(v[1])
            elif v and v[0] == 'p':
                used.add(v[2])
        for s in self.cl.holds(st.ev):
            if s not in used:
                self.cl.forget(st, s, st.con.get(s))
        hold = set(self.cl.holds(st.ev))
        used |= hold
        for s in list(st.con):
            if s not in used and s > -10 or s not in hold and s in self.once:
                del st.con[s]

    def drop(self, st, sym):
        """symbol sym is about to be made again"""
        if sym in self.cl.holds(st.ev):
            self.cl.forget(st, sym, st.con.get(sym))
        st.con.pop(sym, None)
        st.env.pop(sym, None)
        for d in (st.env, st.mem):
            for k, v in list(d.items()):
                if v and (v[0] == 's' and v[1] == sym or v[0] == 'p' and v[2] == sym) or isinstance(k, tuple) and k[0] == ('s', sym):
                    del d[k]

    def block(self, b, st, work):
        for ins in self.f.blocks[b]:
            op = ins[0]
            if op == 'phi':
                continue
            if op == 'alloca':
                continue
            if op == 'load':
                p = ins[3]
                if p[0] == 'v' and p[1] in self.scalars:
                    v = st.mem.get(p[1])
                    self.drop(st, ins[1])
                    if v is None:
                        v = ('s', ins[1])
                        st.mem[p[1]] = v
                    else:
                        st.env[ins[1]] = v
                else:
                    k = self.field(st, p)
                    v = st.mem.get(k) if k else None
                    self.drop(st, ins[1])
                    if v is not None:
                        st.env[ins[1]] = v
                self.cl.step(st, ins)
            elif op == 'store':
                p = ins[4]
                if p[0] == 'v' and p[1] in self.scalars:
                    v = self.val(st, ins[3])
                    if v is None:
                        st.mem.pop(p[1], None)
                    else:
                        st.mem[p[1]] = v
                else:
                    k = self.field(st, p)
                    for x in list(st.mem):
                        if isinstance(x, tuple) and (k is None or x[1] == k[1]) and not self.fresh(x[0], k):
                            del st.mem[x]
                    v = self.val(st, ins[3])
                    if k and v and v[0] == 's' and v[1] in self.cl.holds(st.ev):
                        st.mem[k] = v
                self.cl.step(st, ins)
            elif op == 'cast':
                v = self.val(st, ins[4])
                self.drop(st, ins[1])
                if v:
                    st.env[ins[1]] = v
            elif op == 'icmp':
                self.icmp(st, ins)
            elif op == 'select':
                v = self.val(st, ins[3])
                t = self.truth(st, v)
                if t is not None:
                    w = self.val(st, ins[4] if t else ins[5])
                    self.drop(st, ins[1])
                    if w is not None:
                        st.env[ins[1]] = w
                else:
                    for t in (True, False):
                        s2 = st.copy()
                        if not self.assume(s2, v, t):
                            continue
                        w = self.val(s2, ins[4] if t else ins[5])
                        self.drop(s2, ins[1])
                        if w is not None:
                            s2.env[ins[1]] = w
                        self.rest(b, ins, s2, work)
                    return
            elif op == 'bin':
                a, c = self.val(st, ins[4]), self.val(st, ins[5])
                r = None
                if a and c and a[0] == 'c' and c[0] == 'c' and ins[3] in ('add', 'sub', 'or', 'and'):
                    x, y = a[1], c[1]
                    r = ('c', {'add': x + y, 'sub': x - y, 'or': x | y, 'and': x & y}[ins[3]])
                elif ins[3] == 'xor' and a and c == ('c', 1) and a[0] == 'p':
                    r = ('p', NEG[a[1]], a[2], a[3])
                elif ins[3] == 'xor' and c and c[0] == 'c' and c[1] in (1, -1) and a and a[0] == 'p':
                    r = ('p', NEG[a[1]], a[2], a[3])
                self.drop(st, ins[1])
                if r:
                    st.env[ins[1]] = r
            elif op == 'call':
                for a in ins[4]:
                    if a[0] == 'v' and a[1] in self.scalars:
                        st.mem.pop(a[1], None)
                if isinstance(ins[3], list) or ins[3] in self.u.fns and not ins[3].startswith(('_ZNS', '_ZNK', '_ZS')):
                    for x in list(st.mem):
                        if isinstance(x, tuple):
                            del st.mem[x]
                if ins[1] >= 0:
                    self.drop(st, ins[1])
                self.cl.call(st, ins)
                if ins[7] >= 0:
                    # an exception may be thrown
                    work.append((ins[7], b, st))
                if ins[3] in ('abort', '__assert_fail', 'exit', '_exit', '__cxa_throw', '__cxa_rethrow'):
                    return
            elif op == 'br':
                v = self.val(st, ins[3])
                for t, dst in ((True, ins[4]), (False, ins[5])):
                    s2 = st.copy()
                    if self.assume(s2, v, t):
                        work.append((dst, b, s2))
                return
            elif op == 'jmp':
                work.append((ins[3], b, st))
                return
            elif op == 'switch':
                v = self.val(st, ins[3])
                left = st.copy()
                ok = True
                for c, t in ins[5]:
                    s2 = st.copy()
                    if v is None or self.refine(s2, v, 'eq', c):
                        work.append((t, b, s2))
                    if v is not None and ok and not self.refine(left, v, 'ne', c):
                        ok = False
                if ok:
                    work.append((ins[4], b, left))
                return
            elif op == 'ret':
                self.cl.ret(st, ins, self.val(st, ins[3]) if ins[3] else None)
                return
            else:
                if ins[1] >= 0:
                    self.drop(st, ins[1])
                self.cl.step(st, ins)

    def rest(self, b, ins, st, work):
        """go on behind ins with st"""
        blk = self.f.blocks[b]
        i = [x is ins for x in blk].index(True)
        save = self.f.blocks[b]
        try:
            self.f.blocks[b] = blk[i + 1:]
            self.block(b, st, work)
        finally:
            self.f.blocks[b] = save

    def icmp(self, st, ins):
        a, c = self.val(st, ins[4]), self.val(st, ins[5])
        pred = ins[3]
        r = None
        if a and c:
            if a[0] == 'c' and c[0] != 'c':
                a, c = c, a
                pred = SWAP.get(pred, pred)
            if a[0] == 'c' and c[0] == 'c':
                x, y = a[1], c[1]
                if pred[0] == 'u':
                    x, y = x & MASK, y & MASK
                r = ('c', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y,
                               'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]))
            elif c[0] == 'c' and a[0] == 's' and ins[6] != 'i1':
                if pred[0] == 'u' and c[1] >= 0:
                    k = st.con.get(a[1])
                    if k and k[0] is not None and k[0] >= 0:
                        pred = 's' + pred[1:]
                r = ('p', pred, a[1], c[1])
            elif c[0] == 'c' and c[1] == 0 and pred in ('eq', 'ne'):
                if a[0] == 's':
                    r = ('p', pred, a[1], 0)
                elif a[0] == 'p':
                    r = a if pred == 'ne' else ('p', NEG[a[1]], a[2], a[3])
            elif a == c and a[0] == 's' and pred in ('eq', 'ne'):
                r = ('c', int(pred == 'eq'))
        self.drop(st, ins[1])
        if r:
            st.env[ins[1]] = r

    def truth(self, st, v):
        if v is None:
            return None
        if v[0] == 'c':
            return v[1] != 0
        if v[0] == 's':
            k = st.con.get(v[1])
            if k:
                if not allows(k, 0):
                    return True
                if only(k, 0):
                    return False
            return None
        k = st.con.get(v[2])
        if v[1][0] == 'u':
            return None
        if both(k, v[1], v[3]) is False:
            return False
        if both(k, NEG[v[1]], v[3]) is False:
            return True
        return None

    def refine(self, st, v, kind, n):
        """take v == n (or another comparison); False when impossible"""
        if v[0] == 'c':
            x = v[1]
            return {'eq': x == n, 'ne': x != n, 'slt': x < n, 'sgt': x > n, 'sle': x <= n, 'sge': x >= n}.get(kind, True)
        if v[0] == 's':
            k = both(st.con.get(v[1]), kind, n)
            if k is False:
                return False
            if k != TOP:
                st.con[v[1]] = k
            return True
        # truth of a comparison against 0 or 1
        if n in (0, 1) and kind in ('eq', 'ne'):
            return self.assume(st, v, (n != 0) == (kind == 'eq'))
        return True

    def assume(self, st, v, t):
        if v is None:
            return True
        if v[0] == 'p':
            k = v[1] if t else NEG[v[1]]
            return self.refine(st, ('s', v[2]), k, v[3])
        return self.refine(st, v, 'ne' if t else 'eq', 0)
