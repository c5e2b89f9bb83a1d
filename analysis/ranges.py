"""Bounds of an integer at a use, from constants, guards that dominate it, loop steps and the results of project functions."""
import cfg

LO, HI = -(1 << 63), (1 << 64) - 1
W = {'i1': (0, 1), 'i8': (0, 255), 'i16': (0, 65535), 'i32': (0, (1 << 32) - 1), 'i64': (LO, HI)}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


def unsigned(ty):
    return ty.startswith(('enum ', 'uint', 'unsigned', 'size_t', 'bool', '_Bool'))


class Ranges(object):
    def __init__(self, unit):
        self.u = unit
        self.cache = {}
        self.doms = {}

    def idom(self, f):
        if f.name not in self.doms:
            where = {}
            for b, blk in enumerate(f.blocks):
                for i in blk:
                    where[i[1]] = b
            self.doms[f.name] = (cfg.dominators(f), where)
        return self.doms[f.name]

    def at(self, f, o, b, edge=None, stack=()):
        """(lo, hi) of operand o in block b (edge: the successor it flows to)"""
        r = self.of(f, o, stack)
        if o[0] in 'va':
            r = self.guard(f, o, b, edge, r, stack)
        return r

    def of(self, f, o, stack):
        if o[0] == 'i':
            return (o[1], o[1])
        if o[0] == 'n':
            return (0, 0)
        if o[0] == 'a' and o[1] < len(f.params):
            return W.get(f.params[o[1]][2], (LO, HI)) if unsigned(f.params[o[1]][1]) else (LO, HI)
        if o[0] != 'v':
            return (LO, HI)
        k = (f.name, o[1])
        if k in stack or len(stack) > 12:
            return None
        stack = stack + (k,)
        d = f.defs.get(o[1])
        if not d:
            return (LO, HI)
        b = self.idom(f)[1].get(o[1], 0)
        if d[0] == 'cast':
            r = self.at(f, d[4], b, None, stack)
            if r is None:
                return None
            if d[3] == 'zext':
                w = W.get(d[5], (LO, HI))
                return r if r[0] >= 0 and r[1] <= w[1] else w
            if d[3] == 'sext':
                n = {'i8': 7, 'i16': 15, 'i32': 31}.get(d[5], 63)
                if r[0] >= -(1 << n) and r[1] < 1 << n:
                    return r
                return (-(1 << n), (1 << n) - 1)
            if d[3] == 'trunc':
                w = W.get(d[6], (LO, HI))
                return r if r[0] >= 0 and r[1] <= w[1] else w
            return (LO, HI)
        if d[0] == 'phi':
            lo = hi = None
            step = []
            for v, p in d[3]:
                s = self.step(f, v, o[1])
                if s is not None:
                    step.append((s, v, p))
                    continue
                r = self.at(f, v, p, b, stack)
                if r is None:
                    return (LO, HI)
                lo = r[0] if lo is None else min(lo, r[0])
                hi = r[1] if hi is None else max(hi, r[1])
            if lo is None:
                return (LO, HI)
            for s, v, p in step:
                # the value can only leave the loop's guard range by one step
                g = self.guard(f, ['v', o[1]], p, None, (LO, HI), stack)
                if s > 0:
                    hi = max(hi, g[1] + s)
                elif s < 0:
                    lo = min(lo, g[0] + s)
            return (max(lo, LO), min(hi, HI))
        if d[0] == 'select':
            rs = [self.at(f, x, b, None, stack) for x in (d[4], d[5])]
            if None in rs:
                return (LO, HI)
            c = f.defs.get(d[3][1]) if d[3][0] == 'v' else None
            for k, neg in ((0, False), (1, True)):
                x = (d[4], d[5])[k]
                if c and c[0] == 'icmp' and x[0] == 'v':
                    rs[k] = self.apply(f, c, neg, x, rs[k], stack)
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        if d[0] == 'bin':
            x, y = self.at(f, d[4], b, None, stack), self.at(f, d[5], b, None, stack)
            if d[3] == 'and':
                m = [r[1] for r in (x, y) if r and r[0] >= 0]
                return (0, min(m)) if m else (LO, HI)
            if x is None or y is None:
                return (LO, HI)
            if d[3] == 'urem' and y[0] > 0:
                return (0, y[1] - 1)
            if d[3] == 'add':
                r = (x[0] + y[0], x[1] + y[1])
            elif d[3] == 'sub':
                r = (x[0] - y[1], x[1] - y[0])
            elif d[3] == 'mul' and x[0] >= 0 and y[0] >= 0:
                r = (x[0] * y[0], x[1] * y[1])
            else:
                return (LO, HI)
            return r if r[0] >= LO and r[1] <= HI else (LO, HI)
        if d[0] == 'call' and isinstance(d[3], str):
            g = self.u.fns.get(d[3])
            if g:
                return self.result(g)
            if d[3] in ('snprintf', 'vsnprintf', 'sprintf'):
                return (0, (1 << 31) - 1)
            if d[3] in ('strlen', 'fread', 'fwrite') or d[3].endswith(('4sizeEv', '6lengthEv')):
                return (0, (1 << 62))
        if d[0] == 'load':
            return W.get(d[4], (LO, HI)) if d[4] in ('i1', 'i8') else (LO, HI)
        return (LO, HI)

    def result(self, g):
        if g.name in self.cache:
            return self.cache[g.name]
        self.cache[g.name] = (LO, HI)
        lo = hi = None
        for b in g.order:
            for i in g.blocks[b]:
                if i[0] == 'ret' and i[3]:
                    r = self.at(g, i[3], b) or (LO, HI)
                    lo = r[0] if lo is None else min(lo, r[0])
                    hi = r[1] if hi is None else max(hi, r[1])
        if lo is not None:
            self.cache[g.name] = (lo, hi)
        return self.cache[g.name]

    def step(self, f, v, phi):
        """v = phi + constant: the constant"""
        t = 0
        for _ in range(6):
            if v[0] != 'v':
                return None
            if v[1] == phi:
                return t
            d = f.defs.get(v[1])
            if d and d[0] == 'bin' and d[3] in ('add', 'sub') and d[5][0] == 'i':
                t += d[5][1] if d[3] == 'add' else -d[5][1]
                v = d[4]
            elif d and d[0] == 'bin' and d[3] == 'add' and d[4][0] == 'i':
                t += d[4][1]
                v = d[5]
            elif d and d[0] == 'phi' and len(set(map(str, [x for x, _ in d[3]]))) == 1:
                v = d[3][0][0]
            else:
                return None
        return None

    def guard(self, f, o, b, edge, r, stack):
        idom, where = self.idom(f)
        if b not in idom:
            return r
        r = r or (LO, HI)
        x, child = b, edge
        if edge is not None:
            r = self.branch(f, b, edge, o, r, stack)
        while idom.get(x, x) != x:
            child, x = x, idom[x]
            # the child is entered only from x
            t = f.blocks[x][-1]
            if t[0] == 'br' and t[4] != t[5]:
                for s, neg in ((t[4], False), (t[5], True)):
                    if s == child and f.pred[child] == [x] or (s == child and all(
                            p == x or cfg.dom(idom, child, p) for p in f.pred[child])):
                        r = self.cond(f, t[3], neg, o, r, stack)
            elif t[0] == 'switch':
                r = self.branch(f, x, child, o, r, stack) if all(
                    p == x or cfg.dom(idom, child, p) for p in f.pred[child]) else r
        return r

    def branch(self, f, b, s, o, r, stack):
        t = f.blocks[b][-1]
        if t[0] == 'br' and t[4] != t[5]:
            return self.cond(f, t[3], s == t[5], o, r, stack)
        if t[0] == 'switch' and t[3] == o:
            cs = [c for c, k in t[5] if k == s]
            if cs and s != t[4]:
                return (max(r[0], min(cs)), min(r[1], max(cs)))
        return r

    def cond(self, f, c, neg, o, r, stack):
        d = f.defs.get(c[1]) if c[0] == 'v' else None
        if not d:
            return r
        if d[0] == 'icmp':
            return self.apply(f, d, neg, o, r, stack)
        if d[0] == 'bin' and d[3] == ('or' if neg else 'and'):
            return self.cond(f, d[5], neg, o, self.cond(f, d[4], neg, o, r, stack), stack)
        return r

    def same(self, f, a, o):
        """a is o, seen through widening"""
        n = 0
        while a != o and a[0] == 'v' and n < 4:
            d = f.defs.get(a[1])
            if d and d[0] == 'cast' and d[3] in ('zext', 'sext', 'trunc', 'freeze'):
                a = d[4]
                n += 1
            elif d and d[0] == 'load' and o[0] == 'v' and f.defs.get(o[1], [0])[0] == 'load' and f.defs[o[1]][3] == d[3]:
                return False
            else:
                break
        return a == o

    def apply(self, f, d, neg, o, r, stack):
        p = d[3]
        if self.same(f, d[4], o):
            y = d[5]
        elif self.same(f, d[5], o):
            y = d[4]
            p = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
        else:
            return r
        if neg:
            p = NEG.get(p, p)
        b = self.idom(f)[1].get(d[1], 0)
        c = self.at(f, y, b, None, stack) if y[0] in 'iv' else (0, 0) if y[0] == 'n' else None
        if c is None:
            return r
        lo, hi = r
        if p == 'eq':
            return (max(lo, c[0]), min(hi, c[1]))
        if p == 'ne':
            if c[0] == c[1] == lo:
                lo += 1
            if c[0] == c[1] == hi:
                hi -= 1
        elif p in ('ult', 'ule'):
            if c[0] >= 0:
                lo = max(lo, 0)
                hi = min(hi, c[1] - (p == 'ult'))
        elif p in ('slt', 'sle'):
            hi = min(hi, c[1] - (p == 'slt'))
        elif p in ('sgt', 'sge') or (p in ('ugt', 'uge') and c[0] >= 0 and lo >= 0):
            lo = max(lo, c[0] + (p in ('sgt', 'ugt')))
        return (lo, hi)
