"""Proofs of linear inequalities at a program point: facts from the branches that dominate it, one case per entry of a
join, induction over loops.  An inequality is (atoms -> coefficient, constant), meaning that the sum is at most zero."""
import cfg

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
DEPTH = 7


def add(x, y, k=1):
    d = dict(x[0])
    for a, c in y[0].items():
        d[a] = d.get(a, 0) + k * c
        if not d[a]:
            del d[a]
    return (d, x[1] + k * y[1])


def const(n):
    return ({}, n)


def atom(a):
    return ({a: 1}, 0)


class Lin(object):
    """the linear view of one function"""

    def __init__(self, u, f, ranges):
        self.u, self.f, self.R = u, f, ranges
        self.idom, self.where = ranges.idom(f)
        self.stores = {}
        self.sizes = False
        self.steps_of = {}
        self.local = {}
        self.mem = {}
        self.blk = {}
        self.steps = 0
        # addresses name the values they start from, which name the stores those can come from: twice settles it
        for _ in range(2):
            st = {}
            for b, blk in enumerate(f.blocks):
                for i in blk:
                    self.blk[id(i)] = b
                    if i[0] == 'store':
                        st.setdefault(self.addr(i[4]), []).append(i)
            self.stores = st
            self.mem = {}

    # ---- terms
    def addr(self, o, n=0):
        """a name for an address"""
        t = self.of(o, n + 1)
        return (tuple(sorted(t[0].items(), key=str)), t[1])

    def reaching(self, ins, a):
        """the stores to address a that the instruction can see: a set of numbers, -1 for the entry of the function"""
        f = self.f
        b = self.where[ins[1]]
        st = {}
        for i in self.stores[a]:
            st.setdefault(self.blk[id(i)], []).append(i)
        cur = None
        for i in f.blocks[b]:
            if i is ins:
                break
            if i[0] == 'store' and any(i is x for x in st.get(b, ())):
                cur = i
        if cur is not None:
            return frozenset([id(cur)])
        out, seen, work = set(), set(), [b]
        while work:
            x = work.pop()
            if x == 0:
                out.add(-1)
            for p in f.pred[x]:
                if p not in self.idom:
                    continue
                if p in st:
                    out.add(id(st[p][-1]))
                elif p not in seen:
                    seen.add(p)
                    work.append(p)
        return frozenset(out)

    def memory(self, ins, n):
        a = self.addr(ins[3], n)
        if any(x[0] not in ('a', 'm', 'g') and not (x[0] == 'v' and self.f.defs.get(x[1], [0])[0] in ('alloca', 'phi', 'call', 'load'))
               for x, _ in a[0]):
            return atom(('v', ins[1]))
        if a not in self.stores:
            return atom(('m', a, frozenset([-1])))
        return atom(('m', a, self.reaching(ins, a)))

    def of(self, o, n=0):
        if o[0] == 'i':
            return const(o[1])
        if o[0] == 'n':
            return const(0)
        if o[0] == 'g':
            return ({('g', o[1]): 1}, o[2] if len(o) > 2 else 0)
        if o[0] == 'a':
            return atom(('a', o[1]))
        if o[0] != 'v' or n > 30:
            return atom(('?', str(o)))
        d = self.f.defs.get(o[1])
        if not d:
            return atom(('v', o[1]))
        if d[0] == 'cast':
            return self.of(d[4], n + 1)
        if d[0] == 'bin':
            x, y = self.of(d[4], n + 1), self.of(d[5], n + 1)
            if d[3] in ('add', 'sub'):
                return add(x, y, 1 if d[3] == 'add' else -1)
            if d[3] == 'mul' and (not x[0] or not y[0]):
                k, z = (x[1], y) if not x[0] else (y[1], x)
                return add(const(0), z, k)
            if d[3] == 'shl' and not y[0] and 0 <= y[1] < 40:
                return add(const(0), x, 1 << y[1])
            return atom(('v', o[1]))
        if d[0] == 'select' and ['i', -1] in (d[4], d[5]):
            # the size of an array allocation, unless the product overflows
            c = self.f.defs.get(d[3][1]) if d[3][0] == 'v' else None
            if c and c[0] == 'extract':
                return self.of(d[5] if d[4] == ['i', -1] else d[4], n + 1)
        if d[0] == 'extract' and d[4] == 0:
            c = self.f.defs.get(d[3][1]) if d[3][0] == 'v' else None
            if c and c[0] == 'call' and str(c[3]).startswith('llvm.umul.with.overflow'):
                x, y = self.of(c[4][0], n + 1), self.of(c[4][1], n + 1)
                if not y[0]:
                    return add(const(0), x, y[1])
        if d[0] == 'gep':
            r = add(self.of(d[3], n + 1), const(d[4]))
            for v, s in d[5]:
                r = add(r, self.of(v, n + 1), s)
            return r
        if d[0] == 'load':
            if d[1] not in self.mem:
                self.mem[d[1]] = atom(('v', d[1]))
                self.mem[d[1]] = self.memory(d, n)
            return self.mem[d[1]]
        if d[0] == 'call' and d[3] == 'strlen':
            return atom(('len', tuple(sorted(self.of(d[4][0], n + 1)[0].items(), key=str)), self.of(d[4][0], n + 1)[1]))
        return atom(('v', o[1]))

    # ---- facts
    def cond(self, c, truth, out):
        d = self.f.defs.get(c[1]) if c[0] == 'v' else None
        if c[0] == 'i':
            if bool(c[1]) != truth:
                out.append(const(1))
            return
        if not d:
            return
        if d[0] == 'bin' and d[3] == ('and' if truth else 'or'):
            self.cond(d[4], truth, out)
            self.cond(d[5], truth, out)
            return
        if d[0] == 'cast':
            return self.cond(d[4], truth, out)
        if d[0] == 'bin' and d[3] == 'xor' and d[5][0] == 'i':
            return self.cond(d[4], not truth, out)
        if d[0] == 'phi' or d[0] == 'select':
            # a short-circuit condition: its value is 0 or 1
            v = atom(('v', d[1]))
            out += [add(v, const(-1)), add(const(1), v, -1)] if truth else [v, add(const(0), v, -1)]
            return
        if d[0] != 'icmp':
            return
        p = d[3] if truth else NEG[d[3]]
        x, y = self.of(d[4]), self.of(d[5])
        t = add(x, y, -1)
        if p in ('ult', 'ule') and not y[0] and y[1] >= 0:
            out.append(add(const(0), x, -1))
        if p in ('ult', 'slt'):
            out.append(add(t, const(1)))
        elif p in ('ule', 'sle'):
            out.append(t)
        elif p in ('ugt', 'sgt'):
            out.append(add(const(1), t, -1))
        elif p in ('uge', 'sge'):
            out.append(add(const(0), t, -1))
        elif p == 'eq':
            out += [t, add(const(0), t, -1)]
        else:
            out.append(('ne', t))

    def edge(self, a, b, out):
        t = self.f.blocks[a][-1]
        if t[0] == 'br' and t[4] != t[5]:
            self.cond(t[3], t[4] == b, out)
        elif t[0] == 'switch' and t[4] != b:
            cs = [c for c, k in t[5] if k == b]
            x = self.of(t[3])
            if cs:
                out.append(add(x, const(-max(cs))))
                out.append(add(const(min(cs)), x, -1))

    def facts(self, b, top=None):
        """what holds in block b by the branches between its dominator `top` (exclusive of what led to it) and b"""
        k = (b, top)
        if k in self.local:
            return self.local[k]
        out = []
        x = b
        while x != top and x in self.idom and self.idom[x] != x:
            p = self.idom[x]
            ps = [q for q in self.f.pred[x] if q in self.idom]
            # from p into x on one edge only, or on edges that x dominates again
            en = [q for q in ps if not cfg.dom(self.idom, x, q)]
            if en == [p]:
                self.edge(p, x, out)
            x = p
        self.local[k] = out
        return out

    # ---- proof
    def upper(self, a, b):
        """(lo, hi) of an atom"""
        if a[0] in 'va':
            r = self.R.at(self.f, list(a), b)
            return r or (None, None)
        if a[0] == 'len' or (a[0] == 'm' and self.sizes):
            return (0, None)
        return (None, None)

    def triv(self, g, b):
        """by constants and ranges"""
        s = g[1]
        for a, c in g[0].items():
            lo, hi = self.upper(a, b)
            v = hi if c > 0 else lo
            if v is None or abs(v) > 1 << 40:
                return False
            s += c * v
        return s <= 0

    def simple(self, g, facts, b, n=3):
        if self.triv(g, b):
            return True
        if n == 0:
            return False
        for f in facts:
            if f[0] == 'ne':
                continue
            # use a fact once, where it takes one atom of the goal away
            for a, c in g[0].items():
                k = f[0].get(a)
                if k and (k > 0) == (c > 0) and c % k == 0:
                    if self.simple(add(g, f, -(c // k)), facts, b, n - 1):
                        return True
        return False

    def absurd(self, facts, b):
        for f in facts:
            if f[0] == 'ne':
                if not f[1][0] and f[1][1] == 0:
                    return True
                continue
            if not f[0] and f[1] > 0:
                return True
        for f in facts:
            if f[0] == 'ne':
                if not f[1][0]:
                    continue
                continue
            if self.simple(add(const(1), f, -1), [x for x in facts if x is not f], b, 1):
                return True
        return False

    def sub(self, t, m):
        if t[0] == 'ne':
            return ('ne', self.sub(t[1], m))
        r = ({}, t[1])
        for a, c in t[0].items():
            r = add(r, m[a] if a in m else atom(a), c)
        return r

    def prove(self, g, b, facts=None, n=DEPTH, hyp=()):
        """g <= 0 in block b"""
        self.steps += 1
        if self.steps > 4000:
            return False
        if facts is None:
            facts = list(self.facts(b))
        facts = list(facts) + list(hyp)
        for t in [g] + [x[1] if x[0] == 'ne' else x for x in facts]:
            for a in t[0]:
                d = self.f.defs.get(a[1]) if a[0] == 'v' else None
                if d and d[0] == 'call' and d[3] in ('strchr', 'strrchr', 'strstr', 'memchr'):
                    # a place found in a text is not before the text
                    z = add(self.of(d[4][0]), atom(a), -1)
                    if z not in facts:
                        facts.append(z)
        for a in g[0]:
            for z in self.together(a):
                if z not in facts:
                    facts.append(z)
        if self.simple(g, facts, b) or self.absurd(facts, b):
            return True
        if n == 0:
            return False
        # one case per way into the join that decides an atom of the goal
        cand = []
        for t in [g] + [f[1] if f[0] == 'ne' else f for f in facts]:
            for a in t[0]:
                d = self.f.defs.get(a[1]) if a[0] == 'v' else None
                if d and d[0] in ('phi', 'select') and a not in cand:
                    cand.append(a)
            if cand and t is g:
                break
        for a in cand[:3]:
            d = self.f.defs[a[1]]
            B = self.where[a[1]]
            if d[0] == 'select':
                ok = True
                for k, truth in ((4, True), (5, False)):
                    x = []
                    self.cond(d[3], truth, x)
                    m = {a: self.of(d[k])}
                    if not self.prove(self.sub(g, m), b, [self.sub(t, m) for t in facts] + x, n - 1):
                        ok = False
                        break
                if ok:
                    return True
                continue
            phis = [i for i in self.f.blocks[B] if i[0] == 'phi']
            ok = True
            for p in set(q for _, q in d[3]):
                if p not in self.idom:
                    continue
                m = {}
                for i in phis:
                    for v, q in i[3]:
                        if q == p:
                            m[('v', i[1])] = self.of(v)
                x = []
                self.edge(p, B, x)
                back = cfg.dom(self.idom, B, p)
                fs = [self.sub(t, m) for t in facts] + x + list(self.facts(p, B if back else None))
                if back:
                    # the goal held when the loop was last entered
                    if not all(self.inv(c, B, m) for c in g[0]):
                        ok = False
                        break
                    # of the other facts only those that say nothing about the turn itself carry over
                    keep = [t for t in facts if all(self.inv(c, B, m) for c in (t[1] if t[0] == 'ne' else t)[0])]
                    fs = [self.sub(t, m) for t in keep] + x + list(self.facts(p, B)) + [g]
                if not self.prove(self.sub(g, m), p, fs, n - 1):
                    ok = False
                    break
            if ok:
                return True
        return False

    def step(self, d):
        """(start, change per turn) of a loop variable, when it changes by a constant on every turn"""
        if d[1] in self.steps_of:
            return self.steps_of[d[1]]
        B = self.where[d[1]]
        init = st = None
        r = None
        for v, p in d[3]:
            if p not in self.idom:
                continue
            t = self.of(v)
            if cfg.dom(self.idom, B, p):
                x = add(t, atom(('v', d[1])), -1)
                if x[0] or (st is not None and st != x[1]):
                    break
                st = x[1]
            else:
                if init is not None and init != t:
                    break
                init = t
        else:
            if init is not None and st:
                r = (init, st)
        self.steps_of[d[1]] = r
        return r

    def together(self, a):
        """loop variables that move in step with this one"""
        d = self.f.defs.get(a[1]) if a[0] == 'v' else None
        out = []
        s = self.step(d) if d and d[0] == 'phi' else None
        if s:
            for i in self.f.blocks[self.where[a[1]]]:
                if i[0] == 'phi' and i[1] != a[1]:
                    z = self.step(i)
                    if z:
                        x = add(const(0), add(atom(a), s[0], -1), z[1])
                        x = add(x, add(atom(('v', i[1])), z[0], -1), -s[1])
                        out += [x, add(const(0), x, -1)]
        return out

    def inv(self, a, B, m):
        """an atom of the loop's header, or one computed before the loop"""
        if a in m or a[0] in 'ag':
            return True
        if a[0] == 'v':
            w = self.where.get(a[1])
            return w is not None and w != B and cfg.dom(self.idom, w, B)
        return a[0] in ('len', 'm')
