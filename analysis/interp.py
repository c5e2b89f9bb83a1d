"""The abstract interpreter: transfer functions, branch refinement, summaries."""
import re
from engine import *

T1, T2, T3, CAP = 12, 40, 80, 600
T1S = 80
PLUGIN = 'disir_register_plugin'
REFCOUNT = {('disir_context', 'cx_refcount'): 'ref', ('disir_mold', 'mo_reference_count'): 'mold'}
MASK = (1 << 64) - 1


CTOR = re.compile(r'^_ZN.*C[12](IJ?|E)')


def sname(s):
    s = re.sub(r'\.\d+$', '', s)
    for p in ('struct.', 'class.', 'union.'):
        if s.startswith(p):
            return s[len(p):]
    return s


def fmeet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    ne = a[2] | b[2]
    ins = a[3] if b[3] is None else (b[3] if a[3] is None else a[3] & b[3])
    if ins is not None:
        ins = frozenset(x for x in ins if lo <= x <= hi and x not in ne)
        if not ins:
            return None
        lo, hi = max(lo, min(ins)), min(hi, max(ins))
        if len(ins) == 1:
            ne = EMPTY
        ne = EMPTY
    while lo in ne:
        lo += 1
    while hi in ne:
        hi -= 1
    if lo > hi:
        return None
    ne = frozenset(x for x in ne if lo < x < hi)
    return (lo, hi, ne, ins)


def fhull(a, b):
    ins = None
    if a[3] is not None and b[3] is not None:
        ins = a[3] | b[3]
        return (min(ins), max(ins), EMPTY, ins) if len(ins) <= 24 else (min(ins), max(ins), EMPTY, None)
    ne = frozenset(x for x in (a[2] | b[2]) if not fhas(a, x) and not fhas(b, x))
    lo, hi = min(a[0], b[0]), max(a[1], b[1])
    # keep "not zero"
    if lo < 0 < hi and not fhas(a, 0) and not fhas(b, 0):
        ne = ne | {0}
    ne = frozenset(x for x in ne if lo < x < hi)
    return (lo, hi, ne, None)


def fhas(f, x):
    if f[3] is not None:
        return x in f[3]
    return f[0] <= x <= f[1] and x not in f[2]


def fconst(n):
    return (n, n, EMPTY, frozenset([n]))


def fset(xs):
    xs = frozenset(xs)
    return (min(xs), max(xs), EMPTY, xs)


NONZERO = (-INF, INF, frozenset([0]), None)


def has_old(b):
    if b[0] == '~':
        return True
    return any(type(x) is tuple and x and has_old(x) for x in b[1:])


def strip_old(b):
    while type(b) is tuple and b and b[0] == '~':
        b = b[1]
    if type(b) is tuple:
        return tuple(strip_old(x) if type(x) is tuple else x for x in b)
    return b


def nest(b):
    n = 0
    while type(b) is tuple and b:
        if b[0] == 'I' or b[0] == '~':
            b = b[1]
        elif b[0] == 'E' and b[1] == 'gep':
            b = b[2]
        else:
            break
        n += 1
    return n


class Summary(object):
    def __init__(self):
        self.outcomes = []      # dicts
        self.needs = {}         # k or (k,off) -> site
        self.reads = {}         # (k,off) -> site: initial content read
        self.mods = frozenset()
        self.typereq = {}       # k -> (frozenset, site)
        self.retains = frozenset()
        self.ok = True
        self.keys = {}
        self.ptrs = frozenset()

    def sig(self):
        return (repr(self.outcomes), repr(sorted(self.needs, key=repr)), self.mods)


class Report(object):
    def __init__(self, rule, fn, site, what, trace, inst=''):
        self.rule, self.fn, self.site, self.what, self.trace, self.inst = rule, fn, site, what, trace, inst

    def key(self):
        return (self.rule, self.fn, self.site, self.what)


class Interp(object):
    """Analyse one function given the summaries of its callees."""

    def __init__(self, fn, world, public=False):
        self.fn = fn
        self.w = world
        self.prog = fn.prog
        self.public = public
        self.reports = {}
        self.lockey = {}
        self.symkey = {}
        self.jnames = {}
        self.sumkeys = None
        self.needs = {}
        self.reads = {}
        self.exits = []
        self.typereq = {}
        self.nstates = 0
        self.counts = {}
        self.incomplete = False
        self.cur = None
        self.curst = None
        self.inloop = False
        self.retains = set()

    # ---- reporting -----------------------------------------------------
    def report(self, rule, what, st, ins=None, inst=''):
        ins = ins or self.cur
        site = self.fn.where(ins)
        r = Report(rule, self.fn.dname, site, what, None, inst)
        if r.key() not in self.reports:
            r.trace = self.trace(st)
            self.reports[r.key()] = r

    def count(self, what, site=None):
        self.counts.setdefault(what, set()).add(site if site is not None else (self.fn.name, self.cur[1], self.cur[2] and tuple(self.cur[2])))

    def trace(self, st):
        out = []
        s = st
        n = 0
        while s is not None and n < 400:
            if s.at is not None:
                for ins in reversed(self.fn.blocks[s.at]):
                    if ins[2]:
                        w = self.fn.where(ins)
                        if not out or out[-1] != w:
                            out.append(w)
                        break
            s = s.up
            n += 1
        return out[::-1]

    # ---- values --------------------------------------------------------
    def ev(self, o, st):
        k = o[0]
        if k == 'v':
            return st.regs.get(o[1], (('X', o[1]), 0))
        if k == 'i':
            return o[1]
        if k == 'n':
            return 0
        if k == 'a':
            return self.argav[o[1]]
        if k == 'g':
            return (('G', o[1]), o[2])
        if k == 'u':
            return U
        if k == 'f':
            return (('F', o[1]), 0)
        return (('X', 'c%d' % self.cur[1]), 0)

    def facts_of(self, b, st):
        f = st.facts.get(b)
        if f is not None:
            return f
        t = b[0]
        if t == 'A' or t == 'G':
            return NONZERO
        if t == 'E' and b[1] == 'gep':
            return NONZERO
        return TOPF

    def rng(self, v, st):
        """facts of value v, or None if unknown."""
        if type(v) is int:
            return fconst(v)
        if is_cmp(v):
            return fset([0, 1])
        if is_sym(v):
            f = self.facts_of(v[0], st)
            if v[1] == 0:
                return f
            o = v[1]
            return (f[0] + o if f[0] > -INF else -INF, f[1] + o if f[1] < INF else INF,
                    frozenset(x + o for x in f[2]), None if f[3] is None else frozenset(x + o for x in f[3]))
        return TOPF

    def isnull(self, v, st):
        """True / False / None."""
        if type(v) is int:
            return v == 0
        if is_sym(v):
            if v[0][0] in 'AG':
                return False
            if v[1] != 0:
                return False
            f = self.facts_of(v[0], st)
            if f[0] == 0 and f[1] == 0:
                return True
            if not fhas(f, 0):
                return False
        return None

    def decide(self, p, a, b, st):
        if p == 'f':
            return None
        if a == U or b == U:
            return None
        if is_cmp(b) and not is_cmp(a):
            return self.decide(SWAP[p], b, a, st)
        if is_cmp(a):
            if type(b) is int:
                t = self.decide(a[1], a[2], a[3], st)
                if t is None:
                    return None
                return self.cmpint(p, 1 if t else 0, b)
            return None
        if type(a) is int and type(b) is int:
            return self.cmpint(p, a, b)
        if is_sym(a) and is_sym(b):
            if a[0] == b[0]:
                if p in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge') or (a[1] >= 0 and b[1] >= 0):
                    return self.cmpint(p, a[1], b[1])
            ta, tb = a[0][0], b[0][0]
            if p in ('eq', 'ne'):
                if (ta in 'AG' and tb in 'AG') or (ta == 'A' and tb in 'PI') or (tb == 'A' and ta in 'PI'):
                    if a[0] != b[0]:
                        return p == 'ne'
                if a[0] != b[0] and a[1] == b[1] == 0 and st.own.get(a[0], (0, 0))[1] > 0 < st.own.get(b[0], (0, 0))[1] and \
                        (self.newobj(a[0], st) or self.newobj(b[0], st)):
                    # an object created here is not one a separate call handed out
                    return p == 'ne'
        if type(a) is int:
            return self.decide(SWAP[p], b, a, st)
        if type(b) is int or True:
            ra, rb = self.rng(a, st), self.rng(b, st)
            r = self.cmprng(p, ra, rb)
            if r is not None:
                return r
        if (p, a, b) in st.rel:
            return True
        if (NEG[p], a, b) in st.rel:
            return False
        return None

    @staticmethod
    def cmpint(p, a, b):
        if p in ('ult', 'ule', 'ugt', 'uge'):
            a &= MASK
            b &= MASK
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': a < b, 'ule': a <= b, 'sle': a <= b,
                'ugt': a > b, 'sgt': a > b, 'uge': a >= b, 'sge': a >= b}[p]

    @staticmethod
    def cmprng(p, a, b):
        if p in ('eq', 'ne'):
            dis = a[1] < b[0] or b[1] < a[0]
            if not dis and b[0] == b[1] and not fhas(a, b[0]):
                dis = True
            if not dis and a[0] == a[1] and not fhas(b, a[0]):
                dis = True
            if not dis and a[3] is not None and b[3] is not None and not (a[3] & b[3]):
                dis = True
            if dis:
                return p == 'ne'
            if a[0] == a[1] == b[0] == b[1]:
                return p == 'eq'
            return None
        if p[0] == 'u':
            if a[0] < 0 or b[0] < 0:
                # v <u n with v possibly negative: unknown unless v range is one-sided
                if p == 'uge' and b[0] == b[1] == 0:
                    return True
                if p == 'ult' and b[0] == b[1] == 0:
                    return False
                return None
        q = p[1:]
        if q == 'lt':
            if a[1] < b[0]:
                return True
            if a[0] >= b[1]:
                return False
        elif q == 'le':
            if a[1] <= b[0]:
                return True
            if a[0] > b[1]:
                return False
        elif q == 'gt':
            if a[0] > b[1]:
                return True
            if a[1] <= b[0]:
                return False
        elif q == 'ge':
            if a[0] >= b[1]:
                return True
            if a[1] < b[0]:
                return False
        return None

    def setfact(self, st, b, f):
        old = self.facts_of(b, st)
        m = fmeet(old, f)
        if m is None:
            return False
        if m != old:
            st.facts[b] = m
            if b in st.mn and not fhas(m, 0):
                st.mn = st.mn - {b}
            if b in st.own and m[0] == 0 and m[1] == 0 and st.own[b][0] not in ('ref', 'mold'):
                del st.own[b]
        return True

    def assume(self, c, truth, st):
        """refine st in place; False if infeasible.  c: abstract truth value."""
        if type(c) is int:
            return bool(c) == truth
        if is_cmp(c):
            p, a, b = c[1], c[2], c[3]
            if not truth:
                p = NEG[p]
            return self.assume_cmp(p, a, b, st)
        if is_sym(c):
            return self.assume_cmp('ne' if truth else 'eq', c, 0, st)
        return True

    def assume_cmp(self, p, a, b, st):
        d = self.decide(p, a, b, st)
        if d is not None:
            return d
        if p == 'f':
            return True
        if type(a) is int or (is_cmp(b) and not is_cmp(a)):
            a, b, p = b, a, SWAP[p]
        if is_cmp(a):
            if type(b) is int and p in ('eq', 'ne'):
                t = (b != 0) if p == 'eq' else (b == 0)
                return self.assume(a, t, st)
            return True
        if is_sym(a) and type(b) is int:
            n = b - a[1]
            if p == 'eq':
                f = fconst(n)
            elif p == 'ne':
                f = (-INF, INF, frozenset([n]), None)
            elif p == 'slt':
                f = (-INF, n - 1, EMPTY, None)
            elif p == 'sle':
                f = (-INF, n, EMPTY, None)
            elif p == 'sgt':
                f = (n + 1, INF, EMPTY, None)
            elif p == 'sge':
                f = (n, INF, EMPTY, None)
            elif p == 'ult' and n > 0 and a[1] == 0:
                f = (0, n - 1, EMPTY, None)
            elif p == 'ule' and n >= 0 and a[1] == 0:
                f = (0, n, EMPTY, None)
            elif p == 'ult' and b > 0:
                f = (-a[1], n - 1, EMPTY, None)
            elif p == 'ule' and b >= 0:
                f = (-a[1], n, EMPTY, None)
            elif p == 'ugt' and b == 0:
                f = (-INF, INF, frozenset([n]), None)
            elif p in ('ugt', 'uge') and self.facts_of(a[0], st)[0] + a[1] >= 0:
                f = (n + 1 if p == 'ugt' else n, INF, EMPTY, None)
            elif p in ('ugt', 'uge') and a[1] == 0 and 0 < n <= 64:
                f = (-INF, INF, frozenset(range(n + 1 if p == 'ugt' else n)), None)
            else:
                f = TOPF
            if not self.setfact(st, a[0], f):
                return False
            return self.propagate(a[0], st)
        if is_sym(a) and is_sym(b):
            st.rel = st.rel | {(p, a, b), (SWAP[p], b, a)}
            if p == 'eq':
                fa, fb = self.rng(a, st), self.rng(b, st)
                if a[1] == 0 and not self.setfact(st, a[0], fb):
                    return False
                if b[1] == 0 and not self.setfact(st, b[0], fa):
                    return False
            elif p in ('slt', 'sle', 'sgt', 'sge'):
                fa, fb = self.rng(a, st), self.rng(b, st)
                if p in ('slt', 'sle'):
                    d = 1 if p == 'slt' else 0
                    ok = self.setfact(st, a[0], (-INF, fb[1] - d - a[1] if fb[1] < INF else INF, EMPTY, None)) and \
                        self.setfact(st, b[0], (fa[0] + d - b[1] if fa[0] > -INF else -INF, INF, EMPTY, None))
                else:
                    d = 1 if p == 'sgt' else 0
                    ok = self.setfact(st, b[0], (-INF, fa[1] - d - b[1] if fa[1] < INF else INF, EMPTY, None)) and \
                        self.setfact(st, a[0], (fb[0] + d - a[1] if fb[0] > -INF else -INF, INF, EMPTY, None))
                if not ok:
                    return False
        return True

    def propagate(self, b, st):
        """structural consequences of a new fact on a boolean expression."""
        for r in st.rel:
            if r[0] == 'eq' and is_sym(r[1]) and r[1][0] == b and r[1][1] == 0 and is_sym(r[2]) and r[2][1] == 0:
                if not self.setfact(st, r[2][0], self.facts_of(b, st)):
                    return False
        if b[0] == 'E' and b[1] in ('band', 'bor'):
            f = st.facts.get(b)
            if f:
                if b[1] == 'band' and not fhas(f, 0):
                    return self.assume(b[2], True, st) and self.assume(b[3], True, st)
                if b[1] == 'bor' and f[0] == 0 and f[1] == 0:
                    return self.assume(b[2], False, st) and self.assume(b[3], False, st)
        return True

    # ---- symbols -------------------------------------------------------
    def fresh(self, st, base):
        """(re)create a symbol named by an instruction; an older instance is renamed."""
        if not self.inloop:
            return (base, 0)
        return self.retire(st, base)

    def retire(self, st, base):
        used = False
        for d in (st.regs, st.mem):
            for v in d.values():
                if type(v) is tuple and ((len(v) == 2 and mentions(v[0], base)) or (len(v) == 4 and mentions(v, base))):
                    used = True
                    break
            if used:
                break
        if not used:
            for k in st.mem:
                if mentions(k[0], base):
                    used = True
                    break
        if not used:
            used = any(mentions(b, base) for b in st.facts) or any(mentions(b, base) for b in st.own) or \
                any(mentions(b, base) for b in st.mn) or any(mentions(b, base) for b in st.dead) or \
                any(mentions(b, base) for b in st.esc) or \
                any(mentions(r, base) for r in st.rel)
        if used:
            old = ('~', base)
            self.forget(st, old)
            self.rename(st, base, old)
        return (base, 0)

    def forget(self, st, base):
        o = st.own.get(base)
        if o and o[1] > 0 and base not in st.esc and not any(
                is_sym(v) and v[0] == base for d in (st.mem, st.regs) for v in d.values()):
            # an older instance something still points to is merely summarised away; it
            # is lost only when nothing refers to it
            self.leakcheck(st, base, final=False)
        # what the forgotten instance held goes with it
        held = [v[0] for k, v in st.mem.items() if mentions(k[0], base) and is_sym(v) and st.own.get(v[0], (0, 0))[1] > 0
                and not mentions(v[0], base)]
        if held:
            st.esc = st.esc | frozenset(held)
        for b in [b for b in st.facts if mentions(b, base)]:
            del st.facts[b]
        for b in [b for b in st.own if mentions(b, base)]:
            del st.own[b]
        for k in [k for k in st.mem if mentions(k[0], base)]:
            del st.mem[k]
        for k, v in list(st.mem.items()):
            if type(v) is tuple and mentions(v, base):
                st.mem[k] = 'H'
        for k, v in list(st.regs.items()):
            if type(v) is tuple and mentions(v, base):
                del st.regs[k]
        for nm in ('mn', 'dead', 'esc', 'wr', 'rel'):
            s = getattr(st, nm)
            if any(mentions(x, base) for x in s):
                setattr(st, nm, frozenset(x for x in s if not mentions(x, base)))

    def rename(self, st, old, new):
        def s(x):
            return subst(x, old, new) if type(x) is tuple else x
        st.regs = {k: s(v) for k, v in st.regs.items()}
        st.mem = {(s(k[0]), k[1]): s(v) for k, v in st.mem.items()}
        st.facts = {s(k): v for k, v in st.facts.items()}
        st.own = {s(k): v for k, v in st.own.items()}
        for nm in ('mn', 'dead', 'esc', 'wr', 'rel'):
            setattr(st, nm, frozenset(s(x) for x in getattr(st, nm)))

    # ---- memory --------------------------------------------------------
    def base_root(self, b):
        while b[0] == 'E' and b[1] == 'gep':
            b = b[2]
        return b

    def deref(self, st, ptr, what='dereferenced'):
        """check a pointer about to be dereferenced; False kills the path."""
        if ptr == U:
            self.report('uninit', 'an uninitialised pointer is %s' % what, st)
            return False
        if type(ptr) is int:
            if ptr == 0 or abs(ptr) < 4096:
                self.report('null', 'NULL is %s' % what, st)
                return False
            return True
        if is_cmp(ptr):
            return True
        b = self.base_root(ptr[0])
        if b in st.dead:
            self.report('uaf', '%s is %s after it was released' % (self.describe(b), what), st)
            return True
        if b[0] in 'AG':
            return True
        f = self.facts_of(b, st)
        if f[0] == 0 and f[1] == 0:
            self.report('null', '%s is NULL here and is %s' % (self.describe(b), what), st)
            return False
        if fhas(f, 0):
            if b in st.mn:
                self.report('null', '%s may be NULL and is %s without a check' % (self.describe(b), what), st)
            k = self.paramkey(b)
            if k is not None and k not in self.needs:
                self.needs[k] = self.fn.where(self.cur)
            self.setfact(st, b, NONZERO)
        return True

    def paramkey(self, b):
        if b[0] == 'P':
            return b[1]
        if b[0] == 'I' and b[1][0] == 'P':
            return (b[1][1], b[2])
        return None

    def describe(self, b):
        t = b[0]
        if t == 'P':
            return "argument '%s'" % self.fn.params[b[1]][0]
        if t == 'A':
            return "'%s'" % self.fn.vars.get(b[1], self.fn.allocas.get(b[1], ('', '', '?'))[2])
        if t == 'I' or t == 'L':
            k = self.skey(b)
            if k:
                return "%s->%s" % (k[0], self.prog.fieldname(k))
            if t == 'I':
                return "*%s" % self.describe(b[1])
            return 'a loaded value'
        if t == 'R':
            d = self.fn.defs.get(b[1])
            if d and d[0] == 'call' and isinstance(d[3], str):
                n = self.fn.vars.get(b[1])
                return "%sthe result of %s" % ("'%s', " % n if n else '', self.w.pretty(d[3]))
            return 'a call result'
        if t == 'O':
            d = self.fn.defs.get(b[1])
            if d and d[0] == 'call' and isinstance(d[3], str):
                return "the object %s handed out" % self.w.pretty(d[3])
            return 'an object handed out by a call'
        if t == '~':
            return self.describe(b[1])
        if t == 'E' and b[1] == 'gep':
            return self.describe(b[2])
        return 'a value'

    def load(self, st, ptr, ins):
        if not self.deref(st, ptr, 'read through'):
            return None
        if not is_sym(ptr):
            return self.fresh(st, ('X', ins[1]))
        return self.rd(st, ptr, ins)

    def rd(self, st, loc, ins):
        v = st.mem.get(loc)
        b = loc[0]
        if v is None:
            d = st.mem.get((b, '*'))
            if d is None:
                if b[0] == 'A':
                    return U
                if b[0] == 'E' and self.base_root(b)[0] == 'A':
                    v = self.fresh(st, ('L', ins[1]))
                    return v
                if b[0] == 'G':
                    g = self.prog.globals.get(b[1])
                    # constant initialiser?
                v = (('I', b, loc[1]), 0) if nest(b) < 5 else self.fresh(st, self.lname(ins, loc))
                st.mem[loc] = v
                k = self.lkey(loc)
                if k:
                    self.symkey[v[0]] = k
                    self.w.client_load(self, st, k, v)
                pk = self.paramkey(v[0])
                if pk is not None and pk not in self.reads:
                    self.reads[pk] = self.fn.where(ins)
                return v
            if d == 'H':
                v = 'H'
            else:
                return d
        if v == 'H':
            v = self.fresh(st, self.lname(ins, loc))
            st.mem[loc] = v
            k = self.lkey(loc)
            if k:
                self.symkey[v[0]] = k
                self.w.client_load(self, st, k, v)
        return v

    def lkey(self, loc):
        k = self.lockey.get(loc)
        if k is None and has_old(loc[0]):
            k = self.lockey.get((strip_old(loc[0]), loc[1]))
        return k

    def skey(self, b):
        """the field a symbol was loaded from"""
        while b[0] == '~':
            b = b[1]
        if b[0] == 'I':
            return self.lkey((b[1], b[2]))
        return self.symkey.get(b)

    def origin(self, st, b):
        for loc, v in st.mem.items():
            if is_sym(v) and v[0] == b and v[1] == 0 and loc[0][0] != 'A' and self.lkey(loc):
                return loc
        if b[0] == 'I':
            return (b[1], b[2])
        return None

    def lname(self, ins, loc):
        if ins[0] == 'load':
            return ('L', ins[1])
        return ('L', ins[1], self.jname('t', loc)[1])

    def storev(self, st, v, ptr, ins):
        if not self.deref(st, ptr, 'written through'):
            return False
        if not is_sym(ptr):
            return True
        b = ptr[0]
        r = self.base_root(b)
        key = self.lkey(ptr)
        if v == U and r[0] != 'A':
            self.report('uninit', 'an uninitialised value is stored in %s' % (
                self.prog.fieldname(key) if key else self.describe(r)), st, ins)
        if key and (key[0], self.prog.fieldname(key)) in REFCOUNT and b[0] != 'A':
            kind = REFCOUNT[(key[0], self.prog.fieldname(key))]
            old = st.mem.get(ptr)
            if is_sym(v) and is_sym(old) and v[0] == old[0]:
                d = v[1] - old[1]
                if d:
                    self.own(st, b, kind, d, ins)
        self.w.client_store(self, st, v, ptr, key, ins)
        if b[0] == 'E' and r[0] == 'A':
            for k in [k for k in st.mem if k[0] == r]:
                del st.mem[k]
            st.mem[(r, '*')] = 'H'
        st.mem[ptr] = v
        if r[0] != 'A':
            st.wr = st.wr | {ptr}
            if r[0] == 'G' and is_sym(v):
                st.esc = st.esc | {v[0]}
            if is_sym(v) and v[0][0] == 'P' and not (b[0] == 'P' and self.writable_kind(self.fn.params[b[1]][1], b[1])):
                self.retains.add(v[0][1])
        return True

    # ---- ownership -----------------------------------------------------
    def own(self, st, b, kind, delta, ins):
        o = st.own.get(b)
        cnt = o[1] if o else 0
        site = o[2] if o else (self.fn.where(ins), ins[1])
        new = cnt + delta
        if delta < 0:
            self.count('release')
            if b in st.dead:
                self.report('double', '%s is released again' % self.describe(b), st, ins)
                return
            if new < 0 and self.isfresh(b) and o is not None and b not in st.esc:
                self.report('double', '%s is released more often than it was acquired' % self.describe(b), st, ins)
                return
            if new < -1 and b not in st.esc:
                self.report('double', '%s is released twice' % self.describe(b), st, ins)
                return
        else:
            self.count('acquire')
            if new == 1:
                site = (self.fn.where(ins), ins[1])
        st.own[b] = (kind, new, site)

    def newobj(self, b, st):
        """b is a live object that came into being in this function (not a shared one)"""
        if st.own.get(b, (0, 0))[1] <= 0 or b in st.dead:
            return False
        while b[0] == '~':
            b = b[1]
        if b[0] not in 'RO' or len(b) < 2:
            return False
        d = self.fn.defs.get(b[1])
        if not d or d[0] != 'call':
            return False
        return d[3] in ('calloc', 'malloc', 'dc_begin', 'dc_config_begin', 'dc_mold_begin', 'dx_context_create')

    def isfresh(self, b):
        return b[0] in ('R', 'O', '~')

    def holders(self, st, b, ret):
        n = 0
        if is_sym(ret) and ret[0] == b:
            n += 1
        for loc, v in st.mem.items():
            if is_sym(v) and v[0] == b and loc[0][0] != 'A' and loc in st.wr:
                if self.base_root(loc[0]) in st.dead:
                    continue
                n += 1
        # held in a local aggregate that escaped is covered by esc
        return n

    def leakcheck(self, st, b, final=True, ret=0):
        kind, cnt, site = st.own[b]
        if cnt <= 0 or b in st.esc:
            return
        if self.isnull((b, 0), st):
            return
        h = self.holders(st, b, ret)
        if kind in ('ref', 'mold'):
            if h >= cnt:
                return
        elif h:
            return
        d = self.fn.defs.get(site[1])
        self.report('leak:' + kind, '%s (acquired at %s) is not released on this path' % (self.describe(b), site[0]), st,
                    inst=site[0])

    # ---- calls ---------------------------------------------------------
    def havoc_ptr(self, st, v, sure=False):
        """an unknown callee may have written through v (sure: it does)."""
        if is_sym(v):
            b = self.base_root(v[0])
            if sure and v[0][0] == 'P':
                st.mem[(v[0], '*')] = 'H'
            if b[0] == 'A':
                # whatever the local held is now shared
                for k in [k for k in st.mem if k[0] == b]:
                    x = st.mem[k]
                    if is_sym(x) and x[0] in st.own:
                        st.esc = st.esc | {x[0]}
                    del st.mem[k]
                st.mem[(b, '*')] = 'H'
            else:
                for k in [k for k in st.mem if k[0] == b]:
                    x = st.mem[k]
                    if is_sym(x) and x[0] in st.own:
                        st.esc = st.esc | {x[0]}
                    st.mem[k] = 'H'

    def invalidate(self, st, mods, keep=()):
        if not mods:
            return
        for k, v in list(st.mem.items()):
            if v == 'H' or k[0][0] == 'A':
                continue
            key = self.lkey(k)
            if key and key in mods:
                if is_sym(v) and v[0] in st.own and k in st.wr:
                    st.esc = st.esc | {v[0]}
                st.mem[k] = 'H'

    def call(self, st, ins):
        """-> list of states (regs updated)."""
        args = [self.ev(a, st) for a in ins[4]]
        callee = ins[3]
        if isinstance(callee, list):
            cv = self.ev(callee, st)
            return self.indirect(st, ins, cv, args)
        if callee.startswith('llvm.'):
            return self.intrinsic(st, ins, callee, args)
        for i, a in enumerate(args):
            if a == U and not self.w.undef_ok(callee, i):
                self.report('uninit', 'an uninitialised value is passed to %s' % self.w.pretty(callee), st)
        self.w.client_call(self, st, ins, callee, args)
        h = self.w.contracts.get(callee)
        if h:
            out = h(self, st, ins, args)
            return self.finish(st, ins, out)
        s = self.w.summary(callee)
        if s is not None:
            return self.apply(st, ins, callee, s, args)
        return self.finish(st, ins, self.unknown(st, ins, callee, args))

    def finish(self, st0, ins, out):
        res = []
        for st, ret in out:
            if ins[5] != 'void':
                st.regs[ins[1]] = ret
            res.append(st)
        return res

    def unknown(self, st, ins, callee, args):
        for a in args:
            self.havoc_ptr(st, a)
            if is_sym(a) and a[0] in st.own and not self.w.is_pure(callee):
                st.esc = st.esc | {a[0]}
        v = self.fresh(st, ('R', ins[1]))
        if ins[6]:
            self.setfact(st, v[0], NONZERO)
        return [(st, v)]

    def indirect(self, st, ins, cv, args):
        for i, a in enumerate(args):
            if a == U:
                self.report('uninit', 'an uninitialised value is passed to a callback', st)
        if cv == U or (type(cv) is int):
            self.report('callback', 'a NULL or uninitialised function pointer is called', st)
            return []
        key = None
        if is_sym(cv):
            key = self.skey(cv[0])
            if cv[0][0] == 'G':
                s = self.w.summary(cv[0][1])
                if s is not None:
                    return self.apply(st, ins, cv[0][1], s, args)
        slot = self.prog.fieldname(key) if key else None
        if key and key[0] == PLUGIN:
            self.count('callback')
        if key and is_sym(cv) and self.isnull(cv, st) is not False:
            self.report('callback', 'optional operation %s is called without checking that it is provided' % slot, st, inst=slot)
            self.setfact(st, cv[0], NONZERO)
        self.w.client_indirect(self, st, ins, slot, cv, args)
        h = self.w.slots.get(slot)
        if h:
            out = h(self, st, ins, args)
            for s, r in out:
                self.invalidate(s, self.w.allmods)
            return self.finish(st, ins, out)
        out = self.unknown(st, ins, '*', args)
        if key and key[0] == PLUGIN:
            self.invalidate(st, self.w.allmods)
        return self.finish(st, ins, out)

    def intrinsic(self, st, ins, callee, args):
        if callee.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s = args[0], args[1]
            n = args[2] if type(args[2]) is int else None
            if not self.deref(st, d, 'copied to') or not self.deref(st, s, 'copied from'):
                return []
            if is_sym(d):
                r = self.base_root(d[0])
                src = {}
                if is_sym(s):
                    for k, v in st.mem.items():
                        if k[0] == s[0] and k[1] != '*' and (n is None or s[1] <= k[1] < s[1] + n):
                            src[k[1] - s[1]] = (v, self.lkey(k))
                    dflt = st.mem.get((s[0], '*'))
                else:
                    dflt = 'H'
                for k in [k for k in st.mem if k[0] == d[0] and (k[1] == '*' or n is None or d[1] <= k[1] < d[1] + n)]:
                    del st.mem[k]
                for o, (v, key) in src.items():
                    st.mem[(d[0], d[1] + o)] = v
                    if key and (d[0], d[1] + o) not in self.lockey:
                        self.lockey[(d[0], d[1] + o)] = key
                    if d[0][0] != 'A':
                        st.wr = st.wr | {(d[0], d[1] + o)}
                        if is_sym(v) and v[0] in st.own and r[0] != 'A':
                            st.esc = st.esc | {v[0]}
                if is_sym(s) and s[0][0] == 'A' and dflt is None:
                    if d[0][0] != 'A':
                        st.mem[(d[0], '*')] = 'H'
                else:
                    st.mem[(d[0], '*')] = dflt if dflt is not None else 'H'
                if d[0][0] == 'A':
                    pass
            return [st]
        if callee.startswith('llvm.memset'):
            d = args[0]
            if not self.deref(st, d, 'cleared'):
                return []
            if is_sym(d):
                n = args[2] if type(args[2]) is int else None
                size = None
                if d[0][0] == 'A':
                    size = self.fn.allocas.get(d[0][1], (None,))[0]
                for k in [k for k in st.mem if k[0] == d[0] and (k[1] == '*' or n is None or d[1] <= k[1] < d[1] + n)]:
                    if k[1] != '*':
                        del st.mem[k]
                fill = 0 if args[1] == 0 else 'H'
                if d[1] == 0 and (n is None or size is None or size < 0 or n >= size):
                    st.mem[(d[0], '*')] = fill
                else:
                    cur = st.mem.get((d[0], '*'))
                    if cur is None and n is not None and n <= 64:
                        for o in range(d[1], d[1] + n):
                            st.mem[(d[0], o)] = fill
                    else:
                        st.mem[(d[0], '*')] = fill if cur is None or cur == fill else 'H'
                if d[0][0] != 'A':
                    for k in list(st.mem):
                        pass
            return [st]
        if callee.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.assume',
                              'llvm.va_end', 'llvm.experimental', 'llvm.va_copy')):
            return [st]
        if callee.startswith('llvm.va_start'):
            self.havoc_ptr(st, args[0])
            return [st]
        if callee.startswith(('llvm.trap', 'llvm.ubsantrap')):
            return []
        if ins[5] != 'void':
            st.regs[ins[1]] = self.fresh(st, ('X', ins[1]))
        return [st]

    # ---- summaries -----------------------------------------------------
    def target(self, st, t, args, ins=None):
        """abstract value a summary target denotes at this call."""
        if t[0] == 'p':
            v = args[t[1]] if t[1] < len(args) else None
            return v
        if t[0] == 'ip':
            a = args[t[1]] if t[1] < len(args) else None
            if not is_sym(a):
                return None
            loc = (a[0], a[1] + t[2])
            if loc not in self.lockey and self.sumkeys and t[1:] in self.sumkeys:
                self.lockey[loc] = self.sumkeys[t[1:]]
            return self.rd(st, loc, ins)
        return None

    def cond_ok(self, st, cond, args, ins):
        """feasible under st?"""
        for t, f in cond:
            v = self.target(st, t, args, ins)
            if v is None or v == U:
                if v is None and t[0] == 'ip':
                    a = args[t[1]] if t[1] < len(args) else None
                    if a == 0:
                        return False
                continue
            if t[0] == 'p' and f[0] == 0 == f[1] and is_sym(v) and v[1] != 0 and t[1] in self.sumptr:
                return False        # the address of a member is not NULL
            r = self.rng(v, st)
            if fmeet(r, f) is None:
                return False
        return True

    def cond_assume(self, st, cond, args, ins):
        for t, f in cond:
            v = self.target(st, t, args, ins)
            if v is None or v == U:
                continue
            if is_sym(v):
                o = v[1]
                g = f if o == 0 else (f[0] - o, f[1] - o, frozenset(x - o for x in f[2]), None)
                if not self.setfact(st, v[0], g):
                    return False
                if self.propagate(v[0], st) is False:
                    return False
            elif is_cmp(v):
                if f[0] == f[1]:
                    if not self.assume(v, bool(f[0]), st):
                        return False
            elif type(v) is int and not fhas(f, v):
                return False
        return True

    def apply(self, st, ins, callee, s, args):
        self.sumkeys = s.keys
        self.sumptr = s.ptrs
        name = self.w.pretty(callee)
        site = self.fn.where(ins)
        for k, where in s.needs.items():
            if type(k) is int:
                v = args[k] if k < len(args) else None
            else:
                a = args[k[0]] if k[0] < len(args) else None
                v = st.mem.get((a[0], a[1] + k[1])) if is_sym(a) else None
            if v is None or v == U:
                continue
            if v == 0 or (is_sym(v) and self.isnull(v, st)):
                self.report('null', 'NULL is passed to %s, which dereferences it (%s)' % (name, where), st)
                if type(k) is int:
                    return []
            elif is_sym(v):
                b = self.base_root(v[0])
                if self.isnull(v, st) is None:
                    if b in st.mn:
                        self.report('null', '%s may be NULL and is passed to %s, which dereferences it (%s)' % (
                            self.describe(b), name, where), st)
                        self.setfact(st, b, NONZERO)
                    pk = self.paramkey(b)
                    if pk is not None and pk not in self.needs and v[1] == 0:
                        self.needs[pk] = site + ' -> ' + where
        for (k, off), where in s.reads.items():
            a = args[k] if k < len(args) else None
            if is_sym(a) and a[0][0] == 'A':
                loc = (a[0], a[1] + off)
                if st.mem.get(loc, st.mem.get((a[0], '*'))) is None or st.mem.get(loc) == U:
                    self.report('uninit', '%s is read by %s before anything was stored in it' % (self.describe(a[0]), name), st)
                    st.mem[loc] = 'H'
        for k, (req, where) in s.typereq.items():
            req = req | self.w.kindextra.get(callee, frozenset())
            a = args[k] if k < len(args) else None
            if is_sym(a):
                self.need_type(st, a, req, 'passed to %s' % name, where)
        res = []
        for o in s.outcomes:
            # which disjuncts are feasible
            if o['conds'] is not None:
                feas = [c for c in o['conds'] if self.cond_ok(st, c, args, ins)]
                if not feas:
                    continue
            else:
                feas = None
            n = st.copy()
            if feas is not None and len(feas) == 1:
                if not self.cond_assume(n, feas[0], args, ins):
                    continue
            elif feas:
                hull = None
                for c in feas:
                    d = dict(c)
                    if hull is None:
                        hull = d
                    else:
                        hull = {t: fhull(f, d[t]) for t, f in hull.items() if t in d}
                if hull and not self.cond_assume(n, hull.items(), args, ins):
                    continue
            # values before the call, for 'ip'
            cache = {}

            def tv(t):
                if t not in cache:
                    cache[t] = self.target(n, t, args, ins)
                return cache[t]
            for t, kind, d in o['own']:
                tv(t)
            for spec in list(o['writes'].values()) + [o['ret']]:
                if type(spec) is tuple and spec[0] in ('p', 'ip'):
                    tv(spec[:2] if spec[0] == 'p' else spec[:3])
            bad = False
            for t, kind, d in o['own']:
                v = tv(t)
                if is_sym(v):
                    if kind in ('ref', 'mold') or d > 0:
                        for _ in range(abs(d)):
                            self.own(n, v[0], kind, 1 if d > 0 else -1, ins)
                    else:
                        self.release_heap(n, v, kind, ins)
            news = {}

            def val(spec, slot):
                if type(spec) is int or spec == U:
                    return spec
                if spec[0] == 'g':
                    return (('G', spec[1]), spec[2])
                if spec[0] == 'p':
                    v = tv(('p', spec[1]))
                    if is_sym(v):
                        return (v[0], v[1] + spec[2])
                    if type(v) is int:
                        return v + spec[2]
                    return self.fresh(n, ('O', ins[1]) + slot) if v is None else v
                if spec[0] == 'ip':
                    v = tv(('ip', spec[1], spec[2]))
                    if is_sym(v):
                        return (v[0], v[1] + spec[3])
                    if type(v) is int:
                        return v + spec[3]
                    return self.fresh(n, ('O', ins[1]) + slot) if v is None else v
                if spec[0] == 'new':
                    _, kind, cnt, idx, f = spec
                    if idx in news:
                        return news[idx]
                    v = self.fresh(n, ('O', ins[1]) + slot)
                    n.own[v[0]] = (kind, cnt, (site, ins[1]))
                    n.esc = n.esc - {v[0]}
                    n.dead = n.dead - {v[0]}
                    n.facts.pop(v[0], None)
                    self.setfact(n, v[0], f)
                    self.count('acquire')
                    news[idx] = v
                    return v
                # any
                v = self.fresh(n, ('O', ins[1]) + slot)
                n.own.pop(v[0], None)
                n.facts.pop(v[0], None)
                n.esc = n.esc - {v[0]}
                n.dead = n.dead - {v[0]}
                if spec[1] != TOPF:
                    self.setfact(n, v[0], spec[1])
                if len(spec) > 2 and spec[2]:
                    n.mn = n.mn | {v[0]}
                return v
            # things the callee keeps
            for k in s.retains:
                if k < len(args) and is_sym(args[k]):
                    b = self.base_root(args[k][0])
                    if b in n.own and n.own[b][0] not in ('ref', 'mold'):
                        n.esc = n.esc | {b}
                    if b[0] == 'A':
                        self.havoc_ptr(n, args[k])
            self.invalidate(n, s.mods)
            r = val(o['ret'], ('r',)) if ins[5] != 'void' else 0
            for (k, off), spec in o['writes'].items():
                a = args[k] if k < len(args) else None
                if not is_sym(a):
                    continue
                loc = (a[0], a[1] + off)
                v = val(spec, ('w', k, off))
                n.mem[loc] = v
                if self.base_root(a[0])[0] != 'A':
                    n.wr = n.wr | {loc}
            for k in o.get('havoc', ()):
                a = args[k] if k < len(args) else None
                if is_sym(a):
                    if a[0][0] == 'A':
                        if (a[0], '*') not in n.mem:
                            n.mem[(a[0], '*')] = 'H'
                        for kk in [kk for kk in n.mem if kk[0] == a[0] and kk[1] != '*']:
                            del n.mem[kk]
                        n.mem[(a[0], '*')] = 'H'
                    else:
                        self.havoc_ptr(n, a, True)
            # a constructor leaves its whole object defined (class invariants are not tracked)
            if CTOR.search(callee) and args and is_sym(args[0]) and args[0][0][0] == 'A':
                self.havoc_ptr(n, args[0])
            if ins[5] != 'void':
                if ins[6] and is_sym(r):
                    self.setfact(n, r[0], NONZERO)
                n.regs[ins[1]] = r
            self.w.client_outcome(self, n, ins, callee, args, r)
            res.append(n)
        return res

    def release_heap(self, st, v, kind, ins):
        if not is_sym(v):
            return
        b = self.base_root(v[0])
        if self.isnull((b, 0), st):
            return
        if b in st.dead:
            self.report('double', '%s is released again' % self.describe(b), st, ins)
            return
        self.count('release')
        o = st.own.get(b)
        if o is not None and o[0] in ('ref', 'mold'):
            st.own[b] = (o[0], o[1] - 1, o[2])
        elif o is not None:
            st.own[b] = (o[0], o[1] - 1, o[2])
        else:
            st.own[b] = (kind, -1, (self.fn.where(ins), ins[1]))
        st.dead = st.dead | {b}
        # objects only the released object held are lost: leave them owned (leak check at exit)

    # ---- context kinds -------------------------------------------------
    def kind_vals(self, st, b):
        """context kinds the object b may have: from its type field, narrowed by what its origin guarantees"""
        tv = st.mem.get((b, 0))
        if tv is None:
            tv = st.mem.get((b, '*'))
            if tv is None or tv == 'H':
                tv = (('I', b, 0), 0)
                self.lockey.setdefault((strip_old(b), 0), ('disir_context', 0))
        f = self.rng(tv, st) if tv not in ('H', U) else TOPF
        vals = [x for x in range(1, 8) if fhas(f, x)]
        inv = self.w.kind_of_field(self, st, b)
        if inv is not None:
            vals = [x for x in vals if x in inv]
            return vals, True
        return vals, len(vals) < 7

    def assume_kind(self, st, b, kinds):
        tv = st.mem.get((b, 0))
        if tv is None or tv == 'H':
            if st.mem.get((b, '*')) not in (None, 'H'):
                return
            tv = (('I', b, 0), 0)
            self.lockey.setdefault((strip_old(b), 0), ('disir_context', 0))
            st.mem[(b, 0)] = tv
        if is_sym(tv) and tv[1] == 0:
            self.setfact(st, tv[0], fset(kinds))

    def need_type(self, st, ctx, allowed, what, where=None):
        """ctx (value) must be known to be of one of the kinds in allowed."""
        if not is_sym(ctx) or ctx[1] != 0:
            return True
        b = ctx[0]
        if self.isnull(ctx, st):
            return True
        vals, known = self.kind_vals(st, b)
        self.count('kind-access')
        # some kinds only exist below a root of a given kind
        rv = st.mem.get((b, 24))
        if is_sym(rv) and rv[1] == 0:
            rk, rknown = self.kind_vals(st, rv[0])
            for x, roots in self.w.rootkinds.items():
                if rknown and not (set(rk) & roots):
                    vals = [y for y in vals if y != x]
                    allowed = frozenset(allowed) | {x}
        bad = [x for x in vals if x not in allowed]
        if not bad:
            return True
        if not known and b[0] == 'P':
            old = self.typereq.get(b[1])
            s = frozenset(allowed)
            site = self.fn.where(self.cur)
            self.typereq[b[1]] = (old[0] & s if old else s, where or site)
            if self.public:
                self.w.kind_report(self, st, b, bad, vals, allowed, what, where)
            self.assume_kind(st, b, s)
            return True
        if not known:
            self.count('kind-assumed')
            self.assume_kind(st, b, frozenset(allowed))
            return True
        self.w.kind_report(self, st, b, bad, vals, allowed, what, where)
        return False

    # ---- instructions --------------------------------------------------
    def gep(self, st, ins):
        p = self.ev(ins[3], st)
        off, var, path = ins[4], ins[5], ins[6]
        if p == U:
            self.report('uninit', 'an uninitialised pointer is used', st)
            return (('X', ins[1]), 0)
        if type(p) is int:
            if p == 0 and path:
                # &((T *) NULL)->f : address arithmetic on NULL, dereference follows
                return (('N', 0), 0) if False else 0
            p = (('X', ('abs', p)), 0)
        if is_cmp(p):
            return self.fresh(st, ('X', ins[1]))
        b, o = p
        o += off
        for v, scale in var:
            x = self.ev(v, st)
            if x == U:
                self.report('uninit', 'an uninitialised index is used', st)
                x = (('X', ins[1]), 0)
            if type(x) is int:
                o += x * scale
            else:
                b = ('E', 'gep', b, o, x, scale) if nest(b) < 6 and self.depth(x) < 8 else ('X', ins[1])
                o = 0
        r = (b, o)
        if path:
            s, fo = path[-1]
            self.lockey[r if not has_old(b) else (strip_old(b), o)] = (sname(s), fo)
            # access through the kind-specific part of a context
            for s, fo in path[:1]:
                self.w.client_gep(self, st, p, sname(s), fo, ins)
        return r

    def binop(self, st, ins):
        op = ins[3]
        a, b = self.ev(ins[4], st), self.ev(ins[5], st)
        if a == U or b == U:
            self.report('uninit', 'an uninitialised value is used in a computation', st)
            return self.fresh(st, ('X', ins[1]))
        if type(a) is int and type(b) is int:
            try:
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                     'shl': a << (b & 63) if b >= 0 else None}.get(op)
                if op in ('sdiv', 'udiv') and b:
                    r = int(a / b)
                if op in ('srem', 'urem') and b:
                    r = a - b * int(a / b)
                if op in ('lshr', 'ashr') and b >= 0 and a >= 0:
                    r = a >> b
            except Exception:
                r = None
            if r is not None and abs(r) < (1 << 64):
                return r
            return self.fresh(st, ('X', ins[1]))
        if ins[6] == 'i1':
            if op == 'xor' and (b == 1 or b == -1):
                if is_cmp(a):
                    return ('C', NEG[a[1]], a[2], a[3])
                if is_sym(a):
                    return ('C', 'eq', a, 0)
            if op == 'and' or op == 'or':
                for x, y in ((a, b), (b, a)):
                    if type(x) is int:
                        if op == 'and':
                            return y if x else 0
                        return 1 if x else y
                    t = None
                    if is_cmp(x):
                        t = self.decide(x[1], x[2], x[3], st)
                    elif is_sym(x):
                        t = self.decide('ne', x, 0, st)
                    if t is not None:
                        if op == 'and':
                            return y if t else 0
                        return 1 if t else y
                return (('E', 'b' + op, a, b), 0)
        if op == 'add' or op == 'sub':
            if type(b) is int and is_sym(a):
                return (a[0], a[1] + (b if op == 'add' else -b))
            if op == 'add' and type(a) is int and is_sym(b):
                return (b[0], b[1] + a)
            if op == 'sub' and is_sym(a) and is_sym(b) and a[0] == b[0]:
                return a[1] - b[1]
        if op == 'and' and type(b) is int and is_cmp(a) and b & 1:
            return a
        if self.depth(a) + self.depth(b) > 12:
            return self.fresh(st, ('X', ins[1]))
        r = ('E', op, a, b)
        if op == 'and' and type(b) is int and b >= 0 and r not in st.facts:
            st.facts[r] = (0, b, EMPTY, None)
            # what is known of the masked value
            if is_sym(a):
                f = self.rng(a, st)
                if f[3] is not None:
                    st.facts[r] = fset([x & b for x in f[3]])
        if op in ('urem', 'srem') and type(b) is int and b > 0 and r not in st.facts:
            st.facts[r] = (0 if op == 'urem' else -b + 1, b - 1, EMPTY, None)
        return (r, 0)

    def depth(self, v):
        if type(v) is not tuple:
            return 0
        return 1 + max([self.depth(x) for x in v] or [0])

    def cast(self, st, ins):
        k, v = ins[3], self.ev(ins[4], st)
        if v == U:
            return U
        if k in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if type(v) is int:
            if k == 'trunc':
                w = self.width(ins[6])
                if w == 1:
                    return v & 1
                m = v & ((1 << w) - 1)
                return m - (1 << w) if m >> (w - 1) else m
            if k == 'zext':
                w = self.width(ins[5])
                return v & ((1 << w) - 1) if w else v
            if k == 'sext':
                if ins[5] == 'i1':
                    return -1 if v else 0
                return v
        if k in ('zext', 'trunc', 'sext'):
            if is_cmp(v):
                if k == 'sext':
                    return self.fresh(st, ('X', ins[1]))
                return v
            if is_sym(v):
                if k == 'trunc' and ins[6] == 'i1':
                    return ('C', 'ne', v, 0)
                if k == 'trunc':
                    if ins[5] == 'i64' and ins[6] == 'i32':
                        self.w.client_trunc(self, st, v, ins)
                    return v
                if k == 'zext':
                    f = self.rng(v, st)
                    if f[0] < 0 and v[1] == 0 and self.width(ins[5]) < 64:
                        w = self.width(ins[5])
                        # keep identity: the comparisons that follow are on the unsigned value
                        return v
                return v
        return self.fresh(st, ('X', ins[1]))

    @staticmethod
    def width(t):
        if t.startswith('i'):
            return int(t[1:])
        return 0

    def edge(self, st, frm, to):
        """values of phis at block `to` when entered from `frm`, then prune."""
        n = st.copy()
        phis = []
        for ins in self.fn.blocks[to]:
            if ins[0] != 'phi':
                break
            for o, p in ins[3]:
                if p == frm:
                    self.cur = ins
                    phis.append((ins, self.ev(o, n)))
                    break
        back = self.fn.pos[to] <= self.fn.pos[frm]
        for ins, v in phis:
            if ins[1] in self.fn.indphi and ins[4] in ('i32', 'i64', 'ptr', 'i16', 'i8'):
                base = ('X', ins[1])
                if back:
                    prev = n.regs.get(ins[1])
                    lo = -INF
                    if v != U:
                        # values only ever grow: keep the lower bound
                        if prev is not None and prev != U:
                            if is_sym(v) and is_sym(prev) and v[0] == prev[0] and v[1] >= prev[1]:
                                lo = self.rng(prev, n)[0]
                            elif type(v) is int and type(prev) is int and v >= prev:
                                lo = prev
                    pnull = None
                    if ins[4] == 'ptr' and is_sym(v):
                        pnull = self.isnull(v, n)
                    if v == U:
                        continue
                    ptrbase = v[0] if is_sym(v) and ins[4] == 'ptr' else None
                    if ins[4] == 'ptr' and not (is_sym(v) and is_sym(prev) and self.base_root(v[0]) == self.base_root(prev[0]) and v[0] != base):
                        # a walked pointer (list traversal through fields): keep as it is
                        n.regs[ins[1]] = v
                        continue
                    if ins[4] == 'ptr':
                        nb = ('E', 'gep', v[0] if v[0][0] != 'E' else v[0][2], 0, (('X', ins[1]), 0), 1)
                        n.regs[ins[1]] = (nb, 0)
                        continue
                    # rename an older instance
                    if not (is_sym(v) and v[0] == base and v[1] == 0):
                        self.retire_for_phi(n, base, ins[1])
                        n.facts.pop(base, None)
                        if lo > -INF:
                            n.facts[base] = (lo, INF, EMPTY, None)
                    n.regs[ins[1]] = (base, 0)
                    continue
            n.regs[ins[1]] = v
        live = self.fn.livein[to]
        keep = {}
        for ins, v in phis:
            live_phi = ins[1]
            keep[live_phi] = n.regs[live_phi]
        n.regs = {k: v for k, v in n.regs.items() if k in live or k in keep}
        self.prune(n, to)
        n.up = st
        n.at = frm
        return n

    def retire_for_phi(self, st, base, phi):
        st.regs.pop(phi, None)
        self.retire(st, base)

    def bury(self, st):
        """what a released object contained is of no further interest"""
        dead = st.dead
        live = set()
        for v in list(st.regs.values()) + [v for k, v in st.mem.items() if k[0] not in dead]:
            if is_sym(v):
                live.add(v[0])
            elif is_cmp(v):
                live.update(x[0] for x in v[2:] if is_sym(x))

        def under(b):
            while type(b) is tuple and b[0] == 'I':
                if b in live:
                    return False
                b = b[1]
                if b in dead:
                    return True
            return False
        st.mem = {k: v for k, v in st.mem.items() if not (k[0] in dead or under(k[0]))}
        gone = [b for b, o in st.own.items() if o[1] < 0 and under(b)]
        for b in gone:
            del st.own[b]
        for b in [b for b in st.facts if under(b)]:
            del st.facts[b]
        st.dead = frozenset(b for b in dead if not under(b))

    def prune(self, st, to):
        if st.dead:
            self.bury(st)
        la = self.fn.liveallocas[to]
        keepb = set()
        todo = []

        def mark(b):
            if type(b) is not tuple or b in keepb:
                return
            keepb.add(b)
            todo.append(b)
        for v in st.regs.values():
            if type(v) is tuple:
                if len(v) == 2:
                    mark(v[0])
                else:
                    for x in v[2:]:
                        if is_sym(x):
                            mark(x[0])
        for a in la:
            mark(('A', a))
        for b, o in st.own.items():
            if b[0] == 'P' or (b[0] == 'I' and b[1][0] == 'P') or (o[1] > 0 and root_of(b)[0] in 'PG'):
                mark(b)
        bybase = {}
        for k, v in st.mem.items():
            bybase.setdefault(k[0], []).append(v)
            if k[0][0] != 'A' and k in st.wr and (k[0][0] == 'P' or root_of(self.base_root(k[0]))[0] in 'PG' and is_sym(v) and
                                                       st.own.get(v[0], (0, 0))[1] > 0):
                mark(k[0])
        for k in range(len(self.fn.params)):
            mark(('P', k))
        # close: contents of kept bases, components of structural bases
        while todo:
            b = todo.pop()
            for v in bybase.get(b, ()):
                if is_sym(v):
                    mark(v[0])
                elif is_cmp(v):
                    for x in v[2:]:
                        if is_sym(x):
                            mark(x[0])
            for x in b[1:]:
                if type(x) is tuple:
                    if len(x) == 2 and type(x[0]) is tuple:
                        mark(x[0])
                    elif len(x) == 4 and x[0] == 'C':
                        for y in x[2:]:
                            if is_sym(y):
                                mark(y[0])
                    else:
                        mark(x)
        for b, o in st.own.items():
            if o[1] > 0 and b not in keepb:
                self.leakcheck(st, b)
        st.mem = {k: v for k, v in st.mem.items() if k[0] in keepb}
        st.wr = frozenset(k for k in st.wr if k[0] in keepb)
        st.own = {k: v for k, v in st.own.items() if k in keepb}
        for d in ('facts',):
            m = getattr(st, d)
            setattr(st, d, {k: v for k, v in m.items() if self.keepable(k, keepb)})
        st.mn = frozenset(b for b in st.mn if b in keepb)
        st.dead = frozenset(b for b in st.dead if b in keepb)
        st.esc = frozenset(b for b in st.esc if b in keepb)
        st.rel = frozenset(r for r in st.rel if all((not is_sym(x)) or x[0] in keepb for x in r[1:]))

    def keepable(self, b, keepb):
        if b in keepb:
            return True
        # structural facts survive while what they are about does
        if b[0] == 'I':
            return b[1] in keepb and root_of(b)[0] == 'P'
        if b[0] == 'E':
            for x in b[1:]:
                if is_sym(x) and type(x[0]) is tuple and not self.keepable(x[0], keepb):
                    return False
            return b[1] == 'and'
        return False

    def run(self, entry_facts=None):
        fn = self.fn
        self.argav = [(('P', i), 0) for i in range(len(fn.params))]
        st = State()
        if self.public:
            for i, (n, dt, it, nn) in enumerate(fn.params):
                if it == 'ptr' and not nn and dt.endswith('*'):
                    st.mn = st.mn | {('P', i)}
        for i, (n, dt, it, nn) in enumerate(fn.params):
            if nn:
                st.facts[('P', i)] = NONZERO
        self.w.client_entry(self, st)
        visited = self.visited = [dict() for _ in fn.blocks]
        work = {0: [st]}
        visited[0][st.key()] = 1
        groups = [dict() for _ in fn.blocks]
        # states are merged where paths meet; a block with one predecessor sees no more than that one lets through
        single = [sum(b in s for s in fn.succ) <= 1 for b in range(len(fn.blocks))]
        while work:
            b = min(work, key=lambda x: fn.pos[x])
            lst = work[b]
            s = lst.pop()
            if not lst:
                del work[b]
            self.nstates += 1
            self.inloop = b in fn.inloop
            for succ, n in self.block(b, s):
                k = n.key()
                vs = visited[succ]
                if k in vs:
                    continue
                if len(vs) >= (T1 if not single[succ] else T1S):
                    n = self.merge(groups[succ], succ, n, 0 if len(groups[succ]) < T2 else 1 if len(groups[succ]) < T3 else 2)
                    if n is None:
                        continue
                    k = n.key()
                    if k in vs:
                        continue
                    if len(vs) >= CAP:
                        self.incomplete = True
                        continue
                vs[k] = 1
                work.setdefault(succ, []).append(n)
        return self

    def gkey(self, n, level):
        """what merged states must agree on: obligations, and the values that tell paths apart"""
        regs = []
        for k, v in n.regs.items():
            if v == U:
                regs.append((k, U))
            elif type(v) is int:
                if level == 0 and abs(v) < 64:
                    regs.append((k, v))
                elif level < 2 and v == 0 and self.fn.isptr(k):
                    regs.append((k, 0))
            elif is_sym(v) and v[0] in n.own:
                regs.append((k, v))
        mem = []
        for k, v in n.mem.items():
            if k[0][0] == 'A':
                if v == U or (v == 0 and level < 2) or (is_sym(v) and (v[0] in n.own or v[0] in n.dead)):
                    mem.append((k, v))
                elif level == 0 and type(v) is int and abs(v) < 64:
                    mem.append((k, v))
            elif k in n.wr and is_sym(v) and v[0] in n.own:
                mem.append((k, v))
        uninit = frozenset(k for k in n.mem if k[0][0] == 'A')
        if True:
            # NULL arguments: what a caller that passes one can rely on
            uninit |= frozenset(b for b, f in n.facts.items() if f[0] == 0 == f[1] and
                                (b[0] == 'P' or (b[0] == 'I' and b[1][0] == 'P')) and (b[0] == 'I' or self.fn.params[b[1]][1].endswith('*')))
        return (level, frozenset(regs), frozenset(mem), frozenset((b, o[0], o[1], self.isnull((b, 0), n)) for b, o in n.own.items()),
                n.dead, n.esc, n.tag, n.pend, uninit)

    def merge(self, groups, b, n, level):
        gk = self.gkey(n, level)
        e = groups.get(gk)
        if e is None:
            groups[gk] = [n, 0]
            return n
        old = e[0]
        j = self.join(old, n, b, e[1] > 2)
        if j.key() == old.key():
            return None
        e[0] = j
        e[1] += 1
        if e[1] > 40:
            self.incomplete = True
            return None
        return j

    def jname(self, b, name):
        k = (b, name)
        if k not in self.jnames:
            self.jnames[k] = len(self.jnames)
        return ('J', self.jnames[k])

    def join(self, a, n, b, widen):
        n = n.copy()
        # names this join may introduce must not occur with an older meaning
        todo = []
        for k in a.regs:
            if k in n.regs and a.regs[k] != n.regs[k]:
                todo.append(('r', k))
        for k in a.mem:
            if k[0][0] != 'E' and k in n.mem and a.mem[k] != n.mem[k] and a.mem[k] != 'H' and n.mem[k] != 'H':
                todo.append(('m', k))
        for name in todo:
            self.retire(n, self.jname(b, name))
        r = State()
        r.up, r.at = n.up, n.at
        r.own, r.dead, r.esc, r.tag, r.pend = a.own, a.dead, a.esc, a.tag, a.pend
        if n.dead != a.dead or n.esc != a.esc or n.own.keys() != a.own.keys():
            # a name of the one state is an older instance in the other
            r.dead = a.dead & n.dead
            r.esc = a.esc | n.esc
            r.own = {b_: o for b_, o in a.own.items() if b_ in n.own}
        r.mn = a.mn | n.mn
        r.wr = a.wr | n.wr
        r.rel = a.rel & n.rel
        for f, g in a.facts.items():
            h = n.facts.get(f)
            if h is not None:
                m = g if g == h else fhull(g, h)
                if widen and m != g and m[3] is None:
                    m = (g[0] if m[0] == g[0] else (0 if m[0] >= 0 else -INF), g[1] if m[1] == g[1] else INF,
                         m[2] & frozenset([0]), None)
                if m != TOPF:
                    r.facts[f] = m

        def combine(x, y, name):
            if x == y:
                return x
            if x == U or y == U:
                return U if x == y else (name, 0)
            # the same symbol, known to be this constant on either side
            if is_sym(x) and isinstance(y, int) and x[1] == 0 and x[0] in a.facts and n.facts.get(x[0], TOPF)[:2] == (y, y):
                return x
            if is_sym(y) and isinstance(x, int) and y[1] == 0 and y[0] in n.facts and a.facts.get(y[0], TOPF)[:2] == (x, x):
                return y
            if isinstance(x, int) and isinstance(y, int):
                c = [f for f, g in a.facts.items() if g[0] == x == g[1] and n.facts.get(f, TOPF)[:2] == (y, y)
                     and f[0] != 'J']
                if c:
                    return (min(c, key=str), 0)
            if x == (name, 0):
                fx = a.facts.get(name, TOPF)
            else:
                fx = self.rng(x, a)
            fy = self.rng(y, n)
            m = fhull(fx, fy)
            if widen and m != fx and m[3] is None:
                m = (fx[0] if m[0] == fx[0] else (0 if m[0] >= 0 else -INF), fx[1] if m[1] == fx[1] else INF,
                     m[2] & frozenset([0]), None)
            if m[0] == m[1]:
                return m[0]
            if m != TOPF:
                r.facts[name] = m
            else:
                r.facts.pop(name, None)
            for st, v in ((a, x), (n, y)):
                if is_sym(v) and v[0] in st.mn:
                    r.mn = r.mn | {name}
                if is_sym(v) and self.skey(v[0]):
                    self.symkey[name] = self.skey(v[0])
            return (name, 0)
        for k, x in a.regs.items():
            if k in n.regs:
                r.regs[k] = combine(x, n.regs[k], self.jname(b, ('r', k)))
        for k, x in a.mem.items():
            y = n.mem.get(k)
            if y is None:
                if k[0][0] == 'A':
                    r.mem[k] = 'H'
                elif k in r.wr:
                    r.mem[k] = 'H'
                continue
            if x == y:
                r.mem[k] = x
            elif k[1] == '*' or x == 'H' or y == 'H' or x == U or y == U or k[0][0] == '~':
                r.mem[k] = 'H'
            else:
                r.mem[k] = combine(x, y, self.jname(b, ('m', k)))
        for k, y in n.mem.items():
            if k not in a.mem and (k[0][0] == 'A' or k in r.wr):
                r.mem[k] = 'H'
        return r

    def block(self, b, st0):
        states = [st0.copy()]
        states[0].up, states[0].at = st0.up, st0.at
        out = []
        blk = self.fn.blocks[b]
        for ins in blk:
            op = ins[0]
            if op == 'phi':
                continue
            if op in ('br', 'jmp', 'switch', 'ret', 'unreachable', 'resume') or (op == 'call' and ins[7] >= 0):
                for st in states:
                    self.cur = ins
                    out += self.term(b, st, ins)
                return out
            nxt = []
            for st in states:
                self.cur = ins
                self.curst = st
                r = self.step(st, ins)
                if r is True:
                    nxt.append(st)
                elif r:
                    nxt += r
            states = nxt
            if len(states) > 64:
                d = {}
                for s in states:
                    d.setdefault(s.key(), s)
                states = list(d.values())
            if not states:
                return out
        return out

    def step(self, st, ins):
        op = ins[0]
        if op == 'load':
            v = self.load(st, self.ev(ins[3], st), ins)
            if v is None:
                return []
            st.regs[ins[1]] = v
            return True
        if op == 'store':
            return self.storev(st, self.ev(ins[3], st), self.ev(ins[4], st), ins) or []
        if op == 'gep':
            st.regs[ins[1]] = self.gep(st, ins)
            return True
        if op == 'icmp':
            a, b = self.ev(ins[4], st), self.ev(ins[5], st)
            if a == U or b == U:
                self.report('uninit', 'an uninitialised value is compared', st)
                st.regs[ins[1]] = self.fresh(st, ('X', ins[1]))
                return True
            d = self.decide(ins[3], a, b, st)
            if d is None and ins[6] == 'ptr' and ins[3] in ('eq', 'ne') and \
                    ((b == 0 and is_sym(a) and a[1] != 0) or (a == 0 and is_sym(b) and b[1] != 0)):
                d = ins[3] == 'ne'      # the address of a member is not NULL
            if d is not None:
                st.regs[ins[1]] = 1 if d else 0
            elif is_cmp(a) and type(b) is int and ins[3] in ('eq', 'ne'):
                t = (b != 0) == (ins[3] == 'eq')
                st.regs[ins[1]] = a if t else ('C', NEG[a[1]], a[2], a[3])
            else:
                if is_cmp(a) or is_cmp(b):
                    st.regs[ins[1]] = self.fresh(st, ('X', ins[1]))
                else:
                    st.regs[ins[1]] = ('C', ins[3], a, b)
            return True
        if op == 'call':
            return self.call(st, ins)
        if op == 'bin':
            st.regs[ins[1]] = self.binop(st, ins)
            return True
        if op == 'cast':
            st.regs[ins[1]] = self.cast(st, ins)
            return True
        if op == 'alloca':
            st.regs[ins[1]] = (('A', ins[1]), 0)
            return True
        if op == 'select':
            c = self.ev(ins[3], st)
            res = []
            for t, o in ((True, ins[4]), (False, ins[5])):
                n = st.copy()
                if self.assume(c, t, n):
                    n.regs[ins[1]] = self.ev(o, n)
                    res.append(n)
            return res
        if op in ('extract', 'landingpad'):
            st.regs[ins[1]] = self.fresh(st, ('X', ins[1]))
            return True
        if op == 'other':
            for o in ins[4]:
                if ins[3] in ('fcmp',) and self.ev(o, st) == U:
                    self.report('uninit', 'an uninitialised value is compared', st)
            if ins[1] >= 0:
                st.regs[ins[1]] = self.fresh(st, ('X', ins[1]))
            return True
        return True

    def term(self, b, st, ins):
        op = ins[0]
        if op == 'jmp':
            return [(ins[3], self.edge(st, b, ins[3]))]
        if op == 'br':
            c = self.ev(ins[3], st)
            if c == U:
                self.report('uninit', 'a branch depends on an uninitialised value', st)
                c = (('X', ('u', ins[1], b)), 0)
            res = []
            for t, d in ((True, ins[4]), (False, ins[5])):
                n = st.copy()
                if self.assume(c, t, n):
                    res.append((d, self.edge(n, b, d)))
            return res
        if op == 'switch':
            v = self.ev(ins[3], st)
            if v == U:
                self.report('uninit', 'a switch depends on an uninitialised value', st)
                v = (('X', ('u', b)), 0)
            res = []
            vals = []
            for c, d in ins[5]:
                vals.append(c)
                n = st.copy()
                if self.assume_cmp('eq', v, c, n) if not is_cmp(v) else self.assume(v, bool(c), n):
                    res.append((d, self.edge(n, b, d)))
            n = st.copy()
            ok = True
            for c in vals:
                if is_cmp(v):
                    ok = ok and self.assume(v, not bool(c), n)
                else:
                    ok = ok and self.assume_cmp('ne', v, c, n)
                if not ok:
                    break
            if ok:
                res.append((ins[4], self.edge(n, b, ins[4])))
            return res
        if op == 'call':
            res = []
            for n in self.call(st, ins):
                res.append((ins[7], self.edge(n, b, ins[7])))
            return res
        if op == 'ret':
            rv = self.ev(ins[3], st) if ins[3] else 0
            if rv == U:
                self.report('uninit', 'an uninitialised value is returned', st)
                rv = (('X', 'ret'), 0)
            self.atexit(st, rv, ins)
            return []
        return []

    def atexit(self, st, rv, ins):
        # decide pending comparisons into constants where a status is returned
        for b in list(st.own):
            if st.own[b][1] > 0:
                self.leakcheck(st, b, ret=rv)
        self.w.client_exit(self, st, rv, ins)
        self.exits.append((st, rv))

    # ---- projection ----------------------------------------------------
    def summarise(self):
        s = Summary()
        s.needs = dict(self.needs)
        s.reads = dict(self.reads)
        s.typereq = dict(self.typereq)
        s.retains = frozenset(self.retains)
        s.ptrs = frozenset(k for k in range(len(self.fn.params)) if self.fn.params[k][1].endswith('*'))
        s.keys = {(b[1], o): k for (b, o), k in self.lockey.items() if b[0] == 'P' and type(o) is int}
        groups, fine = {}, {}
        for st, rv in self.exits:
            ids = {}

            def spec(v):
                if type(v) is int or v == U:
                    return v
                if is_cmp(v):
                    return ('any', fset([0, 1]), False)
                b, o = v
                if b[0] == 'A' and o == 0:
                    return ('any', NONZERO, False)
                ow = st.own.get(b)
                if ow and ow[1] > 0 and o == 0 and b[0] != 'P':
                    if b not in ids:
                        ids[b] = len(ids)
                    f = self.facts_of(b, st)
                    return ('new', ow[0], ow[1], ids[b], NONZERO if not fhas(f, 0) else TOPF)
                if b[0] == 'G':
                    return ('g', b[1], o)
                if b[0] == 'P':
                    return ('p', b[1], o)
                if b[0] == 'I' and b[1][0] == 'P':
                    return ('ip', b[1][1], b[2], o)
                f = self.rng(v, st)
                if f[3] is not None and len(f[3]) > 16:
                    f = (f[0], f[1], EMPTY, None)
                if f[3] is None:
                    f = (f[0], f[1], frozenset(x for x in f[2] if x == 0), None)
                return ('any', f, b in st.mn)
            writes = {}
            for loc in st.wr:
                b, o = loc
                if b[0] != 'P' or type(o) is not int:
                    continue
                dt = self.fn.params[b[1]][1]
                if not self.writable_kind(dt, b[1]):
                    continue
                v = st.mem.get(loc)
                if v is None or v == 'H':
                    writes[(b[1], o)] = ('any', TOPF, False)
                else:
                    writes[(b[1], o)] = spec(v)
            havoc = tuple(sorted(set(k[0][1] for k, v in st.mem.items()
                                     if k[0][0] == 'P' and k[1] == '*' and v == 'H')))
            r = spec(rv)
            owns = []
            for b, (kind, cnt, site) in st.own.items():
                if cnt == 0 or b in ids:
                    continue
                if cnt > 0:
                    cnt -= sum(1 for loc in st.wr if loc[0][0] not in 'AP' and is_sym(st.mem.get(loc))
                               and st.mem[loc][0] == b)
                    if cnt <= 0:
                        continue
                if b[0] == 'P':
                    owns.append((('p', b[1]), kind, cnt))
                elif b[0] == 'I' and b[1][0] == 'P':
                    owns.append((('ip', b[1][1], b[2]), kind, cnt))
            cond = {}
            for b, f in st.facts.items():
                if b[0] == 'P':
                    t = ('p', b[1])
                elif b[0] == 'I' and b[1][0] == 'P' and type(b[2]) is int:
                    t = ('ip', b[1][1], b[2])
                else:
                    continue
                g = f
                if f[3] is None:
                    g = (f[0], f[1], frozenset(x for x in f[2] if abs(x) < 64), None)
                cond[t] = g
            rc = r
            if type(r) is int and r != 0:
                rc = 'nz'
            elif type(r) is tuple and r[0] == 'any':
                rc = 'nz' if not fhas(r[1], 0) else 'any'
            elif type(r) is tuple and r[0] == 'new':
                rc = r[:4]
            key = (rc, tuple(sorted(writes.items(), key=repr)), tuple(sorted(owns, key=repr)), havoc)
            groups.setdefault(key, []).append((r, writes, owns, havoc, cond))
            fine.setdefault((key, r), []).append((r, writes, owns, havoc, cond))
        # tell the results apart where that costs little
        if len(fine) <= 10:
            groups = fine
        if len(groups) > 24:
            # merge by return class and ownership effects
            g2 = {}
            for key, lst in groups.items():
                k2 = (key[0], key[2])
                g2.setdefault(k2, []).extend(lst)
            groups = g2
        for key, lst in groups.items():
            r = lst[0][0]
            for x in lst[1:]:
                r = self.hullspec(r, x[0])
            ws = {}
            for x in lst:
                for k in x[1]:
                    ws.setdefault(k, []).append(x[1][k])
            writes = {}
            for k, vs in ws.items():
                v = vs[0]
                for y in vs[1:]:
                    v = self.hullspec(v, y)
                if len(vs) < len(lst):
                    # not written on some merged path
                    v = ('any', TOPF, False)
                writes[k] = v
            conds = []
            for x in lst:
                c = tuple(sorted(x[4].items(), key=repr))
                if c not in conds:
                    conds.append(c)
            if any(not c for c in conds) or len(conds) > 40:
                hull = None
                for c in conds:
                    d = dict(c)
                    hull = d if hull is None else {t: fhull(f, d[t]) for t, f in hull.items() if t in d}
                conds = [tuple(sorted(hull.items(), key=repr))] if hull else None
            s.outcomes.append({'ret': r, 'writes': writes, 'own': lst[0][2], 'havoc': lst[0][3], 'conds': conds})
        return s

    def hullspec(self, a, b):
        if a == b:
            return a

        def fx(x):
            if type(x) is int:
                return fconst(x)
            if type(x) is tuple and x[0] == 'any':
                return x[1]
            if type(x) is tuple and x[0] == 'new':
                return x[4]
            if type(x) is tuple and x[0] == 'g':
                return NONZERO
            return TOPF
        if a == U or b == U:
            return ('any', TOPF, False)
        f = fhull(fx(a), fx(b))
        mn = (type(a) is tuple and a[0] == 'any' and a[2]) or (type(b) is tuple and b[0] == 'any' and b[2])
        return ('any', f, mn)

    def writable_kind(self, dt, k):
        """out parameters: pointers to pointers, scalars, enums, small value structs"""
        if dt.endswith('**') or dt.endswith('*&') or dt.endswith('&'):
            return True
        if dt in ('enum*',) or dt.startswith('enum ') and dt.endswith('*'):
            return True
        base = dt.rstrip('*').replace('const ', '')
        if dt.endswith('*') and base in ('int', 'int32_t', 'int64_t', 'uint8_t', 'uint32_t', 'double', 'unsigned int',
                                         'bool', '_Bool', 'unsigned char', 'long', 'size_t', 'uint64_t', 'unsigned long'):
            return True
        if base in ('struct disir_version',):
            return True
        return False
