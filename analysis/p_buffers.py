"""P10: writes into buffers stay inside them: the length given to every writer, and every index, against the extent of
the buffer, through the callers where the buffer is theirs."""
import cfg
from lin import Lin, add, atom, const
from passes import ASSUME, infn, site, text, undecided
from ranges import Ranges
from report import Finding

# writer -> (destination argument, how many bytes: argument index, or a rule)
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'fgets': (0, 1), 'read': (1, 2), 'readlink': (1, 2), 'getcwd': (0, 1),
         'strftime': (0, 1), 'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2), 'strncpy': (0, 2), 'recv': (1, 2),
         'gethostname': (0, 1), 'strlcpy': (0, 2), 'pread': (1, 2)}
TEXT = ('strcpy', 'stpcpy', 'strcat', 'sprintf', 'vsprintf', 'strncat', 'gets', 'fread')
# a field that holds a buffer, the field that tells its length, and the bytes there are beyond that
FIELDS = {('disir_value', 'dv_string'): ('dv_size', 1), ('disir_context', 'cx_error_message'): ('cx_error_message_size', 0),
          ('disir_instance', 'disir_error_message'): ('disir_error_message_size', 0)}
# a buffer and its size handed over by address: (argument of the pointer, argument of the size)
PAIRS = {'dx_internal_log_to_storage': (0, 1)}


def writer(i):
    if i[0] != 'call' or not isinstance(i[3], str):
        return None
    n = i[3]
    if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
        return 'mem' + n.split('.')[1][3:]
    n = n.replace('__isoc99_', '')
    return n if n in SIZED or n in TEXT else None


class Need(object):
    """what a function asks of its caller: buffer argument k has room for `n` bytes, or for as many as argument j says"""

    def __init__(self, k, n=None, j=None, why=None, site=None):
        self.k, self.n, self.j, self.why, self.site = k, n, j, why, site

    def key(self):
        return (self.k, self.n, self.j)


class Pass(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.finds = {}
        self.n = {'writers': 0, 'indexed': 0, 'functions': 0, 'call_sites': 0}
        self.needs = {}
        self.lins = {}

    def lin(self, u, f):
        k = id(f)
        if k not in self.lins:
            self.lins[k] = Lin(u, f, self.R[id(u)])
        self.lins[k].steps = 0
        return self.lins[k]

    def report(self, f, i, rule, msg):
        k = "%s|%s|%s" % (infn(f, i), rule, f.dname if f.dname != infn(f, i) else '')
        self.finds.setdefault(k, Finding(k, "%s (%s)" % (msg, infn(f, i)), site(f, i)))

    # ---- buffers
    def bases(self, L, o, seen=None):
        """the atoms an address can start from"""
        seen = set() if seen is None else seen
        out = set()
        if o[0] == 'n' or o[0] == 'u' or (o[0] == 'i' and o[1] == 0):
            return out
        t = L.of(o)
        ptr = [a for a, c in t[0].items() if c == 1 and self.ispointer(L, a)]
        if len(ptr) != 1:
            return set([None])
        a = ptr[0]
        if a in seen:
            return out
        seen.add(a)
        d = L.f.defs.get(a[1]) if a[0] == 'v' else None
        if d and d[0] == 'phi':
            for v, _ in d[3]:
                out |= self.bases(L, v, seen)
            return out
        if d and d[0] == 'select':
            return self.bases(L, d[4], seen) | self.bases(L, d[5], seen)
        if d and d[0] == 'call' and d[3] in ('strchr', 'strrchr', 'strstr', 'memchr') and d[4]:
            return set([a])
        return set([a])

    def ispointer(self, L, a):
        if a[0] == 'g':
            return True
        if a[0] == 'a':
            p = L.f.params
            return a[1] < len(p) and p[a[1]][2] == 'ptr'
        if a[0] == 'm':
            return True
        if a[0] == 'v':
            d = L.f.defs.get(a[1])
            if not d:
                return False
            if d[0] == 'alloca':
                return True
            if d[0] == 'load':
                return d[4] == 'ptr'
            if d[0] in ('phi',):
                return d[4] == 'ptr'
            if d[0] == 'select':
                return self.ispointer(L, next(iter(L.of(d[4])[0]), ('i',)))
            if d[0] == 'call':
                return isinstance(d[3], str) and (d[3] in ('malloc', 'calloc', 'realloc', 'strdup', 'strchr', 'strrchr',
                                                           'strstr', 'dirname', 'basename', '__xpg_basename') or
                                                  self.rettype(L, d) == 'ptr')
        return False

    def rettype(self, L, d):
        return d[5] if len(d) > 5 and isinstance(d[5], str) else None

    def extent(self, L, a):
        """bytes at a base, as a linear term; ('arg', k) when they are the caller's; None when unknown"""
        if a is None:
            return None
        if a[0] == 'a':
            return ('arg', a[1])
        if a[0] == 'g':
            g = L.u.globals.get(a[1])
            return const(g[1]) if g and isinstance(g[1], int) and g[1] > 0 else None
        if a[0] == 'v':
            d = L.f.defs.get(a[1])
            if d[0] == 'alloca':
                return const(d[3]) if d[3] else None
            if d[0] == 'call':
                if d[3] in ('malloc', '_Znwm', '_Znam'):
                    return L.of(d[4][0])
                if d[3] == 'calloc':
                    x, y = L.of(d[4][0]), L.of(d[4][1])
                    if not x[0]:
                        return add(const(0), y, x[1])
                    if not y[0]:
                        return add(const(0), x, y[1])
                if d[3] == 'realloc':
                    return L.of(d[4][1])
        return None

    def held(self, L, total, addr, b, ins, facts, fld, why, seen=None, n=14):
        """`total` bytes fit into what the memory at addr points to in block b, on every way there; False and why when not"""
        f = L.f
        end = False
        last = None
        for i in f.blocks[b]:
            if i is ins:
                break
            if i[0] == 'store' and L.addr(i[4]) == addr:
                last = i
        if last is not None:
            v = last[3]
            bs = self.bases(L, v)
            for a in bs:
                e = self.extent(L, a)
                if e is None or e[0] == 'arg':
                    why.append("a write into a buffer of unknown size")
                    return False
                L.steps = 0
                if not L.prove(add(total, e, -1), b, facts + L.facts(b)):
                    why.append("a write can go beyond the end of the buffer allocated for it")
                    return False
            return True
        if L.absurd(facts, b):
            return True
        if b == 0:
            if fld is None:
                why.append("a write into a buffer of unknown size")
                return False
            L.steps = 0
            if not L.prove(add(total, fld, -1), b, facts):
                why.append("a write can go beyond the end of the buffer held there")
                return False
            return True
        if n == 0:
            why.append("a write into a buffer that is handed around too long")
            return False
        key = (b, str(sorted(total[0].items(), key=str)), total[1])
        if key in seen:
            return True
        seen.add(key)
        phis = [i for i in f.blocks[b] if i[0] == 'phi']
        for p in f.pred[b]:
            if p not in L.idom:
                continue
            m = {}
            for i in phis:
                for v, q in i[3]:
                    if q == p:
                        m[('v', i[1])] = L.of(v)
            x = []
            L.edge(p, b, x)
            keep = facts
            if cfg.dom(L.idom, b, p):
                keep = [t for t in facts if all(L.inv(c, b, m) for c in (t[1] if t[0] == 'ne' else t)[0])]
                total = self.relax(L, total, facts, b, m)
                if not all(L.inv(c, b, m) for c in total[0]):
                    why.append("a write into a buffer that is handed around a loop")
                    return False
            if not self.held(L, L.sub(total, m), addr, p, None, [L.sub(t, m) for t in keep] + x, fld, why, seen, n - 1):
                return False
        return True

    def relax(self, L, t, facts, b, m, n=2):
        """something at least as large, said without what a turn of the loop computes"""
        bad = [c for c in t[0] if not L.inv(c, b, m)]
        if not bad or n == 0:
            return t
        for f in facts:
            k = f[0].get(bad[0]) if f[0] != 'ne' else None
            if k and k * t[0][bad[0]] > 0 and t[0][bad[0]] % k == 0:
                r = self.relax(L, add(t, f, -(t[0][bad[0]] // k)), facts, b, m, n - 1)
                if all(L.inv(c, b, m) for c in r[0]):
                    return r
        return t

    # ---- obligations
    def room(self, u, f, b, i, dst, size, what, pidx=None):
        """`size` bytes fit at dst"""
        L = self.lin(u, f)
        t = L.of(dst)
        bs = self.bases(L, dst)
        if len(bs) != 1:
            ptrs = bs
            return self.report(f, i, what, "a write whose buffer is not one known object: %s" % (what,))
        a = next(iter(bs))
        off = add(t, atom(a), -1) if a is not None else None
        e = self.extent(L, a)
        if e is None and a is not None and a[0] == 'v' and L.f.defs[a[1]][0] == 'call' and L.f.defs[a[1]][3] in ('strchr', 'strrchr'):
            # a place inside another buffer, at most at the end of its text
            o = L.f.defs[a[1]][4][0]
            bb = self.bases(L, o)
            c = next(iter(bs))
            if len(bb) == 1 and next(iter(bb)) is not None:
                base = next(iter(bb))
                e = self.extent(L, base)
                if e is not None:
                    off = add(t, atom(base), -1)
                    a = base
        if e is None and a is not None and a[0] == 'v' and L.f.defs[a[1]][0] == 'call' and str(L.f.defs[a[1]][3]).startswith('_Z') \
                and not size[0]:
            # an object copied into the one a C++ accessor gives
            return
        if e is None:
            d = L.f.defs.get(a[1]) if a and a[0] == 'v' else None
            ad = None
            if a and a[0] == 'm':
                ad = a[1]
                d = self.loadof(L, dst, a)
            elif d and d[0] == 'load':
                ad = L.addr(d[3])
            if ad is None:
                return self.report(f, i, what, "a write into a buffer of unknown size: %s" % (what,))
            return self.stored(u, f, b, i, L, ad, d, add(off, size), what)
        total = add(off, size)
        if e[0] == 'arg':
            return self.ask(u, f, b, i, L, e[1], off, total, what)
        if not L.prove(add(total, e, -1), b):
            return self.report(f, i, what, "%s can go beyond the end of its buffer" % (what,))
        if not self.nonneg(L, off, b):
            return self.report(f, i, what, "%s can start before its buffer" % (what,))

    def loadof(self, L, dst, a):
        """the read an address starts from"""
        n = 0
        while dst[0] == 'v' and n < 20:
            n += 1
            d = L.f.defs.get(dst[1])
            if not d:
                return None
            if d[0] == 'load':
                return d
            if d[0] == 'gep':
                dst = d[3]
            elif d[0] == 'cast':
                dst = d[4]
            else:
                return None
        return None

    def nonneg(self, L, off, b):
        """lengths kept in structures are not negative"""
        L.steps = 0
        L.sizes = True
        r = L.prove(add(const(0), off, -1), b)
        L.sizes = False
        return r

    def ask(self, u, f, b, i, L, k, off, total, what):
        """the buffer is the caller's argument k"""
        for n in (total,):
            # a constant
            hi = self.constmax(L, total, b)
            if hi is not None:
                self.need(f, Need(k, n=hi, why=what, site=site(f, i)))
                return
        for j, p in enumerate(f.params):
            if j != k and p[2] in ('i32', 'i64'):
                L.steps = 0
                if L.prove(add(total, atom(('a', j)), -1), b):
                    self.need(f, Need(k, j=j, why=what, site=site(f, i)))
                    return
        if f.name in TEXTARG:
            return
        self.report(f, i, what, "nothing bounds %s by the size of the caller's buffer" % (what,))

    def constmax(self, L, t, b):
        if not t[0]:
            return t[1]
        for c in sorted(set(abs(x[1]) + k for x in L.facts(b) if x[0] != 'ne' for k in (-1, 0, 1, 2) if 8 < abs(x[1]) < 1 << 20)):
            L.steps = 0
            if L.prove(add(t, const(-c)), b, n=2):
                return c
        s = t[1]
        for a, c in t[0].items():
            lo, hi = L.upper(a, b)
            v = hi if c > 0 else lo
            if v is None or abs(v) > 1 << 31:
                return None
            s += c * v
        return s

    def stored(self, u, f, b, i, L, ad, d, total, what):
        """the buffer hangs in memory: what was put there, on every way here"""
        rb = L.where[d[1]] if d else b
        why = []
        if not self.held(L, total, ad, rb, d if d else i, list(L.facts(b)), self.field(L, d, ad), why, set()):
            self.report(f, i, what, "%s: %s" % (what, why[-1]))

    def field(self, L, d, ad):
        """the room a buffer held in memory has by contract, as a term of what the function was entered with"""
        f = L.f
        o = d[3] if d else None
        x = f.defs.get(o[1]) if o and o[0] == 'v' else None
        for st, off in (x[6] if x and x[0] == 'gep' and x[6] else []):
            st = st.split('.', 1)[-1]
            fs = L.u.structs.get(st, ())
            for q in fs:
                k = FIELDS.get((st, q[1])) if q[0] == off else None
                o = next((r[0] for r in fs if k and r[1] == k[0]), None)
                if o is not None:
                    return add(atom(('m', (ad[0], ad[1] - off + o), frozenset([-1]))), const(k[1]))
        k = PAIRS.get(f.name)
        if k and ad == (((('a', k[0]), 1),), 0):
            return atom(('m', (((('a', k[1]), 1),), 0), frozenset([-1])))
        return None

    def need(self, f, n):
        if n.key() not in self.needs.setdefault(f.name, {}):
            self.needs[f.name][n.key()] = n
            self.todo.append((f.name, n))

    # ---- one function
    def function(self, u, f):
        self.n['functions'] += 1
        L = self.lin(u, f)
        for b in f.order:
            for i in f.blocks[b]:
                w = writer(i)
                if w:
                    self.n['writers'] += 1
                    self.write(u, f, b, i, w)
                elif i[0] in ('store', 'load'):
                    self.index(u, f, b, i, L)

    def write(self, u, f, b, i, w):
        L = self.lin(u, f)
        a = i[4]
        if w in SIZED:
            d, s = SIZED[w]
            size = L.of(a[s])
            if not self.nonneg(L, size, b) and not self.asks(f, size):
                return self.report(f, i, w, "the size given to %s can be negative" % w)
            self.room(u, f, b, i, a[d], size, w)
            if w == 'strncpy':
                self.terminated(u, f, b, i, L, a[0])
            return
        if w == 'fread':
            x, y = L.of(a[1]), L.of(a[2])
            if x[0] and y[0]:
                return self.report(f, i, w, "the size given to fread is not known")
            return self.room(u, f, b, i, a[0], add(const(0), x, y[1]) if not y[0] else add(const(0), y, x[1]), w)
        if w == 'gets':
            return self.report(f, i, w, "gets has no bound")
        if w in ('sprintf', 'vsprintf'):
            t = text(u, a[1])
            if t is None or '%' in t:
                return self.report(f, i, w, "%s has no bound" % w)
            return self.room(u, f, b, i, a[0], const(len(t) + 1), w)
        src = a[1]
        t = text(u, src)
        size = const(len(t) + 1) if t is not None else add(self.length(L, src, b), const(1))
        if w == 'strncat':
            size = add(L.of(a[2]), const(1))
        if w in ('strcat', 'strncat'):
            if self.append(u, f, b, i, L, a[0], src, t):
                return
            x = L.of(a[0])
            size = add(size, atom(('len', tuple(sorted(x[0].items(), key=str)), x[1])))
        self.room(u, f, b, i, a[0], size, w)

    def length(self, L, src, b):
        """the most characters a text can have"""
        x = L.of(src)
        k = ('len', tuple(sorted(x[0].items(), key=str)), x[1])
        bs = self.bases(L, src)
        best = None
        for a in bs:
            e, off = self.piece(L, a, src)
            if e is None or e[0] == 'arg' or e[0]:
                return atom(k)
            best = max(best or 0, e[1] - 1)
        return const(best) if best is not None else atom(k)

    def piece(self, L, a, src, n=0):
        """the extent of the buffer a text lies in"""
        d = L.f.defs.get(a[1]) if a and a[0] == 'v' else None
        while d and d[0] == 'call' and d[3] in ('strchr', 'strrchr', 'strstr') and n < 5:
            n += 1
            bb = self.bases(L, d[4][0])
            if len(bb) != 1:
                return None, None
            a = next(iter(bb))
            d = L.f.defs.get(a[1]) if a and a[0] == 'v' else None
        return self.extent(L, a), a

    def through(self, u, f, L, a, seen):
        """the buffers a text pointer kept in a local lies in, when a callee filled that local with a place in a text it was given"""
        if a[0] != 'm' or len(a[1][0]) != 1 or a[1][1] or a[1][0][0][0][0] != 'v' or a in seen:
            return None
        seen.add(a)
        slot = a[1][0][0][0]
        if L.f.defs[slot[1]][0] != 'alloca':
            return None
        out = set()
        for b in f.order:
            for i in f.blocks[b]:
                if i[0] == 'store' and L.addr(i[4]) == a[1]:
                    out |= self.bases(L, i[3])
                if i[0] != 'call':
                    continue
                for k, x in enumerate(i[4]):
                    if x[0] != 'v' or L.of(x) != atom(slot):
                        continue
                    if isinstance(i[3], str) and i[3].startswith('llvm.'):
                        continue
                    g = u.fns.get(i[3]) if isinstance(i[3], str) else None
                    if not g:
                        return None
                    M = self.lin(u, g)
                    for bb in g.order:
                        for j in g.blocks[bb]:
                            if j[0] == 'store' and M.of(j[4]) == atom(('a', k)):
                                for s in self.bases(M, j[3]):
                                    if s is None:
                                        return None
                                    if s[0] == '?':
                                        continue
                                    e, s = self.piece(M, s, j[3])
                                    if not e or e[0] != 'arg':
                                        return None
                                    out |= self.bases(L, i[4][e[1]])
        res = set()
        for s in out:
            if s is not None and s[0] == 'm':
                r = self.through(u, f, L, s, seen)
                res |= r if r is not None else (set() if s in seen else set([None]))
            else:
                res.add(s)
        return res

    def texts(self, u, f, L, o):
        out = set()
        for s in self.bases(L, o):
            r = self.through(u, f, L, s, set()) if s is not None else None
            out |= r if r is not None else set([s])
        return out

    def append(self, u, f, b, i, L, dst, src, t):
        """texts put together again in an argument, from pieces of one other text: room for that text will do"""
        bs = self.bases(L, dst)
        a = next(iter(bs)) if len(bs) == 1 else None
        if not a or a[0] != 'a':
            return False
        if t is not None:
            return len(t) <= 1
        for s in self.texts(u, f, L, src):
            if s is None:
                return False
            if s[0] == '?':
                continue
            e, s = self.piece(L, s, src)
            if e is None:
                return False
            if e[0] == 'arg':
                self.need(f, Need(a[1], j=('like', e[1]), why='strcat', site=site(f, i)))
            elif not e[0]:
                self.need(f, Need(a[1], n=e[1], why='strcat', site=site(f, i)))
                self.need(f, Need(a[1], n='empty', why='strcat', site=site(f, i)))
            else:
                return False
        return True

    def index(self, u, f, b, i, L):
        """an element of an array is written or read: inside the array"""
        p = i[4] if i[0] == 'store' else i[3]
        n = 0
        var = False
        while p[0] == 'v' and n < 8:
            d = f.defs.get(p[1])
            if not d or d[0] not in ('gep', 'cast'):
                break
            var = var or d[0] == 'gep' and bool(d[5])
            if d[0] == 'cast' and d[3] == 'inttoptr':
                break
            p = d[3] if d[0] == 'gep' else d[4]
            n += 1
        d = f.defs.get(p[1]) if p[0] == 'v' else None
        if not var and not (i[0] == 'store' and d and d[0] == 'phi' and L.step(d)):
            return
        dst = i[4] if i[0] == 'store' else i[3]
        ty = i[5] if i[0] == 'store' and len(i) > 5 else i[4] if i[0] == 'load' else 'i8'
        if not var and any(self.reads(L, c, L.of(dst)) for x in L.facts(b) for c in (x[1] if x[0] == 'ne' else x)[0]):
            # a place in a text whose character was just looked at
            return
        size = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4}.get(ty)
        bs = self.bases(L, dst)
        if len(bs) != 1 or size is None:
            return
        a = next(iter(bs))
        if a is None:
            return
        e = self.extent(L, a)
        if i[0] == 'load' and size == 1 and (e is None or e[0] == 'arg'):
            off = add(L.of(dst), atom(a), -1)
            if off[1] < 0 and off[0]:
                self.n['indexed'] += 1
                L.steps = 0
                if not self.nonneg(L, off, b) and not self.begun(L, b, off):
                    self.report(f, i, 'before', "the byte before an empty text is read")
        if e is None:
            d = self.loadof(L, dst, a)
            if i[0] != 'store' or not d or size != 1:
                return
            ad = L.addr(d[3])
            if ad not in L.stores and self.field(L, d, ad) is None:
                return
            if ad in L.stores and self.field(L, d, ad) is None and not all(
                    (self.extent(L, x) or ('arg',))[0] != 'arg' for st in L.stores[ad] for x in self.bases(L, st[3])):
                return
        elif e[0] == 'arg' and (i[0] == 'load' or f.params[e[1]][1].replace('const ', '') != 'char*'):
            return
        self.n['indexed'] += 1
        self.room(u, f, b, i, dst, const(size), 'index')

    def begun(self, L, b, off):
        """off is the length of a text less one, and the first character of that text was looked at"""
        if off[1] != -1 or len(off[0]) != 1:
            return False
        (l, k), = off[0].items()
        if k != 1 or l[0] != 'len':
            return False
        return any(c == l or self.reads(L, c, (dict(l[1]), l[2])) for x in L.facts(b) if x[0] == 'ne' and x[1][1] == 0 for c in x[1][0])

    def reads(self, L, a, at):
        """the atom is what stands at an address"""
        if a[0] == 'm':
            return (dict(a[1][0]), a[1][1]) == at
        d = L.f.defs.get(a[1]) if a[0] == 'v' else None
        return bool(d) and d[0] == 'load' and L.of(d[3]) == at

    def asks(self, f, size):
        """a size that is the caller's own"""
        return len(size[0]) == 1 and next(iter(size[0]))[0] == 'a' and size[1] == 0

    def terminated(self, u, f, b, i, L, dst):
        bs = self.bases(L, dst)
        for blk in f.order:
            if not cfg.dom(L.idom, b, blk):
                continue
            for j in f.blocks[blk]:
                if j[0] == 'store' and j[3] == ['i', 0] and self.bases(L, j[4]) == bs:
                    return
        self.report(f, i, 'strncpy', "strncpy can leave the text without an end")

    # ---- callers
    def callers(self, name, n):
        for u, f in self.fns:
            for b in f.order:
                for i in f.blocks[b]:
                    if i[0] == 'call' and i[3] == name and len(i[4]) > n.k:
                        self.n['call_sites'] += 1
                        what = "%s -> %s" % (name, n.why)
                        L = self.lin(u, f)
                        arg = i[4][n.k]
                        if arg[0] == 'n':
                            continue
                        if n.n == 'empty':
                            self.empty(u, f, b, i, L, arg, name)
                        elif isinstance(n.j, tuple):
                            self.like(u, f, b, i, L, arg, i[4][n.j[1]], name)
                        elif n.j is not None:
                            self.room(u, f, b, i, arg, L.of(i[4][n.j]), what)
                        else:
                            self.room(u, f, b, i, arg, const(n.n), what)

    def like(self, u, f, b, i, L, dst, src, name):
        """as much room at dst as where src lies"""
        for a in self.bases(L, dst):
            e = self.extent(L, a)
            for s in self.texts(u, f, L, src):
                if s is None or s[0] == '?':
                    continue
                x, s = self.piece(L, s, src)
                if e is None or x is None:
                    return self.report(f, i, name, "%s appends to a buffer of unknown size" % name)
                if e[0] == 'arg':
                    if x[0] == 'arg':
                        self.need(f, Need(e[1], j=('like', x[1]), why='strcat', site=site(f, i)))
                    else:
                        self.need(f, Need(e[1], n=x[1], why='strcat', site=site(f, i)))
                elif x[0] == 'arg' or x[0] or e[0] or e[1] < x[1]:
                    self.report(f, i, name, "%s appends to a buffer smaller than the text it takes apart" % name)

    def empty(self, u, f, b, i, L, dst, name):
        bs = self.bases(L, dst)
        for blk in f.order:
            if not cfg.dom(L.idom, blk, b):
                continue
            for j in f.blocks[blk]:
                if j is i:
                    break
                if j[0] == 'store' and j[3] == ['i', 0] and self.bases(L, j[4]) == bs and L.of(j[4])[1] == 0:
                    return
        self.report(f, i, name, "%s appends to a buffer that was never made empty" % name)

    def run(self):
        self.R = {id(u): Ranges(u) for u in self.ctx.units}
        self.fns = list(self.ctx.functions())
        self.todo = []
        for u, f in self.fns:
            self.function(u, f)
        done = set()
        while self.todo:
            name, n = self.todo.pop()
            if (name, n.key()) in done:
                continue
            done.add((name, n.key()))
            self.callers(name, n)
        self.n['requirements'] = len(done)


TEXTARG = ()


def run(ctx):
    p = Pass(ctx)
    p.run()
    fs, dropped = undecided('P10', p.finds.values())
    cov = {"explanation": "Every call that writes bytes or text into a buffer it is given: the largest length, from the guards "
                          "that dominate the call, must be at most the extent of the buffer minus where it starts. Buffers that "
                          "are a caller's argument become a requirement checked at every call of the function."}
    cov.update(p.n)
    broken = None
    if p.n['writers'] < 40:
        broken = "only %d writes found" % p.n['writers']
    cov['functions_not_decided'] = dropped
    return fs, cov, ASSUME + [
        "sizes passed by users of the library are the sizes of their buffers, and lengths do not wrap"], broken
