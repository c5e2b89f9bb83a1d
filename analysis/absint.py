"""Abstract interpretation of a function on an abstract start state, callees analysed in place.

Memory is a finite set of named objects; numbers are constants, intervals or symbols about which intervals (`con`) and order
relations (`rel`) are known.  A branch both sides of which are possible is followed both ways, states that agree are merged.

Values
  ('c', n)           a number                     ('fc', x)        a floating point number
  ('i', lo, hi)      a number in a range          ('s', name)      an unknown number or pointer (same name: same value)
  ('p', obj, off)    a pointer into an object     ('cmp', a, b)    sign of the comparison of a and b
  ('t', pred, a, b)  truth of a comparison        ('top',)         anything
  ('f', name)        a function                   ('g', name, off) is ('p', ('g', name), off)
"""
from paths import both, allows, NEG, SWAP, MASK

SKIP = ('dx_log', 'dx_context_error_set', 'dx_context_transfer_logwarn', 'dx_crash_and_burn', 'dx_internal_log', 'llvm.dbg',
        'llvm.lifetime', 'llvm.va_', 'llvm.stacksave', 'llvm.stackrestore', 'fprintf', 'printf', 'vfprintf', 'puts', 'fputs',
        'va_', 'disir_error_set', 'disir_error_clear', 'dx_error')
STRINGS = ('_string',)
ALL = frozenset(('lt', 'eq', 'gt'))
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
WANT = {'eq': ('eq',), 'ne': ('lt', 'gt'), 'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq')}
FCMP = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le', 'ogt': 'gt',
        'ugt': 'gt', 'oge': 'ge', 'uge': 'ge'}


LIMIT = 60000


class Cut(Exception):
    """the exploration grew too large"""


class St(object):
    __slots__ = ('mem', 'con', 'rel', 'ev', 'taint')

    def __init__(self):
        self.mem, self.con, self.rel, self.ev, self.taint = {}, {}, {}, (), None

    def copy(self):
        s = St()
        s.mem, s.con, s.rel, s.ev, s.taint = dict(self.mem), dict(self.con), dict(self.rel), self.ev, self.taint
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.con.items()), frozenset(self.rel.items()), self.ev, self.taint)

    def note(self, *e):
        self.ev = self.ev + (e,)


def syms(v, out):
    """names of the symbols a value is made of"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            out.add(v[1])
        elif v and v[0] in ('cmp', 't', 'p'):
            for x in v[1:]:
                syms(x, out)
        elif v and v[0] == 'at':
            out.add(v[1])


class Interp(object):
    def __init__(self, u, models=None, limit=None, depth=14, keep=()):
        self.u, self.models, self.limit, self.maxdepth = u, models or {}, limit or LIMIT, depth
        self.n = 0
        self.icall = None           # model of calls through pointers: (self, st, callee, args, where) -> [(st, ret)]
        self.onstore = None         # (self, st, obj, off, val, ins)
        self.visited = set()        # functions entered
        self.unknown = {}           # callee without a model -> times
        self.info = {}

    # --- values -------------------------------------------------------------------------------------------------------------
    def val(self, fr, op):
        k = op[0]
        if k == 'v':
            return fr['env'].get(op[1], ('top',))
        if k == 'i':
            return ('c', op[1])
        if k == 'n':
            return ('c', 0)
        if k == 'a':
            return fr['args'][op[1]] if op[1] < len(fr['args']) else ('top',)
        if k == 'g':
            if op[1] in self.u.fns and op[2] == 0:
                return ('f', op[1])
            return ('p', ('g', op[1]), op[2])
        if k == 'f':
            try:
                return ('fc', float(op[1]))
            except ValueError:
                pass
            if op[1].startswith('0x'):
                try:
                    import struct
                    return ('fc', struct.unpack('>d', bytes.fromhex(op[1][2:].zfill(16)))[0])
                except Exception:
                    pass
        return ('top',)

    def place(self, v):
        """object and offset a pointer value leads to, or None"""
        if v[0] == 'p':
            return v[1], v[2]
        if v[0] == 's':
            return ('at', v[1]), 0
        return None

    def load(self, st, v, what=None):
        k = self.place(v)
        if k is None:
            return ('top',)
        if k in st.mem:
            return st.mem[k]
        if k[0] and k[0][0] == 'g':
            c = self.const(k[0][1], k[1])
            if c is not None:
                return c
        if (k[0], 'zero') in st.mem:
            return ('c', 0)
        g = st.mem.get((k[0], 'gen'), 0)
        x = ('s', ('m', k[0], k[1], g) if g else ('m', k[0], k[1]))
        st.mem[k] = x
        return x

    def const(self, name, off):
        g = self.u.globals.get(name)
        if g and g[0] and g[2]:
            if g[2][0] == 's' and off < len(g[2][1]):
                return ('c', ord(g[2][1][off]))
            if g[2][0] == 's' and off >= len(g[2][1]):
                return ('c', 0)
        return None

    def store(self, st, p, v):
        k = self.place(p)
        if k is None:
            return
        st.mem[k] = v

    def havoc(self, st, obj):
        for k in list(st.mem):
            if k[0] == obj and k[1] != 'gen':
                del st.mem[k]
        st.mem[(obj, 'gen')] = st.mem.get((obj, 'gen'), 0) + 1

    # --- relations -----------------------------------------------------------------------------------------------------------
    def interval(self, st, v):
        if v[0] == 'c':
            return (v[1], v[1])
        if v[0] == 'i':
            return (v[1], v[2])
        if v[0] == 's':
            c = st.con.get(v[1])
            lo, hi = (c[0], c[1]) if c else (None, None)
            if isinstance(v[1], tuple) and len(v[1]) == 4 and v[1][:2] == ('bin', 'add') and v[1][3][0] == 'c':
                x, k = self.interval(st, v[1][2]), v[1][3][1]
                if x[0] is not None and (lo is None or x[0] + k > lo):
                    lo = x[0] + k
                if x[1] is not None and (hi is None or x[1] + k < hi):
                    hi = x[1] + k
            return (lo, hi)
        if v[0] == 'p' or v[0] == 'f':
            return (1, None)
        if v[0] == 't':
            return (0, 1)
        return (None, None)

    def related(self, st, a, b):
        """how a and b may stand to each other"""
        if a == b and a[0] != 'top':
            return frozenset(('eq',))
        if a[0] == 'fc' and b[0] == 'fc' or a[0] == 'c' and b[0] == 'c':
            return frozenset(('lt' if a[1] < b[1] else 'gt' if a[1] > b[1] else 'eq',))
        r = ALL
        x, y = self.interval(st, a), self.interval(st, b)
        if x[0] is not None and y[1] is not None:
            if x[0] > y[1]:
                r = r - {'lt', 'eq'}
            elif x[0] == y[1]:
                r = r - {'lt'}
        if x[1] is not None and y[0] is not None:
            if x[1] < y[0]:
                r = r - {'gt', 'eq'}
            elif x[1] == y[0]:
                r = r - {'gt'}
        if a[0] == 's' and b[0] == 'c' and not allows(st.con.get(a[1]), b[1]):
            r = r - {'eq'}
        if b[0] == 's' and a[0] == 'c' and not allows(st.con.get(b[1]), a[1]):
            r = r - {'eq'}
        if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            r = r & {'lt' if a[2] < b[2] else 'gt' if a[2] > b[2] else 'eq'}
        elif a[0] == 'p' and b[0] == 'p' or 'f' in (a[0], b[0]) and a != b:
            r = r - {'eq'}
        if a[0] == 's' and b[0] == 'p' or a[0] == 'p' and b[0] == 's':
            r = r - {'eq'}
        k, fl = ((a, b), False) if repr(a) <= repr(b) else ((b, a), True)
        if k in st.rel:
            q = st.rel[k]
            r = r & (frozenset(FLIP[x] for x in q) if fl else q)
        return r

    def relate(self, st, a, b, want):
        """take the relation of a and b to be one of want; False when impossible"""
        r = self.related(st, a, b) & frozenset(want)
        if not r:
            return False
        if a[0] == 's' and b[0] == 'c' or a[0] == 'c' and b[0] == 's':
            if a[0] == 'c':
                a, b = b, a
                r = frozenset(FLIP[x] for x in r)
            p = {frozenset(('lt',)): 'slt', frozenset(('eq',)): 'eq', frozenset(('gt',)): 'sgt', frozenset(('lt', 'eq')): 'sle',
                 frozenset(('gt', 'eq')): 'sge', frozenset(('lt', 'gt')): 'ne'}.get(r)
            if p:
                c = both(st.con.get(a[1]), p, b[1])
                if c is False:
                    return False
                st.con[a[1]] = c
            return True
        if 'top' in (a[0], b[0]) or a[0] in ('c', 'fc', 'p', 'f') and b[0] in ('c', 'fc', 'p', 'f'):
            return True
        if r != ALL:
            k, fl = ((a, b), False) if repr(a) <= repr(b) else ((b, a), True)
            st.rel[k] = frozenset(FLIP[x] for x in r) if fl else r
        return True

    def test(self, st, v):
        """truth of v when decided, else None"""
        if v[0] == 't':
            r = self.holds(st, v)
            return r
        r = self.related(st, self.flat(v), ('c', 0)) if v[0] != 'cmp' else self.sign(st, v, 'ne', 0)
        if v[0] == 'cmp':
            return r
        if r == frozenset(('eq',)):
            return False
        if 'eq' not in r:
            return True
        return None

    def flat(self, v):
        return v

    def sign(self, st, v, pred, n):
        """the comparison result v against n"""
        ok = self.signset(pred, n)
        r = self.related(st, v[1], v[2])
        if r <= ok:
            return True
        if not (r & ok):
            return False
        return None

    def signset(self, pred, n):
        """relations for which a comparison result (negative, 0, positive; magnitude one) satisfies pred n"""
        out = set()
        for name, x in (('lt', -1), ('eq', 0), ('gt', 1)):
            if {'eq': x == n, 'ne': x != n, 'lt': x < n, 'le': x <= n, 'gt': x > n, 'ge': x >= n}[pred]:
                out.add(name)
        return frozenset(out)

    def holds(self, st, t):
        _, pred, a, b = t
        if a[0] == 'cmp' and b[0] == 'c':
            return self.sign(st, a, pred, b[1])
        r = self.related(st, a, b)
        w = frozenset(WANT[pred])
        if r <= w:
            return True
        if not (r & w):
            return False
        return None

    def assume(self, st, v, truth):
        """take v to be true or false; False when impossible"""
        if v[0] == 't':
            _, pred, a, b = v
            if a[0] == 'cmp' and b[0] == 'c':
                ok = self.signset(pred, b[1])
                return self.relate(st, a[1], a[2], ok if truth else ALL - ok)
            w = frozenset(WANT[pred])
            return self.relate(st, a, b, w if truth else ALL - w)
        if v[0] == 'cmp':
            return self.relate(st, v[1], v[2], ('lt', 'gt') if truth else ('eq',))
        if v[0] == 'top':
            return True
        if v[0] == 'i' and not (v[1] <= 0 <= v[2]):
            return truth
        return self.relate(st, v, ('c', 0), ('lt', 'gt') if truth else ('eq',))

    # --- running ---------------------------------------------------------------------------------------------------------------
    def run(self, name, args, st):
        """[(state, value returned)]"""
        f = self.u.fns[name]
        return self.enter(f, args, st, (name,), 0)

    def enter(self, f, args, st, path, depth):
        self.visited.add(f.name)
        fr = {'f': f, 'args': args, 'path': path, 'depth': depth}
        outs = []
        okeys = set()
        work = [(0, None, st, {})]
        seen = {}
        while work:
            b, pred, st, env = work.pop()
            new = {}
            for ins in f.blocks[b]:
                if ins[0] != 'phi':
                    break
                v = ('top',)
                for o, p in ins[3]:
                    if p == pred:
                        fr['env'] = env
                        v = self.val(fr, o)
                new[ins[1]] = v
            live = f.livein[b]
            env = dict((k, v) for k, v in env.items() if k in live)
            env.update(new)
            key = (frozenset(env.items()), st.key())
            if key in seen.setdefault(b, set()):
                continue
            seen[b].add(key)
            self.n += 1
            if self.n > self.limit:
                raise Cut("more than %d states in %s" % (self.limit, f.dname))
            self.block(fr, b, 0, st.copy(), env, work, outs, okeys)
        return outs

    def fresh(self, fr, st, ins):
        """a symbol for the result of ins; an earlier one of the same name is forgotten"""
        name = ('r', fr['path'], ins[1])
        v = ('s', name)
        self.forget(st, name)
        return v

    def forget(self, st, name):
        st.con.pop(name, None)
        for k in [k for k in st.rel if self.uses(k, name)]:
            del st.rel[k]
        for k, x in list(st.mem.items()):
            if self.uses(x, name):
                st.mem[k] = ('top',)
            elif k[0] == ('at', name):
                del st.mem[k]

    def uses(self, v, name):
        out = set()
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple):
            syms(v[0], out)
            syms(v[1], out)
        else:
            syms(v, out)
        return name in out

    def block(self, fr, b, start, st, env, work, outs, okeys):
        f = fr['f']
        blk = f.blocks[b]
        fr['env'] = env
        i = start
        while i < len(blk):
            ins = blk[i]
            i += 1
            op = ins[0]
            fr['env'] = env
            if op == 'phi':
                continue
            if op == 'alloca':
                env[ins[1]] = ('p', ('al', fr['path'], ins[1]), 0)
                o = ('al', fr['path'], ins[1])
                for k in [k for k in st.mem if k[0] == o]:
                    del st.mem[k]
            elif op == 'load':
                v = self.load(st, self.val(fr, ins[3]), ins)
                env[ins[1]] = v
            elif op == 'store':
                p, v = self.val(fr, ins[4]), self.val(fr, ins[3])
                if self.onstore:
                    self.onstore(self, st, p, v, ins, fr)
                self.store(st, p, v)
            elif op == 'gep':
                env[ins[1]] = self.gep(fr, st, ins)
            elif op == 'cast':
                env[ins[1]] = self.cast(fr, st, ins)
            elif op == 'bin':
                env[ins[1]] = self.binop(fr, st, ins)
            elif op == 'icmp':
                env[ins[1]] = self.icmp(st, ins[3], self.val(fr, ins[4]), self.val(fr, ins[5]))
            elif op == 'select':
                c = self.val(fr, ins[3])
                t = self.test(st, c)
                a, z = self.val(fr, ins[4]), self.val(fr, ins[5])
                if t is not None:
                    env[ins[1]] = a if t else z
                elif a == z:
                    env[ins[1]] = a
                else:
                    for t in (True, False):
                        s2 = st.copy()
                        if self.assume(s2, c, t):
                            e2 = dict(env)
                            e2[ins[1]] = a if t else z
                            self.block(fr, b, i, s2, e2, work, outs, okeys)
                    return
            elif op == 'call':
                res = self.call(fr, st, ins)
                if len(res) == 1:
                    st, v = res[0]
                    if ins[1] >= 0:
                        env[ins[1]] = v
                    if ins[7] >= 0:             # the call ends its block; what it throws is not followed
                        work.append((ins[7], b, st, env))
                        return
                else:
                    for s2, v in res:
                        e2 = dict(env)
                        if ins[1] >= 0:
                            e2[ins[1]] = v
                        self.n += 1
                        if self.n > self.limit:
                            raise Cut("more than %d states" % self.limit)
                        if ins[7] >= 0:
                            work.append((ins[7], b, s2, e2))
                        else:
                            self.block(fr, b, i, s2, e2, work, outs, okeys)
                    return
            elif op == 'br':
                c = self.val(fr, ins[3])
                for t, dst in ((True, ins[4]), (False, ins[5])):
                    s2 = st.copy()
                    if self.assume(s2, c, t):
                        work.append((dst, b, s2, env))
                return
            elif op == 'jmp':
                work.append((ins[3], b, st, env))
                return
            elif op == 'switch':
                v = self.val(fr, ins[3])
                left = st.copy()
                ok = True
                for c, t in ins[5]:
                    s2 = st.copy()
                    if self.assume(s2, ('t', 'eq', v, ('c', c)), True):
                        work.append((t, b, s2, env))
                    if ok and not self.assume(left, ('t', 'eq', v, ('c', c)), False):
                        ok = False
                if ok:
                    work.append((ins[4], b, left, env))
                return
            elif op == 'ret':
                v = self.val(fr, ins[3]) if ins[3] else ('c', 0)
                self.leave(fr, st)
                k = (st.key(), v)
                if k not in okeys:
                    okeys.add(k)
                    outs.append((st, v))
                return
            elif op == 'extract':
                env[ins[1]] = ('top',)
            elif op == 'other' and ins[3] == 'fcmp':
                a, z = self.val(fr, ins[4][0]), self.val(fr, ins[4][1])
                p = FCMP.get(ins[5])
                if p:
                    env[ins[1]] = ('t', p, a, z)
                else:
                    env[ins[1]] = ('c', 1 if ins[5] in ('ord', 'true') else 0)
            elif op == 'other' and ins[3] == 'fneg':
                env[ins[1]] = self.fresh(fr, st, ins)
            elif op == 'unreachable':
                return
            elif ins[1] >= 0:
                env[ins[1]] = self.fresh(fr, st, ins)

    def leave(self, fr, st):
        """the frame's variables are gone, and what is known of numbers nothing refers to"""
        p = fr['path']
        for k in [k for k in st.mem if k[0][0] == 'al' and k[0][1] == p]:
            del st.mem[k]

    def gep(self, fr, st, ins):
        base = self.val(fr, ins[3])
        off = ins[4]
        for v, scale in ins[5]:
            x = self.val(fr, v)
            if x[0] == 'c':
                off += x[1] * scale
            else:
                if base[0] == 'p':
                    return ('p', ('in', base[1]), 0) if base[1][0] != 'in' else base
                return ('p', ('in', ('at', base[1])), 0) if base[0] == 's' else ('top',)
        if base[0] == 'p':
            return ('p', base[1], base[2] + off)
        if base[0] == 's':
            return base if off == 0 else ('p', ('at', base[1]), off)
        return base if off == 0 else ('top',)

    def cast(self, fr, st, ins):
        v = self.val(fr, ins[4])
        op = ins[3]
        if v[0] == 'c':
            if op in ('sitofp', 'uitofp'):
                return ('fc', float(v[1]))
            if op == 'trunc' and str(ins[6]).startswith('i') and str(ins[6])[1:].isdigit():
                n = int(ins[6][1:])
                x = v[1] & ((1 << n) - 1)
                if n > 1 and x >= 1 << (n - 1):
                    x -= 1 << n
                return ('c', x)
            if op == 'zext' and v[1] < 0 and str(ins[5])[1:].isdigit():
                return ('c', v[1] & ((1 << int(ins[5][1:])) - 1))
            return v
        if v[0] == 'fc' and op in ('fptosi', 'fptoui'):
            return ('c', int(v[1]))
        if op in ('fptosi', 'fptoui'):
            return ('s', ('int', v[1])) if v[0] == 's' else ('top',)
        if op in ('trunc',) and v[0] == 's' and ins[6] in ('i8', 'i16', 'i1'):
            return ('s', ('trunc', ins[6], v[1]))
        return v

    def binop(self, fr, st, ins):
        op, a, b = ins[3], self.val(fr, ins[4]), self.val(fr, ins[5])
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            w = int(ins[6][1:]) if len(ins) > 6 and str(ins[6])[1:].isdigit() else 64
            m = (1 << w) - 1
            r = None
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            elif op == 'shl':
                r = x << (y & 63)
            elif op == 'lshr':
                r = (x & m) >> (y & 63)
            elif op == 'ashr':
                r = x >> (y & 63)
            elif op in ('sdiv', 'srem') and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == 'sdiv' else x - q * y
            elif op in ('udiv', 'urem') and y:
                r = (x & m) // (y & m) if op == 'udiv' else (x & m) % (y & m)
            if r is not None:
                if w > 1:
                    r &= m
                    if r >= 1 << (w - 1):
                        r -= 1 << w
                else:
                    r &= 1
                return ('c', r)
        if a[0] == 'fc' and b[0] == 'fc':
            x, y = a[1], b[1]
            if op in ('fadd', 'fsub', 'fmul'):
                return ('fc', {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}[op])
        if op == 'xor' and b[0] == 'c' and b[1] in (1, -1) and a[0] == 't':
            return ('t', NEG.get(a[1]) or {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[a[1]], a[2], a[3])
        if op == 'xor' and b[0] == 'c' and b[1] in (1, -1) and a[0] == 'cmp':
            return ('t', 'eq', a, ('c', 0))
        if op in ('add', 'sub') and a[0] in ('i', 'c') and b[0] in ('i', 'c'):
            x, y = self.interval(st, a), self.interval(st, b)
            lo, hi = (x[0] + y[0], x[1] + y[1]) if op == 'add' else (x[0] - y[1], x[1] - y[0])
            return ('i', lo, hi) if hi - lo < 1 << 40 else ('top',)
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == ('c', 0):
            return a
        if op == 'and' and a[0] == 't' and b[0] == 'c':
            return a if b[1] & 1 else ('c', 0)
        if op == 'and' and b == ('c', 0) or op == 'mul' and b == ('c', 0):
            return ('c', 0)
        if op in ('and', 'or') and 't' in (a[0], b[0]) and ins[6] == 'i1':
            for x, y in ((a, b), (b, a)):
                t = self.test(st, x)
                if t is not None:
                    return (y if t else ('c', 0)) if op == 'and' else (('c', 1) if t else y)
        if op == 'sub' and a == b and a[0] == 's':
            return ('c', 0)
        if a[0] == 'top' or b[0] == 'top':
            return ('top',)
        if op == 'add' and a[0] == 'c' and b[0] == 's':
            a, b = b, a
        if op in ('add', 'sub') and a[0] == 's' and b[0] == 'c':
            # a number and its distance from a symbol
            d = b[1] if op == 'add' else -b[1]
            n = a[1]
            if isinstance(n, tuple) and len(n) == 4 and n[:2] == ('bin', 'add') and n[3][0] == 'c':
                a, d = n[2], d + n[3][1]
            if d == 0:
                return a
            op, b = 'add', ('c', d)
        name = ('bin', op, a, b)
        if self.deep(name) > 6:
            return ('top',)
        if op == 'and' and b[0] == 'c' and b[1] >= 0:
            st.con.setdefault(name, (0, b[1], frozenset()))
        return ('s', name)

    def deep(self, x):
        return 1 + max([self.deep(y) for y in x if isinstance(y, tuple)] or [0]) if isinstance(x, tuple) else 0

    def icmp(self, st, pred, a, b):
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if pred[0] == 'u':
                x, y = x & MASK, y & MASK
            return ('c', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p]))
        if a[0] == 'c':
            a, b = b, a
            p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
        if a[0] == 't' and b[0] == 'c' and p in ('eq', 'ne') and b[1] in (0, 1, -1):
            want = (b[1] != 0) == (p == 'eq')
            return a if want else self.binneg(a)
        if a[0] == 'cmp' and b[0] != 'c':
            return ('top',)
        if pred[0] == 'u' and a[0] == 's' and (self.interval(st, a)[0] is None or self.interval(st, a)[0] < 0):
            if b[0] == 'c' and p == 'gt' and b[1] == 0:
                p = 'ne'
            elif b[0] == 'c' and a[0] == 's' and self.unsigned(a):
                st.con[a[1]] = both(st.con.get(a[1]), 'sge', 0) or st.con.get(a[1])
        if a[0] == 'top' or b[0] == 'top':
            return ('top',)
        return ('t', p, a, b)

    def unsigned(self, v):
        return False

    def binneg(self, t):
        return ('t', {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[t[1]], t[2], t[3])

    # --- calls ---------------------------------------------------------------------------------------------------------------------
    def call(self, fr, st, ins):
        callee = ins[3]
        args = [self.val(fr, a) for a in ins[4]]
        if isinstance(callee, list):
            v = self.val(fr, callee)
            if v[0] == 'f':
                callee = v[1]
            elif self.icall:
                return self.icall(self, st, v, args, (fr, ins))
            else:
                st.taint = st.taint or "call through a pointer in %s" % fr['f'].dname
                return [(st, self.fresh(fr, st, ins) if ins[1] >= 0 else ('c', 0))]
        m = self.models.get(callee)
        if m:
            return m(self, st, args, (fr, ins))
        for s in SKIP:
            if callee.startswith(s):
                return [(st, ('top',))]
        if callee.startswith(('dc_', 'dx_', 'disir_')) and callee.endswith(STRINGS) \
                and (callee not in self.u.fns or self.u.fns[callee].ret.endswith('*')):
            return [(st, ('p', ('text',), 0))]
        r = self.external(fr, st, ins, callee, args)
        if r is not None:
            return r
        f = self.u.fns.get(callee)
        if f is not None:
            if fr['depth'] >= self.maxdepth or sum(1 for x in fr['path'] if x == callee) > 1:
                st.taint = st.taint or "the depth of calls at %s" % callee
                return [(st, self.fresh(fr, st, ins) if ins[1] >= 0 else ('c', 0))]
            # two calls from one place share a name for their variables: the earlier are gone
            path = fr['path'] + (ins[1] if ins[1] >= 0 else -(1 + [x is ins for x in self.flatlist(fr['f'])].index(True)), callee)
            return self.enter(f, args, st, path, fr['depth'] + 1)
        self.unknown[callee] = self.unknown.get(callee, 0) + 1
        for a in args:
            k = self.place(a) if a[0] == 'p' else None
            if k and k[0][0] in ('al',):
                self.havoc(st, k[0])
        return [(st, self.fresh(fr, st, ins) if ins[1] >= 0 else ('c', 0))]

    def flatlist(self, f):
        l = self.info.get(f.name)
        if l is None:
            l = self.info[f.name] = [x for b in f.order for x in f.blocks[b]]
        return l

    def external(self, fr, st, ins, n, args):
        if n in ('snprintf', 'vsnprintf', 'sprintf'):
            return [(st, ('i', 1, 64))]
        if n in ('strcmp',):
            return [(st, ('cmp', ('str', args[0]), ('str', args[1])))]
        if n in ('strncmp', 'strcasecmp', 'strncasecmp'):
            return [(st, self.fresh(fr, st, ins))]
        if n == 'free':
            return [(st, ('c', 0))]
        if n in ('malloc', 'calloc', 'strdup', 'strndup', 'realloc'):
            o = ('h', fr['path'], ins[1])
            for k in [k for k in st.mem if k[0] == o]:
                del st.mem[k]
            if n == 'calloc':
                st.mem[(o, 'zero')] = 1
            s2 = st.copy()
            return [(st, ('p', o, 0)), (s2, ('c', 0))]
        if n.startswith('llvm.memset') or n == 'memset':
            k = self.place(args[0])
            if k:
                for c in [c for c in st.mem if c[0] == k[0] and isinstance(c[1], int)]:
                    st.mem[c] = ('c', 0) if args[1] == ('c', 0) else ('top',)
                if args[1] == ('c', 0) and k[1] == 0 and st.mem.get((k[0], 'size'), ()) == args[2]:
                    st.mem[(k[0], 'zero')] = 1
            return [(st, args[0])]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            d, s = self.place(args[0]), self.place(args[1])
            if d and s and args[2][0] == 'c':
                new = [(c[1] - s[1], v) for c, v in st.mem.items()
                       if c[0] == s[0] and isinstance(c[1], int) and s[1] <= c[1] < s[1] + args[2][1]]
                for c in [c for c in st.mem if c[0] == d[0] and isinstance(c[1], int) and d[1] <= c[1] < d[1] + args[2][1]]:
                    del st.mem[c]
                for o, v in new:
                    st.mem[(d[0], d[1] + o)] = v
            return [(st, args[0])]
        if n in ('abort', 'exit', '_exit', '__assert_fail'):
            return []
        return None
