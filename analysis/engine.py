"""Path-sensitive forward dataflow over the resolved program (LLVM IR, helpers
inlined).  Abstract states are kept apart per path and merged when equal; calls are
replaced by outcome summaries of the callee's own body (computed bottom-up) or by a
contract for the few primitives that implement reference counting.

Abstract values
    int                    constant (NULL is 0)
    'U'                    indeterminate (never written)
    (base, off)            symbolic base plus constant
    ('C', pred, a, b)      truth value of a comparison

Symbolic bases are named by origin, so equal origins are equal values:
    ('A',id) local object   ('P',k) parameter   ('G',name) global
    ('R',id) call result    ('O',id,k,off) value a call wrote through argument k
    ('I',base,off) what memory at base+off held on entry   ('L',id) later load
    ('X',id) any other value    ('E',op,a,b) structural expression
"""
import collections
import sys

INF = 1 << 70
U = 'U'
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'f': 'f'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'f': 'f'}
EMPTY = frozenset()
TOPF = (-INF, INF, EMPTY, None)


def is_sym(v):
    return type(v) is tuple and len(v) == 2


def is_cmp(v):
    return type(v) is tuple and len(v) == 4


def mentions(b, old):
    """Does base b mention base old?"""
    if b == old:
        return True
    if type(b) is tuple:
        for x in b:
            if type(x) is tuple and mentions(x, old):
                return True
    return False


def subst(b, old, new):
    if b == old:
        return new
    if type(b) is tuple:
        return tuple(subst(x, old, new) if type(x) is tuple else x for x in b)
    return b


def root_of(b):
    """Outermost non-memory base a base was derived from."""
    while b[0] == 'I':
        b = b[1]
    return b


class State(object):
    __slots__ = ('regs', 'mem', 'facts', 'rel', 'own', 'wr', 'mn', 'pend', 'esc', 'dead', 'up', 'at', 'tag')

    def __init__(self):
        self.regs = {}
        self.mem = {}
        self.facts = {}
        self.rel = frozenset()
        self.own = {}          # base -> (kind, count, site)
        self.wr = frozenset()  # locations written by this function
        self.mn = frozenset()  # bases that may be NULL (from a source that can yield NULL)
        self.pend = frozenset()   # failed operations not yet reported: (callee, site)
        self.esc = frozenset()    # bases handed to somebody else
        self.dead = frozenset()   # released heap objects
        self.tag = frozenset()    # client facts
        self.up = None
        self.at = None

    def copy(self):
        s = State()
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = self.rel
        s.own = dict(self.own)
        s.wr = self.wr
        s.mn = self.mn
        s.pend = self.pend
        s.esc = self.esc
        s.dead = self.dead
        s.tag = self.tag
        s.up = self.up
        s.at = self.at
        return s

    def key(self):
        return (frozenset(self.regs.items()), frozenset(self.mem.items()), frozenset(self.facts.items()),
                self.rel, frozenset(self.own.items()), self.wr, self.mn, self.pend, self.esc, self.dead, self.tag)


class Fn(object):
    """Preprocessed function."""

    def __init__(self, prog, name, raw):
        self.prog = prog
        self.name = name
        self.dname = raw['dname']
        self.file = prog.files[raw['file']]
        self.line = raw['line']
        self.ret = raw['ret']
        self.params = raw['params']      # [name, ditype, irtype, nonnull]
        self.blocks = raw['blocks']
        self.local = raw['local']
        self.inl = raw['inl']
        self.addr = raw['addr']
        self.vararg = raw['vararg']
        self.vars = {int(k): v for k, v in raw['vars'].items()}
        self.prep()

    def prep(self):
        nb = len(self.blocks)
        self.succ = [[] for _ in range(nb)]
        self.pred = [[] for _ in range(nb)]
        self.allocas = {}
        use = [set() for _ in range(nb)]
        define = [set() for _ in range(nb)]
        phiuse = [set() for _ in range(nb)]   # by predecessor
        self.callees = set()
        self.reachable_only_unwind = set()
        self.defs = {}
        self.grefs = set()
        for bi, blk in enumerate(self.blocks):
            for ins in blk:
                self.defs[ins[1]] = ins
                op = ins[0]
                ops = []
                if op == 'alloca':
                    self.allocas[ins[1]] = (ins[3], ins[4], self.vars.get(ins[1], ins[5]))
                elif op == 'load':
                    ops = [ins[3]]
                elif op == 'store':
                    ops = [ins[3], ins[4]]
                elif op == 'gep':
                    ops = [ins[3]] + [v for v, _ in ins[5]]
                elif op == 'cast':
                    ops = [ins[4]]
                elif op == 'bin' or op == 'icmp':
                    ops = [ins[4], ins[5]]
                elif op == 'phi':
                    for v, p in ins[3]:
                        if v[0] == 'v':
                            phiuse[p].add(v[1])
                elif op == 'select':
                    ops = [ins[3], ins[4], ins[5]]
                elif op == 'call':
                    ops = list(ins[4])
                    if isinstance(ins[3], list):
                        ops.append(ins[3])
                    else:
                        self.callees.add(ins[3])
                    if ins[7] >= 0:
                        self.succ[bi].append(ins[7])
                elif op == 'br':
                    ops = [ins[3]]
                    self.succ[bi] += [ins[4], ins[5]]
                elif op == 'jmp':
                    self.succ[bi].append(ins[3])
                elif op == 'switch':
                    ops = [ins[3]]
                    self.succ[bi] += [ins[4]] + [c for _, c in ins[5]]
                elif op == 'ret':
                    if ins[3]:
                        ops = [ins[3]]
                elif op == 'extract':
                    ops = [ins[3]]
                elif op == 'other':
                    ops = ins[4]
                for o in ops:
                    if o and o[0] == 'g':
                        self.grefs.add(o[1])
                    if o and o[0] == 'v' and o[1] not in define[bi]:
                        use[bi].add(o[1])
                define[bi].add(ins[1])
        for b in range(nb):
            self.succ[b] = list(dict.fromkeys(self.succ[b]))
            for s in self.succ[b]:
                self.pred[s].append(b)
        # liveness
        livein = [set(use[b]) for b in range(nb)]
        changed = True
        liveout = [set(phiuse[b]) for b in range(nb)]
        while changed:
            changed = False
            for b in range(nb - 1, -1, -1):
                lo = set(phiuse[b])
                for s in self.succ[b]:
                    lo |= livein[s]
                li = use[b] | (lo - define[b])
                # phi results are defined at block entry
                if li != livein[b]:
                    livein[b] = li
                    changed = True
                liveout[b] = lo
        self.livein = livein
        self.liveout = liveout
        # blocks in loops, back edges
        self.order = self.rpo()
        pos = {b: i for i, b in enumerate(self.order)}
        self.pos = pos
        self.inloop = self.loops()
        # induction phis
        self.indphi = set()
        for b in self.order:
            for ins in self.blocks[b]:
                if ins[0] != 'phi':
                    break
                for v, p in ins[3]:
                    if p in pos and pos[p] >= pos[b] and v[0] == 'v' and self.derives(v[1], ins[1], set(), 0):
                        self.indphi.add(ins[1])
        # alloca liveness: allocas used in blocks reachable from b
        uses_alloca = [set() for _ in range(nb)]
        for b in range(nb):
            for v in (use[b] | phiuse[b]):
                if v in self.allocas:
                    uses_alloca[b].add(v)
        la = [set(x) for x in uses_alloca]
        changed = True
        while changed:
            changed = False
            for b in range(nb):
                n = len(la[b])
                for s in self.succ[b]:
                    la[b] |= la[s]
                if len(la[b]) != n:
                    changed = True
        self.liveallocas = la

    def isptr(self, k):
        d = self.defs.get(k)
        if not d:
            return False
        if d[0] == 'load':
            return d[4] == 'ptr'
        if d[0] == 'phi':
            return d[4] == 'ptr'
        if d[0] == 'call':
            return d[5] == 'ptr'
        return d[0] in ('gep', 'alloca')

    def derives(self, v, phi, seen, step):
        """v is phi plus/minus something, through adds / geps / casts / phis (at least one step)."""
        if v == phi:
            return step > 0
        if v in seen:
            return False
        seen.add(v)
        d = self.defs.get(v)
        if not d:
            return False
        if d[0] == 'bin' and d[3] in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'lshr'):
            return any(o[0] == 'v' and self.derives(o[1], phi, seen, 1) for o in (d[4], d[5]))
        if d[0] == 'gep':
            return d[3][0] == 'v' and self.derives(d[3][1], phi, seen, 1)
        if d[0] == 'cast':
            return d[4][0] == 'v' and self.derives(d[4][1], phi, seen, step)
        if d[0] == 'phi':
            return any(o[0] == 'v' and self.derives(o[1], phi, seen, step) for o, _ in d[3])
        return False

    def rpo(self):
        seen, out = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def loops(self):
        # Tarjan SCC
        index, low, onst, st, res = {}, {}, set(), [], set()
        cnt = [0]
        for root in self.order:
            if root in index:
                continue
            work = [(root, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    index[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    onst.add(v)
                rec = False
                for j in range(i, len(self.succ[v])):
                    w = self.succ[v][j]
                    if w not in index:
                        work.append((v, j + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if rec:
                    continue
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in self.succ[v]:
                        res.update(comp)
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[v])
        return res

    def where(self, ins):
        l = ins[2]
        if not l:
            return "%s:%d" % (self.file, self.line)
        return "%s:%d" % (self.prog.files[l[0]], l[1])


class Prog(object):
    def __init__(self, raw):
        self.files = raw['files']
        self.structs = raw['structs']
        self.enums = raw['enums']
        self.globals = raw['globals']
        self.raw = raw['raw']
        self.field = {}
        for s, ms in self.structs.items():
            for off, n, size, ty in ms:
                self.field.setdefault((s, off), n)
        self.fns = {n: Fn(self, n, f) for n, f in raw['fns'].items()}

    def fieldname(self, key):
        return self.field.get(key, "+%d" % key[1])
