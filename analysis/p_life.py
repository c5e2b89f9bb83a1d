"""How long objects live (P23), what a collection hands out (P21), where elements are kept (P17): the functions that hold these
guarantees are interpreted (absint.py) on every small abstract start state, the state they end in is compared with the one the
guarantee names."""
import itertools

from absint import Interp, Cut
from passes import ASSUME
from p_guards import Names, World, type_check
from report import Finding

KINDS = ('CONFIG', 'MOLD', 'SECTION', 'KEYVAL', 'DOCUMENTATION', 'DEFAULT', 'RESTRICTION')
BODY = {'CONFIG': 'disir_config', 'MOLD': 'disir_mold', 'SECTION': 'disir_section', 'KEYVAL': 'disir_keyval',
        'DOCUMENTATION': 'disir_documentation', 'DEFAULT': 'disir_default', 'RESTRICTION': 'disir_restriction'}
PARENTS = {'SECTION': ('CONFIG', 'MOLD', 'SECTION'), 'KEYVAL': ('CONFIG', 'MOLD', 'SECTION'), 'DEFAULT': ('KEYVAL',),
           'DOCUMENTATION': ('MOLD', 'SECTION', 'KEYVAL', 'RESTRICTION'), 'RESTRICTION': ('KEYVAL', 'SECTION')}
ELEMENTS = {'CONFIG': 'cf_elements', 'MOLD': 'mo_elements', 'SECTION': 'se_elements'}
NAME = {'SECTION': 'se_name', 'KEYVAL': 'kv_name'}
CONSTRUCTING, FINALIZED, INVALID, DESTROYED, INPARENT = 1, 2, 8, 1 << 10, 1 << 15
ME, UP, ROOT, OUT = ('ctx', 'me'), ('ctx', 'up'), ('ctx', 'root'), ('out',)


class Life(Interp):
    """notes what touches an object that was freed"""

    def load(self, st, v, what=None):
        k = self.place(v)
        if k is not None and (k[0], 'freed') in st.mem:
            st.note('dead', 'read')
            return ('top',)
        return Interp.load(self, st, v, what)

    def store(self, st, p, v):
        k = self.place(p)
        if k is not None and (k[0], 'freed') in st.mem:
            st.note('dead', 'written')
            return
        Interp.store(self, st, p, v)


def free(it, st, args, at):
    if args[0] == ('c', 0):
        return [(st, ('c', 0))]
    out = []
    if args[0][0] == 's':
        s2 = st.copy()
        if it.relate(s2, args[0], ('c', 0), ('eq',)):
            out.append((s2, ('c', 0)))
        if not it.relate(st, args[0], ('c', 0), ('lt', 'gt')):
            return out
    k = it.place(args[0])
    if k is None:
        st.note('free', 'unknown')
    elif (k[0], 'freed') in st.mem:
        st.note('dead', 'freed again')
    else:
        if k[1] != 0 or k[0][0] in ('al', 'g'):
            st.note('dead', 'freed though it was not allocated')
        st.mem[(k[0], 'freed')] = 1
        st.note('free', k[0])
    return out + [(st, ('c', 0))]


def allocate(it, st, size, at, zero):
    fr, ins = at
    n = sum(1 for e in st.ev if e[0] == 'alloc')
    o = ('heap', n)
    s2 = st.copy()
    s2.note('nomem')
    st.note('alloc', o)
    st.mem[(o, 'size')] = size
    if zero:
        st.mem[(o, 'zero')] = 1
    return [(st, ('p', o, 0)), (s2, ('c', 0))]


def times(a, b):
    if a[0] == 'c' and b[0] == 'c':
        return ('c', a[1] * b[1])
    return b if a == ('c', 1) else a if b == ('c', 1) else ('s', ('bin', 'mul', a, b))


def calloc(it, st, args, at):
    return allocate(it, st, times(args[0], args[1]), at, True)


def malloc(it, st, args, at):
    return allocate(it, st, args[0], at, False)


def realloc(it, st, args, at):
    out = []
    old = it.place(args[0])
    for s, v in allocate(it, st, args[1], at, False):
        if v[0] == 'p' and old:
            for c, x in list(s.mem.items()):
                if c[0] == old[0] and isinstance(c[1], int):
                    s.mem[(v[1], c[1])] = x
            s.mem[(old[0], 'freed')] = 1
            s.note('free', old[0])
        out.append((s, v))
    return out


def strdup(it, st, args, at):
    out = allocate(it, st, ('s', ('length', args[0])), at, False)
    out[0][0].mem[(out[0][1][1], 'copy')] = it.place(args[0])
    return out


HEAP = {'free': free, 'calloc': calloc, 'malloc': malloc, 'realloc': realloc, 'strdup': strdup,
        'dx_context_type_check_log_error': type_check}


def delta(v, base):
    """v - base when it is known"""
    if v == base:
        return 0
    if v[0] == 'c' and base[0] == 'c':
        return v[1] - base[1]
    if v[0] == 's' and isinstance(v[1], tuple) and v[1][:2] == ('bin', 'add') and v[1][2] == base and v[1][3][0] == 'c':
        return v[1][3][1]
    return None


class Case(object):
    """contexts with counted references, and what became of them"""

    def __init__(self, N):
        self.N, self.w, self.count = N, World(N), {}
        self.st = self.w.st

    def context(self, obj, kind, state, least, parent=None, root=None, error=False):
        """least: 1 for exactly one reference, n > 1 for n or more, -n for exactly n"""
        N = self.N
        self.w.context(obj, kind, state, ('body',) + obj, parent, root)
        c = ('c', 1)
        if least < 0:
            c = ('c', -least)
        elif least != 1:
            c = ('s', ('count',) + obj)
            self.st.con[c[1]] = (least, None, frozenset())
        self.count[obj] = c
        self.w.put(obj, 'disir_context', 'cx_refcount', c)
        self.w.put(obj, 'disir_context', 'cx_error_message', ('p', ('error', obj), 0) if error else ('c', 0))
        self.w.put(obj, 'disir_context', 'cx_error_message_size', ('c', 8 if error else 0))
        return ('p', obj, 0)

    def change(self, st, obj):
        """(change of the count, freed how often)"""
        n = sum(1 for e in st.ev if e == ('free', obj))
        return delta(st.mem[(obj, self.N.off('disir_context', 'cx_refcount'))], self.count[obj]), n

    def lost(self, st, obj, by):
        """the references of obj went down by that many: None, or what happened instead"""
        d, n = self.change(st, obj)
        last = self.count[obj] == ('c', by) and by > 0
        if d is None:
            return "leaves a count that is not known"
        if d != -by:
            return "changes the count by %+d, not %+d" % (d, -by)
        if last and n != 1:
            return "keeps an object nobody holds" if n == 0 else "frees an object twice"
        if not last and n:
            return "frees an object somebody holds"
        if last and (('error', obj), 'there') in self.st.mem and sum(1 for e in st.ev if e == ('free', ('error', obj))) != 1:
            return "frees an object and not its error message"
        return None

    def state(self, st, obj):
        v = st.mem.get((obj, self.N.off('disir_context', 'cx_state')))
        return v[1] if v and v[0] == 'c' else None


class Check(object):
    def __init__(self, u, N, finds, cov, models=None):
        self.u, self.N, self.finds, self.cov = u, N, finds, cov
        self.models = dict(HEAP, **(models or {}))
        self.seen, self.paths, self.broken = {}, 0, None
        self.limit = 60000

    def go(self, fn, args, st, judge, icall=None, more=None):
        """run fn on the start state, ask judge(state, returned) about every end"""
        f = self.u.fns.get(fn)
        if f is None:
            self.broken = self.broken or "no function " + fn
            return
        it = Life(self.u, dict(self.models, **(more or {})), limit=self.limit)
        it.N, it.icall = self.N, icall
        self.it = it
        try:
            outs = it.run(fn, args, st)
        except Cut as e:
            self.broken = self.broken or "%s: %s" % (fn, e)
            return
        self.cov['functions_inlined'] |= it.visited
        self.cov['rules'] += 1
        if not outs:
            self.note(fn, "does not come back")
        for s, r in outs:
            self.paths += 1
            if s.taint:
                if (fn, s.taint) not in self.cov['undecided']:
                    self.cov['undecided'].append((fn, s.taint))
                continue
            why = judge(s, r)
            if why is None:
                d = [e[1] for e in s.ev if e[0] == 'dead']
                if d:
                    why = "something freed is %s" % d[0]
            if why:
                self.note(fn, why)

    def note(self, fn, why):
        k = self.seen.setdefault(fn, set())
        f = self.u.fns[fn]
        if why not in k and len(k) < 4:
            k.add(why)
            self.finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))

    def ok(self, r):
        return self.is_(r, 'OK')

    def is_(self, r, name):
        return r == ('c', self.N.S(name))


def both(*whys):
    for w in whys:
        if w:
            return w
    return None


def others(c, st, start, obj, fields=()):
    """is a context as it was, apart from these fields"""
    N = c.N
    skip = set(N.off('disir_context', x) for x in fields)
    for k, v in start.items():
        if k[0] == obj and isinstance(k[1], int) and k[1] not in skip and st.mem.get(k) != v:
            return "changes something else of the object"
    return None


# --- counts (P23) ---------------------------------------------------------------------------------------------------------------

def counts(u, N, tier, finds, cov):
    ch = Check(u, N, finds, cov)
    null = ('c', 0)
    ptr = (OUT, 0)

    def start(kind='KEYVAL', state=FINALIZED, least=2, error=False):
        c = Case(N)
        p = c.context(ME, kind, state, least, error=error)
        if error:
            c.st.mem[(('error', ME), 'there')] = 1
        c.st.mem[ptr] = p
        return c, p

    for kind in KINDS:
        for state in (CONSTRUCTING, FINALIZED, FINALIZED | INPARENT, DESTROYED | FINALIZED):
            for least in (1, 2):
                # one reference more
                c, p = start(kind, state, least)
                s0 = dict(c.st.mem)

                def judge(st, r):
                    return both(c.lost(st, ME, -1), others(c, st, s0, ME, ('cx_refcount',)))
                ch.go('dx_context_incref', [p], c.st, judge)
                # one less
                for error in (False, True):
                    c, p = start(kind, state, least, error)

                    def judge(st, r):
                        w = c.lost(st, ME, 1)
                        if w is None and st.mem.get(ptr) != (null if least == 1 else p):
                            w = "leaves a pointer to what was freed" if least == 1 else "takes the pointer of an object that lives"
                        return w
                    ch.go('dx_context_decref', [('p', OUT, 0)], c.st, judge)
        # a new context has one reference: its creator's
        c = Case(N)

        def judge(st, r):
            if r == null:
                return None if any(e[0] == 'nomem' for e in st.ev) else "creates nothing though there is memory"
            if r[0] != 'p':
                return "answers something else than the new object"
            get = lambda x: st.mem.get((r[1], N.off('disir_context', x)))
            if get('cx_refcount') != ('c', 1):
                return "creates an object whose count is not one"
            if get('cx_type') != ('c', N.C(kind)):
                return "creates an object of another kind"
            if get('cx_state') != ('c', CONSTRUCTING):
                return "creates an object that is not under construction"
            return None
        ch.go('dx_context_create', [('c', N.C(kind))], c.st, judge)
        # a parent is held by its child
        for up, least in itertools.product(PARENTS.get(kind, ()), (1, 2)):
            c, p = start(kind, CONSTRUCTING, least)
            q = c.context(UP, up, CONSTRUCTING, least)

            def judge(st, r):
                if st.mem.get((ME, N.off('disir_context', 'cx_parent_context'))) != q:
                    return "does not make the parent the parent"
                return both(c.lost(st, UP, -1), c.lost(st, ME, 0))
            ch.go('dx_context_attach', [q, p], c.st, judge)
    # what hands out the context of an object
    for fn, kind, field in (('dc_config_getcontext', 'CONFIG', 'cf_context'), ('dc_mold_getcontext', 'MOLD', 'mo_context')):
        c, p = start(kind)
        c.w.put(('body',) + ME, BODY[kind], field, p)

        def judge(st, r):
            return "does not answer the context" if r != p else c.lost(st, ME, -1)
        ch.go(fn, [('p', ('body',) + ME, 0)], c.st, judge)
    destroys(ch, N)
    begins(ch, N)
    finalizes(ch, N)
    bodies(ch, N)
    cov['paths'] += ch.paths
    return ch.broken or (None if ch.paths > 500 else "only %d paths" % ch.paths)


def payload(kind):
    def m(it, st, args, at):
        k = it.place(args[0])
        st.note('payload', kind, k)
        it.store(st, args[0], ('c', 0))
        return [(st, ('c', it.N.S('OK')))]
    return m


def unstore(it, st, args, at):
    """dx_element_storage_remove: the reference of the storage is gone"""
    st.note('unstore', args[0], args[1], args[2])
    k = it.place(args[2])
    o = it.N.off('disir_context', 'cx_refcount')
    v = it.load(st, ('p', k[0], o))
    c = ('c', v[1] - 1) if v[0] == 'c' else ('s', ('bin', 'add', v, ('c', -1))) if v[1][:2] != ('bin', 'add') else \
        ('s', ('bin', 'add', v[1][2], ('c', v[1][3][1] - 1)))
    st.mem[(k[0], o)] = c
    return [(st, ('c', it.N.S('OK')))]


DESTROY = dict((('dx_%s_destroy' % k.lower()), payload(k)) for k in KINDS)


def destroys(ch, N):
    """dc_destroy and dc_putcontext on every kind of context, parent and state"""
    ptr = (OUT, 0)
    null = ('c', 0)
    models = dict(DESTROY, dx_element_storage_remove=unstore)
    for kind in KINDS:
        for up in PARENTS.get(kind, (None, 'self')):
            states = [CONSTRUCTING, FINALIZED, FINALIZED | INVALID, FINALIZED | DESTROYED, DESTROYED | CONSTRUCTING]
            if kind in ('SECTION', 'KEYVAL', 'DEFAULT', 'RESTRICTION'):
                states += [FINALIZED | INPARENT, FINALIZED | INPARENT | INVALID, FINALIZED | INPARENT | DESTROYED]
            for state, least, upleast, upstate in itertools.product(states, (1, 2, 3), (1, 2), (FINALIZED, FINALIZED | DESTROYED)):
                stored = state & INPARENT and kind in NAME and not state & DESTROYED
                if stored and least < 3 or not stored and least > 2 or up in (None, 'self') and (upleast > 1 or upstate & DESTROYED):
                    continue
                if stored and upstate & DESTROYED:
                    continue
                for fn in ('dc_destroy', 'dc_putcontext'):
                    c = Case(N)
                    parent = None if up is None else ME if up == 'self' else UP
                    p = c.context(ME, kind, state, least, parent, ROOT)
                    c.context(ROOT, 'MOLD', FINALIZED, 2)
                    if parent == UP:
                        c.context(UP, up, upstate, upleast, ROOT, ROOT)
                        if up in ELEMENTS:
                            c.w.put(('body',) + UP, BODY[up], ELEMENTS[up], ('p', ('storage',), 0))
                    if kind in NAME:
                        c.st.mem[(('body',) + ME, N.off(BODY[kind], NAME[kind]) + N.off('disir_value', 'dv_string'))] = ('p', ('name',), 0)
                    c.st.mem[ptr] = p
                    only = state & DESTROYED or fn == 'dc_putcontext' and least > 1

                    def judge(st, r):
                        pay = [e for e in st.ev if e[0] == 'payload']
                        uns = [e for e in st.ev if e[0] == 'unstore']
                        w = None
                        if only:
                            if pay or uns:
                                return "destroys an object that %s" % ("is destroyed" if state & DESTROYED else "others hold")
                            w = c.lost(st, ME, 1) or (c.lost(st, UP, 0) if parent == UP else None)
                            if not w and c.count[ME] != ('c', 1) and c.state(st, ME) != state:
                                w = "changes the state of an object others hold"
                        else:
                            if [e[1] for e in pay] != [kind] or pay[0][2] != (ME, N.off('disir_context', 'cx_keyval')):
                                return "does not destroy what the context stands for, once"
                            if stored:
                                if [e[1:] for e in uns] != [(('p', ('storage',), 0), ('p', ('name',), 0), p)]:
                                    return "leaves the element in the storage of its parent"
                                if st.ev.index(uns[0]) > st.ev.index(pay[0]):
                                    return "looks up the name of the element when it is gone"
                            elif uns:
                                return "removes from the storage what is not in it"
                            w = c.lost(st, ME, 2 if stored else 1)
                            if not w and parent == UP:
                                w = c.lost(st, UP, 1)
                                w = w and w + " (of the parent)"
                            if not w and c.count[ME] != ('c', 1) and c.state(st, ME) != state | DESTROYED:
                                w = "does not mark an object that others hold as destroyed, and nothing else"
                        w = w or (c.lost(st, ROOT, 0) and "changes the count of the root")
                        if not w and st.mem.get(ptr) != null:
                            w = "leaves the caller a pointer to what it gave away"
                        if not w and r != ('c', N.S('OK')):
                            w = "does not answer OK"
                        return w
                    ch.go(fn, [('p', OUT, 0)], c.st, judge, more=models)


    # the references an element has in a tree: its creator's, which dc_finalize took for the parent, the storage's, and the holder's
    for kind in sorted(PARENTS):
        c = Case(N)
        p = c.context(ME, kind, FINALIZED | (0 if kind == 'DOCUMENTATION' else INPARENT), -3 if kind in NAME else -2, UP, ROOT)
        c.context(ROOT, 'MOLD', FINALIZED, 2)
        up = PARENTS[kind][-1]
        c.context(UP, up, FINALIZED, 3, ROOT, ROOT)
        if up in ELEMENTS:
            c.w.put(('body',) + UP, BODY[up], ELEMENTS[up], ('p', ('storage',), 0))
        if kind in NAME:
            c.st.mem[(('body',) + ME, N.off(BODY[kind], NAME[kind]) + N.off('disir_value', 'dv_string'))] = ('p', ('name',), 0)
        c.st.mem[ptr] = p

        def judge(st, r):
            return None if ('free', ME) in st.ev else "keeps the reference a finalized element's parent took over from its creator"
        ch.go('dc_destroy', [('p', OUT, 0)], c.st, judge, more=models)


def begins(ch, N):
    """dc_begin: the child and its parent, whatever the beginning of the kind answers"""
    ok, other = ('c', N.S('OK')), ('s', 'status')
    new = ('ctx', 'new')

    def begin(kind):
        def m(it, st, args, at):
            s2 = st.copy()
            st.note('begin', kind, args[0], args[1])
            s2.note('begin', kind, args[0], args[1])
            it.store(st, args[1], ('p', new, 0))
            s2.con['status'] = (0, None, frozenset((N.S('OK'),)))
            return [(st, ok), (s2, other)]
        return m
    models = dict(('dx_%s_begin' % k.lower(), begin(k)) for k in PARENTS)
    for kind in KINDS:
        for up in ('CONFIG', 'MOLD', 'SECTION', 'KEYVAL', 'RESTRICTION'):
            for state in (CONSTRUCTING, FINALIZED, FINALIZED | DESTROYED):
                c = Case(N)
                q = c.context(UP, up, state, 2, None, ROOT)
                c.st.mem[(OUT, 0)] = ('c', 0)
                c.st.mem[(new, N.off('disir_context', 'cx_root_context'))] = ('s', 'noroot')

                def judge(st, r):
                    b = [e for e in st.ev if e[0] == 'begin']
                    root = st.mem.get((new, N.off('disir_context', 'cx_root_context')))
                    if state & DESTROYED or kind not in PARENTS:
                        return "begins a child of a destroyed context" if b and state & DESTROYED else \
                            "begins a top level context as a child" if b else "answers OK though nothing is begun" if r == ok else None
                    if [e[1:] for e in b] != [(kind, q, ('p', OUT, 0))]:
                        return "does not begin a child of the kind asked for, once"
                    if r == ok:
                        return None if root == ('p', ROOT, 0) else "begins a child that does not have the root of its parent"
                    return None if r == other else "does not answer what the beginning answered"
                ch.go('dc_begin', [q, ('c', N.C(kind)), ('p', OUT, 0)], c.st, judge, more=models)


def finalizes(ch, N):
    """dc_finalize, dc_finalize_keep_reference: the state of the context and whose it is"""
    ok, invalid, elements = (('c', N.S(x)) for x in ('OK', 'INVALID_CONTEXT', 'ELEMENTS_INVALID'))
    other = ('s', 'status')

    def fin(kind):
        def m(it, st, args, at):
            out = []
            for a in (ok, invalid, elements, other):
                s = st.copy()
                if a == other:
                    s.con['status'] = (0, None, frozenset(x[1] for x in (ok, invalid, elements)))
                s.note('finalize', kind, args[0], a)
                out.append((s, a))
            return out
        return m
    models = dict(('dx_%s_finalize' % k.lower(), fin(k)) for k in PARENTS)
    models['dx_mold_update_version'] = lambda it, st, a, at: [(st, ok)]
    for kind in KINDS:
        for state in (CONSTRUCTING, CONSTRUCTING | INVALID, FINALIZED, FINALIZED | INPARENT, FINALIZED | DESTROYED):
            for least, rk in itertools.product((1, 2), ('MOLD', 'CONFIG')):
                for fn in ('dc_finalize', 'dc_finalize_keep_reference'):
                    c = Case(N)
                    p = c.context(ME, kind, state, least, UP, ROOT)
                    c.context(ROOT, rk, CONSTRUCTING, 2)
                    c.context(UP, 'SECTION', CONSTRUCTING, 2, ROOT, ROOT)
                    c.st.mem[(OUT, 0)] = p
                    keep = fn != 'dc_finalize'

                    def judge(st, r):
                        b = [e for e in st.ev if e[0] == 'finalize']
                        held = st.mem.get((OUT, 0)) == p or keep
                        if state & DESTROYED or kind not in PARENTS or state & FINALIZED:
                            if b:
                                return "finalizes %s" % ("a destroyed context" if state & DESTROYED else "a top level context" if kind not in
                                                         PARENTS else "a context that is finalized")
                            if r == ok:
                                return "answers OK though nothing is finalized"
                            return both(c.lost(st, ME, 0), None if held else "takes a context it did not finalize",
                                        None if c.state(st, ME) == state else "changes the state of a context it did not finalize")
                        if [e[1:3] for e in b] != [(kind, p)]:
                            return "does not finalize the context by its kind, once"
                        a = b[0][3]
                        if a == other:
                            w = None if r == other else "does not answer what the finalization answered"
                            return w or both(c.lost(st, ME, 0), None if held else "takes a context that was not finalized",
                                             None if c.state(st, ME) == state else "changes the state of a context that was not finalized")
                        if r != (ok if a == ok else invalid):
                            return "does not answer whether the finalized context is valid"
                        s = state & ~CONSTRUCTING | FINALIZED | (INVALID if a == invalid else 0)
                        if c.state(st, ME) != s:
                            return "does not leave a finalized context in the state it is in"
                        more = 1 if a == invalid or keep else 0
                        if not keep and (st.mem.get((OUT, 0)) == ('c', 0)) == (a == invalid):
                            return "keeps a context that belongs to its parent" if a != invalid else "takes an invalid context from its caller"
                        return c.lost(st, ME, -more)
                    ch.go(fn, [p if keep else ('p', OUT, 0)], c.st, judge, more=models)


def bodies(ch, N):
    """what a context stands for, when it is destroyed: everything it owns goes, once"""
    ok = ('c', N.S('OK'))
    lists = {'SECTION': (('se_documentation_queue', 'DOCUMENTATION'), ('se_restrictions_queue', 'RESTRICTION')),
             'KEYVAL': (('kv_documentation_queue', 'DOCUMENTATION'), ('kv_default_queue', 'DEFAULT'), ('kv_restrictions_queue', 'RESTRICTION')),
             'RESTRICTION': (('re_documentation_queue', 'DOCUMENTATION'),), 'MOLD': (('mo_documentation_queue', 'DOCUMENTATION'),),
             'CONFIG': (), 'DEFAULT': (), 'DOCUMENTATION': ()}
    back = {'DOCUMENTATION': 'dd_context', 'DEFAULT': 'de_context', 'RESTRICTION': 're_context', 'KEYVAL': 'kv_context', 'SECTION': 'se_context',
            'MOLD': 'mo_context', 'CONFIG': 'cf_context'}
    strings = {'SECTION': ('se_name',), 'KEYVAL': ('kv_name', 'kv_value'), 'DEFAULT': ('de_value',), 'DOCUMENTATION': ('dd_value',)}
    equiv = {'SECTION': 'se_mold_equiv', 'KEYVAL': 'kv_mold_equiv'}
    queue = {('DOCUMENTATION', 'MOLD'): 'mo_documentation_queue', ('DOCUMENTATION', 'SECTION'): 'se_documentation_queue',
             ('DOCUMENTATION', 'KEYVAL'): 'kv_documentation_queue', ('DOCUMENTATION', 'RESTRICTION'): 're_documentation_queue',
             ('DEFAULT', 'KEYVAL'): 'kv_default_queue', ('RESTRICTION', 'KEYVAL'): 'kv_restrictions_queue',
             ('RESTRICTION', 'SECTION'): 'se_restrictions_queue'}

    def destroy(it, st, args, at):
        st.note('destroy', it.load(st, args[0]))
        it.store(st, args[0], ('c', 0))
        return [(st, ok)]

    def storage(it, st, args, at):
        st.note('storage', it.load(st, args[0]))
        it.store(st, args[0], ('c', 0))
        return [(st, ok)]

    def finished(it, st, args, at):
        st.note('finished', it.load(st, args[0]))
        it.store(st, args[0], ('c', 0))
        return [(st, ok)]

    def elements(it, st, args, at):
        """the elements still in the storage: none in this world"""
        s2 = st.copy()
        it.store(st, args[1], ('p', ('col',), 0))
        st.mem[(('col',), 'live')] = 1
        return [(st, ok), (s2, ('c', N.S('NO_MEMORY')))]

    def none(it, st, args, at):
        it.store(st, args[1], ('c', 0))
        return [(st, ('c', N.S('EXHAUSTED')))]
    models = {'dc_destroy': destroy, 'dx_element_storage_destroy': storage, 'disir_mold_finished': finished,
              'dx_element_storage_get_all': elements, 'dx_collection_next_noncoalesce': none, 'dc_collection_next': none,
              'dc_collection_finished': finished}
    body = ('body',) + ME
    for kind in KINDS:
        B = BODY[kind]
        for n in itertools.product((0, 2), repeat=len(lists[kind])):
            for vtype, eq, up in itertools.product(('STRING', 'ENUM', 'INTEGER'), (None, 1, 2),
                                                   [(x, d) for x in PARENTS.get(kind, (None,)) for d in (0, DESTROYED)]):
                if kind not in equiv and eq or up[0] is None and up[1] or kind not in ('KEYVAL', 'DEFAULT') and vtype != 'STRING':
                    continue
                c = Case(N)
                p = c.context(ME, kind, FINALIZED, 2, UP if up[0] else None, ROOT)
                owned = [body]
                held = []
                sibling = None
                if up[0]:
                    c.context(UP, up[0], FINALIZED | up[1], 2, ROOT, ROOT)
                    q = queue.get((kind, up[0]))
                    if q and not up[1]:
                        sibling = ('sibling',)
                        c.w.queue(('body',) + UP, BODY[up[0]], q, B, [body, sibling])
                c.w.put(body, B, back[kind], p)
                for s in strings.get(kind, ()):
                    o = N.off(B, s)
                    t = vtype if s.endswith('_value') and kind != 'DOCUMENTATION' else 'STRING'
                    c.st.mem[(body, o + N.off('disir_value', 'dv_type'))] = ('c', N.V(t))
                    if t == 'INTEGER':
                        c.st.mem[(body, o + N.off('disir_value', 'dv_integer'))] = ('s', ('number', s))
                    else:
                        c.st.mem[(body, o + N.off('disir_value', 'dv_string'))] = ('p', ('text', s), 0)
                        owned.append(('text', s))
                if kind == 'RESTRICTION':
                    c.w.put(body, B, 're_value_string', ('p', ('text', 're'), 0))
                    owned.append(('text', 're'))
                if kind in equiv:
                    if eq:
                        held.append(('ctx', 'equiv'))
                    c.w.put(body, B, equiv[kind], c.context(('ctx', 'equiv'), kind, FINALIZED, eq) if eq else ('c', 0))
                children = []
                for (field, k), m in zip(lists[kind], n):
                    es = [('item', field, i) for i in range(m)]
                    c.w.queue(body, B, field, BODY[k], es)
                    for e in es:
                        c.w.put(e, BODY[k], back[k], ('p', ('ctx', e), 0))
                        children.append(('p', ('ctx', e), 0))
                if kind in ELEMENTS:
                    c.w.put(body, B, ELEMENTS[kind], ('p', ('storage',), 0))
                if kind == 'CONFIG':
                    c.w.put(body, B, 'cf_mold', ('p', ('mold',), 0))
                c.st.mem[(OUT, 0)] = ('p', body, 0)

                def judge(st, r):
                    freed = [e[1] for e in st.ev if e[0] == 'free']
                    for o in owned:
                        if freed.count(o) != 1:
                            return "does not free %s" % ("the object" if o == body else "a text the object owns")
                    if [o for o in freed if o not in owned and o not in held]:
                        return "frees what the object does not own"
                    got = [e[1] for e in st.ev if e[0] == 'destroy']
                    if sorted(map(repr, got)) != sorted(map(repr, children)):
                        return "does not destroy every child, once"
                    for h in held:
                        w = c.lost(st, h, 1)
                        if w:
                            return w + " (of the equivalent in the mold)"
                    if kind in ELEMENTS and [e[1] for e in st.ev if e[0] == 'storage'] != [('p', ('storage',), 0)]:
                        return "does not destroy the storage of its elements, once"
                    fin = [e[1] for e in st.ev if e[0] == 'finished']
                    if kind == 'CONFIG' and fin.count(('p', ('mold',), 0)) != 1:
                        return "does not give back the mold of the config, once"
                    if st.mem.get((OUT, 0)) != ('c', 0):
                        return "leaves a pointer to what was freed"
                    if sibling:
                        q = st.mem.get((('body',) + UP, N.off(BODY[up[0]], queue[(kind, up[0])])))
                        if q != ('p', sibling, 0) or st.mem.get((sibling, N.off(B, 'next'))) != ('c', 0) \
                                or st.mem.get((sibling, N.off(B, 'prev'))) != ('p', sibling, 0):
                            return "stays in the list of its parent, or takes others out of it"
                    return None
                ch.go('dx_%s_destroy' % kind.lower(), [('p', OUT, 0)], c.st, judge, more=models)


# --- collections (P21) ----------------------------------------------------------------------------------------------------------

def collections(u, N, tier, finds, cov):
    ch = Check(u, N, finds, cov)
    top = 4 if tier == 'thorough' else 3
    COL, ARR = ('col',), ('array',)
    f = lambda x: N.off('disir_collection', x)
    ok, null = ('c', N.S('OK')), ('c', 0)

    def start(n, dead, it, room, least=2):
        c = Case(N)
        cs = [('ctx', 'm', i) for i in range(n)]
        for i, x in enumerate(cs):
            p = c.context(x, 'KEYVAL', FINALIZED | (DESTROYED if i in dead else 0), 1 if i in dead and least == 1 else 2)
            c.st.mem[(ARR, 8 * i)] = p
        for i in range(n, n + room):
            c.st.mem[(ARR, 8 * i)] = null
        c.w.put(COL, 'disir_collection', 'cc_collection', ('p', ARR, 0))
        for x, v in (('cc_capacity', n + room), ('cc_numentries', n), ('cc_iterator_index', it)):
            c.w.put(COL, 'disir_collection', x, ('c', v))
        c.st.mem[(OUT, 0)] = ('s', 'before')
        return c, cs

    def content(st):
        """(contexts held in order, position) as the collection states them, or what is wrong with it"""
        n, it, a = (st.mem.get((COL, f(x))) for x in ('cc_numentries', 'cc_iterator_index', 'cc_collection'))
        k = ch.it.place(a)
        if n[0] != 'c' or it[0] != 'c' or k is None:
            return None
        return [st.mem.get((k[0], 8 * i)) for i in range(n[1])], it[1]

    def expect(c, st, cs, dead, it, extra=(), taken=None):
        live = [('p', x, 0) for i, x in enumerate(cs) if i not in dead]
        pos = len([i for i in range(it) if i not in dead])
        got = content(st)
        if got is None:
            return "leaves a collection of unknown size"
        if got[0] != live + list(extra):
            return "does not keep the contexts that live, in order"
        if got[1] != pos + (1 if taken else 0):
            return "does not go on with the context that is next"
        for i, x in enumerate(cs):
            w = c.lost(st, x, 1 if i in dead else -1 if taken == ('p', x, 0) else 0)
            if w:
                return w + (" of a destroyed context" if i in dead else "")
        return None

    for n in range(top + 1):
        for dead in [x for k in range(n + 1) for x in itertools.combinations(range(n), k)]:
            for it, least in itertools.product(range(n + 1), (1, 2)):
                live = [i for i in range(n) if i not in dead]
                nxt = [i for i in live if i >= it]
                # the next one
                c, cs = start(n, dead, it, 1, least)

                def judge(st, r):
                    want = ('p', cs[nxt[0]], 0) if nxt else None
                    if (r == ok) != bool(nxt) or not nxt and r != ('c', N.S('EXHAUSTED')):
                        return "does not answer whether there is a context left"
                    if st.mem.get((OUT, 0)) != (want or null):
                        return "does not hand out the next context that lives"
                    return expect(c, st, cs, dead, it, taken=want)
                ch.go('dc_collection_next', [('p', COL, 0), ('p', OUT, 0)], c.st, judge)
                # how many
                c, cs = start(n, dead, it, 1, least)

                def judge(st, r):
                    if r != ('c', len(live)):
                        return "does not count the contexts that live"
                    return expect(c, st, cs, dead, it)
                ch.go('dc_collection_size', [('p', COL, 0)], c.st, judge)
                # from the start
                c, cs = start(n, dead, it, 1, least)

                def judge(st, r):
                    g = content(st)
                    if r != ok or g is None or len([i for i in range(min(g[1], n)) if i not in dead]) != 0 and g[1] != 0:
                        return "does not go back to the first"
                    return None if len(g[0]) in (n, len(live)) else "loses contexts"
                ch.go('dc_collection_reset', [('p', COL, 0)], c.st, judge)
                # the end
                c, cs = start(n, dead, it, 1, least)
                c.st.mem[(OUT, 0)] = ('p', COL, 0)

                def judge(st, r):
                    for i, x in enumerate(cs):
                        w = c.lost(st, x, 1)
                        if w:
                            return w
                    freed = sorted(repr(e[1]) for e in st.ev if e[0] == 'free' and e[1][0] != 'ctx')
                    if freed != sorted(map(repr, (COL, ARR))):
                        return "does not free the collection and its array, once"
                    return None if r == ok and st.mem.get((OUT, 0)) == null else "leaves a pointer to what was freed"
                ch.go('dc_collection_finished', [('p', OUT, 0)], c.st, judge)
                # one more
                for room in (0, 1, 2):
                    if n + room == 0:
                        continue
                    c, cs = start(n, dead, it, room, least)
                    p = c.context(ME, 'KEYVAL', FINALIZED, 2)

                    def judge(st, r):
                        if r != ok:
                            if not any(e[0] == 'nomem' for e in st.ev):
                                return "refuses a context though there is room"
                            return expect(c, st, cs, dead, it) or c.lost(st, ME, 0)
                        k = ch.it.place(st.mem.get((COL, f('cc_collection'))))
                        cap, num = st.mem.get((COL, f('cc_capacity'))), st.mem.get((COL, f('cc_numentries')))
                        size = ('c', 8 * (n + room)) if k and k[0] == ARR else st.mem.get((k[0], 'size')) if k else None
                        if cap is None or size is None or cap[0] != 'c' or size[0] != 'c' or num is None or num[0] != 'c':
                            return "leaves a collection of unknown size"
                        if not (num[1] <= cap[1] and cap[1] * 8 <= size[1]):
                            return "states more room than the array has"
                        return expect(c, st, cs, dead, it, extra=(p,)) or c.lost(st, ME, -1)
                    ch.go('dc_collection_push_context', [('p', COL, 0), p], c.st, judge)
    c = Case(N)

    def judge(st, r):
        if r == null:
            left = [e[1] for e in st.ev if e[0] == 'alloc' and ('free', e[1]) not in st.ev]
            return "creates nothing though there is memory" if not any(e[0] == 'nomem' for e in st.ev) else \
                "does not free what it allocated" if left else None
        it = ch.it
        get = lambda x: it.load(st, ('p', r[1], f(x))) if r[0] == 'p' else ('top',)
        a = it.place(get('cc_collection'))
        if get('cc_numentries') != null or get('cc_iterator_index') != null or a is None:
            return "creates a collection that is not empty"
        cap, size = get('cc_capacity'), st.mem.get((a[0], 'size'))
        return None if cap[0] == 'c' and size and size[0] == 'c' and 0 < cap[1] * 8 <= size[1] else "states more room than the array has"
    ch.go('dc_collection_create', [], c.st, judge)
    cov['paths'] += ch.paths
    return ch.broken or (None if ch.paths > 300 else "only %d paths" % ch.paths)


# --- where elements are kept (P17) ------------------------------------------------------------------------------------------------

MAP, LIST = ('map',), ('list',)
FREE = (('f', 'free'), ('p', ('g', 'free'), 0))
NULL = ('c', 0)


def text(it, st, p):
    """the characters at p when all are known"""
    k = it.place(p)
    out = []
    while k and len(out) < 16:
        if (k[0], 'freed') in st.mem:
            st.note('dead', 'read')
            return None
        c = st.mem.get((k[0], k[1] + len(out)))
        if c is None or c[0] != 'c':
            return None
        if c[1] == 0:
            return ''.join(map(chr, out))
        out.append(c[1])
    return None


def copytext(it, st, p, to):
    t = text(it, st, p)
    for i, c in enumerate((t or '') + '\0'):
        st.mem[(to, i)] = ('c', ord(c)) if t is not None else ('top',)


def m_strdup(it, st, args, at):
    t = text(it, st, args[0])
    out = allocate(it, st, ('c', len(t) + 1) if t is not None else ('top',), at, False)
    copytext(it, out[0][0], args[0], out[0][1][1])
    return out


def m_strcpy(it, st, args, at):
    copytext(it, st, args[1], it.place(args[0])[0])
    return [(st, args[0])]


def m_strlen(it, st, args, at):
    t = text(it, st, args[0])
    return [(st, ('c', len(t)) if t is not None else ('s', ('strlen', args[0])))]


def entries(st):
    return st.mem.get((MAP, 'entries'), ())


def named(it, st, p):
    """index of the entry whose key has the text at p"""
    t = text(it, st, p)
    for i, (k, vs) in enumerate(entries(st)):
        if text(it, st, k) == t:
            return i
    return None


def nomem(st):
    s2 = st.copy()
    s2.note('nomem')
    return s2


def m_contains(it, st, args, at):
    return [(st, ('c', 0 if named(it, st, args[1]) is None else 1))]


def m_push(it, st, args, at):
    i = named(it, st, args[1])
    es = entries(st)
    if i is not None and args[2] in es[i][1]:
        return [(st, ('c', -1))]
    s2 = nomem(st)
    st.mem[(MAP, 'entries')] = es + ((args[1], (args[2],)),) if i is None else es[:i] + ((es[i][0], es[i][1] + (args[2],)),) + es[i + 1:]
    return [(st, ('c', 0)), (s2, ('c', -12))]


def m_remove(it, st, args, at):
    i = named(it, st, args[1])
    es = entries(st)
    if i is None or args[3] not in es[i][1]:
        return [(st, NULL)]
    left = tuple(x for x in es[i][1] if x != args[3])
    st.mem[(MAP, 'entries')] = es[:i] + (((es[i][0], left),) if left else ()) + es[i + 1:]
    if not left and args[2] != NULL:
        if args[2] in FREE:
            return [(s, args[3]) for s, _ in free(it, st, [es[i][0]], at)]
        st.note('dead', 'freed in a way that is not known')
    return [(st, args[3])]


def m_first(it, st, args, at):
    i = named(it, st, args[1])
    return [(st, NULL if i is None else entries(st)[i][1][0])]


def iterate(st, values):
    o = ('iter', sum(1 for e in st.ev if e[0] == 'iter'))
    st.note('iter', o)
    st.mem[(o, 'left')] = values
    return ('p', o, 0)


def m_fetch(it, st, args, at):
    i = named(it, st, args[1])
    if i is None:
        return [(st, NULL)]
    s2 = nomem(st)
    return [(st, iterate(st, entries(st)[i][1])), (s2, NULL)]


def m_next(it, st, args, at):
    k = it.place(args[0])
    l = st.mem.get((k[0], 'left')) if k else None
    if l is None or (k[0], 'freed') in st.mem:
        st.note('dead', 'read')
        return [(st, NULL)]
    if not l:
        return [(st, NULL)]
    st.mem[(k[0], 'left')] = l[1:]
    return [(st, l[0])]


def m_enditer(it, st, args, at):
    return free(it, st, [args[0]], at)


def m_enditer2(it, st, args, at):
    r = free(it, st, [it.load(st, args[0])], at)
    it.store(st, args[0], NULL)
    return r


def m_size(it, st, args, at):
    return [(st, ('c', sum(len(e[1]) for e in entries(st))))]


def m_mapgone(it, st, args, at):
    st.note('mapgone', args[1], args[2])
    if args[1] in FREE:
        for k, _ in entries(st):
            free(it, st, [k], at)
    elif args[1] != NULL:
        st.note('dead', 'freed in a way that is not known')
    if args[2] != NULL:
        st.note('dead', 'freed though the map does not own it')
    return free(it, st, [args[0]], at)


def m_rpush(it, st, args, at):
    s2 = nomem(st)
    st.mem[(LIST, 'values')] = st.mem.get((LIST, 'values'), ()) + (args[1],)
    return [(st, NULL), (s2, ('c', -1))]


def m_lpush(it, st, args, at):
    s2 = nomem(st)
    st.mem[(LIST, 'values')] = (args[1],) + st.mem.get((LIST, 'values'), ())
    return [(st, NULL), (s2, ('c', -1))]


def m_unlist(it, st, args, at):
    l = st.mem.get((LIST, 'values'), ())
    if args[1] not in l:
        return [(st, ('c', -1))]
    i = l.index(args[1])
    st.mem[(LIST, 'values')] = l[:i] + l[i + 1:]
    return [(st, NULL)]


def m_listiter(it, st, args, at):
    s2 = nomem(st)
    l = st.mem.get((LIST, 'values'), ())
    d = dict(it.u.enums.get('list_direction', it.u.enums.get('list_direction_t', ())))
    back = args[1] == ('c', d['LIST_TAIL']) if 'LIST_TAIL' in d else args[1] != ('c', 0)
    return [(st, iterate(st, tuple(reversed(l)) if back else l)), (s2, NULL)]


def m_listgone(it, st, args, at):
    st.note('listgone')
    return m_enditer2(it, st, args, at)


def made(o):
    def m(it, st, args, at):
        s2 = nomem(st)
        st.note('alloc', o)
        return [(st, ('p', o, 0)), (s2, NULL)]
    return m


def m_listfind(it, st, args, at):
    return [(st, args[1] if args[1] in st.mem.get((LIST, 'values'), ()) else NULL)]


KEPT = {'strdup': m_strdup, 'strlen': m_strlen, 'strcpy': m_strcpy, 'multimap_contains_key': m_contains, 'multimap_push_value': m_push,
        'multimap_remove_value': m_remove, 'multimap_get_first': m_first, 'multimap_fetch': m_fetch, 'multimap_iterator_next': m_next,
        'multimap_iterator_destroy': m_enditer, 'multimap_size': m_size, 'multimap_destroy': m_mapgone, 'multimap_create': made(MAP),
        'list_create': made(LIST), 'list_rpush': m_rpush, 'list_lpush': m_lpush, 'list_remove': m_unlist, 'list_iterator_create': m_listiter,
        'list_iterator_next': m_next, 'list_iterator_destroy': m_enditer2, 'list_destroy': m_listgone, 'list_find': m_listfind}


def storages(u, N, tier, finds, cov):
    ch = Check(u, N, finds, cov, KEPT)
    top = 3 if tier == 'thorough' else 2
    STO, UPB = ('storage',), ('body',) + UP
    ok = ('c', N.S('OK'))
    sto = ('p', STO, 0)

    def start(names):
        """a storage to which elements of these names were added"""
        c = Case(N)
        c.w.put(STO, 'disir_element_storage', 'es_map', ('p', MAP, 0))
        c.w.put(STO, 'disir_element_storage', 'es_list', ('p', LIST, 0))
        cs, es = [], []
        for i, x in enumerate(names):
            p = c.context(('ctx', 'm', i), 'KEYVAL', FINALIZED | INPARENT, 2)
            cs.append(p)
            for e in es:
                if e[0] == x:
                    e[1].append(p)
                    break
            else:
                es.append((x, [p]))
        put = []
        for x, vs in es:
            for i, ch_ in enumerate(x + '\0'):
                c.st.mem[(('key', x), i)] = ('c', ord(ch_))
            put.append((('p', ('key', x), 0), tuple(vs)))
        c.st.mem[(MAP, 'entries')] = tuple(put)
        c.st.mem[(LIST, 'values')] = tuple(cs)
        for x in ('a', 'bc', 'd'):
            for i, ch_ in enumerate(x + '\0'):
                c.st.mem[(('name', x), i)] = ('c', ord(ch_))
        c.st.mem[(OUT, 0)] = NULL
        return c, cs

    def keys(c, st, want):
        """the elements in the storage, by name and in order, are these; its keys are its own and alive"""
        if st.mem[(LIST, 'values')] != tuple(v for _, v in want):
            return "does not keep the elements in the order they were added in"
        got = {}
        for k, vs in entries(st):
            o = k[1]
            if (o, 'freed') in st.mem:
                return "keeps a name that was freed"
            if o[0] == 'name':
                return "keeps a name that is the caller's"
            t = text(ch.it, st, k)
            if t is None or t in got:
                return "does not keep the names of the elements"
            got[t] = vs
        exp = {}
        for x, v in want:
            exp.setdefault(x, []).append(v)
        if set(got) != set(exp) or any(sorted(got[x]) != sorted(exp[x]) for x in exp):
            return "does not have the elements under their names"
        if any(got[x] != tuple(exp[x]) for x in exp):
            return "does not keep the elements of one name in order"
        live = set(k[1] for k, _ in entries(st))
        for e in st.ev:
            if e[0] == 'alloc' and e[1] not in live and ('free', e[1]) not in st.ev and (e[1], 'freed') not in st.mem:
                return "does not free what it allocated"
            if e[0] == 'iter' and (e[1], 'freed') not in st.mem:
                return "does not free what it allocated"
        for x in set(n for n, _ in c.had) - set(exp):
            if sum(1 for e in st.ev if e == ('free', ('key', x))) != 1:
                return "does not free the name of the last element, once"
        return None

    def same(c, st, cs, d=lambda p: 0):
        for p in cs:
            w = c.lost(st, p[1], d(p))
            if w:
                return w
        return None

    def full(st):
        return any(e[0] == 'nomem' for e in st.ev)

    worlds = [x for n in range(top + 1) for x in itertools.product(('a', 'bc'), repeat=n)]
    for names in worlds:
        def world():
            c, cs = start(names)
            c.had = list(zip(names, cs))
            return c, cs
        # add: a new element, and one that is there
        for name in ('a', 'd'):
            for again in [None] + list(range(len(names))):
                if again is not None and names[again] != name:
                    continue
                c, cs = world()
                p = c.context(ME, 'KEYVAL', FINALIZED, 2) if again is None else cs[again]

                def judge(st, r):
                    if r != ok:
                        if again is None and not full(st):
                            return "refuses an element though there is memory"
                        return keys(c, st, c.had) or same(c, st, cs) or (c.lost(st, ME, 0) if again is None else None)
                    if again is not None:
                        return "adds an element twice"
                    return keys(c, st, c.had + [(name, p)]) or same(c, st, cs) or c.lost(st, ME, -1)
                ch.go('dx_element_storage_add', [sto, ('p', ('name', name), 0), p], c.st, judge)
        # remove: one that is there, one that is not
        for i in list(range(len(names))) + [None]:
            c, cs = world()
            p = c.context(ME, 'KEYVAL', FINALIZED, 2) if i is None else cs[i]

            def judge(st, r):
                left = [h for k, h in enumerate(c.had) if k != i]
                return keys(c, st, left) or same(c, st, cs, lambda q: 1 if i is not None and q == p else 0) or \
                    (c.lost(st, ME, 0) if i is None else None)
            ch.go('dx_element_storage_remove', [sto, ('p', ('name', names[i] if i is not None else 'a'), 0), p], c.st, judge)
        # how many
        c, cs = world()
        ch.go('dx_element_storage_numentries', [sto], c.st,
              lambda st, r: keys(c, st, c.had) or (None if r == ('c', len(names)) else "does not count the elements"))
        # by name, all
        for name in ('a', 'd', None):
            want = [p for x, p in zip(names, start(names)[1]) if name in (x, None)]
            for up in (None, 'CONFIG', 'MOLD', 'SECTION'):
                fn = {(None, False): 'dx_element_storage_get', (None, True): 'dx_element_storage_get_all'}.get(
                    (up, name is None), 'dc_get_elements' if name is None else 'dc_find_elements')
                c, cs = world()
                subj = sto
                if up:
                    subj = c.context(UP, up, FINALIZED, 2)
                    c.w.put(UPB, BODY[up], ELEMENTS[up], sto)
                c.alloc = ()

                def judge(st, r):
                    col = st.mem[(OUT, 0)]
                    if r != ok:
                        if name is not None and not want:
                            return keys(c, st, c.had) or (None if r == ('c', N.S('NOT_EXIST')) else
                                                          "does not answer that there is no such element")
                        return "does not hand out elements though there is memory" if not full(st) else keys(c, st, c.had) or same(c, st, cs)
                    if not want and name is not None:
                        return "answers OK though there is no such element"
                    if col[0] != 'p' or (col[1], 'freed') in st.mem:
                        return "does not hand out a collection"
                    f = lambda x: ch.it.load(st, ('p', col[1], N.off('disir_collection', x)))
                    n, a, at = f('cc_numentries'), ch.it.place(f('cc_collection')), f('cc_iterator_index')
                    got = [st.mem.get((a[0], 8 * i)) for i in range(n[1])] if n[0] == 'c' and a else None
                    if got != want or at != NULL:
                        return "does not hand out the elements asked for, in order"
                    # the collection is the caller's
                    s2 = st.copy()
                    s2.mem[(col[1], 'freed')] = s2.mem[(a[0], 'freed')] = 1
                    return keys(c, s2, c.had) or same(c, st, cs, lambda p: -1 if p in want else 0)
                ch.go(fn, [subj] + ([('p', ('name', name), 0)] if name else []) + [('p', OUT, 0)], c.st, judge)
            if name is None:
                continue
            # the first of a name, and the one at an index
            c, cs = world()

            def judge(st, r):
                if (r == ok) != bool(want):
                    return "does not answer whether there is such an element"
                if want and st.mem[(OUT, 0)] != want[0]:
                    return "does not answer the first element of the name"
                return keys(c, st, c.had) or same(c, st, cs)
            ch.go('dx_element_storage_get_first', [sto, ('p', ('name', name), 0), ('p', OUT, 0)], c.st, judge)
            for up, i in itertools.product(('CONFIG', 'MOLD', 'SECTION'), list(range(top + 1)) + [-1, -1 << 31]):
                c, cs = world()
                q = c.context(UP, up, FINALIZED, 2)
                c.w.put(UPB, BODY[up], ELEMENTS[up], sto)

                # the index is unsigned: the negative ones are those beyond any
                def judge(st, r):
                    if r == ok:
                        if not 0 <= i < len(want):
                            return "answers OK though there is no such element"
                        if st.mem[(OUT, 0)] != want[i]:
                            return "does not answer the element at the index"
                        return keys(c, st, c.had) or same(c, st, cs, lambda p: -1 if p == want[i] else 0)
                    if not full(st) and (0 <= i < len(want) or r != ('c', N.S('NOT_EXIST'))):
                        return "does not find an element that is there" if 0 <= i < len(want) else "does not answer that there is no such element"
                    return keys(c, st, c.had) or same(c, st, cs)
                ch.go('dc_find_element', [q, ('p', ('name', name), 0), ('c', i), ('p', OUT, 0)], c.st, judge)
        # the end
        c, cs = world()
        c.st.mem[(OUT, 0)] = sto

        def destroy(it, st, args, at):
            v = it.load(st, args[0])
            st.note('destroy', v)
            o = N.off('disir_context', 'cx_refcount')
            n = st.mem[(v[1], o)]
            m_unlist(it, st, [None, v], at)
            # its own reference and that of the storage it is taken out of
            d = delta(n, c.count[v[1]]) - 2
            st.mem[(v[1], o)] = c.count[v[1]] if d == 0 else ('s', ('bin', 'add', c.count[v[1]], ('c', d)))
            it.store(st, args[0], NULL)
            return [(st, ok)]

        def judge(st, r):
            if r != ok:
                return None if full(st) else "does not destroy a storage though there is memory"
            if [e[1] for e in st.ev if e[0] == 'destroy'] != cs:
                return "does not destroy every element, once"
            freed = [e[1] for e in st.ev if e[0] == 'free']
            if any(freed.count(o) != 1 for o in [STO, MAP, LIST] + [('key', x) for x in set(names)]):
                return "does not free the storage and the names in it, once"
            if any(e[0] == 'iter' and (e[1], 'freed') not in st.mem for e in st.ev):
                return "does not free what it allocated"
            return "leaves a pointer to what was freed" if st.mem[(OUT, 0)] != NULL else same(c, st, cs, lambda p: 1)
        ch.go('dx_element_storage_destroy', [('p', OUT, 0)], c.st, judge, more={'dc_destroy': destroy})

    # the beginning
    def judge(st, r):
        left = [e[1] for e in st.ev if e[0] == 'alloc' and (e[1], 'freed') not in st.mem]
        if r == NULL:
            return "does not free what it allocated" if left else None if full(st) else "creates nothing though there is memory"
        get = lambda x: st.mem.get((r[1], N.off('disir_element_storage', x)))
        return None if get('es_map') == ('p', MAP, 0) and get('es_list') == ('p', LIST, 0) else "creates a storage without its parts"
    ch.go('dx_element_storage_create', [], Case(N).st, judge)
    cov['paths'] += ch.paths
    return ch.broken or (None if ch.paths > 300 else "only %d paths" % ch.paths)


def run(ctx):
    u = ctx.lib
    N = Names(u)
    finds = []
    cov = {'functions_inlined': set(), 'rules': 0, 'undecided': [], 'paths': 0}
    try:
        broken = {'P23': counts, 'P21': collections, 'P17': storages}[ctx.pid](u, N, ctx.tier, finds, cov)
    except KeyError as e:
        broken = "the sources do not have %s" % e
    cov['functions_inlined'] = sorted(cov['functions_inlined'])
    cov['undecided'] = ["%s: %s" % x for x in cov['undecided']]
    cov['explanation'] = EXPLAIN[ctx.pid]
    if not broken and len(cov['undecided']) > 3:
        broken = "undecided: %s" % cov['undecided'][:5]
    return finds, cov, ASSUME, broken


EXPLAIN = {'P23': "the functions that take, give back, begin, finalize and destroy contexts, interpreted on every kind, state, parent and "
                  "number of references (exactly one, or any number from a bound)",
           'P21': "the operations on collections, interpreted on every collection of up to three (thorough: four) contexts, every subset "
                  "of them destroyed, every position of the iteration, with and without room",
           'P17': "the operations on the elements of a section, config or mold, interpreted on every storage of up to two (thorough: three) "
                  "elements of two names, with every allocation failing or not; the map and the list below it are abstract data types"}
