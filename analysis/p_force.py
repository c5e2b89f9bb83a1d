"""What is in force for a version (P15): the functions that put documentation, defaults, restrictions and elements into what they belong
to, and those that look the one up that counts for a version, are interpreted (absint.py) on every queue of up to three entries, in every
order relation between their versions and the one asked about."""
import itertools

from absint import Cut
from passes import ASSUME
from p_guards import Names
from p_life import BODY, Case, Check, ELEMENTS, FINALIZED, CONSTRUCTING, INPARENT, INVALID, ME, NAME, OUT, PARENTS, ROOT, UP, both

NULL = ('c', 0)
DOCS = {'MOLD': 'mo_documentation_queue', 'SECTION': 'se_documentation_queue', 'KEYVAL': 'kv_documentation_queue',
        'RESTRICTION': 're_documentation_queue'}
RESTR = {'KEYVAL': 'kv_restrictions_queue', 'SECTION': 'se_restrictions_queue'}
# places in the order of versions: neighbours differ in the minor number only, or in both, or the minor number goes down as the major goes up
RANK = [(1, 0), (1, 2), (1, 3), (2, 0), (2, 1), (3, 1), (4, 0), (4, 3), (5, 0)]
VER = ('version',)


def put_version(c, obj, off, r):
    for k, v in zip((0, 4), RANK[r] if r is not None else (0, 0)):
        c.st.mem[(obj, off + k)] = ('c', v)


def chain(N, st, place, item):
    """the objects of a queue from its head; None if the links do not agree"""
    out = []
    head = v = st.mem.get(place)
    prev = None
    while v != NULL:
        if v is None or v[0] != 'p' or v[2] != 0 or v[1] in out:
            return None
        if prev and st.mem.get((v[1], N.off(item, 'prev'))) != ('p', prev, 0):
            return None
        out.append(v[1])
        prev = v[1]
        v = st.mem.get((prev, N.off(item, 'next')))
    if head != NULL and st.mem.get((head[1], N.off(item, 'prev'))) != ('p', prev, 0):
        return None
    return out


class Force(object):
    def __init__(self, u, N, tier, finds, cov):
        self.N, self.tier = N, tier
        self.ch = Check(u, N, finds, cov)
        self.n = 3 if tier == 'thorough' else 2
        self.ok = ('c', N.S('OK'))
        self.nv = len(RANK)

    def queue(self, c, place, kind, ranks):
        N, item = self.N, BODY[kind]
        field = {'DOCUMENTATION': ('dd_introduced', 'dd_context'), 'DEFAULT': ('de_introduced', 'de_context'),
                 'RESTRICTION': ('re_introduced', 're_context')}[kind]
        es = [('entry', i) for i in range(len(ranks))]
        c.st.mem[place] = ('p', es[0], 0) if es else NULL
        for i, e in enumerate(es):
            c.w.put(e, item, 'next', ('p', es[i + 1], 0) if i + 1 < len(es) else NULL)
            c.w.put(e, item, 'prev', ('p', es[i - 1], 0))
            c.w.put(e, item, field[1], ('p', ('ctx', 'e', i), 0))
            put_version(c, e, N.off(item, field[0]), ranks[i])
        return es

    def tree(self, kind, up, root, state=CONSTRUCTING):
        """the context ME of a kind below one of another"""
        c = Case(self.N)
        p = c.context(ME, kind, state, 2, UP, ROOT)
        c.context(ROOT, root, CONSTRUCTING, 2)
        if up == root:
            c.w.put(ME, 'disir_context', 'cx_parent_context', ('p', ROOT, 0))
            top = ROOT
        else:
            c.context(UP, up, CONSTRUCTING, 2, ROOT, ROOT)
            top = UP
        for o, k in ((ME, kind), (top, up)):
            b = ('body',) + o
            back = [f for _, f, _, _ in self.N.u.structs[BODY[k]] if f.endswith('_context')]
            for f in back[:1]:
                c.w.put(b, BODY[k], f, ('p', o, 0))
        return c, p, ('body',) + top

    def orders(self, n, ties):
        """queues of up to n entries in order, and a version anywhere among them"""
        for k in range(n + 1):
            for r in (itertools.combinations_with_replacement if ties else itertools.combinations)(range(self.nv), k):
                if k and self.tier != 'thorough' and not self.near(r):
                    continue
                yield list(r)

    def near(self, r):
        return all(b - a <= 4 for a, b in zip(r, r[1:]))

    # documentation ----------------------------------------------------------------------------------------------------------------

    def documentation(self):
        N, ch, ok = self.N, self.ch, self.ok
        D = BODY['DOCUMENTATION']
        for up, field in DOCS.items():
            for ranks in self.orders(self.n if up == 'KEYVAL' else min(self.n, 1), False):
                for new in range(self.nv):
                    c, p, body = self.tree('DOCUMENTATION', up, 'MOLD')
                    place = (body, N.off(BODY[up], field))
                    es = self.queue(c, place, 'DOCUMENTATION', ranks)
                    me = ('body',) + ME
                    put_version(c, me, N.off(D, 'dd_introduced'), new)
                    c.w.put(me, D, 'next', NULL)
                    c.w.put(me, D, 'prev', NULL)

                    def judge(st, r):
                        got = chain(N, st, place, D)
                        if got is None:
                            return "leaves a list of documentation whose links do not agree"
                        if new in ranks:
                            return "takes a second documentation of the same version" if r == ok else \
                                None if got == es else "puts a documentation it refuses into its parent"
                        if r != ok:
                            return "refuses a documentation of a version there is none of"
                        i = sum(1 for x in ranks if x < new)
                        return None if got == es[:i] + [me] + es[i:] else "does not put the documentation into its parent by its version"
                    ch.go('dx_documentation_finalize', [p], c.st, judge)

        def stringget(it, st, args, at):
            st.note('text', it.place(args[0]))
            return [(st, ok)]
        for kind, field in DOCS.items():
            for ranks in self.orders(self.n if kind == 'KEYVAL' else min(self.n, 1), False):
                for v in [None] + list(range(self.nv)):
                    c = Case(N)
                    p = c.context(ME, kind, FINALIZED, 2, None, ROOT if kind != 'MOLD' else ME)
                    if kind != 'MOLD':
                        c.context(ROOT, 'MOLD', FINALIZED, 2)
                    es = self.queue(c, (('body',) + ME, N.off(BODY[kind], field)), 'DOCUMENTATION', ranks)
                    put_version(c, VER, 0, v)
                    want = self.force(es, ranks, v)

                    def judge(st, r):
                        t = [e[1] for e in st.ev if e[0] == 'text']
                        if not es:
                            return "answers OK though there is no documentation" if r == ok else None
                        if r != ok or len(t) != 1 or t[0] is None or t[0][1] != N.off(D, 'dd_value'):
                            return "does not answer the text of a documentation though there is one"
                        return None if t[0][0] in want else "does not answer the newest documentation that is not newer than the version"
                    ch.go('dc_get_documentation', [p, ('p', VER, 0) if v is not None else NULL, ('p', OUT, 0), ('p', ('size',), 0)], c.st,
                          judge, more={'dx_value_get_string': stringget})

    def force(self, es, ranks, v):
        """which entries may be the one in force for a version: of several of one version, any"""
        if not es:
            return [None]
        i = [r for r in ranks if v is None or r <= v]
        if not i:
            return es                              # nothing says what counts before the first
        return [e for e, r in zip(es, ranks) if r == max(i)]

    # defaults ---------------------------------------------------------------------------------------------------------------------

    def answers(self, names):
        return [('c', self.N.S(x)) for x in names]

    def validation(self, names):
        def m(it, st, args, at):
            out = []
            for a in self.answers(names):
                s = st.copy()
                s.note('valid', args[0], a)
                out.append((s, a))
            return out
        return m

    def defaults(self):
        N, ch, ok = self.N, self.ch, self.ok
        F = BODY['DEFAULT']
        place = (('body',) + UP, N.off(BODY['KEYVAL'], 'kv_default_queue'))
        me = ('body',) + ME
        for ranks in self.orders(self.n, True):
            for new in range(self.nv):
                c, p, _ = self.tree('DEFAULT', 'KEYVAL', 'MOLD')
                es = self.queue(c, place, 'DEFAULT', ranks)
                put_version(c, me, N.off(F, 'de_introduced'), new)
                c.w.put(me, F, 'next', NULL)
                c.w.put(me, F, 'prev', NULL)
                rank = dict(zip(es, ranks))
                rank[me] = new

                def judge(st, r):
                    v = [e for e in st.ev if e[0] == 'valid']
                    if len(v) != 1 or v[0][1] != p or r != v[0][2]:
                        return "does not answer what the validation of the default answers"
                    got = chain(N, st, place, F)
                    if got is None:
                        return "leaves a list of defaults whose links do not agree"
                    if got.count(me) != 1 or [x for x in got if x != me] != es:
                        return "does not put the default into its keyval, once"
                    if any(rank[a] > rank[b] for a, b in zip(got, got[1:])):
                        return "does not put the default into its keyval by its version"
                    return None if c.state(st, ME) & INPARENT else "does not mark the default as in its keyval"
                ch.go('dx_default_finalize', [p], c.st, judge, more={'dx_validate_context': self.validation(('OK', 'INVALID_CONTEXT'))})
        for ranks in self.orders(self.n + 1 if self.tier == 'thorough' else self.n, True):
            for v in [None] + list(range(self.nv)):
                self.active(ranks, v)

    def active(self, ranks, v):
        N, ch, ok = self.N, self.ch, self.ok
        F = BODY['DEFAULT']

        def start(root='MOLD', equiv=True):
            c = Case(N)
            p = c.context(ME, 'KEYVAL', FINALIZED, 2, None, ROOT)
            c.context(ROOT, root, FINALIZED, 2)
            b = ('body',) + ME
            if root == 'CONFIG':
                c.w.put(b, BODY['KEYVAL'], 'kv_default_queue', NULL)
                c.w.put(b, BODY['KEYVAL'], 'kv_mold_equiv', c.context(UP, 'KEYVAL', FINALIZED, 2) if equiv else NULL)
                b = ('body',) + UP
            es = self.queue(c, (b, N.off(BODY['KEYVAL'], 'kv_default_queue')), 'DEFAULT', ranks)
            put_version(c, VER, 0, v)
            return c, p, es
        ver = ('p', VER, 0) if v is not None else NULL
        c, p, es = start()
        want = [('p', x, 0) if x else NULL for x in self.force(es, ranks, v)]

        def judge(st, r):
            g = st.mem.get((OUT, 0))
            return None if g in want else "does not answer the newest default that is not newer than the version"
        ch.go('dx_default_get_active', [p, ver, ('p', OUT, 0)], c.st, judge)
        if len(ranks) > 1 and self.tier != 'thorough' and not (len(ranks) == 2 and ranks[0] < 3):
            return

        def note(it, st, args, at):
            st.note('value', tuple(it.place(a) for a in args))
            s2 = st.copy()
            return [(st, ok), (s2, ('c', N.S('NO_MEMORY')))]
        # the text of the default, of a keyval of the mold and of one of a config
        for root, equiv in (('MOLD', True), ('CONFIG', True), ('CONFIG', False)):
            for fn in ('dc_get_default', 'set'):
                c, p, es = start(root, equiv)
                want2 = self.force(es, ranks, v) if equiv else [None]

                def judge(st, r):
                    t = [e[1] for e in st.ev if e[0] == 'value']
                    if fn == 'set' and root == 'MOLD':
                        return "sets a keyval of a mold to its default" if t or r == ok else None
                    if want2 == [None]:
                        return "answers OK though there is no default" if r == ok else "takes a value that is no default" if t else None
                    a = [x for l in t for x in l if x and x[0] in es]
                    if len(t) != 1 or not a or any(x[1] != N.off(F, 'de_value') for x in a):
                        return "does not take the value of a default though there is one"
                    if fn == 'set' and t[0][0] != (('body',) + ME, N.off(BODY['KEYVAL'], 'kv_value')):
                        return "does not give the keyval the value of the default"
                    return None if a[0][0] in want2 else "does not take the newest default that is not newer than the version"
                name = fn if fn == 'dc_get_default' else self.setter
                if name is None:
                    continue
                args = [p, ver, ('c', 64), ('p', ('text out',), 0), NULL] if fn == 'dc_get_default' else [p, ver]
                ch.go(name, args, c.st, judge, more={'dx_value_stringify': note, 'dx_value_copy': note})

    def contexts(self):
        """the defaults of a keyval as a collection"""
        N, ch, ok = self.N, self.ch, self.ok

        def create(it, st, args, at):
            s2 = st.copy()
            st.mem[(('col',), 'live')] = 1
            return [(st, ('p', ('col',), 0)), (s2, NULL)]

        def push(it, st, args, at):
            s2 = st.copy()
            st.note('push', args[0], args[1])
            s2.note('full')
            return [(st, ok), (s2, ('c', N.S('NO_MEMORY')))]

        def finished(it, st, args, at):
            st.note('finished', it.load(st, args[0]))
            it.store(st, args[0], NULL)
            return [(st, ok)]
        for n, root in itertools.product(range(self.n + 2), ('MOLD', 'CONFIG')):
            c = Case(N)
            p = c.context(ME, 'KEYVAL', FINALIZED, 2, None, ROOT)
            c.context(ROOT, root, FINALIZED, 2)
            es = self.queue(c, (('body',) + ME, N.off(BODY['KEYVAL'], 'kv_default_queue')), 'DEFAULT', list(range(n)))
            c.st.mem[(OUT, 0)] = NULL

            def judge(st, r):
                g = st.mem.get((OUT, 0))
                pushed = [e[1:] for e in st.ev if e[0] == 'push']
                fin = [e[1] for e in st.ev if e[0] == 'finished']
                if r == ok:
                    if root != 'MOLD' or [e for e in st.ev if e[0] == 'full'] or g != ('p', ('col',), 0) or fin:
                        return "answers OK without the defaults of a keyval of a mold"
                    return None if pushed == [(g, ('p', ('ctx', 'e', i), 0)) for i in range(n)] else \
                        "does not answer all defaults in their order"
                if root == 'MOLD' and not [e for e in st.ev if e[0] == 'full'] and (('col',), 'live') in st.mem:
                    return "answers no defaults though nothing failed"
                return "hands out a collection it answers a failure for" if g != NULL else \
                    None if len(fin) == ((('col',), 'live') in st.mem) else "does not give back the collection it made, once"
            ch.go('dc_get_default_contexts', [p, ('p', OUT, 0)], c.st, judge,
                  more={'dc_collection_create': create, 'dc_collection_push_context': push, 'dx_collection_push_context': push,
                        'dc_collection_finished': finished})

    # restrictions -----------------------------------------------------------------------------------------------------------------

    def restrictions(self):
        N, ch, ok = self.N, self.ch, self.ok
        R = BODY['RESTRICTION']
        me = ('body',) + ME
        for up, field in RESTR.items():
            for n in range(self.n + 2):
                c, p, body = self.tree('RESTRICTION', up, 'MOLD')
                place = (body, N.off(BODY[up], field))
                es = self.queue(c, place, 'RESTRICTION', list(range(n)))
                c.w.put(me, R, 'next', NULL)
                c.w.put(me, R, 'prev', NULL)
                c.w.put(me, R, 're_type', ('s', 'type'))

                def judge(st, r):
                    v = [e for e in st.ev if e[0] == 'valid']
                    if len(v) != 1 or v[0][1] != p:
                        return "does not validate the restriction"
                    a = v[0][2]
                    got = chain(N, st, place, R)
                    if got is None:
                        return "leaves a list of restrictions whose links do not agree"
                    inside = c.state(st, ME) & INPARENT
                    if r == ok and a != ok:
                        return "answers OK for a restriction that is not valid"
                    if r in self.answers(('OK', 'INVALID_CONTEXT', 'ELEMENTS_INVALID')):
                        return None if got == es + [me] and inside and r == a else "does not put the restriction behind those of its parent"
                    if a == ok:
                        return "refuses a valid restriction"
                    return None if got == es and not inside else "keeps a restriction it refuses"
                ch.go('dx_restriction_finalize', [p], c.st, judge,
                      more={'dx_validate_context': self.validation(('OK', 'INVALID_CONTEXT', 'INTERNAL_ERROR', 'RESTRICTION_VIOLATED'))})

    # elements ---------------------------------------------------------------------------------------------------------------------

    def elements(self):
        """a section or keyval that is finalized goes into the storage of its parent under its name, or is refused"""
        N, ch, ok = self.N, self.ch, self.ok

        def add(it, st, args, at):
            s2 = st.copy()
            st.note('add', tuple(args))
            s2.note('full')
            return [(st, ok), (s2, ('c', N.S('NO_MEMORY')))]
        for kind in ('SECTION', 'KEYVAL'):
            for up, root in [(x, r) for x in PARENTS[kind] for r in ((x,) if x != 'SECTION' else ('CONFIG', 'MOLD'))]:
                for state, name in itertools.product((CONSTRUCTING, CONSTRUCTING | INVALID), (True, False)):
                    c, p, body = self.tree(kind, up, root, state)
                    top = ROOT if up == root else UP
                    c.w.put(body, BODY[up], ELEMENTS[up], ('p', ('storage', top), 0))
                    if top == UP:
                        c.w.put(('body',) + ROOT, BODY[root], ELEMENTS[root], ('p', ('storage', ROOT), 0))
                    me = ('body',) + ME
                    for o, f in ((me, NAME[kind]),) + (((body, NAME[up]),) if up in NAME else ()):
                        b = kind if o == me else up
                        s = ('p', ('name', o), 0) if o != me or name else NULL
                        c.st.mem[(o, N.off(BODY[b], f) + N.off('disir_value', 'dv_string'))] = s
                    if kind == 'SECTION':
                        c.w.put(me, BODY[kind], ELEMENTS[kind], ('p', ('storage', ME), 0))

                    def judge(st, r):
                        v = [e for e in st.ev if e[0] == 'valid']
                        adds = [e[1] for e in st.ev if e[0] == 'add']
                        inside = bool(c.state(st, ME) & INPARENT)
                        if bool(adds) != inside:
                            return "does not mark whether the element is in its parent"
                        if not name:
                            return "takes an element without a name" if adds or r == ok else None
                        if adds and adds != [(('p', ('storage', top), 0), ('p', ('name', me), 0), p)]:
                            return "does not put the element into its parent, once, under its name"
                        if len(v) != 1 or v[0][1] != p:
                            return "does not validate the element"
                        a = v[0][2]
                        if r in self.answers(('OK', 'INVALID_CONTEXT', 'ELEMENTS_INVALID')):
                            if r != a:
                                return "does not answer what the validation of the element answers"
                            return None if adds else "accepts an element that is not in its parent"
                        if adds:
                            return "refuses an element it put into its parent"
                        if a in self.answers(('OK', 'INVALID_CONTEXT')) and not [e for e in st.ev if e[0] == 'full']:
                            return "refuses an element its parent has room for"
                        return None
                    names = ('OK', 'INVALID_CONTEXT', 'INTERNAL_ERROR', 'NO_MEMORY') + (('ELEMENTS_INVALID',) if kind == 'SECTION' else ())
                    ch.go('dx_%s_finalize' % kind.lower(), [p], c.st, judge,
                          more={'dx_validate_context': self.validation(names), 'dx_element_storage_add': add})

    # versions ---------------------------------------------------------------------------------------------------------------------

    def versions(self):
        """the versions given to what a mold holds, and the version of the mold"""
        N, ch, ok = self.N, self.ch, self.ok
        INTRO = {'DOCUMENTATION': 'dd_introduced', 'DEFAULT': 'de_introduced', 'SECTION': 'se_introduced', 'RESTRICTION': 're_introduced'}
        DEPR = {'KEYVAL': 'kv_deprecated', 'SECTION': 'se_deprecated', 'RESTRICTION': 're_deprecated'}
        maj = tuple(('s', ('n', i)) for i in range(2))
        for root, kind in itertools.product(('MOLD', 'CONFIG'), PARENTS):
            for what, fields in (('introduced', INTRO), ('deprecated', DEPR)):
                f = fields.get(kind)
                for way in ('add', 'get'):
                    fn = 'dc_%s_%s' % (way, what)
                    c = Case(N)
                    p = c.context(ME, kind, CONSTRUCTING if way == 'add' else FINALIZED, 2, ROOT, ROOT)
                    c.context(ROOT, root, CONSTRUCTING, 2)
                    b = ('body',) + ME
                    both_ = [(b, N.off(BODY[kind], x[kind])) for x in (INTRO, DEPR) if kind in x]
                    for i, (o, k) in enumerate(both_):
                        for j in (0, 4):
                            c.st.mem[(o, k + j)] = ('s', ('old', i, j))
                    for i in range(2):
                        c.st.mem[(VER, 4 * i)] = maj[i]
                    mine = (b, N.off(BODY[kind], f)) if f else None
                    src, dst = ((VER, 0), mine) if way == 'add' else (mine, (VER, 0))
                    m0 = dict(c.st.mem)

                    def judge(st, r):
                        places = set((o, k + j) for o, k in both_ + [(VER, 0)] for j in (0, 4))
                        if r != ok:
                            if f and root == 'MOLD':
                                return "refuses the version of a context that has one"
                            return None if all(st.mem.get(x) == m0[x] for x in places) else "changes a version and answers a failure"
                        if not f or root != 'MOLD':
                            return "answers OK for a context without that version"
                        for j in (0, 4):
                            if st.mem.get((dst[0], dst[1] + j)) != m0[(src[0], src[1] + j)]:
                                return "does not %s the version" % ('keep' if way == 'add' else 'answer')
                            places.discard((dst[0], dst[1] + j))
                        return None if all(st.mem.get(x) == m0[x] for x in places) else "changes another version too"
                    ch.go(fn, [p, ('p', VER, 0)], c.st, judge)
        # the version of a mold is the newest of what it holds
        B = ('body',) + ROOT
        off = N.off(BODY['MOLD'], 'mo_version')
        step = 1 if self.tier == 'thorough' else 2
        fin = lambda it, st, args, at: [(st, ok)]
        models = dict(('dx_%s_finalize' % k.lower(), fin) for k in PARENTS)
        for kind in PARENTS:
            for i, d, m in itertools.product(range(0, self.nv, step) if kind in INTRO else (None,),
                                             [None] + list(range(0, self.nv, step)) if kind in DEPR else (None,), range(0, self.nv, step)):
                c = Case(N)
                p = c.context(ME, kind, CONSTRUCTING, 2, ROOT, ROOT)
                c.context(ROOT, 'MOLD', CONSTRUCTING, 2)
                put_version(c, B, off, m)
                for x, r in ((INTRO, i), (DEPR, d)):
                    if kind in x:
                        put_version(c, ('body',) + ME, N.off(BODY[kind], x[kind]), r)
                c.st.mem[(OUT, 0)] = p
                want = RANK[max(x for x in (i, d, m) if x is not None)]

                def judge(st, r):
                    if r != ok:
                        return None
                    got = tuple(st.mem.get((B, off + j)) for j in (0, 4))
                    return None if got == tuple(('c', x) for x in want) else "does not keep the newest version of its contents as the mold's"
                ch.go('dc_finalize', [('p', OUT, 0)], c.st, judge, more=models)


def run(ctx):
    u = ctx.lib
    N = Names(u)
    finds = []
    cov = {'functions_inlined': set(), 'rules': 0, 'undecided': [], 'paths': 0}
    f = Force(u, N, ctx.tier, finds, cov)
    f.setter = 'dc_keyval_set_default' if 'dc_keyval_set_default' in u.fns else None
    broken = None
    try:
        for step in (f.documentation, f.defaults, f.contexts, f.restrictions, f.elements, f.versions):
            step()
    except KeyError as e:
        broken = "the sources do not have %s" % e
    broken = broken or f.ch.broken or (None if f.ch.paths > 2000 else "only %d paths" % f.ch.paths)
    cov['paths'] = f.ch.paths
    cov['functions_inlined'] = sorted(cov['functions_inlined'])
    cov['undecided'] = ["%s: %s" % x for x in cov['undecided']]
    cov['explanation'] = ("the functions that put documentation, defaults, restrictions, keyvals and sections into what they belong to, and those "
                          "that answer the documentation or default of a version, interpreted on every list of up to two entries (thorough: "
                          "three) in every order of their versions and the version asked about")
    if not broken and len(cov['undecided']) > 3:
        broken = "undecided: %s" % cov['undecided'][:5]
    return finds, cov, ASSUME, broken
