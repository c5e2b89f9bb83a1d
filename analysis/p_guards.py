"""Guards on the contents of configs (P12): decided by abstract interpretation (absint.py) of the functions that guard,
on abstract start states; the outcome of every path is compared with what the outcome has to be."""
import itertools

import absint
from absint import Interp, St, Cut
from passes import ASSUME
from report import Finding

TIER = {'quick': 2, 'thorough': 3}
CONSTRUCTING, FINALIZED, INVALID = 1, 2, 8
INVALIDMASK = 56


class Names(object):
    """enumerators and field offsets, by name"""

    def __init__(self, u):
        self.u = u
        self.ty = dict(u.enums.get('disir_context_type', ()))
        self.vt = dict(u.enums.get('disir_value_type', ()))
        self.rt = dict(u.enums.get('disir_restriction_type', ()))
        self.st = dict(u.enums.get('disir_status', ()))
        self.why = dict((v, k.replace('DISIR_STATUS_', '')) for k, v in self.st.items())
        self.offs = {}

    def off(self, struct, field):
        k = (struct, field)
        if k not in self.offs:
            for o, n, _, _ in self.u.structs.get(struct, ()):
                if n == field:
                    self.offs[k] = o
                    break
            else:
                raise KeyError("no field %s in %s" % (field, struct))
        return self.offs[k]

    def C(self, n):
        return self.ty['DISIR_CONTEXT_' + n]

    def V(self, n):
        return self.vt['DISIR_VALUE_TYPE_' + n]

    def R(self, n):
        return self.rt['DISIR_RESTRICTION_' + n]

    def S(self, n):
        return self.st['DISIR_STATUS_' + n]


class World(object):
    """an abstract heap being set up"""

    def __init__(self, names):
        self.n = names
        self.st = St()

    def put(self, obj, struct, field, val, extra=0):
        self.st.mem[(obj, self.n.off(struct, field) + extra)] = val

    def context(self, obj, kind, state, body, parent=None, root=None, refs=1):
        self.put(obj, 'disir_context', 'cx_type', ('c', self.n.C(kind)))
        self.put(obj, 'disir_context', 'cx_state', ('c', state))
        self.put(obj, 'disir_context', 'cx_keyval', ('p', body, 0))
        self.put(obj, 'disir_context', 'cx_parent_context', ('p', parent, 0) if parent else ('c', 0))
        self.put(obj, 'disir_context', 'cx_root_context', ('p', root or obj, 0))
        return ('p', obj, 0)

    def queue(self, obj, struct, field, item, entries):
        """a list of objects linked by next and prev"""
        self.put(obj, struct, field, ('p', entries[0], 0) if entries else ('c', 0))
        for i, e in enumerate(entries):
            nx = entries[i + 1] if i + 1 < len(entries) else None
            self.put(e, item, 'next', ('p', nx, 0) if nx else ('c', 0))
            self.put(e, item, 'prev', ('p', entries[i - 1] if i else entries[-1], 0))

    def version(self, obj, off, a):
        """a version stored at obj+off: two unsigned numbers"""
        for k, part in ((0, 'major'), (4, 'minor')):
            s = ('v', part, a)
            self.st.mem[(obj, off + k)] = ('s', s)
            self.st.con[s] = (0, None, frozenset())


def zero(st, p, it):
    """is the version at p written down as 0.0"""
    return all(st.mem.get((p[0], p[1] + k)) == ('c', 0) for k in (0, 4))


def version_compare(it, st, args, at):
    a, b = it.place(args[0]), it.place(args[1])
    if a is None or b is None:
        return [(st, ('top',))]
    x = ('zero',) if zero(st, a, it) else ('ver',) + a
    y = ('zero',) if zero(st, b, it) else ('ver',) + b
    return [(st, ('cmp', x, y))]


def type_check(it, st, args, at):
    """dx_context_type_check_log_error (context, type..., 0)"""
    t = it.load(st, args[0])
    N = it.N
    if t[0] != 'c' or any(a[0] != 'c' for a in args[1:]):
        s2 = st.copy()
        return [(st, ('c', N.S('OK'))), (s2, ('c', N.S('WRONG_CONTEXT')))]
    return [(st, ('c', N.S('OK') if t[1] in [a[1] for a in args[1:]] else N.S('WRONG_CONTEXT')))]


def nothing(it, st, args, at):
    return [(st, ('c', 0))]


MODELS = {'dc_version_compare': version_compare, 'dx_context_type_check_log_error': type_check,
          'dc_version_string': lambda it, st, a, at: [(st, ('p', ('text',), 0))]}


def possible(it, st, a, b):
    return it.related(st, a, b)


def activity(it, st, N, cfg, e):
    """can the restriction e be active for the config, can it not be: (may, may not)"""
    o1, o2 = N.off('disir_restriction', 're_introduced'), N.off('disir_restriction', 're_deprecated')
    intro = possible(it, st, cfg, ('ver', e, o1))
    dep = possible(it, st, cfg, ('ver', e, o2))
    isset = issets(it, st, ('ver', e, o2), e)
    may = bool(intro & {'gt', 'eq'}) and (isset[1] or isset[0] and 'lt' in dep)
    maynot = 'lt' in intro or isset[0] and bool(dep & {'gt', 'eq'})
    return may, maynot


def issets(it, st, ver, tag):
    """can the version be other than 0.0, can it be 0.0"""
    a, b = ('s', ('v', 'major', ver)), ('s', ('v', 'minor', ver))
    za, zb = it.related(st, a, ('c', 0)), it.related(st, b, ('c', 0))
    z = it.related(st, ver, ('zero',))
    return (('gt' in za or 'gt' in zb) and 'gt' in z, 'eq' in za and 'eq' in zb and 'eq' in z)


def value_check(u, N, tier, finds, cov):
    """the value is accepted exactly when a restriction active for the config's version allows it (or there is none)"""
    FN = 'dx_restriction_exclusive_value_check'
    f = u.fns.get(FN)
    if f is None:
        return "no " + FN
    MIN, MAX, ENUM, RANGE, NUM = (N.R(x) for x in ('INC_ENTRY_MIN', 'INC_ENTRY_MAX', 'EXC_VALUE_ENUM', 'EXC_VALUE_RANGE',
                                                   'EXC_VALUE_NUMERIC'))
    word = {MIN: 'a minimum', MAX: 'a maximum', ENUM: 'an enum', RANGE: 'a range', NUM: 'a numeric'}
    kinds = {'INTEGER': (MIN, RANGE, NUM), 'FLOAT': (MAX, RANGE, NUM), 'ENUM': (MIN, ENUM)}
    V = ('s', 'value')
    OK, BAD = N.S('OK'), N.S('RESTRICTION_VIOLATED')
    npath = 0
    seen = set()
    for T, ks in sorted(kinds.items()):
        for n in range(TIER.get(tier, 2) + 1):
            for types in itertools.product(ks, repeat=n):
                w = World(N)
                ents = [('restriction', i) for i in range(n)]
                root, cf, kv, mold = ('root',), ('config',), ('keyval',), ('mold keyval',)
                w.context(root, 'CONFIG', FINALIZED, cf)
                ctx = w.context(('context',), 'KEYVAL', FINALIZED, kv, root, root)
                w.context(('mold context',), 'KEYVAL', FINALIZED, mold, ('mold root',), ('mold root',))
                w.context(('mold root',), 'MOLD', FINALIZED, ('mold',))
                w.put(kv, 'disir_keyval', 'kv_mold_equiv', ('p', ('mold context',), 0))
                for x in (kv, mold):
                    w.put(x, 'disir_keyval', 'kv_value', ('c', N.V(T)))
                w.queue(mold, 'disir_keyval', 'kv_restrictions_queue', 'disir_restriction', ents)
                w.put(kv, 'disir_keyval', 'kv_restrictions_queue', ('c', 0))
                cfg = ('ver', cf, N.off('disir_config', 'cf_version'))
                for i, e in enumerate(ents):
                    w.put(e, 'disir_restriction', 're_type', ('c', types[i]))
                    w.put(e, 'disir_restriction', 're_value_string', ('p', ('allowed', i), 0))
                    for fl in ('re_value_numeric', 're_value_min', 're_value_max'):
                        w.put(e, 'disir_restriction', fl, ('s', (fl, i)))
                    o = N.off('disir_restriction', 're_deprecated')
                    w.version(e, o, ('ver', e, o))
                it = Interp(u, MODELS)
                it.N = N
                it.unsigned = lambda v: isinstance(v[1], tuple) and v[1][0] == 'v'
                args = [ctx, V if T == 'INTEGER' else ('c', 0), V if T == 'FLOAT' else ('fc', 0.0),
                        ('p', ('given',), 0) if T == 'ENUM' else ('c', 0)]
                try:
                    outs = it.run(FN, args, w.st)
                except Cut as e:
                    return str(e)
                cov['functions_inlined'] |= it.visited
                npath += len(outs)
                for st, r in outs:
                    if st.taint:
                        cov['undecided'].append("%s: %s" % (FN, st.taint))
                        continue
                    opts = []
                    for i, e in enumerate(ents):
                        if types[i] in (MIN, MAX):
                            continue
                        may, maynot = activity(it, st, N, cfg, e)
                        if types[i] == RANGE:
                            lo, hi = possible(it, st, V, ('s', ('re_value_min', i))), possible(it, st, V, ('s', ('re_value_max', i)))
                            y, x = bool(lo & {'eq', 'gt'} and hi & {'eq', 'lt'}), bool('lt' in lo or 'gt' in hi)
                        else:
                            q = possible(it, st, V, ('s', ('re_value_numeric', i))) if types[i] == NUM else \
                                possible(it, st, ('str', ('p', ('given',), 0)), ('str', ('p', ('allowed', i), 0)))
                            y, x = 'eq' in q, bool(q & {'lt', 'gt'})
                        o = []
                        if maynot:
                            o.append('inactive')
                        if may and y:
                            o.append('met')
                        if may and x:
                            o.append('unmet')
                        opts.append(o)
                    for c in itertools.product(*opts):
                        want = BAD if 'met' not in c and ('unmet' in c or T == 'ENUM') else OK
                        if r == ('c', want):
                            continue
                        got = N.why.get(r[1], '?') if r[0] == 'c' else 'any status'
                        what = ", ".join("%s restriction that %s" % (word[t], {'inactive': 'is not active', 'met': 'allows the value',
                                                                              'unmet': 'does not allow it'}[s])
                                         for t, s in zip([t for t in types if t not in (MIN, MAX)], c)) or "no value restriction"
                        k = (T, got, N.why[want], frozenset(zip(types, c)))
                        if k in seen or len(seen) > 5:
                            continue
                        seen.add(k)
                        finds.append(Finding("%s|%s for %s with %s" % (FN, got, T, what),
                                             "%s answers %s for a value of type %s under %s; it has to be %s"
                                             % (FN, got, T, what, N.why[want]), "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 100 else "only %d paths of %s" % (npath, FN)


def keyval_world(N, T, mine, state, pstate=FINALIZED, equiv=True):
    """a keyval of a config, its mold's keyval being of type T and its own value of type mine"""
    w = World(N)
    root, kv, mold = ('root',), ('keyval',), ('mold keyval',)
    w.context(root, 'CONFIG', pstate, ('config',))
    ctx = w.context(('context',), 'KEYVAL', state, kv, root, root)
    w.context(('mold context',), 'KEYVAL', FINALIZED, mold, ('mold root',), ('mold root',))
    w.context(('mold root',), 'MOLD', FINALIZED, ('mold',))
    w.put(kv, 'disir_keyval', 'kv_mold_equiv', ('p', ('mold context',), 0) if equiv else ('c', 0))
    w.put(mold, 'disir_keyval', 'kv_value', ('c', N.V(T)))
    w.put(kv, 'disir_keyval', 'kv_value', ('c', N.V(mine)))
    o = N.off('disir_keyval', 'kv_value')
    for f in ('dv_string', 'dv_size'):
        w.st.mem[(kv, o + N.off('disir_value', f))] = ('s', ('old', f))
    n = N.off('disir_keyval', 'kv_name')
    w.st.mem[(kv, n + N.off('disir_value', 'dv_string'))] = ('p', ('name',), 0)
    w.st.mem[(kv, n + N.off('disir_value', 'dv_size'))] = ('c', 1)
    w.st.mem[(('name',), 0)] = ('c', ord('k'))
    w.st.mem[(('name',), 1)] = ('c', 0)
    return w, ctx, root, kv


def setting(u, N, tier, finds, cov):
    """a value the restrictions refuse does not get into a finalized keyval, and is never answered OK"""
    V = ('s', 'value')
    P = ('p', ('given',), 0)
    OK, BAD, NOMEM = N.S('OK'), N.S('RESTRICTION_VIOLATED'), N.S('NO_MEMORY')
    o = N.off('disir_keyval', 'kv_value')
    slot = {'INTEGER': 1, 'FLOAT': 2, 'ENUM': 3}
    n = 0

    def verdict(it, st, args, at):
        s2 = st.copy()
        st.note('verdict', OK, args[0], args[slot[it.T]])
        s2.note('verdict', BAD, args[0], args[slot[it.T]])
        return [(st, ('c', OK)), (s2, ('c', BAD))]

    def string(it, st, args, at):
        s2 = st.copy()
        st.note('stored', args[0], args[1])
        return [(st, ('c', OK)), (s2, ('c', NOMEM))]
    models = dict(MODELS, dx_restriction_exclusive_value_check=verdict, dx_value_set_string=string)
    for T, fn, args in (('INTEGER', 'dc_set_value_integer', [V]), ('FLOAT', 'dc_set_value_float', [V]),
                        ('ENUM', 'dc_set_value_enum', [P, ('s', 'size')])):
        f = u.fns.get(fn)
        if f is None:
            return "no " + fn
        what = P if T == 'ENUM' else V
        for state in (FINALIZED, CONSTRUCTING):
            w, ctx, root, kv = keyval_world(N, T, T, state)
            it = Interp(u, models)
            it.N = N
            it.T = T
            try:
                outs = it.run(fn, [ctx] + args, w.st)
            except Cut as e:
                return str(e)
            cov['functions_inlined'] |= it.visited
            n += len(outs)
            kept = False
            for st, r in outs:
                if st.taint:
                    cov['undecided'].append("%s: %s" % (fn, st.taint))
                    continue
                ver = [e for e in st.ev if e[0] == 'verdict']
                refused = any(e[1] == BAD for e in ver)
                cells = dict((k, st.mem.get((kv, o + N.off('disir_value', k)))) for k in ('dv_string', 'dv_size'))
                ty = st.mem.get((kv, o))
                stored = any(e[0] == 'stored' and e[1] == ('p', kv, o) for e in st.ev) or \
                    cells['dv_string'] != ('s', ('old', 'dv_string'))
                ok = it.related(st, r, ('c', OK)) if r[0] != 'c' else {'eq'} if r[1] == OK else set()
                why = None
                if stored and not any(e[2] == ctx and e[3] == what for e in ver):
                    why = "stores a value the restrictions were not asked about"
                elif stored and T != 'ENUM' and cells['dv_string'] != what:
                    why = "stores another value than the one it was given"
                elif refused and 'eq' in ok:
                    why = "answers OK for a value the restrictions refuse"
                elif refused and state == FINALIZED and (stored or ty != ('c', N.V(T))):
                    why = "stores a value the restrictions refuse in a finalized keyval"
                elif refused and state == FINALIZED and r != ('c', BAD):
                    why = "does not answer RESTRICTION_VIOLATED for a value the restrictions refuse"
                elif refused and state == CONSTRUCTING:
                    s = st.mem.get((('context',), N.off('disir_context', 'cx_state')))
                    if s and s[0] == 'c' and not s[1] & INVALIDMASK:
                        why = "leaves a keyval with a value the restrictions refuse unmarked"
                elif not refused and 'eq' in ok and not stored:
                    why = "answers OK and does not store the value"
                if not refused and stored and 'eq' in ok:
                    kept = True
                if why:
                    finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
            if not kept and not any(x.key.startswith(fn + "|") for x in finds):
                finds.append(Finding("%s|refuses" % fn, "%s never stores a value the restrictions allow" % fn,
                                     "%s:%d" % (f.file, f.line)))
    cov['paths'] += n
    return None


def keyval_validity(u, N, tier, finds, cov):
    """a keyval of a config is valid only with an equivalent in the mold, a value of the mold's type, one the restrictions
    allow, and a place left for it in a finalized parent"""
    fn = 'dx_validate_context'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    OK, BAD, NOT = N.S('OK'), N.S('RESTRICTION_VIOLATED'), N.S('NOT_EXIST')
    n = 0

    def verdict(it, st, args, at):
        s2 = st.copy()
        k = {'INTEGER': 1, 'FLOAT': 2, 'ENUM': 3}.get(it.T)
        a = args[k] if k else None
        st.note('verdict', OK, a)
        s2.note('verdict', BAD, a)
        return [(st, ('c', OK)), (s2, ('c', BAD))]

    def limit(it, st, args, at):
        it.store(st, args[3], ('s', 'limit' if args[1] == ('c', N.R('INC_ENTRY_MAX')) else 'minimum'))
        return [(st, ('c', OK))]

    def find(it, st, args, at):
        s2 = st.copy()
        it.store(st, args[2], ('p', ('found',), 0))
        st.note('found', args[0])
        s2.note('none')
        return [(st, ('c', OK)), (s2, ('c', NOT))]

    def size(it, st, args, at):
        st.con.setdefault('count', (1, None, frozenset()))
        return [(st, ('s', 'count'))]
    models = dict(MODELS, dx_restriction_exclusive_value_check=verdict, dx_restriction_entries_value=limit, dc_find_elements=find,
                  dc_collection_size=size, dc_collection_finished=nothing)
    cases = [(T, T, True) for T in ('STRING', 'INTEGER', 'FLOAT', 'BOOLEAN', 'ENUM')] + \
        [('INTEGER', 'FLOAT', True), ('STRING', 'INTEGER', True), ('ENUM', 'STRING', True), ('INTEGER', 'INTEGER', False),
         ('BOOLEAN', 'INTEGER', True), ('STRING', 'ENUM', True)]
    for (T, mine, equiv), state, pstate, named in itertools.product(cases, (FINALIZED, CONSTRUCTING), (FINALIZED, CONSTRUCTING),
                                                                   (True, False)):
        w, ctx, root, kv = keyval_world(N, T, mine, state, pstate, equiv)
        # what was there before is the value to be judged
        if not named:
            w.st.mem[(('name',), 0)] = ('c', ord('?'))
        it = Interp(u, models)
        it.N = N
        it.T = T
        try:
            outs = it.run(fn, [ctx], w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        n += len(outs)
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            ver = [e for e in st.ev if e[0] == 'verdict']
            wrong = None
            if not equiv:
                wrong = "without an equivalent in the mold"
            elif T != mine:
                wrong = "whose value is of another type than the mold says"
            elif not named:
                wrong = "with a character in its name that names do not have"
            elif any(e[1] == BAD for e in ver):
                wrong = "with a value the restrictions refuse"
            elif T in ('INTEGER', 'FLOAT', 'ENUM') and not any(e[2] == ('s', ('old', 'dv_string')) for e in ver):
                wrong = "whose value the restrictions were not asked about"
            must = wrong
            if state == CONSTRUCTING and pstate == FINALIZED:
                # one more than the finalized parent may have
                c, m = ('s', 'count'), ('s', 'limit')
                z = it.related(st, m, ('c', 0))
                has = any(e == ('found', ('p', root, 0)) for e in st.ev)
                none = any(e == ('none',) for e in st.ev)
                if not has and not none:
                    full = True if 'lt' in z or 'gt' in z else False
                else:
                    rel = it.related(st, c if has else ('c', 0), m)
                    # a negative limit: none at all
                    full = bool(z & {'lt', 'gt'}) and bool(rel & {'eq', 'gt'})
                if full and not wrong:
                    wrong = "that is one more than its finalized parent may have"
            ok = it.related(st, r, ('c', OK)) if r[0] != 'c' else {'eq'} if r[1] == OK else {'gt'}
            s = st.mem.get((('context',), N.off('disir_context', 'cx_state')))
            marked = s and s[0] == 'c' and s[1] & INVALIDMASK
            full = wrong is not None and must is None
            # the place left in the parent is a matter of numbers (P20), the rest of what the mold says (P12)
            if full != (N.pid == 'P20') and (wrong or N.pid == 'P20'):
                continue
            if wrong and 'eq' in ok:
                finds.append(Finding("%s|keyval %s" % (fn, wrong), "%s answers OK for a keyval %s" % (fn, wrong),
                                     "%s:%d" % (f.file, f.line)))
            elif must and not marked:
                finds.append(Finding("%s|unmarked keyval %s" % (fn, wrong), "%s does not mark a keyval %s as invalid" % (fn, wrong),
                                     "%s:%d" % (f.file, f.line)))
            elif not wrong and ok != {'eq'}:
                finds.append(Finding("%s|refuses" % fn, "%s answers %s for a keyval nothing is wrong with (type %s)"
                                     % (fn, N.why.get(r[1], r) if r[0] == 'c' else r, T), "%s:%d" % (f.file, f.line)))
    cov['paths'] += n
    return None if n > 60 else "only %d paths of %s" % (n, fn)


def orders(it, st, atoms):
    """every way the atoms can be ordered: {atom: rank}"""
    def place(done, k):
        if k == len(atoms):
            yield dict((a, i) for i, c in enumerate(done) for a in c)
            return
        a = atoms[k]
        rel = [(b, it.related(st, a, b)) for c in done for b in c]
        rank = dict((b, i) for i, c in enumerate(done) for b in c)
        for i in range(len(done)):
            if all(('eq' if rank[b] == i else 'lt' if i < rank[b] else 'gt') in r for b, r in rel):
                for x in place(done[:i] + [done[i] + [a]] + done[i + 1:], k + 1):
                    yield x
        for i in range(len(done) + 1):
            if all(('lt' if i <= rank[b] else 'gt') in r for b, r in rel):
                for x in place(done[:i] + [[a]] + done[i:], k + 1):
                    yield x
    return place([], 0)


def entries_value(u, N, tier, finds, cov):
    """how many entries there may and must be: what the newest restriction not newer than the version says"""
    fn = 'dx_restriction_entries_value'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    MIN, MAX, OTHER = (N.R(x) for x in ('INC_ENTRY_MIN', 'INC_ENTRY_MAX', 'EXC_VALUE_RANGE'))
    ri = N.off('disir_restriction', 're_introduced')
    npath = 0
    seen = set()
    top = {'quick': 2, 'thorough': 3}.get(tier, 2)
    cases = []
    for kind, where, given in itertools.product(('SECTION', 'KEYVAL'), ('CONFIG', 'MOLD'), (True, False)):
        for n in range(top + 1):
            for types in itertools.product((MIN, MAX), repeat=n):
                if n == 2 and not given and tier == 'quick' or list(types) != sorted(types) and n > 2:
                    continue
                cases.append((kind, where, given, types))
        cases.append((kind, where, given, (OTHER, MIN)))
    for kind, where, given, types in cases:
        for query in (MIN, MAX):
            w = World(N)
            body, mold = ('entry',), ('mold entry',)
            root = ('root',)
            w.context(root, where, FINALIZED, ('config',) if where == 'CONFIG' else ('mold',))
            ctx = w.context(('context',), kind, FINALIZED, body, root, root)
            src = body
            pre = 'kv' if kind == 'KEYVAL' else 'se'
            S = 'disir_keyval' if kind == 'KEYVAL' else 'disir_section'
            if where == 'CONFIG':
                src = mold
                w.context(('mold context',), kind, FINALIZED, mold, ('mold root',), ('mold root',))
                w.context(('mold root',), 'MOLD', FINALIZED, ('mold',))
                w.put(body, S, pre + '_mold_equiv', ('p', ('mold context',), 0))
                w.put(body, S, pre + '_restrictions_queue', ('c', 0))
                if kind == 'KEYVAL':
                    w.put(body, S, 'kv_default_queue', ('c', 0))
            else:
                w.put(body, S, pre + '_mold_equiv', ('c', 0))
            ents = [('restriction', i) for i in range(len(types))]
            w.queue(src, S, pre + '_restrictions_queue', 'disir_restriction', ents)
            for i, e in enumerate(ents):
                w.put(e, 'disir_restriction', 're_type', ('c', types[i]))
                for fl in ('re_value_min', 're_value_max'):
                    w.put(e, 'disir_restriction', fl, ('s', (fl, i)))
                    w.st.con[('int', (fl, i))] = (0, None, frozenset())
            intro = []
            if kind == 'KEYVAL':
                ds = [('default', i) for i in range(2 if len(types) < 2 else 1)]
                w.queue(src, S, 'kv_default_queue', 'disir_default', ds)
                intro = [('ver', d, N.off('disir_default', 'de_introduced')) for d in ds]
            else:
                intro = [('ver', src, N.off(S, 'se_introduced'))]
            do = N.off(S, pre + '_deprecated')
            dep = ('ver', src, do)
            w.version(src, do, dep)
            if given:
                target, arg = ('ver', ('target',), 0), ('p', ('target',), 0)
            else:
                arg = ('c', 0)
                target = ('ver', ('config',), N.off('disir_config', 'cf_version')) if where == 'CONFIG' else \
                    ('ver', ('mold',), N.off('disir_mold', 'mo_version'))
            out = ('p', ('answer',), 0)
            w.st.mem[(('answer',), 0)] = ('s', 'unset')
            it = Interp(u, MODELS)
            it.N = N
            it.unsigned = lambda v: isinstance(v[1], tuple) and v[1][0] == 'v'
            try:
                outs = it.run(fn, [ctx, ('c', query), arg, out], w.st)
            except Cut as e:
                return str(e)
            cov['functions_inlined'] |= it.visited
            npath += len(outs)
            for st, r in outs:
                if st.taint:
                    cov['undecided'].append("%s: %s" % (fn, st.taint))
                    continue
                got = st.mem.get((('answer',), 0))
                vers = [('ver', e, ri) for i, e in enumerate(ents) if types[i] in (MIN, MAX)]
                sets = issets(it, st, dep, None)
                for rank in orders(it, st, [target] + intro + vers):
                    t = rank[target]
                    gone = []
                    late = min(rank[x] for x in intro) > t
                    rd = it.related(st, dep, target)
                    if late:
                        gone = [True]
                    else:
                        if sets[0] and rd & {'lt', 'eq'}:
                            gone.append(True)
                        if sets[1] or 'gt' in rd:
                            gone.append(False)
                    pick = {}
                    tie = False
                    for q in (MIN, MAX):
                        c = [i for i in range(len(types)) if types[i] == q and rank[('ver', ents[i], ri)] <= t]
                        if c:
                            m = max(rank[('ver', ents[i], ri)] for i in c)
                            c = [i for i in c if rank[('ver', ents[i], ri)] == m]
                            tie = tie or len(c) > 1
                            pick[q] = ('s', ('int', ('re_value_min' if q == MIN else 're_value_max', c[0])))
                    if tie:
                        # two restrictions of one kind are never of one version
                        continue
                    for g in gone:
                        why = None
                        if r != ('c', N.S('OK')):
                            why = "does not answer OK"
                        elif query == MIN:
                            want = ('c', 0) if g else pick.get(MIN, ('c', 1))
                            if it.related(st, got, want) != {'eq'}:
                                why = "minimum"
                        else:
                            a, b = pick.get(MAX), pick.get(MIN)
                            if g:
                                wants = [('c', -1)]
                            elif a is None and b is None:
                                wants = [('c', 1)]
                            elif a is None:
                                wants = [b]
                            else:
                                z = it.related(st, a, ('c', 0))
                                rel = it.related(st, a, b) if b else {'eq'}
                                wants = []
                                if 'eq' in z:
                                    wants.append(('c', 0))
                                if 'gt' in z and rel & {'gt', 'eq'}:
                                    wants.append(a)
                                if 'gt' in z and 'lt' in rel:
                                    wants.append(b)
                            if not all(it.related(st, got, x) == {'eq'} for x in wants):
                                why = "maximum"
                        if not why:
                            continue
                        k = (why, g, kind)
                        if k in seen or len(seen) > 4:
                            continue
                        seen.add(k)
                        if why in ('minimum', 'maximum'):
                            why = "gives a wrong %s for a %s %s" % (
                                why, kind, "not introduced yet or deprecated at the version" if g else
                                "with %s" % (", ".join("a %simum of %s version" % ('min' if types[i] == MIN else 'max',
                                             ['the', 'a later', 'an earlier'][(rank[('ver', ents[i], ri)] > t) - (rank[('ver', ents[i], ri)] < t)])
                                             for i in range(len(types)) if types[i] in (MIN, MAX)) or "no restriction of its number"))
                        finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 300 else "only %d paths of %s" % (npath, fn)


def counting(u, N, tier, finds, cov):
    """a section or config is valid only when it holds as many of every entry of its mold as the mold allows, and when all it
    holds is valid"""
    fn = 'dx_validate_context'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    OK, NOT, END, BAD = N.S('OK'), N.S('NOT_EXIST'), N.S('EXHAUSTED'), N.S('RESTRICTION_VIOLATED')
    top = {'quick': 2, 'thorough': 3}.get(tier, 2)

    def elements(it, st, args, at):
        o = args[0]
        s2 = st.copy()
        col = ('all of', o)
        it.store(st, args[1], ('p', col, 0))
        st.mem[(col, 'pos')] = 0
        s2.note('failed')
        return [(st, ('c', OK)), (s2, ('c', N.S('NO_MEMORY')))]

    def nxt(it, st, args, at):
        if args[0][0] != 'p' or (args[0][1], 'pos') not in st.mem:
            st.taint = st.taint or "a collection the rule did not hand out"
            return [(st, ('top',))]
        col = args[0][1]
        n = st.mem[(col, 'pos')]
        s2 = st.copy()
        s2.note('end', col)
        it.store(s2, args[1], ('c', 0))
        r = [(s2, ('c', END))]
        if n < (top if col[1] == it.source else 2):
            st.mem[(col, 'pos')] = n + 1
            it.store(st, args[1], ('p', ('element', col, n), 0))
            if col[1] == it.source:
                st.note('entry', n)
            r.append((st, ('c', OK)))
        return r

    def name(it, st, args, at):
        if args[0] == it.self:
            it.store(st, args[1], ('p', ('name',), 0))
        else:
            it.store(st, args[1], ('p', ('name of', it.place(args[0])), 0))
        return [(st, ('c', OK))]

    def find(it, st, args, at):
        k = it.place(args[1])
        s2 = st.copy()
        col = ('named', args[0], k[0] if k else None)
        it.store(st, args[2], ('p', col, 0))
        st.note('found', col)
        s2.note('none', col)
        return [(st, ('c', OK)), (s2, ('c', NOT))]

    def size(it, st, args, at):
        n = ('size', args[0])
        if n not in st.con:
            st.con[n] = (1, None, frozenset())
        return [(st, ('s', n))]

    def limit(it, st, args, at):
        q = 'max' if args[1] == ('c', N.R('INC_ENTRY_MAX')) else 'min'
        n = (q, it.place(args[0]), it.place(args[2]))
        if n not in st.con:
            st.con[n] = (-1 if q == 'max' else 0, None, frozenset())
        it.store(st, args[3], ('s', n))
        return [(st, ('c', OK))]

    def put(it, st, args, at):
        it.store(st, args[0], ('c', 0))
        return [(st, ('c', OK))]

    def child(it, st, args, at):
        s2 = st.copy()
        s2.note('bad child')
        return [(st, ('c', OK)), (s2, ('c', BAD)), ]
    models = dict(MODELS, dx_restriction_entries_value=limit, dc_find_elements=find, dc_collection_size=size,
                  dc_collection_finished=nothing, dc_get_elements=elements, dc_collection_next=nxt, dc_get_name=name,
                  dc_putcontext=put, dx_validate_context=child)
    npath = 0
    seen = set()
    for kind, state in itertools.product(('SECTION', 'CONFIG'), (FINALIZED, CONSTRUCTING)):
        w = World(N)
        root = ('root',)
        if kind == 'SECTION':
            w.context(root, 'CONFIG', FINALIZED if state == FINALIZED else CONSTRUCTING, ('config',))
            ctx = w.context(('context',), 'SECTION', state, ('section',), root, root)
            w.context(('mold context',), 'SECTION', FINALIZED, ('mold section',), ('mold root',), ('mold root',))
            w.context(('mold root',), 'MOLD', FINALIZED, ('mold',))
            w.put(('section',), 'disir_section', 'se_mold_equiv', ('p', ('mold context',), 0))
            src = ('p', ('mold context',), 0)
        else:
            ctx = w.context(root, 'CONFIG', state, ('config',))
            w.put(('config',), 'disir_config', 'cf_mold', ('p', ('mold',), 0))
            w.context(('mold root',), 'MOLD', FINALIZED, ('mold',))
            w.put(('mold',), 'disir_mold', 'mo_context', ('p', ('mold root',), 0))
            src = ('p', ('mold root',), 0)
        w.st.mem[(('name',), 0)] = ('c', ord('s'))
        w.st.mem[(('name',), 1)] = ('c', 0)
        ver = (('config',), N.off('disir_config', 'cf_version'))
        it = Interp(u, models)
        it.N = N
        it.source, it.self = src, ctx
        try:
            outs = it.run(fn, [ctx], w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        npath += len(outs)
        word = kind.lower()
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            ev = set(st.ev)
            ok = it.related(st, r, ('c', OK)) if r[0] != 'c' else {'eq'} if r[1] == OK else {'gt'}
            why = None
            if ('failed',) in ev:
                continue
            if ('bad child',) in ev and 'eq' in ok:
                why = "answers OK for a %s that holds something invalid" % word
            if not any(e[0] == 'end' and e[1][1] == src for e in ev) and 'eq' in ok:
                why = "answers OK for a %s without looking at all entries of the mold" % word
            if not any(e[0] == 'end' and e[1][1] == ctx for e in ev) and 'eq' in ok:
                why = "answers OK for a %s without looking at all it holds" % word
            allfine = ('bad child',) not in ev
            for e in ev:
                if e[0] != 'entry':
                    continue
                el = (('element', ('all of', src), e[1]), 0)
                col = ('named', ctx, ('name of', el))
                if ('found', col) in ev:
                    n = ('s', ('size', ('p', col, 0)))
                    if n[1] not in st.con:
                        st.con[n[1]] = (1, None, frozenset())
                elif ('none', col) in ev:
                    n = ('c', 0)
                else:
                    if 'eq' in ok:
                        why = why or "answers OK for a %s without counting an entry of the mold" % word
                    continue
                lo, hi = ('s', ('min', el, ver)), ('s', ('max', el, ver))
                a, z = it.related(st, n, lo), it.related(st, hi, ('c', 0))
                b = it.related(st, n, hi)
                mi = it.interval(st, lo)[0]
                few = 'lt' in a and (mi is not None or True)
                none = it.interval(st, n)[1]
                # what cannot be ruled out on this path
                if n == ('c', 0) and lo[1] not in st.con:
                    few = True
                many = 'gt' in z and 'gt' in b or 'lt' in z and (n != ('c', 0))
                surely = a == {'lt'} or z == {'gt'} and b == {'gt'} or z == {'lt'} and n != ('c', 0)
                if 'eq' in ok and few:
                    why = why or "answers OK for a %s that holds fewer of an entry than its minimum" % word
                elif 'eq' in ok and many:
                    why = why or "answers OK for a %s that holds more of an entry than its maximum" % word
                if surely:
                    s = st.mem.get((ctx[1], N.off('disir_context', 'cx_state')))
                    if s and s[0] == 'c' and not s[1] & INVALIDMASK:
                        why = why or "does not mark a %s with a wrong number of entries as invalid" % word
                if few and a != {'gt', 'eq'} or many:
                    allfine = False
            if allfine and ok != {'eq'} and not why:
                why = "answers %s for a %s nothing is wrong with" % (N.why.get(r[1], r) if r[0] == 'c' else r, word)
            if why and why not in seen:
                seen.add(why)
                finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 60 else "only %d paths of %s" % (npath, fn)


def run(ctx):
    u = ctx.lib
    N = Names(u)
    N.pid = ctx.pid
    absint.LIMIT = 400000 if ctx.tier == 'quick' else 3000000
    cov = {'paths': 0, 'functions_inlined': set(), 'undecided': []}
    finds = []
    broken = None
    for step in {'P12': (value_check, setting, keyval_validity), 'P20': (entries_value, counting, keyval_validity)}[ctx.pid]:
        try:
            b = step(u, N, ctx.tier, finds, cov)
        except KeyError as e:
            b = "%s: %s" % (step.__name__, e)
        broken = broken or b
    cov['functions_inlined'] = sorted(cov['functions_inlined'])
    cov['undecided'] = sorted(set(cov['undecided']))
    return finds, cov, ASSUME, broken
