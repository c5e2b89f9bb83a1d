"""What an import writes (P22): the functions that classify, resolve and finish the entries of an archive are interpreted
(absint.py) for every state of an entry; what they write, answer and leave behind is compared with what it has to be."""
import itertools

import absint
from absint import Interp, Cut
from passes import ASSUME
from p_guards import Names, World
from report import Finding

INST = ('instance',)
STATES = ('OK', 'CONFLICT', 'CONFLICTING_SEMVER', 'NO_CAN_DO', 'CONFIG_INVALID')


def opts(u):
    return dict((k.replace('DISIR_IMPORT_', ''), v) for k, v in u.enums.get('disir_import_option', ()))


def entry(w, N, o, i, status, marked, conflict):
    w.put(o, 'disir_import_entry', 'ie_status', ('c', N.S(status)))
    w.put(o, 'disir_import_entry', 'ie_import', ('c', int(marked)))
    w.put(o, 'disir_import_entry', 'ie_conflict', ('c', int(conflict)))
    w.put(o, 'disir_import_entry', 'ie_config', ('p', ('config', i), 0))
    w.put(o, 'disir_import_entry', 'ie_group_id', ('p', ('group', i), 0))
    w.put(o, 'disir_import_entry', 'ie_entry_id', ('p', ('id', i), 0))
    w.put(o, 'disir_import_entry', 'ie_info', ('c', 0))
    w.put(o, 'disir_import_entry', 'ie_backend_id', ('p', ('backend', i), 0))
    w.put(o, 'disir_import_entry', 'ie_version', ('p', ('version', i), 0))


def other(it, st, name, known):
    """a status that is none of the known ones"""
    it.forget(st, name)
    st.con[name] = (0, None, frozenset(known))
    return ('s', name)


def text(it, v):
    g = it.u.globals.get(v[1][1]) if v[0] == 'p' and v[1][0] == 'g' else None
    return g[2][1].rstrip('\0') if g and g[0] and g[2] and g[2][0] == 's' else None


def printf(it, st, args, at):
    k = it.place(args[0])
    if k:
        st.mem[(k[0], 'said')] = (text(it, args[2]), tuple(args[3:]))
    return [(st, ('i', 1, 200))]


def dup(it, st, args, at):
    k = it.place(args[0])
    n = st.mem.get((('copies',), 'n'), 0)
    st.mem[(('copies',), 'n')] = n + 1
    o = ('copy', n)
    st.mem[(o, 'said')] = st.mem.get((k[0], 'said')) if k else None
    return [(st, ('p', o, 0))]


class Rule(object):
    def __init__(self, u, fn, finds):
        self.f, self.fn, self.finds, self.seen = u.fns[fn], fn, finds, set()

    def say(self, why):
        if why and why not in self.seen and len(self.seen) < 5:
            self.seen.add(why)
            self.finds.append(Finding("%s|%s" % (self.fn, why), "%s %s" % (self.fn, why), "%s:%d" % (self.f.file, self.f.line)))


def finalize(u, N, tier, finds, cov):
    """exactly the entries resolved for it are written; the report says which were"""
    fn = 'disir_import_finalize'
    if fn not in u.fns:
        return "no " + fn
    R = Rule(u, fn, finds)
    O = opts(u)
    OK = N.S('OK')
    npath = 0

    def write(it, st, args, at):
        s2 = st.copy()
        st.note('write', tuple(args), True)
        s2.note('write', tuple(args), False)
        return [(st, ('c', OK)), (s2, other(it, s2, ('write status',), (OK,)))]

    def destroy(it, st, args, at):
        st.note('destroyed', args[0])
        return [(st, ('c', OK))]

    def tick(it, st, args, at):
        v = it.load(st, args[0])
        st.note('noreport', v)
        it.store(st, args[0], ('c', 0))
        return [(st, ('c', OK))]
    models = dict(disir_config_write=write, dx_import_destroy=destroy, snprintf=printf, strdup=dup, disir_import_report_destroy=tick)
    top = 2 if tier == 'quick' else 3
    # only an entry resolved is marked (that is the rule on resolving)
    kinds = [(s, m, False) for s in STATES for m in (True, False) if s == 'OK' or not m] + [None]
    cases = []
    for opt in sorted(O.values()) + [99]:
        for n in range(top + 1):
            if opt != O['DO'] and n > 1:
                continue
            for es in itertools.product(kinds, repeat=n):
                if n == 3 and len([e for e in es if e and e[0] == 'OK' and e[1]]) not in (1, 3):
                    continue
                for rep in (True, False):
                    cases.append((opt, es, rep, ()))
    cases += [(O['DO'], (('OK', True, False),), True, (x,)) for x in ('instance', 'import', '*import', 'entries')]
    for opt, es, rep, null in cases:
        w = World(N)
        I = ('import',)
        w.put(I, 'disir_import', 'di_num_entries', ('c', len(es)))
        w.put(I, 'disir_import', 'di_entries', ('p', ('array',), 0) if 'entries' not in null else ('c', 0))
        for i, e in enumerate(es):
            w.st.mem[(('array',), 8 * i)] = ('p', ('entry', i), 0) if e else ('c', 0)
            if e:
                entry(w, N, ('entry', i), i, *e)
        w.st.mem[(('caller',), 0)] = ('p', I, 0) if '*import' not in null else ('c', 0)
        w.st.mem[(('report',), 0)] = ('s', 'before')
        it = Interp(u, models)
        it.N = N
        args = [('p', INST, 0) if 'instance' not in null else ('c', 0), ('c', opt), ('p', ('caller',), 0) if 'import' not in null else ('c', 0),
                ('p', ('report',), 0) if rep else ('c', 0)]
        try:
            outs = it.run(fn, args, w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        npath += len(outs)
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            writes = [e for e in st.ev if e[0] == 'write']
            dead = [e for e in st.ev if e[0] == 'destroyed']
            ok = 'eq' in it.related(st, r, ('c', OK))
            kept = st.mem.get((('caller',), 0)) == ('p', I, 0)
            if null or opt not in (O['DO'], O['DISCARD']):
                if writes:
                    R.say("writes entries when it is called with what is not valid")
                elif ok:
                    R.say("answers OK to what is not valid")
                elif dead or not kept and '*import' not in null:
                    R.say("releases the import when it is called with what is not valid")
                continue
            if opt == O['DISCARD']:
                if writes:
                    R.say("writes entries of an import that is discarded")
                elif dead != [('destroyed', ('p', I, 0))] or kept or not ok:
                    R.say("does not release an import that is discarded, once")
                continue
            want = [(('p', INST, 0), ('p', ('group', i), 0), ('p', ('id', i), 0), ('p', ('config', i), 0))
                    for i, e in enumerate(es) if e and e[0] == 'OK' and e[1]]
            got = [e[1] for e in writes]
            if not ok and not writes:
                # no memory for the report
                if dead or not kept:
                    R.say("releases an import it refuses")
                continue
            if len(set(got)) < len(got):
                R.say("writes an entry twice")
            elif [x for x in got if x not in want]:
                x = [x for x in got if x not in want][0]
                own = [i for i in range(len(es)) if x[3] == ('p', ('config', i), 0)]
                R.say("writes an entry that is not resolved for import" if own and es[own[0]] and
                      not (es[own[0]][0] == 'OK' and es[own[0]][1]) else "writes an entry under another group, name or config")
            elif got != want:
                R.say("does not write every entry that is resolved for import")
            elif dead != [('destroyed', ('p', I, 0))] or kept:
                R.say("does not release the import it has finished, once")
            elif rep:
                v = st.mem.get((('report',), 0))
                if not v or v[0] != 'p':
                    R.say("gives no report")
                    continue
                n = st.mem.get((v[1], N.off('import_report', 'ir_entries')))
                a = st.mem.get((v[1], N.off('import_report', 'ir_entry')))
                if n != ('c', len(es)):
                    R.say("gives a report on another number of entries")
                    continue
                done = dict((e[1][3][1][1], e[2]) for e in writes)
                for i, e in enumerate(es):
                    l = st.mem.get((a[1], a[2] + 8 * i)) if a and a[0] == 'p' else None
                    said = st.mem.get((l[1], 'said')) if l and l[0] == 'p' else None
                    claims = bool(said and said[0] and said[0].startswith('Imported'))
                    if claims != bool(done.get(i)):
                        R.say("reports an entry as imported that was not written" if claims else "does not report an entry that was written")
                    elif said and ('p', ('id', i), 0) not in said[1]:
                        R.say("reports on an entry under another name")
    cov['paths'] += npath
    return None if npath > 100 else "only %d paths of %s" % (npath, fn)


def resolve(u, N, tier, finds, cov):
    """an entry is marked for import only by an option its state admits, with a valid config"""
    fn = 'disir_import_resolve_entry'
    if fn not in u.fns:
        return "no " + fn
    R = Rule(u, fn, finds)
    O = opts(u)
    OK = N.S('OK')
    npath = 0

    def update(it, st, args, at):
        s2 = st.copy()
        v = it.load(st, args[0])
        st.note('updated', args[0], args[1])
        it.store(st, args[0], ('p', ('newer', v), 0))
        s2.note('not updated', args[0], args[1])
        return [(st, ('c', OK)), (s2, other(it, s2, ('update status',), (OK,)))]

    def valid(it, st, args, at):
        s2 = st.copy()
        st.note('valid', args[0])
        s2.note('invalid', args[0])
        return [(st, ('c', OK)), (s2, other(it, s2, ('valid status',), (OK,)))]
    models = dict(dx_update_config_with_changes=update, disir_config_valid=valid)
    O2 = dict(O, other=77)
    for (name, opt), s, marked, conflict, index in itertools.product(sorted(O2.items()), STATES, (False, True), (False, True), (0, 1, -1, 2)):
        if marked and s != 'OK' or index != 0 and (marked or s != 'OK'):
            continue
        w = World(N)
        I = ('import',)
        w.put(I, 'disir_import', 'di_num_entries', ('c', 2))
        w.put(I, 'disir_import', 'di_entries', ('p', ('array',), 0))
        for i in range(2):
            w.st.mem[(('array',), 8 * i)] = ('p', ('entry', i), 0)
            entry(w, N, ('entry', i), i, s, marked, conflict)
        before = dict((k, v) for k, v in w.st.mem.items() if k[0][0] == 'entry')
        it = Interp(u, models)
        it.N = N
        try:
            outs = it.run(fn, [('p', I, 0), ('c', index), ('c', opt)], w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        npath += len(outs)
        done = False
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            now = dict((k, v) for k, v in st.mem.items() if k in before)
            o = ('entry', index)
            fld = lambda x: st.mem.get((o, N.off('disir_import_entry', x)))
            ok = 'eq' in it.related(st, r, ('c', OK))
            state = (fld('ie_status'), fld('ie_import')) if 0 <= index < 2 else None
            touched = [k for k in before if before[k] != now.get(k)]
            mine = [k for k in touched if k[0] == o]
            cfg = N.off('disir_import_entry', 'ie_config')
            if len(touched) > len(mine):
                R.say("changes another entry than the one it is asked about")
                continue
            if not 0 <= index < 2 or name == 'other' and s in ('OK', 'CONFLICT', 'CONFLICTING_SEMVER') and not marked:
                if ok or touched:
                    R.say("accepts an index out of bounds" if not 0 <= index < 2 else "accepts an option that is none")
                continue
            became = state == (('c', OK), ('c', 1)) and not marked
            if name == 'DISCARD' and s not in ('NO_CAN_DO', 'CONFIG_INVALID'):
                if not ok or fld('ie_import') != ('c', 0):
                    R.say("does not take a discarded entry out of the import")
                elif fld('ie_status') != ('c', N.S(s)):
                    R.say("changes the status of an entry that is discarded")
                continue
            upd = [e for e in st.ev if e[0] == 'updated']
            may = s not in ('NO_CAN_DO', 'CONFIG_INVALID') and not marked
            if name in ('UPDATE', 'UPDATE_WITH_DISCARD'):
                may = may and s in ('CONFLICT', 'CONFLICTING_SEMVER')
            elif name == 'DO':
                may = may and not conflict and s != 'CONFLICT'
                if s == 'CONFLICT' and not conflict:
                    continue        # a conflict is always marked as one
            elif name != 'FORCE':
                may = False
            what = "with the option %s" % name
            if fld('ie_import') != ('c', int(marked)) and not became:
                R.say("marks an entry for import and leaves its status %s" % what)
                continue
            if not may:
                if ok or became or [k for k in mine if k[1] != cfg]:
                    R.say("resolves an entry %s that must not be resolved so%s" % (what, " (status %s)" % s))
                elif upd:
                    R.say("updates the config of an entry it refuses")
                continue
            cur = fld('ie_config')
            judged = [e for e in st.ev if e[0] == 'valid' and e[1] == cur]
            if became and not judged:
                R.say("marks an entry for import whose config was not found valid %s" % what)
            elif became and name in ('UPDATE', 'UPDATE_WITH_DISCARD') and \
                    upd != [('updated', ('p', o, cfg), ('c', int(name == 'UPDATE_WITH_DISCARD')))]:
                R.say("marks an entry for import without the update asked for %s" % what)
            elif became and name in ('FORCE', 'DO') and upd:
                R.say("updates a config %s" % what)
            elif ok != became:
                R.say("answers OK and does not mark the entry" if ok else "marks an entry for import and does not answer OK")
            elif not ok and [k for k in mine if k[1] != cfg]:
                R.say("changes an entry it refuses %s" % what)
            elif not ok and judged:
                R.say("refuses an entry with a valid config %s" % what)
            done = done or became
    cov['paths'] += npath
    return None if npath > 100 else "only %d paths of %s" % (npath, fn)


def classify(u, N, tier, finds, cov):
    """an entry of an archive is OK and without conflict only when the system knows it, it is readable and valid, of the mold's
    version, and no config stands in its place"""
    fn = 'dx_resolve_config_import_status'
    if fn not in u.fns:
        return "no " + fn
    R = Rule(u, fn, finds)
    OK, NOT, NO, SEM, CON, INV = (N.S(x) for x in ('OK', 'NOT_EXIST', 'NO_CAN_DO', 'CONFLICTING_SEMVER', 'CONFLICT', 'CONFIG_INVALID'))
    FS, BADCTX, MEM = N.S('FS_ERROR'), N.S('INVALID_CONTEXT'), -1
    npath = 0
    cv, mv = N.off('disir_config', 'cf_version'), N.off('disir_mold', 'mo_version')
    E = ('entry', 0)

    def plugin(it, st, args, at):
        s2 = st.copy()
        it.store(st, args[2], ('p', ('plugin',), 0))
        it.store(s2, args[2], ('c', 0))
        s2.note('no plugin')
        if args[1] != ('p', ('group', 0), 0):
            st.note('wrong group')
        return [(st, ('c', OK)), (s2, ('c', OK))]

    def strcmp(it, st, args, at):
        ab = set(it.place(a) for a in args[:2])
        if ab == {(('backend', 0), 0), (('plugin name',), 0)}:
            s2 = st.copy()
            s2.note('other backend')
            return [(st, ('c', 0)), (s2, ('c', 1))]
        return [(st, ('cmp', ('str', args[0]), ('str', args[1])))]

    def call(it, st, v, args, at):
        n = v[1][1] if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'slot' else None
        out = []
        if n == 'dp_mold_read':
            if args[2] != ('p', ('id', 0), 0):
                st.note('wrong entry')
            for r in (OK, NOT) + (MEM,):
                s = st.copy()
                s.note('mold', r)
                if r == OK:
                    it.store(s, args[3], ('p', ('mold',), 0))
                out.append((s, ('c', r) if r >= 0 else other(it, s, ('mold status',), (OK, NOT))))
        elif n == 'dp_config_read':
            if args[2] != ('p', ('id', 0), 0) or args[3] != ('p', ('mold',), 0):
                st.note('wrong entry')
            for r in (OK, NOT, BADCTX) + (MEM,):
                s = st.copy()
                s.note('existing', r)
                if r in (OK, BADCTX):
                    it.store(s, args[4], ('p', ('existing',), 0))
                out.append((s, ('c', r) if r >= 0 else other(it, s, ('existing status',), (OK, NOT, BADCTX))))
        elif n == 'dp_config_fd_read':
            if args[2] != ('p', ('mold',), 0):
                st.note('wrong entry')
            for r in (OK, SEM, FS, BADCTX) + (MEM,):
                s = st.copy()
                s.note('imported', r)
                if r in (OK, BADCTX):
                    it.store(s, args[3], ('p', ('imported',), 0))
                out.append((s, ('c', r) if r >= 0 else other(it, s, ('imported status',), (OK, SEM, FS, BADCTX))))
        else:
            st.taint = st.taint or "a call through a pointer that is not a plugin's"
            out.append((st, ('top',)))
        return out

    def version(it, st, args, at):
        a, b = it.place(args[0]), it.place(args[1])
        return [(st, ('cmp', ('ver', a), ('ver', b)))]

    # two contexts that are there compare as equal, as different, or not at all
    def compare(it, st, args, at):
        out = []
        for r in (OK, CON, MEM):
            s = st.copy()
            s.note('compare', tuple(args[:2]), r)
            out.append((s, ('c', r) if r >= 0 else other(it, s, ('compare status',), (OK, CON, NOT))))
        return out

    def context(it, st, args, at):
        return [(st, ('p', ('context of', args[0][1] if args[0][0] == 'p' else None), 0))]

    def put(it, st, args, at):
        it.store(st, args[0], ('c', 0))
        return [(st, ('c', OK))]

    def fopen(it, st, args, at):
        s2 = st.copy()
        if args[0] != ('p', ('path',), 0):
            st.note('wrong entry')
        s2.note('nofile')
        return [(st, ('p', ('file',), 0)), (s2, ('c', 0))]
    models = dict(dx_retrieve_plugin_by_group=plugin, strcmp=strcmp, dc_version_compare=version, dc_compare=compare,
                  dc_config_getcontext=context, dc_putcontext=put, disir_mold_finished=put, disir_config_finished=put, fopen=fopen,
                  fclose=lambda it, st, a, at: [(st, ('c', 0))], strdup=dup, vsnprintf=printf, snprintf=printf)
    for gone in ((), ('dp_mold_read',), ('dp_config_read',), ('dp_config_fd_read',)):
        w = World(N)
        entry(w, N, E, 0, 'OK', False, False)
        w.put(E, 'disir_import_entry', 'ie_config', ('c', 0))
        w.put(('plugin',), 'disir_register_plugin', 'dp_name', ('p', ('plugin name',), 0))
        for s in ('dp_mold_read', 'dp_config_read', 'dp_config_fd_read'):
            w.put(('plugin',), 'disir_register_plugin', s, ('c', 0) if s in gone else ('s', ('slot', s)))
            w.st.con[('slot', s)] = (1, None, frozenset())
        it = Interp(u, models)
        it.N, it.icall = N, call
        try:
            outs = it.run(fn, [('p', INST, 0), ('p', ('path',), 0), ('p', E, 0)], w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        npath += len(outs)
        clean = False
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            ev = list(st.ev)
            s = r[1] if r[0] == 'c' else OK if 'eq' in it.related(st, r, ('c', OK)) else MEM
            fld = lambda x: st.mem.get((E, N.off('disir_import_entry', x)))
            conflict = fld('ie_conflict') != ('c', 0)
            get = lambda k: [e[1] for e in ev if e[0] == k][-1:] or [None]
            mold, imported, existing = get('mold')[0], get('imported')[0], get('existing')[0]
            if ('wrong group',) in ev or ('wrong entry',) in ev:
                R.say("looks at another group, entry, mold or file")
            if mold != OK or ('other backend',) in ev and imported is None:
                if s != NO:
                    R.say("does not answer NO_CAN_DO for an entry the system has no mold for")
                elif imported is not None:
                    R.say("reads an entry the system has no mold for")
                continue
            if fld('ie_config') != (('p', ('imported',), 0) if imported in (OK, BADCTX) else ('c', 0)):
                R.say("does not keep the config it read")
                continue
            if imported != OK:
                if s not in (NO, INV, MEM) or imported in (FS, BADCTX) and s != INV or imported == SEM and s != NO:
                    R.say("answers %s for an entry that cannot be read (%s)" % (N.why.get(s, s), N.why.get(imported, 'not read')))
                continue
            if existing == NOT:
                rel = it.related(st, ('ver', (('mold',), mv)), ('ver', (('imported',), cv)))
                if conflict:
                    R.say("marks a conflict though no config stands in the entry's place")
                elif s not in (OK, SEM) or s == OK and rel != {'eq'} or s == SEM and 'eq' in rel:
                    R.say("answers %s for an entry of %s version" % (N.why.get(s, s), "the mold's" if rel == {'eq'} else "another"))
                clean = clean or s == OK
                continue
            if existing != OK:
                if s == OK:
                    R.say("answers OK though what stands in the entry's place cannot be read")
                continue
            rel = it.related(st, ('ver', (('existing',), cv)), ('ver', (('imported',), cv)))
            cmp_ = [e for e in ev if e[0] == 'compare']
            both = set((('p', ('context of', ('existing',)), 0), ('p', ('context of', ('imported',)), 0)))
            if any(set(e[1]) != both for e in cmp_):
                R.say("compares something else than the two configs")
                continue
            res = cmp_[-1][2] if cmp_ else None
            if s == OK and not (rel == {'eq'} and res == OK and conflict):
                R.say("answers OK for an entry that differs from the config in its place" if not (rel == {'eq'} and res == OK) else
                      "does not mark that a config stands in the entry's place")
            elif rel and 'eq' not in rel and (s not in (SEM, CON, MEM) or not conflict):
                R.say("does not mark that a config of another version stands in the entry's place")
            elif rel == {'eq'} and res == CON and (s != CON or not conflict):
                R.say("does not mark that another config stands in the entry's place")
            elif rel == {'eq'} and res == OK and s != OK:
                R.say("answers %s for an entry identical to the config in its place" % N.why.get(s, s))
        if not gone and not clean and not R.seen:
            R.say("never answers OK for a new entry")
    cov['paths'] += npath
    return None if npath > 20 else "only %d paths of %s" % (npath, fn)


def run(ctx):
    u = ctx.lib
    N = Names(u)
    N.pid = ctx.pid
    absint.LIMIT = 400000 if ctx.tier == 'quick' else 3000000
    cov = {'paths': 0, 'functions_inlined': set(), 'undecided': []}
    finds = []
    broken = None
    for step in (classify, resolve, finalize):
        try:
            b = step(u, N, ctx.tier, finds, cov)
        except KeyError as e:
            b = "%s: %s" % (step.__name__, e)
        broken = broken or b
    cov['functions_inlined'] = sorted(cov['functions_inlined'])
    cov['undecided'] = sorted(set(cov['undecided']))
    return finds, cov, ASSUME, broken
