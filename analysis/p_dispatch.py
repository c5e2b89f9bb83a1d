"""Requests and the plugins of a group (P09), the life of a plugin (P24): the functions that dispatch are interpreted
(absint.py) on every small registration queue; the calls they make through the plugins' function pointers are compared with the
calls that had to be made."""
import itertools

import absint
from absint import Interp, Cut
from passes import ASSUME
from p_guards import Names, World
from report import Finding

INST, ASKED, ENTRY, CALLER = ('instance',), ('group asked for',), ('entry id',), ('caller',)
OPS = {'config_read': 'read', 'mold_read': 'read', 'config_query': 'query', 'mold_query': 'query', 'config_write': 'first',
       'mold_write': 'first', 'config_remove': 'first', 'config_entries': 'entries', 'mold_entries': 'entries'}
# the parameters after the instance, the group and the entry; those a caller may leave out
REST = {'config_read': ('mold', 'out'), 'mold_read': ('out',), 'config_query': ('out',), 'mold_query': ('out',),
        'config_write': ('data',), 'mold_write': ('data',), 'config_remove': (), 'config_entries': (), 'mold_entries': ()}
MAYNULL = {'config_read': ('mold',), 'config_query': ('out',), 'mold_query': ('out',)}


def slots(N):
    """offsets of the functions in a registered plugin: {offset: name}"""
    base = N.off('disir_register_plugin_internal', 'pi_plugin')
    out = {}
    for o, n, _, t in N.u.structs.get('disir_register_plugin', ()):
        if n.startswith('dp_') and n[3:] in OPS or n in ('dp_plugin_finished', 'dp_config_fd_read', 'dp_config_fd_write'):
            out[base + o] = n[3:]
    return out


def setup(N, match, have, kind):
    """an instance with plugins; match[i]: is i of the group, have[i]: the functions it has (of those the operation may use)"""
    w = World(N)
    sl = slots(N)
    ents = [('plugin', i) for i in range(len(match))]
    w.queue(INST, 'disir_instance', 'dio_plugin_queue', 'disir_register_plugin_internal', ents)
    for i, e in enumerate(ents):
        w.put(e, 'disir_register_plugin_internal', 'pi_group_id', ('p', ('group', i), 0))
        w.put(e, 'disir_register_plugin_internal', 'pi_io_id', ('p', ('io', i), 0))
        for o, n in sl.items():
            if not n.startswith(kind) or n in have[i]:
                w.st.mem[(e, o)] = ('s', ('slot', n, i))
                w.st.con[('slot', n, i)] = (1, None, frozenset())
            else:
                w.st.mem[(e, o)] = ('c', 0)
    return w


def same(N, match):
    def strcmp(it, st, args, at):
        a, b = it.place(args[0]), it.place(args[1])
        for x, y in ((a, b), (b, a)):
            if x and y and x[0][0] == 'group' and x[1] == 0 and y == (ASKED, 0):
                if match[x[0][1]]:
                    return [(st, ('c', 0))]
                st.con[('differs', x[0][1])] = (None, None, frozenset((0,)))
                return [(st, ('s', ('differs', x[0][1])))]
            if x and y and x[0][0] == 'name' and y[0][0] == 'name':
                return [(st, ('c', 0 if x == y else 1))]
        return [(st, ('cmp', ('str', args[0]), ('str', args[1])))]
    return strcmp


def prefix(it, st, args, at):
    """only part of the names is compared: what differs may agree so far"""
    r = it.models['strcmp'](it, st, args, at)
    if r[0][1] != ('c', 0):
        return [(st, ('s', ('part', args[0], args[1])))]
    return r


def ask(it, st, v, args, at):
    """a call through a plugin's function pointer"""
    if v[0] != 's' or not isinstance(v[1], tuple) or v[1][0] != 'slot':
        st.taint = st.taint or "a call through a pointer that is not a plugin's"
        return [(st, ('top',))]
    _, n, i = v[1]
    N = it.N
    out = []
    if n.endswith('_query'):
        o = ('status', n, i)
        it.forget(st, o)
        for a in (('c', N.S('EXISTS')), ('c', N.S('NOT_EXIST')), ('s', o)):
            s = st.copy()
            s.note('call', n, i, tuple(args), a)
            if a[0] == 's':
                s.con[o] = (0, None, frozenset((N.S('EXISTS'), N.S('NOT_EXIST'))))
            out.append((s, a))
    elif n.endswith('_entries'):
        s = st.copy()
        s.note('call', n, i, tuple(args), ('c', N.S('OK')))
        l = it.lists[i]
        it.store(s, args[2], ('p', ('item', i, 0), 0) if l else ('c', 0))
        out.append((s, ('c', N.S('OK'))))
        s = st.copy()
        o = ('status', n, i)
        it.forget(s, o)
        s.note('call', n, i, tuple(args), ('s', o))
        s.con[o] = (0, None, frozenset((N.S('OK'),)))
        out.append((s, ('s', o)))
    else:
        s = st.copy()
        o = ('status', n, i)
        it.forget(s, o)
        s.note('call', n, i, tuple(args), ('s', o))
        s.con[o] = (0, None, frozenset())
        s.note('answer', ('s', o))
        out.append((s, ('s', o)))
    return out


def strlen(it, st, args, at):
    k = it.place(args[0])
    if k == (ENTRY, 0):
        return [(st, ('c', len(it.entry)))]
    return [(st, ('s', ('strlen', args[0])))]


def isnull(v):
    return v == ('c', 0)


def dispatch(u, N, tier, finds, cov):
    top = {'quick': 2, 'thorough': 3}.get(tier, 2)
    npath = 0
    for op, how in sorted(OPS.items()):
        if how == 'entries':
            continue
        fn = 'disir_' + op
        f = u.fns.get(fn)
        if f is None:
            return "no " + fn
        kind = op.split('_')[0]
        uses = (op, kind + '_query') if how == 'read' else (op,)
        seen = set()
        rest = REST[op]
        forms = [('', ()), ('e/', ()), ('e', ())]
        names = ('instance', 'group', 'entry') + rest
        forms += [('e', (x,)) for x in names]
        for n in range(top + 1):
            for match in itertools.product((True, False), repeat=n):
                hs = [frozenset(x) for k in range(len(uses) + 1) for x in itertools.combinations(uses, k)]
                for have in itertools.product(hs, repeat=n):
                    for entry, null in forms:
                        if null and (n != 1 or not match[0] or have[0] != hs[-1]):
                            continue
                        if not entry.endswith('e') and n > 1:
                            continue
                        w = setup(N, match, have, kind + '_')
                        for k, c in enumerate(entry):
                            w.st.mem[(ENTRY, k)] = ('c', ord(c))
                        w.st.mem[(ENTRY, len(entry))] = ('c', 0)
                        w.st.mem[(('out',), 0)] = ('s', 'before')
                        vals = {'instance': ('p', INST, 0), 'group': ('p', ASKED, 0), 'entry': ('p', ENTRY, 0), 'mold': ('p', ('mold',), 0),
                                'out': ('p', ('out',), 0), 'data': ('p', ('data',), 0)}
                        for x in null:
                            vals[x] = ('c', 0)
                        it = Interp(u, dict(strcmp=same(N, match), strncmp=prefix, strcasecmp=prefix, strncasecmp=prefix, strlen=strlen))
                        it.N, it.icall, it.entry = N, ask, entry
                        try:
                            outs = it.run(fn, [vals[x] for x in names], w.st)
                        except Cut as e:
                            return str(e)
                        cov['functions_inlined'] |= it.visited
                        npath += len(outs)
                        for st, r in outs:
                            if st.taint:
                                cov['undecided'].append("%s: %s" % (fn, st.taint))
                                continue
                            why = judge(N, it, op, how, kind, match, have, entry, null, vals, st, r)
                            if why and why not in seen and len(seen) < 4:
                                seen.add(why)
                                finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 400 else "only %d paths" % npath


def judge(N, it, op, how, kind, match, have, entry, null, vals, st, r):
    calls = [e for e in st.ev if e[0] == 'call']
    base = N.off('disir_register_plugin_internal', 'pi_plugin')
    ok = it.related(st, r, ('c', N.S('OK'))) if r[0] != 'c' else {'eq'} if r[1] == N.S('OK') else {'gt'}
    for c in calls:
        if not match[c[2]]:
            return "calls a plugin of another group"
        want = {op: vals, kind + '_query': vals}.get(c[1])
        if want is None or c[1] != op and how != 'read':
            return "calls a plugin's %s for %s" % (c[1], op)
        if c[3][0] != vals['instance'] or c[3][1] != ('p', ('plugin', c[2]), base) or c[3][2] != vals['entry']:
            return "calls a plugin's %s with something else than the instance, the plugin and the entry" % c[1]
        if c[1] == op and list(c[3][3:]) != [vals[x] for x in REST[op]]:
            return "calls a plugin's %s with something else than what it was given" % c[1]
    bad = [x for x in null if x not in MAYNULL.get(op, ())]
    if bad:
        if calls:
            return "calls a plugin without %s" % bad[0]
        if 'eq' in ok:
            return "answers OK without %s" % bad[0]
        return None
    if how == 'first' and kind == 'config' and not entry.endswith('e'):
        if calls:
            return "calls a plugin for an entry that names a namespace"
        if 'eq' in ok:
            return "answers OK for an entry that names a namespace"
        return None
    group = [i for i in range(len(match)) if match[i]]
    if how == 'first':
        if not group or op not in have[group[0]]:
            if calls:
                return "calls a plugin that is not the first of the group"
            return "answers OK though there is no plugin to answer" if 'eq' in ok else None
        if [c[2] for c in calls] != group[:1]:
            return "does not call the first plugin of the group, once"
        ans = [e[1] for e in st.ev if e[0] == 'answer']
        return None if it.related(st, r, ans[0]) == {'eq'} else "does not answer what the plugin answered"
    asked = [c for c in calls if c[1] == kind + '_query']
    able = [i for i in group if kind + '_query' in have[i]]
    order = [c[2] for c in asked]
    if len(set(order)) != len(order) or order != [i for i in able if i in order]:
        return "does not ask the plugins in the order of their registration"
    yes = [c[2] for c in asked if c[4] == ('c', N.S('EXISTS'))]
    first = yes[0] if yes else None
    if order[:len(able)] != able[:len(order)]:
        return "passes over a plugin of the group"
    if not yes and order != able:
        return "does not ask every plugin of the group"
    if how == 'query':
        if yes and order[-1] != yes[0]:
            return "asks further plugins when one has answered that it holds the entry"
        want = ('c', N.S('EXISTS')) if yes else asked[-1][4] if asked else ('c', N.S('GROUP_MISSING'))
        if it.related(st, r, want) != {'eq'}:
            return "does not answer %s" % ("that the entry exists" if yes else "what the last plugin asked answered" if asked else
                                           "that there is no plugin")
        return None
    reads = [c[2] for c in calls if c[1] == op]
    if first is None:
        if reads:
            return "reads from a plugin that did not say it holds the entry"
        return None if r == ('c', N.S('NOT_EXIST')) else "does not answer that the entry does not exist"
    if op not in have[first]:
        return "reads from another plugin than the first that holds the entry" if reads else \
            "answers OK though nothing is read" if 'eq' in ok else None
    if reads != [first]:
        return "does not read from the first plugin that holds the entry"
    ans = [e[1] for e in st.ev if e[0] == 'answer']
    return None if it.related(st, r, ans[0]) == {'eq'} else "does not answer what the plugin answered"


def entries(u, N, tier, finds, cov):
    """every plugin of the group is asked; of entries with one name the first is kept"""
    npath = 0
    full = tier == 'thorough'
    lists = [(), ('a',), ('a', 'b'), ('b', 'a')] + ([('a', 'a'), ('b',)] if full else [])

    def has(it, st, args, at):
        k = it.place(args[1])
        keys = st.mem.get((('map',), 'keys'), ())
        return [(st, ('c', keys.count(k)))]

    def push(it, st, args, at):
        keys = st.mem.get((('map',), 'keys'), ())
        st.mem[(('map',), 'keys')] = keys + (it.place(args[1]),)
        return [(st, ('c', 0))]

    def create(it, st, args, at):
        s2 = st.copy()
        s2.note('nomap')
        return [(st, ('p', ('map',), 0)), (s2, ('c', 0))]

    def drop(it, st, args, at):
        v = it.load(st, args[0])
        st.note('dropped', v)
        return [(st, ('c', N.S('OK')))]
    for kind in ('config', 'mold'):
        op = kind + '_entries'
        fn = 'disir_' + op
        f = u.fns.get(fn)
        if f is None:
            return "no " + fn
        seen = set()
        for n in range(3):
            for match in itertools.product((True, False), repeat=n):
                for have in itertools.product((frozenset((op,)), frozenset()), repeat=n):
                    live = [match[i] and bool(have[i]) for i in range(n)]
                    for ls in itertools.product(*[lists if live[i] else [('a',)] for i in range(n)]):
                        w = setup(N, match, have, kind + '_')
                        en, nx, pv = (N.off('disir_entry', x) for x in ('de_entry_name', 'next', 'prev'))
                        for i, l in enumerate(ls):
                            for j, c in enumerate(l):
                                o = ('item', i, j)
                                w.st.mem[(o, en)] = ('p', ('name', c), 0)
                                w.st.mem[(o, nx)] = ('p', ('item', i, j + 1), 0) if j + 1 < len(l) else ('c', 0)
                                w.st.mem[(o, pv)] = ('p', ('item', i, j - 1 if j else len(l) - 1), 0)
                        w.st.mem[(('out',), 0)] = ('s', 'before')
                        it = Interp(u, {'strcmp': same(N, match), 'strncmp': prefix, 'strcasecmp': prefix,
                                        'multimap_create': create, 'multimap_contains_key': has, 'multimap_push_value': push,
                                        'multimap_destroy': lambda it, st, a, at: [(st, ('c', 0))], 'disir_entry_finished': drop})
                        it.N, it.icall, it.lists, it.entry = N, ask, ls, 'e'
                        try:
                            outs = it.run(fn, [('p', INST, 0), ('p', ASKED, 0), ('p', ('out',), 0)], w.st)
                        except Cut as e:
                            return str(e)
                        cov['functions_inlined'] |= it.visited
                        npath += len(outs)
                        for st, r in outs:
                            if st.taint:
                                cov['undecided'].append("%s: %s" % (fn, st.taint))
                                continue
                            if ('nomap',) in st.ev:
                                continue
                            calls = [e for e in st.ev if e[0] == 'call']
                            why = None
                            want = [i for i in range(n) if live[i]]
                            base = N.off('disir_register_plugin_internal', 'pi_plugin')
                            if any(not match[c[2]] for c in calls):
                                why = "calls a plugin of another group"
                            elif any(c[1] != op for c in calls):
                                why = "calls a plugin's %s for %s" % ([c[1] for c in calls if c[1] != op][0], op)
                            elif [c[2] for c in calls] != want:
                                why = "does not ask every plugin of the group, once and in order"
                            elif any(c[3][0] != ('p', INST, 0) or c[3][1] != ('p', ('plugin', c[2]), base) for c in calls):
                                why = "calls a plugin with something else than the instance and the plugin"
                            else:
                                names, keep, lose = set(), [], []
                                for c in calls:
                                    if c[4] != ('c', N.S('OK')):
                                        continue
                                    for j, x in enumerate(ls[c[2]]):
                                        (lose if x in names else keep).append(('item', c[2], j))
                                        names.add(x)
                                got, p = [], it.load(st, ('p', ('out',), 0))
                                while p[0] == 'p' and len(got) < 9:
                                    got.append(p[1])
                                    p = st.mem.get((p[1], nx), ('c', 0))
                                if p[0] != 'p' and p != ('c', 0):
                                    why = "gives a list that does not end"
                                elif got != keep:
                                    why = "does not give every name once, from the first plugin that has it"
                                elif sorted(e[1][1] if e[1][0] == 'p' else () for e in st.ev if e[0] == 'dropped') != sorted(lose):
                                    why = "does not release the entries it leaves out, once"
                            if why and why not in seen and len(seen) < 4:
                                seen.add(why)
                                finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 100 else "only %d paths of the entries" % npath


def by_group(u, N, tier, finds, cov):
    fn = 'dx_retrieve_plugin_by_group'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    base = N.off('disir_register_plugin_internal', 'pi_plugin')
    seen = set()
    for n in range(4):
        for match in itertools.product((True, False), repeat=n):
            w = setup(N, match, [frozenset()] * n, 'none')
            w.st.mem[(('out',), 0)] = ('s', 'before')
            it = Interp(u, dict(strcmp=same(N, match), strncmp=prefix, strcasecmp=prefix))
            it.N, it.icall, it.entry = N, ask, 'e'
            try:
                outs = it.run(fn, [('p', INST, 0), ('p', ASKED, 0), ('p', ('out',), 0)], w.st)
            except Cut as e:
                return str(e)
            cov['functions_inlined'] |= it.visited
            cov['paths'] += len(outs)
            want = [('p', ('plugin', i), base) for i in range(n) if match[i]][:1] or [('c', 0)]
            for st, r in outs:
                got = st.mem.get((('out',), 0))
                why = "does not give the first plugin of the group" if got != want[0] else None
                if why and why not in seen:
                    seen.add(why)
                    finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
    return None


def register(u, N, tier, finds, cov):
    """a plugin that is registered is the last of the queue; one that is refused leaves the queue as it was"""
    fn = 'disir_plugin_register'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    S = 'disir_register_plugin_internal'
    nx = N.off(S, 'next')
    seen = set()
    npath = 0

    def dup(it, st, args, at):
        o = ('copy', args[0], st.mem.get((('copies',), 'n'), 0))
        s2 = st.copy()
        st.mem[(('copies',), 'n')] = o[2] + 1
        return [(st, ('p', o, 0)), (s2, ('c', 0))]
    sl = slots(N)
    base = N.off(S, 'pi_plugin')
    for n in range(3):
        ents = [('plugin', i) for i in range(n)]
        w = World(N)
        w.queue(INST, 'disir_instance', 'dio_plugin_queue', S, ents)
        for o in sl:
            w.st.mem[(('given',), o - base)] = ('s', ('given', o))
        w.st.mem[(('given',), N.off('disir_register_plugin', 'dp_storage'))] = ('s', ('given', 'storage'))
        it = Interp(u, dict(strdup=dup, strndup=dup))
        it.N = N
        try:
            outs = it.run(fn, [('p', INST, 0), ('p', ('given',), 0), ('p', ('io asked for',), 0), ('p', ASKED, 0)], w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        npath += len(outs)
        good = False
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            got, p = [], it.load(st, ('p', INST, N.off('disir_instance', 'dio_plugin_queue')))
            while p[0] == 'p' and len(got) < 9:
                got.append(p[1])
                p = st.mem.get((p[1], nx), ('c', 0))
            why = None
            if p[0] != 'p' and p != ('c', 0):
                # a field calloc cleared
                if not (p[0] == 's' and (got[-1], 'zero') in st.mem):
                    why = "leaves a list that does not end"
            if r == ('c', N.S('OK')):
                good = True
                new = got[-1] if got else None
                g = st.mem.get((new, N.off(S, 'pi_group_id'))) if new else None
                i = st.mem.get((new, N.off(S, 'pi_io_id'))) if new else None
                if got[:-1] != ents or len(got) != n + 1 or new in ents:
                    why = why or "does not put the plugin behind those that were there"
                elif not (g and g[0] == 'p' and g[1][:2] == ('copy', ('p', ASKED, 0))):
                    why = why or "does not keep the group it was given"
                elif not (i and i[0] == 'p' and i[1][:2] == ('copy', ('p', ('io asked for',), 0))):
                    why = why or "does not keep the name it was given"
                elif any(st.mem.get((new, o)) != ('s', ('given', o)) for o in sl):
                    why = why or "does not keep the functions it was given"
                elif st.mem.get((new, base + N.off('disir_register_plugin', 'dp_storage'))) != ('s', ('given', 'storage')):
                    why = why or "does not keep the storage it was given"
            elif got != ents:
                why = why or "changes the plugins of the instance and does not answer OK"
            if why and why not in seen:
                seen.add(why)
                finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
        if not good and not seen:
            seen.add('refuses')
            finds.append(Finding("%s|refuses" % fn, "%s never registers a plugin" % fn, "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 6 else "only %d paths of %s" % (npath, fn)


def destroy(u, N, tier, finds, cov):
    """every plugin is told it is finished, once, with its own record, while its code is loaded and the instance is there"""
    fn = 'disir_instance_destroy'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    S = 'disir_register_plugin_internal'
    base = N.off(S, 'pi_plugin')
    seen = set()
    npath = 0

    def free(it, st, args, at):
        k = it.place(args[0])
        if k:
            st.note('free', k[0])
        return [(st, ('c', 0))]

    def close(it, st, args, at):
        st.note('close', args[0])
        return [(st, ('c', 0))]

    def fini(it, st, v, args, at):
        st.note('finished', v, tuple(args))
        return [(st, ('c', N.S('OK')))]

    def config(it, st, args, at):
        st.note('config')
        return [(st, ('c', N.S('OK')))]
    for n in range(3):
        for has in itertools.product((True, False), repeat=n):
            for dl in itertools.product((True, False), repeat=n):
                ents = [('plugin', i) for i in range(n)]
                w = World(N)
                w.queue(INST, 'disir_instance', 'dio_plugin_queue', S, ents)
                w.put(INST, 'disir_instance', 'disir_error_message', ('c', 0))
                for i, e in enumerate(ents):
                    for o, fl, _, t in u.structs[S]:
                        if fl in ('pi_filepath', 'pi_io_id', 'pi_group_id'):
                            w.st.mem[(e, o)] = ('s', (fl, i))
                    for o, fl, _, t in u.structs['disir_register_plugin']:
                        if fl in ('dp_name', 'dp_description', 'dp_config_entry_type', 'dp_mold_entry_type', 'dp_config_base_id', 'dp_mold_base_id'):
                            w.st.mem[(e, base + o)] = ('p', (fl, i), 0)
                        elif fl == 'dp_storage':
                            w.st.mem[(e, base + o)] = ('s', (fl, i))
                    w.put(e, S, 'pi_dl_handler', ('p', ('handle', i), 0) if dl[i] else ('c', 0))
                    fo = ('finished', i)
                    w.put(e, 'disir_register_plugin', 'dp_plugin_finished', ('s', fo) if has[i] else ('c', 0), base)
                    w.st.con[fo] = (1, None, frozenset())
                w.st.mem[(CALLER, 0)] = ('p', INST, 0)
                it = Interp(u, dict(free=free, dlclose=close, disir_config_finished=config))
                it.N, it.icall = N, fini
                try:
                    outs = it.run(fn, [('p', CALLER, 0)], w.st)
                except Cut as e:
                    return str(e)
                cov['functions_inlined'] |= it.visited
                npath += len(outs)
                for st, r in outs:
                    if st.taint:
                        cov['undecided'].append("%s: %s" % (fn, st.taint))
                        continue
                    ev = list(st.ev)
                    why = None
                    for i in range(n):
                        me = ('finished', ('s', ('finished', i)), (('p', INST, 0), ('p', ('plugin', i), base)))
                        calls = [k for k, e in enumerate(ev) if e[0] == 'finished' and e[1] == ('s', ('finished', i))]
                        closes = [k for k, e in enumerate(ev) if e == ('close', ('p', ('handle', i), 0))]
                        if has[i]:
                            if len(calls) != 1:
                                why = "does not tell every plugin that it is finished, once"
                            elif ev[calls[0]] != me:
                                why = "tells a plugin that it is finished with something else than the instance and its own record"
                            elif any(k < calls[0] for k in closes):
                                why = "unloads a plugin before it tells it that it is finished"
                            elif any(e[0] == 'free' and e[1] in (('plugin', i), INST) for e in ev[:calls[0]]):
                                why = "frees what a plugin is told about before it is told"
                        elif calls:
                            why = "calls what is not there"
                        if len(closes) != int(dl[i]):
                            why = why or "does not unload every plugin that was loaded, once"
                    if not why and n and any(e[0] == 'close' and isnull(e[1]) for e in ev):
                        why = "unloads a plugin that was not loaded"
                    if not why and st.mem.get((CALLER, 0)) != ('c', 0):
                        why = "leaves the caller a destroyed instance"
                    if why and why not in seen:
                        seen.add(why)
                        finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 10 else "only %d paths of %s" % (npath, fn)


def loading(u, N, tier, finds, cov):
    """the plugins a config lists are loaded and registered in its order; one that fails is unloaded and the instance refused"""
    fn = 'disir_instance_create'
    f = u.fns.get(fn)
    if f is None:
        return "no " + fn
    OK, NOT, END, BAD = (N.S(x) for x in ('OK', 'NOT_EXIST', 'EXHAUSTED', 'FS_ERROR'))
    S = 'disir_register_plugin_internal'
    seen = set()
    npath = 0

    def text(v):
        g = u.globals.get(v[1][1]) if v[0] == 'p' and v[1][0] == 'g' else None
        return g[2][1].rstrip('\0') if g and g[0] and g[2] and g[2][0] == 's' else None

    def either(slot, obj):
        def m(it, st, args, at):
            s2 = st.copy()
            it.store(st, args[slot], ('p', (obj,), 0))
            if obj == 'libconf':
                st.note('config')
            return [(st, ('c', OK)), (s2, ('c', BAD))]
        return m

    def find(it, st, args, at):
        s2, s3 = st.copy(), st.copy()
        it.store(st, args[2], ('p', ('list',), 0))
        st.mem[(('list',), 'pos')] = 0
        s2.note('none')
        s3.note('failed')
        return [(st, ('c', OK)), (s2, ('c', NOT)), (s3, ('c', BAD))]

    def nxt(it, st, args, at):
        n = st.mem.get((('list',), 'pos'), 0)
        if n < it.count:
            st.mem[(('list',), 'pos')] = n + 1
            it.store(st, args[1], ('p', ('element', n), 0))
            return [(st, ('c', OK))]
        return [(st, ('c', END))]

    def string(it, st, args, at):
        k, t = it.place(args[0]), text(args[2])
        if not k or k[0][0] != 'element' or t is None:
            st.taint = st.taint or "a keyval the rule does not know"
            return [(st, ('top',))]
        if (t, k[0][1]) in it.missing:
            return [(st, ('c', NOT))]
        o = ('text', t, k[0][1])
        st.mem[(o, 0)] = ('c', 0 if (t, k[0][1]) in it.empty else 47)
        it.store(st, args[1], ('p', o, 0))
        return [(st, ('c', OK))]

    def dlopen(it, st, args, at):
        s2 = st.copy()
        n = sum(1 for e in st.ev if e[0] == 'open')
        st.note('open', n, args[0])
        s2.note('noload')
        return [(st, ('p', ('handle', n), 0)), (s2, ('c', 0))]

    def dlsym(it, st, args, at):
        s2 = st.copy()
        k = it.place(args[0])
        o = ('entry point', k[0][1] if k and k[0][0] == 'handle' else None)
        st.con[o] = (1, None, frozenset())
        s2.note('noload')
        return [(st, ('s', o)), (s2, ('c', 0))]

    def dup(it, st, args, at):
        n = st.mem.get((('copies',), 'n'), 0)
        s2 = st.copy()
        s2.note('noload')
        st.mem[(('copies',), 'n')] = n + 1
        return [(st, ('p', ('copy', args[0], n), 0)), (s2, ('c', 0))]

    def close(it, st, args, at):
        st.note('close', args[0])
        return [(st, ('c', 0))]

    def call(it, st, v, args, at):
        if v[0] != 's' or not isinstance(v[1], tuple) or v[1][0] != 'entry point':
            st.taint = st.taint or "a call through a pointer that is not a plugin's"
            return [(st, ('top',))]
        s2 = st.copy()
        st.note('called', v[1][1])
        s2.note('called', v[1][1])
        s2.note('noload')
        return [(st, ('c', OK)), (s2, ('c', BAD))]

    def reg(it, st, args, at):
        s2 = st.copy()
        s2.note('noload')
        n = sum(1 for e in st.ev if e[0] == 'registered')
        o = ('plugin', n)
        k = it.place(args[1])
        base = tuple(st.mem.get((k[0], k[1] + N.off('disir_register_plugin', x))) if k else None
                     for x in ('dp_config_base_id', 'dp_mold_base_id'))
        st.note('registered', n, args[2], args[3], base, sum(1 for e in st.ev if e[0] == 'called'))
        q = it.place(args[0])
        head = (q[0], q[1] + N.off('disir_instance', 'dio_plugin_queue'))
        nx, pv = N.off(S, 'next'), N.off(S, 'prev')
        if n == 0:
            st.mem[head] = ('p', o, 0)
        else:
            st.mem[(('plugin', n - 1), nx)] = ('p', o, 0)
        st.mem[(o, nx)] = ('c', 0)
        st.mem[(o, pv)] = ('p', ('plugin', n - 1), 0) if n else ('p', o, 0)
        st.mem[(('plugin', 0), pv)] = ('p', o, 0)
        return [(st, ('c', OK)), (s2, ('c', BAD))]

    def kill(it, st, args, at):
        v = it.load(st, args[0])
        c = it.load(st, ('p', v[1], N.off('disir_instance', 'libdisir_config'))) if v[0] == 'p' else None
        if c and c[0] == 's' and (v[1], 'zero') in st.mem:
            c = ('c', 0)
        st.note('destroyed', v, c)
        it.store(st, args[0], ('c', 0))
        return [(st, ('c', OK))]

    def put(it, st, args, at):
        it.store(st, args[0], ('c', 0))
        return [(st, ('c', OK))]
    models = {'disir_libdisir_mold': either(0, 'libmold'), 'disir_libdisir_config_from_disk': either(3, 'libconf'),
              'disir_generate_config_from_mold': either(2, 'libconf'), 'dc_find_element': either(3, 'example'), 'dc_destroy': put,
              'dc_config_getcontext': lambda it, st, a, at: [(st, ('p', ('context',), 0))], 'dc_putcontext': put,
              'disir_mold_finished': put, 'dc_find_elements': find, 'dc_collection_next': nxt, 'dc_collection_finished': put,
              'dc_config_get_keyval_string': string, 'dlopen': dlopen, 'dlsym': dlsym, 'dlclose': close, 'strndup': dup, 'strdup': dup,
              'dlerror': lambda it, st, a, at: [(st, ('p', ('text',), 0))], 'disir_plugin_register': reg,
              'disir_instance_destroy': kill}
    need = ('plugin_filepath', 'group_id', 'io_id')
    cases = [(n, (), ()) for n in range(3)] + [(1, ((x, 0),), ()) for x in need] + [(1, (), ((x, 0),)) for x in need] + \
        [(1, (('config_base_id', 0),), ()), (1, (('mold_base_id', 0),), ()), (2, (('group_id', 1),), ()), (2, (), (('io_id', 1),)),
         (2, (('config_base_id', 1), ('mold_base_id', 0)), ())]
    for (count, missing, empty), given, path in itertools.product(cases, (True, False), (True, False)):
        if given and path:
            continue
        w = World(N)
        w.st.mem[(CALLER, 0)] = ('s', 'before')
        it = Interp(u, models)
        it.N, it.icall, it.count, it.missing, it.empty = N, call, count, missing, empty
        try:
            outs = it.run(fn, [('p', ('file',), 0) if path else ('c', 0), ('p', ('given',), 0) if given else ('c', 0), ('p', CALLER, 0)], w.st)
        except Cut as e:
            return str(e)
        cov['functions_inlined'] |= it.visited
        npath += len(outs)
        stop = min([i for _, i in missing + empty if _ in need] or [count])
        good = False
        for st, r in outs:
            if st.taint:
                cov['undecided'].append("%s: %s" % (fn, st.taint))
                continue
            ev = list(st.ev)
            ok = r == ('c', OK)
            opens = [e for e in ev if e[0] == 'open']
            regs = [e for e in ev if e[0] == 'registered']
            dead = [e for e in ev if e[0] == 'destroyed']
            why = None
            if [e[2] for e in opens] != [('p', ('text', 'plugin_filepath', i), 0) for i in range(len(opens))]:
                why = "does not load the plugins in the order the config lists them"
            elif len(opens) > stop:
                why = "loads a plugin without a file, a group or a name"
            for k, e in enumerate(regs):
                want = tuple(None if (x, k) in missing else ('p', ('text', x, k), 0) for x in ('config_base_id', 'mold_base_id'))
                got = tuple(b[1][1] if b and b[0] == 'p' and b[1][0] == 'copy' else None for b in e[4])
                if e[2:4] != (('p', ('text', 'io_id', k), 0), ('p', ('text', 'group_id', k), 0)):
                    why = why or "registers a plugin under another name or group than the config says"
                elif got != want:
                    why = why or "registers a plugin with other base identifiers than the config says"
                elif e[5] != k + 1:
                    why = why or "registers a plugin that has not been asked to register itself"
            for e in opens:
                h = ('p', ('handle', e[1]), 0)
                closed = ev.count(('close', h))
                owner = [i for i in range(len(regs)) if st.mem.get((('plugin', i), N.off(S, 'pi_dl_handler'))) == h]
                if closed + len(owner) > 1:
                    why = why or "unloads a plugin that is registered"
                elif closed + len(owner) < 1:
                    why = why or "neither unloads a plugin nor keeps it registered"
                elif owner and owner != [e[1]]:
                    why = why or "keeps a plugin's code with another plugin"
            if any(e[0] == 'close' and isnull(e[1]) for e in ev):
                why = why or "unloads a plugin that was not loaded"
            if ok:
                good = True
                v = st.mem.get((CALLER, 0))
                n = 0 if ('none',) in ev else count
                c = st.mem.get((v[1], N.off('disir_instance', 'libdisir_config'))) if v and v[0] == 'p' else None
                if ('noload',) in ev or ('failed',) in ev or stop < n or len(regs) != n:
                    why = why or "answers OK though not every plugin of the config is registered"
                elif v is None or v[0] != 'p' or dead:
                    why = why or "answers OK without an instance"
                elif c != ('p', ('given',) if given else ('libconf',), 0):
                    why = why or "does not keep the config"
            else:
                if st.mem.get((CALLER, 0)) != ('s', 'before'):
                    why = why or "gives an instance and does not answer OK"
                elif len(dead) != 1 and (regs or ('config',) in ev):
                    why = why or "does not destroy the instance it refuses, once"
                elif dead and given and dead[0][2] != ('c', 0):
                    why = why or "releases a config that stays the caller's"
                elif dead and ('config',) in ev and dead[0][2] != ('p', ('libconf',), 0):
                    why = why or "does not release the config of the instance it refuses"
            if why and why not in seen and len(seen) < 5:
                seen.add(why)
                finds.append(Finding("%s|%s" % (fn, why), "%s %s" % (fn, why), "%s:%d" % (f.file, f.line)))
        if not good and stop == count and not seen:
            seen.add('refuses')
            finds.append(Finding("%s|refuses" % fn, "%s never gives an instance" % fn, "%s:%d" % (f.file, f.line)))
    cov['paths'] += npath
    return None if npath > 50 else "only %d paths of %s" % (npath, fn)


def run(ctx):
    u = ctx.lib
    N = Names(u)
    N.pid = ctx.pid
    absint.LIMIT = 400000 if ctx.tier == 'quick' else 3000000
    cov = {'paths': 0, 'functions_inlined': set(), 'undecided': []}
    finds = []
    broken = None
    for step in {'P09': (dispatch, entries, by_group), 'P24': (register, loading, destroy)}[ctx.pid]:
        try:
            b = step(u, N, ctx.tier, finds, cov)
        except KeyError as e:
            b = "%s: %s" % (step.__name__, e)
        broken = broken or b
    cov['functions_inlined'] = sorted(cov['functions_inlined'])
    cov['undecided'] = sorted(set(cov['undecided']))
    return finds, cov, ASSUME, broken
