"""Unpacking an archive (P26): the functions that write the entries of an archive to the disk are interpreted (absint.py) on every archive
of up to two entries of any kind, libarchive being modelled; each entry written is judged, and so is the answer."""
import absint
from absint import Cut, Interp, St
from passes import ASSUME, text
from report import Finding

NULL = ('c', 0)
REG, DIR, LNK, OTHER = 0o100000, 0o040000, 0o120000, 0o020000
NODOTDOT, SYMLINKS = 0x200, 0x100
FLOW = ('flow',)
DISK, SOURCE = ('p', ('disk',), 0), ('p', ('source',), 0)
FAILED = -30
EXTRACTS = ('archive_write_disk_new', 'archive_write_header')


def calls(f):
    for b in f.order:
        for i in f.blocks[b]:
            if i[0] == 'call' and isinstance(i[3], str):
                yield i


def reach(u, names):
    """functions from which one of the names is called"""
    direct = {}
    for n, f in u.fns.items():
        direct[n] = set(i[3] for i in calls(f))
    got = set(n for n in direct if direct[n] & set(names))
    while True:
        more = set(n for n in direct if n not in got and direct[n] & got)
        if not more:
            return got
        got |= more


def roots(u):
    """the functions that both open the disk and write entries to it, themselves or through others, innermost"""
    both = reach(u, EXTRACTS[:1]) & reach(u, EXTRACTS[1:])
    return sorted(n for n in both if not any(i[3] in both and i[3] != n for i in calls(u.fns[n])))


class Run(object):
    def __init__(self, u, tier, finds, cov):
        self.u, self.finds, self.cov = u, finds, cov
        self.entries = 3 if tier == 'thorough' else 2
        self.blocks = 2 if tier == 'thorough' else 1
        self.seen = set()
        self.written = 0

    def report(self, why, fr=None):
        f = fr[0]['f'] if fr else self.root
        k = (f.name, why)
        if k in self.seen:
            return
        self.seen.add(k)
        line = f.line
        if fr and fr[1][2]:
            line = fr[1][2][1]
        self.finds.append(Finding("%s|%s" % (f.dname, why), "%s %s" % (f.dname, why), "%s:%d" % (f.file, line)))

    # libarchive -------------------------------------------------------------------------------------------------------------------

    def fork(self, st, outs):
        """[(value, what to set)]"""
        r = []
        for v, put in outs:
            s = st.copy()
            for k, x in put.items():
                s.mem[k] = x
            r.append((s, v))
        return r

    def made(self, what):
        def m(it, st, a, w):
            return [(st, what), (st.copy(), NULL)]
        return m

    def either(self, it, st, a, w):
        return [(st, ('c', 0)), (st.copy(), ('c', FAILED))]

    def checked(self, what):
        def m(it, st, a, w):
            return self.fork(st, [(('c', 0), {}), (('c', FAILED), {(FLOW, 'failed'): what})])
        return m

    def options(self, it, st, a, w):
        if a[0] != DISK:
            return self.either(it, st, a, w)
        v = a[1] if a[1][0] == 'c' else ('top',)
        return self.fork(st, [(('c', 0), {(FLOW, 'options'): v}), (('c', FAILED), {})])

    def next(self, it, st, a, w):
        n = st.mem.get((FLOW, 'n'), 0)
        k = it.place(a[1])
        out = [(('c', 1), {(FLOW, 'end'): 1}), (('c', FAILED), {(FLOW, 'failed'): "could not read the archive to its end"})]
        if n < self.entries:
            put = {(FLOW, 'n'): n + 1}
            if k:
                put[k] = ('p', ('ent', n), 0)
            else:
                st.taint = st.taint or "an entry is kept where it is not known"
            out.append((('c', 0), put))
        self.lost(st, None)
        return self.fork(st, out)

    def ent(self, v):
        return v[1] if v[0] == 'p' and v[1][0] == 'ent' else None

    def asked(self, field, outs):
        def m(it, st, a, w):
            e = self.ent(a[0])
            if e is None:
                st.taint = st.taint or "an entry that is not known"
                return [(st, ('top',))]
            v = st.mem.get((e, field))
            if v is not None:
                return [(st, v)]
            return self.fork(st, [(x(e), {(e, field): x(e)}) for x in outs])
        return m

    def setpath(self, it, st, a, w):
        e = self.ent(a[0])
        if e is None:
            st.taint = st.taint or "an entry that is not known"
        else:
            # the name is copied
            t = it.place(a[1])
            st.mem[(e, 'path')] = ('p', ('set', e), 0)
            st.mem[(('set', e), 'text')] = st.mem.get((t[0], 'text')) if t and t[0][0] not in ('name', 'set') else \
                ('raw',) if t and t[0][0] == 'name' else st.mem.get((t[0], 'text')) if t else None
        return [(st, ('c', 0))]

    def header(self, it, st, a, w):
        if a[0] != DISK:
            st.taint = st.taint or "entries written to something else than the disk"
            return self.either(it, st, a, w)
        e = self.ent(a[1])
        if e is None:
            st.taint = st.taint or "an entry that is not known"
            return self.either(it, st, a, w)
        if st.taint is None:
            self.judge(st, e, w)
        self.lost(st, None)
        return self.fork(st, [(('c', 0), {(FLOW, 'written'): st.mem.get((FLOW, 'written'), 0) + 1, (FLOW, 'open'): e, (FLOW, 'want'): e}),
                              (('c', FAILED), {(FLOW, 'failed'): "could not write an entry"})])

    def judge(self, st, e, w):
        self.written += 1
        o = st.mem.get((FLOW, 'options'))
        if o is None:
            self.report("writes entries without the disk being told to refuse names that lead out of the folder", w)
        elif o[0] == 'c':
            if not o[1] & NODOTDOT:
                self.report("writes entries although their names may lead out of the folder by ..", w)
            if not o[1] & SYMLINKS:
                self.report("writes entries through symbolic links", w)
        p = st.mem.get((e, 'path'))
        if p is None or p[0] == 'p' and p[1][0] == 'name':
            self.report("writes an entry under the name the archive gives it", w)
        elif p[0] == 'p':
            t = st.mem.get((p[1], 'text'))
            if t == ('raw',):
                self.report("writes an entry under the name the archive gives it", w)
            elif t:
                fmt, args, cut = t
                if not fmt.startswith('%s/') or args and args[0][0] == 'p' and args[0][1][0] == 'name':
                    self.report("writes an entry under a name that does not begin with the folder", w)
                elif cut:
                    self.report("writes an entry under a name that was cut off", w)
                elif not any(x[0] == 'p' and x[1] == ('name', e[1]) for x in args[1:]) and \
                        all(x[0] == 'c' or x[0] == 'p' and x[1][0] == 'name' for x in args[1:]):
                    self.report("writes an entry under a name that is not its own", w)
        hard, kind, soft = (st.mem.get((e, x)) for x in ('hard', 'kind', 'soft'))
        if hard != NULL:
            self.report("writes a hard link, which may lead anywhere", w)
        if kind not in (('c', REG), ('c', DIR)) and (soft != NULL or kind == ('c', LNK)):
            self.report("writes an entry that is neither a file nor a folder", w)

    def lost(self, st, v):
        e = st.mem.get((FLOW, 'want'))
        if e:
            z = st.mem.get((e, 'size'))
            if (z is None and st.mem.get((e, 'kind')) == ('c', REG)) or z is not None and z[0] == 's':
                st.mem[(FLOW, 'lost')] = 1
            st.mem[(FLOW, 'want')] = None
        if st.mem.get((FLOW, 'pending')):
            st.mem[(FLOW, 'lost')] = 1
        st.mem[(FLOW, 'pending')] = v

    def data(self, it, st, a, w):
        n = st.mem.get((FLOW, 'block'), 0)
        st.mem[(FLOW, 'want')] = None
        out = [(('c', 1), {}), (('c', FAILED), {(FLOW, 'failed'): "could not read an entry"})]
        self.lost(st, None)
        if n < self.blocks:
            b = ('p', ('data', n), 0)
            put = {(FLOW, 'block'): n + 1, (FLOW, 'pending'): b}
            for k, x in ((1, b), (2, ('s', ('len', n))), (3, ('s', ('at', n)))):
                p = it.place(a[k])
                if p is None:
                    st.taint = st.taint or "data kept where it is not known"
                else:
                    put[p] = x
            out.append((('c', 0), put))
        return self.fork(st, out)

    def plain(self, it, st, a, w):
        """archive_read_data: bytes in the order of the entry"""
        n = st.mem.get((FLOW, 'block'), 0)
        st.mem[(FLOW, 'want')] = None
        self.lost(st, None)
        out = [(('c', 0), {}), (('c', FAILED), {(FLOW, 'failed'): "could not read an entry"})]
        if n < self.blocks:
            v = ('s', ('got', n))
            st.con[v[1]] = (1, 1 << 40, frozenset())
            out.append((v, {(FLOW, 'block'): n + 1, (FLOW, 'pending'): a[1] if a[1][0] == 'p' else ('top',)}))
        return self.fork(st, out)

    def write(self, it, st, a, w):
        b = st.mem.get((FLOW, 'pending'))
        ok = {(FLOW, 'pending'): None}
        if st.mem.get((FLOW, 'open')) is None:
            ok[(FLOW, 'lost')] = 1
        if b and b[0] == 'p' and a[1][0] == 'p' and a[1] != b:
            ok[(FLOW, 'lost')] = 1
        if b and b[0] == 'p' and len(a) < 4 and b[1][0] == 'data':
            ok[(FLOW, 'lost')] = 1              # where the block stands in the entry is not heeded
        if b and b[0] == 'p' and a[1] == b:
            n = b[1][1]
            if b[1][0] == 'data' and (a[2] != ('s', ('len', n)) and a[2][0] in ('s', 'c') or len(a) > 3 and a[3] != ('s', ('at', n)) and a[3][0] in ('s', 'c')):
                ok[(FLOW, 'lost')] = 1
        v = ('c', 0) if len(a) > 3 else a[2]
        return self.fork(st, [(v, ok), (('c', FAILED), {(FLOW, 'pending'): None, (FLOW, 'failed'): "could not write an entry"})])

    def snprintf(self, it, st, a, w):
        fmt = text(self.u, w[1][4][2])
        k = it.place(a[0])
        if not k or a[1][0] != 'c':
            return [(st, ('i', 0, 1 << 20))]
        t = (fmt, tuple(a[3:])) if fmt is not None else None
        n = a[1][1]
        key = (k[0], 'text')
        return self.fork(st, [(('i', 0, n - 1), {key: t and t + (False,)}), (('i', n, 1 << 30), {key: t and t + (True,)})])

    def copy(self, it, st, a, w):
        k = it.place(a[0])
        if k and k[0][0] in ('name', 'set'):
            return [(st, a[0]), (st.copy(), NULL)]
        o = ('copy', w[0]['path'], w[1][1])
        return self.fork(st, [(('p', o, 0), {(o, 'text'): st.mem.get((k[0], 'text')) if k else None}), (NULL, {})])

    def models(self):
        ok = lambda it, st, a, w: [(st, ('c', 0))]
        m = {'archive_write_disk_new': self.made(DISK), 'archive_read_new': self.made(SOURCE),
             'archive_write_disk_set_options': self.options, 'archive_read_next_header': self.next,
             'archive_write_header': self.header, 'archive_read_data_block': self.data, 'archive_read_data': self.plain,
             'archive_write_data_block': self.write, 'archive_write_data': self.write,
             'archive_write_finish_entry': self.finish, 'archive_write_close': self.either, 'archive_write_free': self.either,
             'archive_read_free': self.either, 'archive_read_close': self.either,
             'archive_write_finish': self.either, 'archive_read_finish': self.either,
             'archive_error_string': lambda it, st, a, w: [(st, ('p', ('text',), 0))],
             'archive_errno': lambda it, st, a, w: [(st, ('top',))],
             'archive_entry_set_pathname': self.setpath, 'archive_entry_copy_pathname': self.setpath,
             'archive_entry_update_pathname_utf8': self.setpath,
             'archive_entry_pathname': self.asked('path', [lambda e: ('p', ('name', e[1]), 0), lambda e: NULL]),
             'archive_entry_hardlink': self.asked('hard', [lambda e: ('p', ('link', e[1]), 0), lambda e: NULL]),
             'archive_entry_symlink': self.asked('soft', [lambda e: ('p', ('link', e[1]), 0), lambda e: NULL]),
             'archive_entry_filetype': self.kind, 'archive_entry_mode': self.kind,
             'archive_entry_size': self.size,
             'archive_entry_size_is_set': lambda it, st, a, w: [(st, ('c', 1)), (st.copy(), ('c', 0))],
             'snprintf': self.snprintf, 'strdup': self.copy,
             'strlen': lambda it, st, a, w: [(st, ('i', 0, 1 << 20))]}
        for n in ('archive_entry_hardlink_utf8', 'archive_entry_hardlink_w'):
            m[n] = m['archive_entry_hardlink']
        for n in ('archive_entry_symlink_utf8', 'archive_entry_symlink_w'):
            m[n] = m['archive_entry_symlink']
        for n, f in self.u.fns.items():
            for i in calls(f):
                c = i[3]
                if c in m or c in self.u.fns:
                    continue
                if c.startswith(('archive_read_support_', 'archive_read_open', 'archive_write_disk_set_', 'archive_read_set_')):
                    m[c] = self.either
                elif c.startswith('archive_entry_'):
                    m[c] = lambda it, st, a, w: [(st, ('top',))]
                elif c.startswith('archive_'):
                    m[c] = self.unknown
                elif c.startswith('_Z'):
                    m[c] = self.external
        for n in self.u.fns:
            if n.startswith('_ZS') or n.startswith('_ZNS') or n.startswith('_ZNKS'):
                m[n] = self.external
        return m

    def kind(self, it, st, a, w):
        return self.asked('kind', [lambda e: ('c', REG), lambda e: ('c', DIR), lambda e: ('c', LNK), lambda e: ('c', OTHER)])(it, st, a, w)

    def size(self, it, st, a, w):
        out = self.asked('size', [lambda e: NULL, lambda e: ('s', ('size', e))])(it, st, a, w)
        for s, v in out:
            if v[0] == 's' and v[1] not in s.con:
                s.con[v[1]] = (1, 1 << 40, frozenset())
        return out

    def finish(self, it, st, a, w):
        self.lost(st, None)
        return self.checked("could not write an entry")(it, st, a, w)

    def unknown(self, it, st, a, w):
        st.taint = st.taint or "%s, which is not modelled" % w[1][3]
        return [(st, ('top',))]

    def external(self, it, st, a, w):
        """the standard library: what it is given to fill is not known any more"""
        for x in a:
            k = it.place(x)
            if k and k[0][0] == 'al' and not st.mem.get((k[0], 'text')):
                it.havoc(st, k[0])
        return [(st, ('top',) if w[1][1] >= 0 else ('c', 0))]

    # the functions ----------------------------------------------------------------------------------------------------------------

    def go(self, fn):
        f = self.root = self.u.fns[fn]
        st = St()
        args = [('p', ('arg', k), 0) if p[2] == 'ptr' else ('s', ('arg', k)) for k, p in enumerate(f.params)]
        it = Interp(self.u, self.models(), limit=200000)
        it.icall = None
        try:
            outs = it.run(fn, args, st)
        except (Cut, RecursionError) as e:
            self.cov['undecided'].append("%s: %s" % (f.dname, e))
            return
        self.cov['states'] += it.n
        self.cov['functions_inlined'] |= set(self.u.fns[x].dname for x in it.visited)
        good = False
        for s, r in outs:
            if s.taint:
                self.cov['undecided'].append("%s: %s" % (f.dname, s.taint))
                continue
            self.cov['paths'] += 1
            if r[0] != 'c' and it.related(s, r, NULL) != {'eq'}:
                continue
            if r[0] == 'c' and r[1] != 0:
                continue
            self.lost(s, None)
            fail = s.mem.get((FLOW, 'failed'))
            if fail:
                self.report("answers OK though it " + fail)
            elif s.mem.get((FLOW, 'lost')):
                self.report("answers OK though not all of an entry's data was written")
            elif not s.mem.get((FLOW, 'end')):
                self.report("answers OK before the end of the archive")
            elif s.mem.get((FLOW, 'written')) and s.mem.get((FLOW, 'block')):
                good = True
            n, k = s.mem.get((FLOW, 'n'), 0), s.mem.get((FLOW, 'written'), 0)
            if not fail and k < n:
                self.report("answers OK though an entry was not written")
        if outs and not good and not self.seen and not any(s.taint for s, _ in outs):
            self.report("never unpacks an archive")


def run(ctx):
    cov = {'paths': 0, 'states': 0, 'functions_inlined': set(), 'undecided': [], 'roots': []}
    finds = []
    written = 0
    for u in ctx.units:
        for fn in roots(u):
            r = Run(u, ctx.tier, finds, cov)
            cov['roots'].append(u.fns[fn].dname)
            r.go(fn)
            written += r.written
    cov['entries_judged'] = written
    cov['functions_inlined'] = sorted(cov['functions_inlined'])
    cov['undecided'] = sorted(set(cov['undecided']))
    cov['explanation'] = ("every path of the functions that unpack an archive, for every archive of up to %d entries of any kind; libarchive "
                          "is modelled" % (3 if ctx.tier == 'thorough' else 2))
    return finds, cov, ASSUME, None if cov['roots'] else "no function that unpacks an archive was found"
