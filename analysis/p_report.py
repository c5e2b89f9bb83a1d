"""P11: an operation whose step failed does not answer OK.

Every path of every function that returns a status is followed (paths.py).  A step is a call that can fail: one that
returns a status, or a library call from the table below.  On a path that ends in OK, every step must be known to have
succeeded, or to have given one of the answers that are not failures (TOLERATED), or be one whose failure is of no
concern to the caller (FREE).
"""
import os

import passes
import paths
from passes import site, infn, text
from report import Finding

STATUS = 'enum disir_status'
# calls outside the project: what their failure looks like
NZ = 'nonzero'
NEGATIVE = 'negative'
NULL = 'null'
EXTERNAL = {
    'fflush': NZ, 'remove': NZ, 'rename': NZ, 'archive_write_header': NZ, 'archive_write_close': NZ,
    'archive_write_finish_entry': NZ, 'archive_read_open_filename': NZ, 'archive_write_open_filename': NZ,
    'archive_read_support_filter_xz': NZ, 'archive_read_support_format_tar': NZ, 'archive_write_add_filter_xz': NZ,
    'archive_write_set_format': NZ, 'archive_write_disk_set_options': NZ, 'archive_write_disk_set_standard_lookup': NZ,
    'archive_read_data_block': NZ, 'archive_read_next_header': NZ, 'nftw': NZ, 'fclose': NZ, 'ferror': NZ,
    'archive_write_data': NEGATIVE, 'archive_write_data_block': NEGATIVE,
    'malloc': NULL, 'calloc': NULL, 'realloc': NULL, 'strdup': NULL, 'strndup': NULL, 'fopen': NULL, 'opendir': NULL,
    'mkdtemp': NULL, 'dlopen': NULL, 'dlsym': NULL, 'archive_read_new': NULL, 'archive_write_new': NULL,
    'archive_write_disk_new': NULL, 'archive_entry_new': NULL, 'list_create': NULL, 'multimap_create': NULL,
    'list_iterator_create': NULL, 'getcwd': NULL,
}
# giving something back cannot fail in a way that concerns the caller
FREE = frozenset("""
dc_collection_finished dc_destroy dc_putcontext disir_config_finished disir_mold_finished disir_entry_finished
disir_update_finished dx_element_storage_destroy dx_element_storage_remove dx_import_entry_destroy dc_fatal_error dx_archive_destroy
dx_context_dp_full_check_log_error
""".split())
# what a status stands for that is not a failure of the step that answers it
ALL = frozenset(range(1, 32))
MISUSE = frozenset([2, 4, 7, 9])        # the caller's own mistake
INVALID = 6             # the content is invalid, and is marked so
WRONG_CONTEXT, EXISTS, CONFLICT, EXHAUSTED, WRONG_VALUE, NOT_EXIST, VIOLATED = 5, 14, 16, 17, 19, 20, 21
ANSWERS = {
    # there is nothing (more) to find
    'dc_collection_next': (EXHAUSTED,), 'dx_collection_next_noncoalesce': (EXHAUSTED,), 'dc_find_element': (NOT_EXIST,),
    'dc_find_elements': (NOT_EXIST,), 'dc_query_resolve_context_va': (NOT_EXIST,), 'dc_restriction_collection': (NOT_EXIST,),
    'fslib_stat_filepath': (NOT_EXIST,),
    # asks for something that need not be there
    'dc_get_name': ALL, 'dx_restriction_entries_value': ALL, 'dx_get_mold_equiv': ALL, 'dc_get_value_type': ALL,
    'dx_restriction_get_queue': ALL, 'dx_value_get_string': ALL, 'dc_get_documentation': ALL, 'dc_context_valid': ALL,
    'dc_config_get_keyval_string': ALL, 'dc_compare': (NOT_EXIST,),
    # is it there, and of what kind is it
    'dp_config_query': (EXISTS, NOT_EXIST), 'dp_mold_query': (EXISTS, NOT_EXIST), 'dp_config_read': (NOT_EXIST,),
    'disir_config_query': (EXISTS, NOT_EXIST), 'disir_mold_query': (EXISTS, NOT_EXIST), 'assert_json_value_type': ALL,
    'dc_get_introduced': (WRONG_CONTEXT,), 'dc_get_deprecated': (WRONG_CONTEXT,),
    # the name or the value is kept, and the context marked invalid
    'dc_set_name': (NOT_EXIST,), 'set_value': (WRONG_VALUE,),
    # conflicts are for the caller to resolve
    'disir_update_config': (CONFLICT,), 'disir_update_continue': (CONFLICT,), 'disir_update_resolve': (VIOLATED,),
    'dx_resolve_config_import_status': (1, 15, CONFLICT, 26),
}
# where an operation does what it can: (file, step)
BEST_EFFORT = frozenset([
    # over several plugins, and all of a directory
    ('disir_config.c', 'dp_config_query'), ('disir_config.c', 'dp_config_entries'),
    ('disir_mold.c', 'dp_mold_query'), ('disir_mold.c', 'dp_mold_entries'),
    ('query.cc', 'dp_mold_query'), ('query.cc', 'fslib_config_query_entries'), ('query.cc', 'fslib_mold_query_entries'),
    ('query.cc', 'fslib_stat_filepath'),
    # removing what was left behind
    ('disir_archive.cc', 'remove'), ('disir_archive.cc', 'fslib_stat_filepath'), ('disir_export.cc', 'remove'),
    ('disir_archive.cc', 'disir_archive_finalize'), ('disir.c', 'dp_plugin_finished'),
    # texts of reports
    ('disir_import.c', 'strdup'),
    # an import goes on to the next entry; its report and the instance's error tell
    ('disir_import.c', 'disir_config_write'),
])
# functions that give back, or make a text
EXEMPT = frozenset("""
dx_config_destroy dx_mold_destroy dx_section_destroy disir_instance_destroy dc_resolve_root_name
""".split()) | FREE


# output streams to files: constructor -> is what is written kept back until a flush
OPENS = (('_ZN5boost9fdostreamC', False), ('_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC', True),
         ('_ZNSt13basic_fstreamIcSt11char_traitsIcEEC', True))
IOS = '_ZNKSt9basic_iosIcSt11char_traitsIcEE'
CHECKS = {IOS + '4failEv': 'nonzero', IOS + '3badEv': 'nonzero', IOS + 'ntEv': 'nonzero', IOS + '4goodEv': 'null',
          IOS + 'cvbEv': 'null'}
FLUSHES = ('_ZNSo5flushEv', '_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv', '_ZNSt13basic_fstreamIcSt11char_traitsIcEE5closeEv')
QUIET = ('7is_openEv', '5rdbufEv', 'D0Ev', 'D1Ev', 'D2Ev', '10exceptionsEv')


class Watch(paths.Client):
    def __init__(self, u, f, steps, out, cov, param=None):
        self.writes = {}
        if param is not None:
            self.start = (('open', ('a', param), False), ('unchecked', ('a', param), -1, True))
        self.u, self.f, self.steps, self.out, self.cov = u, f, steps, out, cov
        self.at = {}
        self.rets = set()

    def root(self, op):
        """the stream an argument is (part of)"""
        for _ in range(8):
            d = self.f.defs.get(op[1]) if op[0] == 'v' else None
            if d and d[0] == 'gep':
                op = d[3]
            elif d and d[0] == 'cast':
                op = d[4]
            else:
                break
        return tuple(op[:2]) if op[0] in ('v', 'a') else None

    def stream(self, st, ins):
        """what a call does to the output streams it is given"""
        n = ins[3][1] if isinstance(ins[3], list) and ins[3][0] == 'g' else ins[3]
        if isinstance(n, list):
            n = '*'
        for j, a in enumerate(ins[4]):
            r = self.root(a)
            if r is None:
                continue
            for c, kept in OPENS:
                if n.startswith(c) and j == 0:
                    st.ev = frozenset(e for e in st.ev if not (e[0] in ('open', 'unchecked') and e[1] == r)) | frozenset(
                        [('open', r, kept)])
                    return
            op = [e for e in st.ev if e[0] == 'open' and e[1] == r]
            if not op or n.endswith(QUIET):
                continue
            un = [e for e in st.ev if e[0] == 'unchecked' and e[1] == r]
            if n in CHECKS:
                if all(e[3] or not op[0][2] for e in un):
                    st.ev = st.ev - frozenset(un)
                self.at[ins[1]] = ((CHECKS[n], 'writing to a stream'), ins)
                st.ev = st.ev | frozenset([('on', ins[1])])
                continue
            if n in FLUSHES:
                at = un[0][2] if un else ins[2][1]
                st.ev = st.ev - frozenset(un) | frozenset([('unchecked', r, at, True)])
                self.writes.setdefault(at, ins)
                continue
            if n in self.u.fns and not n.startswith(('_ZNS', '_ZNK', '_ZS')) and clean(self.u, n, j):
                st.ev = st.ev - frozenset(un)
                continue
            at = ins[2][1]
            self.writes[at] = ins
            st.ev = st.ev - frozenset(un) | frozenset([('unchecked', r, at, False)])

    def call(self, st, ins):
        self.stream(st, ins)
        if ins[1] < 0:
            return
        k = self.steps(ins)
        if k:
            self.at[ins[1]] = (k, ins)
            st.ev = st.ev | frozenset([('on', ins[1])])

    def holds(self, ev):
        return [e[1] for e in ev if e[0] == 'on']

    def failures(self, sym, con):
        """the answers among those possible that are failures: a set of statuses, or a text"""
        (kind, name), ins = self.at[sym]
        lo, hi, ex = con or paths.TOP
        if kind == 'status':
            return frozenset(n for n in ALL if paths.allows(con, n))
        if kind == NULL:
            return frozenset([0]) if paths.allows(con, 0) else frozenset()
        if kind == NEGATIVE:
            return frozenset([-1]) if lo is None or lo < 0 else frozenset()
        # a warning of the archive library is no failure
        bad = (-25, -30) if name.startswith('archive_') else (-1, 1)
        return frozenset(n for n in bad if paths.allows(con, n))

    def forget(self, st, sym, con):
        st.ev = st.ev - frozenset([('on', sym)])
        bad = self.failures(sym, con)
        if bad:
            st.ev = st.ev | frozenset([('lost', sym, bad)])

    def ret(self, st, ins, val):
        self.cov['returns'] = self.cov.get('returns', 0) + 1
        if val and val[0] == 'c':
            self.rets.add(val[1])
        elif val and val[0] == 's' and val[1] in self.at and self.at[val[1]][0][0] == 'status':
            con = st.con.get(val[1])
            n = self.at[val[1]][1][3]
            self.rets.add((None if isinstance(n, list) else n,
                           frozenset(n for n in range(32) if paths.allows(con, n))))
        else:
            con = st.con.get(val[1]) if val and val[0] == 's' else None
            self.rets.add((None, frozenset(n for n in range(32) if paths.allows(con, n))))
        if val and val[0] == 'c' and val[1] != 0:
            return
        if val and val[0] == 's' and not paths.allows(st.con.get(val[1]), 0):
            return
        for e in st.ev:
            if e[0] == 'open':
                continue
            if e[0] == 'unchecked':
                self.out.setdefault(('stream', e[2]), set()).add(e[1])
                continue
            if e[0] == 'on':
                if val == ('s', e[1]):
                    continue
                bad = self.failures(e[1], st.con.get(e[1]))
            else:
                bad = e[2]
            if bad:
                self.out.setdefault(e[1], set()).update(bad)


memo = {}


def clean(u, n, k):
    """is what a function wrote to the stream it is given checked before it answers OK"""
    key = (u.name, n, k)
    if key not in memo:
        memo[key] = False
        f = u.fns[n]
        w = Watch(u, f, lambda ins: None, {}, {}, k)
        if f.ret != STATUS:
            memo[key] = False
        else:
            ex = paths.Explorer(u, f, w).run()
            memo[key] = not ex.cut and not any(isinstance(s, tuple) for s in w.out)
    return memo[key]


def slot(u, f, op):
    """the name of the field a function pointer was read from"""
    d = f.defs.get(op[1]) if op[0] == 'v' else None
    if d and d[0] == 'load' and d[3][0] == 'v':
        g = f.defs.get(d[3][1])
        if g and g[0] == 'gep' and g[6]:
            st, off = g[6][-1]
            for fl in u.structs.get(st.split('.', 1)[-1], ()):
                if fl[0] == off:
                    return fl[1]
    return '*slot'


def stepper(u, f, lib):
    def mode(op, depth=0):
        d = f.defs.get(op[1]) if op[0] == 'v' and depth < 6 else None
        if d and d[0] == 'call' and d[3] == 'fopen':
            return text(u, d[4][1])
        if d and d[0] == 'phi':
            for v, _ in d[3]:
                m = mode(v, depth + 1)
                if m:
                    return m
        return None

    def steps(ins):
        n = ins[3]
        if isinstance(n, list):
            return ('status', slot(u, f, n)) if ins[5] == 'i32' else None
        g = lib.get(n) or u.fns.get(n)
        if g is None:
            # closing what was read from cannot lose anything
            if n == 'fclose' and (mode(ins[4][0]) or 'w')[0] == 'r':
                return None
            k = EXTERNAL.get(n)
            return (k, n) if k else None
        if g.ret == STATUS and g.dname not in FREE:
            return ('status', g.dname)
        return None
    return steps


def answers(fns, rets):
    """the statuses each function can answer"""
    poss = dict((k, set()) for k in rets)
    more = True
    while more:
        more = False
        for k, rs in rets.items():
            new = set()
            for r in rs:
                if isinstance(r, int):
                    new.add(r)
                elif r[0] is None or r[0] not in poss:
                    new |= r[1]
                else:
                    new |= r[1] & poss[r[0]]
            if not new <= poss[k]:
                poss[k] |= new
                more = True
    return poss


def run(ctx):
    memo.clear()
    cov, raw, rets = {}, [], {}
    lib = ctx.lib.fns
    nfn = nsteps = 0
    for u, f in ctx.functions():
        if f.ret != STATUS:
            continue
        nfn += 1
        out = {}
        w = Watch(u, f, stepper(u, f, lib), out, cov)
        ex = paths.Explorer(u, f, w).run()
        nsteps += len(w.at)
        rets.setdefault(f.name, set()).update(w.rets)
        if ex.cut:
            cov.setdefault('cut_off', []).append(f.dname)
        raw.append((f, w, out))
    poss = answers(None, rets)
    finds = []
    for f, w, out in raw:
        if f.dname in EXEMPT:
            continue
        for sym in sorted((s for s in out if isinstance(s, tuple))):
            ins = w.writes.get(sym[1])
            finds.append(Finding("%s|stream|unchecked" % (infn(f, ins) if ins else f.dname),
                                 "%s can answer OK although writing to its output failed" % f.dname,
                                 site(f, ins) if ins else "%s:%d" % (f.file, f.line)))
        for sym, bad in sorted((s, b) for s, b in out.items() if not isinstance(s, tuple)):
            (kind, name), ins = w.at[sym]
            if kind == 'status':
                bad = bad - MISUSE - {INVALID} - set(ANSWERS.get(name, ()))
                if not isinstance(ins[3], list):
                    bad &= poss.get(ins[3], ALL)
            at = site(f, ins)
            if not bad or (os.path.basename(at.rsplit(':', 1)[0]), name) in BEST_EFFORT:
                continue
            finds.append(Finding("%s|%s|%s" % (infn(f, ins), name, ",".join(map(str, sorted(bad)))),
                                 "%s can answer OK although %s failed" % (f.dname, name), at))
    cov.update({"functions": nfn, "steps": nsteps})
    if nfn < 200 or nsteps < 600:
        return [], cov, passes.ASSUME, "only %d functions and %d steps were found" % (nfn, nsteps)
    return finds, cov, passes.ASSUME, None


if __name__ == "__main__":
    import sys
    c = passes.Ctx('P11', 'quick', sys.argv[1] if len(sys.argv) > 1 else None)
    fi, cov, _, _ = run(c)
    for x in sorted(set((x.key, x.site) for x in fi)):
        print(x)
    print(cov)
