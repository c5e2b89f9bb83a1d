"""The program-wide part: contracts, callee summaries, and the rules (clients)."""
import re
import sys
import time

sys.setrecursionlimit(10000)
from engine import *
import interp as I
from interp import Interp, Summary, sname, fset, fconst, NONZERO, TOPF, fhas

OK = 0
CTX = {'config': 1, 'default': 2, 'documentation': 3, 'keyval': 4, 'mold': 5, 'restriction': 6, 'section': 7}
KINDSTRUCT = {}   # struct name -> set of context types, filled from the enum

# ---------------------------------------------------------------- contracts


def set_out(st, it, args, k, v, ins):
    a = args[k]
    if is_sym(a):
        loc = (a[0], a[1])
        st.mem[loc] = v
        if it.base_root(a[0])[0] != 'A':
            st.wr = st.wr | {loc}


def content(st, it, args, k, ins):
    a = args[k]
    if not is_sym(a):
        return None
    v = it.rd(st, (a[0], a[1]), ins)
    if v == U:
        it.report('uninit', '%s is read by %s before anything was stored in it' % (
            it.describe(a[0]), it.w.pretty(ins[3]) if isinstance(ins[3], str) else 'a callback'), st)
        v = it.fresh(st, ('L', ins[1]))
        st.mem[(a[0], a[1])] = v
    return v


def status(st, it, ins, ok, among=None):
    if ok:
        return 0
    b = ('R', ins[1])
    v = it.fresh(st, b)
    st.facts.pop(b, None)
    it.setfact(st, b, fset(among) if among else NONZERO)
    return v


# too few arguments, wrong context, internal error, insufficient resources: a known kind is never an invalid context
KINDFAIL = (3, 5, 12, 13)


def newsym(st, it, ins, slot, kind, cnt=1, nonnull=True):
    b = ('O', ins[1]) + slot
    v = it.fresh(st, b)
    st.facts.pop(b, None)
    st.esc = st.esc - {b}
    st.dead = st.dead - {b}
    for k in [k for k in st.mem if k[0] == b]:
        del st.mem[k]
    st.own[b] = (kind, cnt, (it.fn.where(ins), ins[1]))
    if nonnull:
        it.setfact(st, b, NONZERO)
    it.count('acquire')
    return v


def alloc(kind, size_zero=False, mn=True, nonnull=False):
    def h(it, st, ins, args):
        b = ('R', ins[1])
        v = it.fresh(st, b)
        st.facts.pop(b, None)
        st.esc = st.esc - {b}
        st.dead = st.dead - {b}
        st.own[b] = (kind, 1, (it.fn.where(ins), ins[1]))
        for k in [k for k in st.mem if k[0] == b]:
            del st.mem[k]
        if nonnull:
            it.setfact(st, b, NONZERO)
        elif mn:
            st.mn = st.mn | {b}
        if size_zero:
            st.mem[(b, '*')] = 0
        else:
            st.mem[(b, '*')] = 'H'
        it.count('acquire')
        return [(st, v)]
    return h


def release(k, kind, retconst=None):
    def h(it, st, ins, args):
        it.release_heap(st, args[k], kind, ins)
        r = it.fresh(st, ('R', ins[1])) if retconst is None else retconst
        return [(st, r)]
    return h


def realloc_(it, st, ins, args):
    """NULL result leaves the old block alone; otherwise the old block is gone."""
    n = st.copy()
    out = []
    # failure
    out.append((n, 0))
    # success
    old = args[0]
    if is_sym(old):
        b = it.base_root(old[0])
        o = st.own.get(b)
        held = [k for k, v in st.mem.items() if is_sym(v) and v[0] == b]
        if it.isnull((b, 0), st) is not True:
            st.own.pop(b, None)
            st.dead = st.dead | {b}
    h = alloc('heap', nonnull=True)
    out += h(it, st, ins, args)
    return out


def pure(ret='any', lo=None, nonnull=False, nn=()):
    """no effect on tracked memory or ownership; nn: arguments dereferenced"""
    def h(it, st, ins, args):
        for k in nn:
            if k < len(args):
                need_nonnull(it, st, args[k], it.w.pretty(ins[3]))
        b = ('R', ins[1])
        v = it.fresh(st, b)
        st.facts.pop(b, None)
        if lo is not None:
            it.setfact(st, b, (lo, INF, EMPTY, None))
        if nonnull or ins[6]:
            it.setfact(st, b, NONZERO)
        return [(st, v)]
    return h


def need_nonnull(it, st, v, callee):
    if v == U:
        return
    if type(v) is int:
        if v == 0:
            it.report('null', 'NULL is passed to %s, which dereferences it' % callee, st)
        return
    if not is_sym(v):
        return
    b = it.base_root(v[0])
    if b in st.dead:
        it.report('uaf', '%s is passed to %s after it was released' % (it.describe(b), callee), st)
        return
    n = it.isnull((b, 0), st)
    if n is True:
        it.report('null', '%s is NULL here and is passed to %s, which dereferences it' % (it.describe(b), callee), st)
    elif n is None:
        if b in st.mn:
            it.report('null', '%s may be NULL and is passed to %s, which dereferences it' % (it.describe(b), callee), st)
        pk = it.paramkey(b)
        if pk is not None and pk not in it.needs:
            it.needs[pk] = it.fn.where(it.cur) + ' (%s)' % callee
        it.setfact(st, b, NONZERO)


def writes_arg(k, nn=(), ret=None):
    """writes through pointer argument k (content unknown), dereferences nn"""
    def h(it, st, ins, args):
        for j in nn:
            need_nonnull(it, st, args[j], it.w.pretty(ins[3]))
        it.havoc_ptr(st, args[k], True)
        return [(st, args[k] if ret == 'arg' else it.fresh(st, ('R', ins[1])))]
    return h


def put_ref(kind='ref', fail_keeps=True):
    """dc_putcontext / dc_destroy (&ctx): gives the reference back, clears the variable"""
    def h(it, st, ins, args):
        need_ptr(it, st, args[0], ins)
        v = content(st, it, args, 0, ins)
        if v is None:
            return [(st, status(st, it, ins, False))]
        out = []
        null = (v == 0) or it.isnull(v, st)
        if null is True:
            return [(st, status(st, it, ins, False))]
        if null is None:
            # the argument may be NULL: refused without effect
            n = st.copy()
            if it.assume_cmp('eq', v, 0, n):
                out.append((n, status(n, it, ins, False)))
            it.assume_cmp('ne', v, 0, st)
        if is_sym(v):
            it.own(st, v[0], kind, -1, ins)
        set_out(st, it, args, 0, 0, ins)
        it.invalidate(st, it.w.summary_mods(ins[3]))
        out.append((st, 0))
        return out
    return h


def need_ptr(it, st, a, ins):
    pass


def decref(it, st, ins, args):
    v = content(st, it, args, 0, ins)
    if v is None or v == 0:
        return [(st, 0)]
    if is_sym(v):
        if it.isnull(v, st) is None:
            n = st.copy()
            it.assume_cmp('ne', v, 0, st)
            it.own(st, v[0], 'ref', -1, ins)
            it.invalidate(st, it.w.summary_mods(ins[3]))
            set_out(st, it, args, 0, 'H', ins)
            out = [(st, 0)]
            if it.assume_cmp('eq', v, 0, n):
                out.append((n, 0))
            return out
        if it.isnull(v, st) is True:
            return [(st, 0)]
        it.own(st, v[0], 'ref', -1, ins)
    a = args[0]
    set_out(st, it, args, 0, 'H', ins)
    it.invalidate(st, it.w.summary_mods(ins[3]))
    return [(st, 0)]


def incref(it, st, ins, args):
    v = args[0]
    if is_sym(v):
        if it.isnull(v, st) is True:
            return [(st, 0)]
        it.own(st, v[0], 'ref', 1, ins)
    return [(st, 0)]


def ctx_destroy_raw(it, st, ins, args):
    """dx_context_destroy (&ctx): frees a context that was never handed out"""
    v = content(st, it, args, 0, ins)
    if is_sym(v) and it.isnull(v, st) is not True:
        it.own(st, v[0], 'ref', -1, ins)
    set_out(st, it, args, 0, 0, ins)
    return [(st, 0)]


def ctx_create(it, st, ins, args):
    n = st.copy()
    b = ('R', ins[1])
    v = it.fresh(st, b)
    st.facts.pop(b, None)
    it.setfact(st, b, NONZERO)
    st.own[b] = ('ref', 1, (it.fn.where(ins), ins[1]))
    st.mem[(b, '*')] = 0
    it.lockey[(b, 0)] = ('disir_context', 0)
    st.mem[(b, 0)] = args[0]
    return [(st, v), (n, 0)]


def begin(kind='ref', out=-1):
    """OK: *out is a new owned object; failure: *out as it was"""
    def h(it, st, ins, args):
        n = st.copy()
        k = out if out >= 0 else len(args) - 1
        f = status(n, it, ins, False)
        res = [(n, f)]
        v = newsym(st, it, ins, ('w', k, 0), kind)
        if not isinstance(ins[3], list) and ins[3] == 'dc_begin':
            it.lockey[(v[0], 0)] = ('disir_context', 0)
            st.mem[(v[0], 0)] = args[1]
        set_out(st, it, args, k, v, ins)
        it.invalidate(st, it.w.summary_mods(ins[3]))
        res.append((st, 0))
        return res
    return h


def finalize(it, st, ins, args):
    """OK: reference consumed, variable cleared.  INVALID_CONTEXT: either consumed and cleared,
    or kept (the caller puts it).  Other failure: kept."""
    v = content(st, it, args, 0, ins)
    if v is None:
        return [(st, status(st, it, ins, False))]
    if v == 0 or it.isnull(v, st) is True:
        return [(st, status(st, it, ins, False))]
    out = []
    inv = it.w.enum['DISIR_STATUS_INVALID_CONTEXT']
    if is_sym(v) and it.isnull(v, st) is None:
        n = st.copy()
        if it.assume_cmp('eq', v, 0, n):
            out.append((n, status(n, it, ins, False)))
        it.assume_cmp('ne', v, 0, st)
    mods = it.w.summary_mods(ins[3])
    it.invalidate(st, mods)
    # consumed, OK
    a = st.copy()
    if is_sym(v):
        it.own(a, v[0], 'ref', -1, ins)
    set_out(a, it, args, 0, 0, ins)
    out.append((a, 0))
    # children invalid: consumed
    b = st.copy()
    if is_sym(v):
        it.own(b, v[0], 'ref', -1, ins)
    set_out(b, it, args, 0, 0, ins)
    out.append((b, inv))
    # invalid: kept
    c = st.copy()
    out.append((c, inv))
    # refused: kept
    d = st.copy()
    r = status(d, it, ins, False)
    it.assume_cmp('ne', r, inv, d)
    out.append((d, r))
    return out


def finalize_top(it, st, ins, args):
    """dc_config_finalize / dc_mold_finalize (&ctx, &object): the context reference becomes the object's."""
    v = content(st, it, args, 0, ins)
    if v is None or v == 0 or it.isnull(v, st) is True:
        return [(st, status(st, it, ins, False))]
    out = []
    inv = it.w.enum['DISIR_STATUS_INVALID_CONTEXT']
    if is_sym(v) and it.isnull(v, st) is None:
        n = st.copy()
        if it.assume_cmp('eq', v, 0, n):
            out.append((n, status(n, it, ins, False)))
        it.assume_cmp('ne', v, 0, st)
    it.invalidate(st, it.w.summary_mods(ins[3]))
    d = st.copy()
    r = status(d, it, ins, False)
    it.assume_cmp('ne', r, inv, d)
    out.append((d, r))
    for rc in (0, inv):
        a = st.copy()
        if is_sym(v):
            it.own(a, v[0], 'ref', -1, ins)
        set_out(a, it, args, 0, 0, ins)
        nv = newsym(a, it, ins, ('w', 1, 0), 'object')
        set_out(a, it, args, 1, nv, ins)
        out.append((a, rc))
    return out


def give_object(k, inv=True):
    """plugin / reader: OK (or INVALID_CONTEXT) hands out an object through argument k"""
    def h(it, st, ins, args):
        n = st.copy()
        f = status(n, it, ins, False)
        invc = it.w.enum['DISIR_STATUS_INVALID_CONTEXT']
        res = []
        if inv:
            it.assume_cmp('ne', f, invc, n)
        res.append((n, f))
        for rc in ((0, invc) if inv else (0,)):
            a = st.copy()
            v = newsym(a, it, ins, ('w', k, 0), 'object')
            set_out(a, it, args, k, v, ins)
            res.append((a, rc))
        return res
    return h


def query_slot(k):
    """plugin query: EXISTS hands out an entry through argument k, where one is wanted"""
    def h(it, st, ins, args):
        ex = it.w.enum['DISIR_STATUS_EXISTS']
        n = st.copy()
        res = []
        f = status(n, it, ins, False)
        it.assume_cmp('ne', f, ex, n)
        res.append((n, f))
        res.append((st.copy(), 0))
        null = it.isnull(args[k], st)
        if null is not False:
            m = st.copy()
            if is_sym(args[k]) and args[k][1] == 0:
                it.setfact(m, args[k][0], fset([0]))
            res.append((m, ex))
        if null is not True:
            if is_sym(args[k]) and null is None and args[k][1] == 0:
                it.setfact(st, args[k][0], NONZERO)
            v = newsym(st, it, ins, ('w', k, 0), 'heap')
            set_out(st, it, args, k, v, ins)
            res.append((st, ex))
        return res
    return h


def put_object(it, st, ins, args):
    v = content(st, it, args, 0, ins)
    if v is None or v == 0 or it.isnull(v, st) is True:
        return [(st, status(st, it, ins, False))]
    out = []
    if is_sym(v):
        if it.isnull(v, st) is None:
            n = st.copy()
            if it.assume_cmp('eq', v, 0, n):
                out.append((n, status(n, it, ins, False)))
            it.assume_cmp('ne', v, 0, st)
        it.own(st, v[0], 'object', -1, ins)
    set_out(st, it, args, 0, 0, ins)
    it.invalidate(st, it.w.summary_mods(ins[3]))
    out.append((st, 0))
    return out


def plain_status(it, st, ins, args):
    n = st.copy()
    f = status(n, it, ins, False)
    return [(st, 0), (n, f)]


def push_context(it, st, ins, args):
    """the collection takes a reference of its own: nothing changes for the caller"""
    it.invalidate(st, it.w.summary_mods(ins[3]))
    return plain_status(it, st, ins, args)


def noreturn(it, st, ins, args):
    c = ins[3] if isinstance(ins[3], str) else '?'
    if c != '__cxa_throw' and it.fn.name not in it.w.ends and it.w.consistent(it, st):
        it.report('abort', '%s may be reached, which ends the program' % c, st)
    it.count('abort-site')
    return []


def sprintf_like(k):
    def h(it, st, ins, args):
        it.havoc_ptr(st, args[k], True)
        return [(st, it.fresh(st, ('R', ins[1])))]
    return h


def next_ref(it, st, ins, args):
    pass


# --------------------------------------------------------------- the contract table
def strdup_(it, st, ins, args):
    need_nonnull(it, st, args[0], it.w.pretty(ins[3]))
    return alloc('heap')(it, st, ins, args)


def free_(it, st, ins, args):
    it.release_heap(st, args[0], 'heap', ins)
    return [(st, 0)]


def free_slot(it, st, ins, args):
    """releases the block held in the slot argument 0 points to, and empties the slot"""
    v = content(st, it, args, 0, ins)
    if v is not None and v != 0:
        it.release_heap(st, v, 'heap', ins)
    set_out(st, it, args, 0, 0, ins)
    return [(st, 0)]


def fclose_(kind):
    def h(it, st, ins, args):
        need_nonnull(it, st, args[0], it.w.pretty(ins[3]))
        it.release_heap(st, args[0], kind, ins)
        return [(st, it.fresh(st, ('R', ins[1])))]
    return h


def open_fd(it, st, ins, args):
    return [(st, it.fresh(st, ('R', ins[1])))]


def copyout(k, ret='arg', nn=()):
    return writes_arg(k, nn=nn, ret=ret)


def fetch(it, st, ins, args):
    """container lookup: borrowed pointer, NULL when absent"""
    b = ('R', ins[1])
    v = it.fresh(st, b)
    st.facts.pop(b, None)
    st.mn = st.mn | {b}
    return [(st, v)]


def errno_loc(it, st, ins, args):
    return [(st, (('G', 'errno'), 0))]


def keep_arg(*ks):
    """stores the argument somewhere it stays reachable from"""
    def h(it, st, ins, args):
        n = st.copy()
        for k in ks:
            if k < len(args) and is_sym(args[k]):
                b = it.base_root(args[k][0])
                if b in st.own:
                    st.esc = st.esc | {b}
        f = it.fresh(n, ('R', ins[1]))
        it.setfact(n, f[0], NONZERO)
        return [(st, 0), (n, f)]
    return h


def strcmp_(it, st, ins, args):
    s = []
    for a in args[:2]:
        g = it.prog.globals.get(a[0][1]) if is_sym(a) and a[0][0] == 'G' else None
        s.append(g[2][1][a[1]:].split('\0')[0] if g and g[0] and g[2] and g[2][0] == 's' else None)
    if s[0] is not None and s[1] is not None:
        return [(st, (s[0] > s[1]) - (s[0] < s[1]))]
    return pure(nn=(0, 1))(it, st, ins, args)


def type_check(it, st, ins, args):
    """variadic kind check: OK exactly when the context is one of the listed kinds"""
    kinds = [a for a in args[1:] if type(a) is int and a]
    if not is_sym(args[0]) or any(type(a) is not int for a in args[1:]):
        return plain_status(it, st, ins, args)
    need_nonnull(it, st, args[0], it.w.pretty(ins[3]))
    loc = (args[0][0], args[0][1])
    it.lockey.setdefault((I.strip_old(loc[0]), loc[1]), ('disir_context', 0))
    n = st.copy()
    out = []
    v = it.rd(st, loc, ins)
    n.mem[loc] = v
    it.count('kind-check')
    if type(v) is int:
        return [(st, 0)] if v in kinds else [(n, status(n, it, ins, False, KINDFAIL))]
    if is_sym(v):
        if it.setfact(st, v[0], fset(kinds)):
            out.append((st, 0))
        if it.setfact(n, v[0], (-INF, INF, frozenset(kinds), None)):
            it.w.logmods and it.invalidate(n, it.w.logmods)
            out.append((n, status(n, it, ins, False, KINDFAIL)))
        return out
    return plain_status(it, st, ins, args)


def log_(it, st, ins, args):
    it.invalidate(st, it.w.logmods)
    return [(st, 0)]


def multi_out(*ks):
    def h(it, st, ins, args):
        for k in ks:
            it.havoc_ptr(st, args[k])
        return [(st, it.fresh(st, ('R', ins[1])))]
    return h


def entry_list(k):
    """OK: *argument k heads a chain of entries (walked and released node by node: not tracked as one object)"""
    def h(it, st, ins, args):
        n = st.copy()
        res = [(n, status(n, it, ins, False))]
        v = it.fresh(st, ('O', ins[1], 'w', k, 0))
        set_out(st, it, args, k, v, ins)
        # a plugin may have gathered some entries before it failed
        it.havoc_ptr(n, args[k])
        it.invalidate(st, it.w.summary_mods(ins[3]))
        res.append((st, 0))
        return res
    return h


def put_entry(it, st, ins, args):
    v = content(st, it, args, 0, ins)
    if is_sym(v) and it.isnull(v, st) is not True:
        b = it.base_root(v[0])
        if b in st.own or b in st.dead:
            it.release_heap(st, v, 'heap', ins)
    set_out(st, it, args, 0, 0, ins)
    return [(st, it.fresh(st, ('R', ins[1])))]


CONTRACTS = {
    'disir_entry_finished': put_entry, 'disir_config_entries': entry_list(2), 'disir_mold_entries': entry_list(2),
    'malloc': alloc('heap'), 'calloc': alloc('heap', size_zero=True), 'strdup': strdup_, 'strndup': strdup_,
    'realloc': realloc_, 'free': free_,
    '_Znwm': alloc('heap', nonnull=True), '_Znam': alloc('heap', nonnull=True),
    '_ZdlPv': free_, '_ZdaPv': free_, '_ZdlPvm': free_,
    'fopen': alloc('file'), 'fdopen': alloc('file'), 'fclose': fclose_('file'),
    'opendir': alloc('dir'), 'closedir': fclose_('dir'), 'readdir': fetch,
    'dlopen': alloc('dl'), 'dlclose': fclose_('dl'), 'dlsym': fetch, 'dlerror': pure(),
    'strlen': pure(nn=(0,), lo=0), 'strcmp': strcmp_, 'strncmp': pure(nn=(0, 1)), 'memcmp': pure(nn=(0, 1)),
    'strchr': pure(nn=(0,)), 'strrchr': pure(nn=(0,)), 'strstr': pure(nn=(0, 1)),
    'strcasecmp': pure(nn=(0, 1)), 'strncasecmp': pure(nn=(0, 1)),
    'strcpy': copyout(0, nn=(0, 1)), 'strncpy': copyout(0, nn=(0, 1)),
    'strcat': copyout(0, nn=(0, 1)), 'strncat': copyout(0, nn=(0, 1)), 'memcpy': copyout(0, nn=(0, 1)),
    'snprintf': sprintf_like(0), 'vsnprintf': sprintf_like(0), 'sprintf': sprintf_like(0), 'vsprintf': sprintf_like(0),
    'fprintf': pure(nn=(0,)), 'vfprintf': pure(nn=(0,)), 'printf': pure(), 'fwrite': pure(nn=(0, 3)),
    'fread': writes_arg(0, nn=(0, 3)), 'fflush': pure(), 'fputs': pure(nn=(0, 1)), 'fputc': pure(), 'puts': pure(),
    'fileno': pure(nn=(0,)), 'feof': pure(nn=(0,)), 'ferror': pure(nn=(0,)), 'ftell': pure(nn=(0,)), 'fseek': pure(nn=(0,)),
    'strerror': pure(nonnull=True), 'tolower': pure(), 'toupper': pure(), 'access': pure(nn=(0,)),
    'remove': pure(nn=(0,)), 'rename': pure(nn=(0, 1)), 'mkdir': pure(nn=(0,)), 'rmdir': pure(nn=(0,)),
    'unlink': pure(nn=(0,)), 'stat': writes_arg(1, nn=(0,)), 'lstat': writes_arg(1, nn=(0,)),
    'fstat': writes_arg(1), 'time': writes_arg(0), 'strtol': writes_arg(1, nn=(0,)), 'strtoul': writes_arg(1, nn=(0,)),
    'strtod': writes_arg(1, nn=(0,)), 'gmtime': pure(), 'strftime': writes_arg(0), 'dirname': pure(nonnull=True),
    'mkdtemp': pure(nn=(0,)), 'srand': pure(), 'rand': pure(), 'nftw': pure(nn=(0,)),
    'abort': noreturn, 'exit': noreturn, '__assert_fail': noreturn, '_exit': noreturn, '_Exit': noreturn, 'quick_exit': noreturn,
    '__cxa_throw': noreturn, '__clang_call_terminate': noreturn, '_ZSt9terminatev': noreturn,
    '__errno_location': errno_loc,
    'isspace': pure(), 'isalpha': pure(), 'isdigit': pure(), 'isalnum': pure(),
    # void-list / void-multimap (3rdparty)
    'dc_collection_push_context': push_context,
    'list_create': alloc('heap'), 'list_destroy': free_slot, 'list_rpush': keep_arg(1), 'list_lpush': keep_arg(1),
    'list_remove': pure(), 'list_find': fetch, 'list_at': fetch, 'list_size': pure(lo=0), 'list_contains': pure(),
    'list_iterator_create': alloc('heap'), 'list_iterator_destroy': free_slot, 'list_iterator_next': fetch,
    'multimap_create': alloc('heap'), 'multimap_destroy': free_, 'multimap_push_value': keep_arg(1, 2),
    'multimap_contains_key': pure(), 'multimap_size': pure(lo=0), 'multimap_remove_value': pure(),
    'multimap_fetch': alloc('heap'), 'multimap_iterator_next': fetch, 'multimap_iterator_destroy': free_,
    'multimap_get_first': fetch,
    # libarchive
    'archive_read_new': alloc('archive'), 'archive_write_new': alloc('archive'), 'archive_write_disk_new': alloc('archive'),
    'archive_read_free': fclose_('archive'), 'archive_write_free': fclose_('archive'),
    'archive_entry_new': alloc('entry'), 'archive_entry_free': free_,
    'archive_error_string': pure(nn=(0,)), 'archive_errno': pure(nn=(0,)),
    'archive_read_next_header': writes_arg(1, nn=(0,)),
    'archive_read_data_block': multi_out(1, 2, 3), 'archive_entry_pathname': pure(), 'archive_entry_size': pure(),
    # reference counting and object hand-over
    'dc_begin': begin(), 'dc_destroy': put_ref(), 'dc_putcontext': put_ref(), 'dc_finalize': finalize,
    'dc_config_finalize': finalize_top, 'dc_mold_finalize': finalize_top,
    'dx_context_create': ctx_create, 'dx_context_destroy': ctx_destroy_raw,
    'dx_context_incref': incref, 'dx_context_decref': decref,
    'disir_config_finished': put_object, 'disir_mold_finished': put_object,
    'dx_context_type_check_log_error': type_check, 'dx_log_disir': log_, 'dx_log_disir_va': log_,
    'dx_crash_and_burn': noreturn, 'dx_assert_ensure': noreturn,
}
CONTRACTS = {k: v for k, v in CONTRACTS.items() if v}
PURE = re.compile(r'^(?!_ZStrs|_ZNSir|_ZSt7getline)(archive_(?!read_free|write_free|entry_free)|dx_log|disir_log_user|_ZN[K]?St|_ZS|_ZNK)')

SLOTS = {
    'dp_config_read': give_object(4), 'dp_config_fd_read': give_object(3), 'dp_mold_read': give_object(3),
    'dp_config_write': plain_status, 'dp_config_fd_write': plain_status, 'dp_mold_write': plain_status,
    'dp_config_remove': plain_status,
    'dp_config_entries': entry_list(2), 'dp_mold_entries': entry_list(2),
    'dp_config_query': query_slot(3), 'dp_mold_query': query_slot(3),
    'dp_plugin_finished': plain_status,
}
KINDS = {'disir_config': 'CONFIG', 'disir_mold': 'MOLD', 'disir_keyval': 'KEYVAL', 'disir_section': 'SECTION',
         'disir_documentation': 'DOCUMENTATION', 'disir_default': 'DEFAULT', 'disir_restriction': 'RESTRICTION'}


def tarjan(nodes, succ):
    index, low, on, st, out, cnt = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter(succ(r)))]
        index[r] = low[r] = cnt[0]
        cnt[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, itr = work[-1]
            adv = False
            for w in itr:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out


class Result(object):
    """what is kept of the analysis of one function"""

    def __init__(self, it):
        self.reports, self.counts, self.incomplete, self.nstates = it.reports, it.counts, it.incomplete, it.nstates
        self.fn = it.fn.name
        # blocks no path reaches: an assumption of the analysis may have cut them off
        self.dead = [b for b in it.fn.order if not it.visited[b]]


def _solve(i, need):
    w = _WORLD
    w.sums.update(need)
    comp = w.comps[i]
    w.solve(comp)
    return i, {n: w.sums[n] for n in comp}, {n: w.interp[n] for n in comp}


class World(object):
    def __init__(self, raw, base=None, only=None, verbose=False):
        """base: World whose functions this program calls across the library boundary"""
        self.prog = Prog(raw)
        self.base = base
        self.contracts = dict(CONTRACTS)
        # functions that cannot return end the program as surely as abort does
        self.ends = set(n for n, f in self.prog.fns.items() if f.file.endswith('.c') and not any(
            f.blocks[b][-1][0] == 'ret' for b in f.order))
        for n in self.ends:
            self.contracts[n] = noreturn
        self.slots = SLOTS
        self.enum = {}
        for src in ([base.prog] if base else []) + [self.prog]:
            for n, vals in src.enums.items():
                for k, v in vals:
                    self.enum[k] = v
        self.kinds = {}
        for s, n in KINDS.items():
            v = self.enum.get('DISIR_CONTEXT_' + n)
            if v is not None:
                self.kinds[s] = frozenset([v])
        # the linker unifies structures of identical layout: an access through one counts for all of them
        structs = dict(base.prog.structs) if base else {}
        structs.update(self.prog.structs)
        lay = lambda x: tuple((o, z) for o, n, z, t in structs[x])
        byl = {}
        for x in self.kinds:
            if x in structs:
                byl[lay(x)] = byl.get(lay(x), frozenset()) | self.kinds[x]
        self.kinds = {x: byl[lay(x)] for x in structs if structs[x] and lay(x) in byl}
        C = lambda *n: frozenset(self.enum['DISIR_CONTEXT_' + x] for x in n)
        self.fieldkind = {('disir_keyval', 8): C('KEYVAL'), ('disir_section', 8): C('SECTION'),
                          ('disir_config', 0): C('CONFIG'), ('disir_mold', 0): C('MOLD'),
                          ('disir_documentation', 0): C('DOCUMENTATION'), ('disir_default', 0): C('DEFAULT'),
                          ('disir_section', 0): C('SECTION'), ('disir_restriction', 0): C('RESTRICTION'),
                          ('disir_keyval', 0): C('KEYVAL'), ('disir_context', 24): C('CONFIG', 'MOLD'),
                          ('disir_update', 48): C('KEYVAL')}
        for (x, o), v in list(self.fieldkind.items()):
            for y in structs:
                if y != x and x in structs and structs[x] and structs[y] and lay(x) == lay(y):
                    self.fieldkind[(y, o)] = self.fieldkind.get((y, o), v) | v
        E = lambda x: self.enum['DISIR_CONTEXT_' + x]
        self.parents = {E('KEYVAL'): C('CONFIG', 'MOLD', 'SECTION'), E('SECTION'): C('CONFIG', 'MOLD', 'SECTION'),
                        E('DEFAULT'): C('KEYVAL'), E('RESTRICTION'): C('KEYVAL', 'SECTION'),
                        E('DOCUMENTATION'): C('CONFIG', 'MOLD', 'SECTION', 'KEYVAL', 'RESTRICTION')}
        # internal operations reached only through a switch on the kind: assumed inside, required of every caller
        self.entrykind = {'dx_%s_finalize' % x.lower(): C(x) for x in
                          ('KEYVAL', 'SECTION', 'RESTRICTION', 'DEFAULT', 'DOCUMENTATION')}
        # a documentation value is always a string: the value checks refuse any other type before this is reached
        self.kindextra = {'dx_restriction_exclusive_value_check': C('DOCUMENTATION')}
        self.rootkinds = {E('DEFAULT'): C('MOLD'), E('RESTRICTION'): C('MOLD'), E('CONFIG'): C('CONFIG'), E('MOLD'): C('MOLD')}
        ks = sorted(E(x) for x in ('CONFIG', 'MOLD', 'SECTION', 'KEYVAL', 'DOCUMENTATION', 'DEFAULT', 'RESTRICTION'))
        self.kindrange = (ks[0], ks[-1], EMPTY, frozenset(ks))
        self.sums = {}
        self.interp = {}
        self.verbose = verbose
        self.only = only
        self.dn = {n: f['dname'] for n, f in self.prog.raw.items()}
        self.public = set(n for n, f in self.prog.raw.items()
                          if f['repo'] and not f['hidden'] and not f['local'] and not n.startswith('_Z'))
        self.compute_mods()
        # a context's kind and owner fields never change once set (see client_store)
        IMM = frozenset([('disir_context', 0), ('disir_context', 24), ('disir_context', 16), ('disir_context', 8)])
        self.mods = {k: v - IMM for k, v in self.mods.items()}
        self.allmods = self.allmods - IMM
        self.logmods = self.summary_mods('dx_log_disir')
        self.times = {}

    # ---- naming
    def pretty(self, n):
        if not isinstance(n, str):
            return 'a callback'
        d = self.dn.get(n)
        if d is None and self.base:
            return self.base.pretty(n)
        return d or n

    def undef_ok(self, callee, i):
        return callee.startswith('_ZNSt') or callee.startswith('_ZSt')

    def is_pure(self, callee):
        return bool(PURE.match(callee))

    # ---- which fields a call may change
    def compute_mods(self):
        direct, self.mods = {}, {}
        cb = set()
        for n, f in self.prog.fns.items():
            d = set()
            for blk in f.blocks:
                for ins in blk:
                    if ins[0] == 'store' and ins[4][0] == 'v':
                        g = f.defs.get(ins[4][1])
                        if g and g[0] == 'gep' and g[6]:
                            d.add((sname(g[6][-1][0]), g[6][-1][1]))
                        elif g and g[0] != 'alloca' and self.prog_type(f, g):
                            pass
                    if ins[0] == 'call' and isinstance(ins[3], list):
                        cb.add(n)
            direct[n] = d
        comps = tarjan(list(self.prog.fns), lambda n: [c for c in self.prog.fns[n].callees if c in self.prog.fns])
        self.comps = comps
        for comp in comps:
            u = set()
            for n in comp:
                u |= direct[n]
                for c in self.prog.fns[n].callees:
                    if c in self.mods:
                        u |= self.mods[c]
                    elif self.base and c in self.base.mods:
                        u |= self.base.mods[c]
            for n in comp:
                self.mods[n] = frozenset(u)
        allm = set()
        for m in self.mods.values():
            allm |= m
        if self.base:
            allm |= self.base.allmods
        # a plugin callback may call back into the library, but never changes the plugin table it is called through
        self.allmods = frozenset(x for x in allm if x[0] not in ('disir_register_plugin', 'disir_plugin_internal',
                                                                 'disir_instance'))

    def prog_type(self, f, g):
        return False

    def summary_mods(self, callee):
        if isinstance(callee, list):
            return self.allmods
        m = self.mods.get(callee)
        if m is None and self.base:
            m = self.base.mods.get(callee)
        return m or frozenset()

    # ---- summaries
    def summary(self, callee):
        s = self.sums.get(callee)
        if s is None and self.base:
            s = self.base.sums.get(callee)
        return s

    def run(self, jobs=8):
        """bottom-up over the call graph; independent components in parallel"""
        if jobs <= 1:
            for comp in self.comps:
                self.solve(comp)
            return self
        import multiprocessing as mp
        owner = {}
        for i, comp in enumerate(self.comps):
            for n in comp:
                owner[n] = i
        deps, users = {}, {}
        for i, comp in enumerate(self.comps):
            d = set()
            for n in comp:
                for c in self.prog.fns[n].callees:
                    if c in owner and owner[c] != i:
                        d.add(owner[c])
            deps[i] = d
            for x in d:
                users.setdefault(x, set()).add(i)
        # height: weight of the longest chain above, so that long chains start first
        height = {}
        for i in range(len(self.comps) - 1, -1, -1):
            w = sum(len(self.prog.fns[n].blocks) for n in self.comps[i])
            height[i] = w + max([height.get(u, 0) for u in users.get(i, ())] or [0])
        global _WORLD
        _WORLD = self
        ready = [i for i in deps if not deps[i]]
        left = {i: len(d) for i, d in deps.items()}
        ctx = mp.get_context('fork')
        with ctx.Pool(jobs, maxtasksperchild=None) as pool:
            import queue
            done = queue.Queue()
            running = 0

            def submit(i):
                need = {}
                for n in self.comps[i]:
                    f = self.prog.fns[n]
                    for c in set(f.callees) | f.grefs:
                        if c in self.sums:
                            need[c] = self.sums[c]
                pool.apply_async(_solve, (i, need), callback=done.put, error_callback=done.put)
            total = len(self.comps)
            fin = 0
            while fin < total:
                ready.sort(key=lambda i: height[i])
                while ready and running < jobs + 4:
                    submit(ready.pop())
                    running += 1
                r = done.get()
                running -= 1
                if isinstance(r, BaseException):
                    raise r
                i, sums, res = r
                fin += 1
                self.sums.update(sums)
                self.interp.update(res)
                for u in users.get(i, ()):
                    left[u] -= 1
                    if left[u] == 0:
                        ready.append(u)
        return self

    def solve(self, comp):
        rec = len(comp) > 1 or comp[0] in self.prog.fns[comp[0]].callees
        if not rec:
            self.analyse(comp[0])
            return
        for n in comp:
            s = Summary()
            s.mods = self.mods[n]
            self.sums[n] = s
        for rnd in range(8):
            changed = False
            for n in comp:
                old = self.sums[n].sig()
                self.analyse(n)
                if self.sums[n].sig() != old:
                    changed = True
            if not changed:
                break

    def analyse(self, n):
        t = time.time()
        f = self.prog.fns[n]
        it = self.make(f)
        it.run()
        s = it.summarise()
        s.mods = self.mods[n]
        self.sums[n] = s
        self.interp[n] = Result(it)
        self.times[n] = time.time() - t
        if self.verbose and self.times[n] > 1:
            sys.stderr.write("%-60s %6.1fs %6d states %s\n" % (f.dname[:60], self.times[n], it.nstates,
                                                              'INCOMPLETE' if it.incomplete else ''))

    def make(self, f):
        return Interp(f, self, public=f.name in self.public)

    # ---- hooks
    def client_store(self, it, st, v, ptr, key, ins):
        inv = self.fieldkind.get(key) if key else None
        if inv and is_sym(v) and ptr[0][0] != 'A':
            it.need_type(st, v, inv, 'stored in %s' % self.prog.fieldname(key))
        if key == ('disir_context', 0) and ptr[0][0] != 'A' and not it.isfresh(ptr[0]):
            it.report('kind', 'the kind of %s is changed after it was created' % it.describe(ptr[0]), st)

    def client_load(self, it, st, key, v):
        # a live context's kind is one of the seven (dc_begin and the root constructors are checked for it)
        if key == ('disir_context', 0) and is_sym(v):
            it.setfact(st, v[0], self.kindrange)
        elif key == ('disir_context', 24) and is_sym(v):
            it.setfact(st, v[0], NONZERO)
        elif key == ('disir_context', 16) and is_sym(v):
            # every context but the one on top has a parent
            o = it.origin(st, v[0])
            vals, known = it.kind_vals(st, o[0]) if o else ((), False)
            if known and all(x in self.parents for x in vals):
                it.setfact(st, v[0], NONZERO)

    climbing = []

    def kind_of_field(self, it, st, b):
        """what is known of a context from the field it was loaded from (each such field's stores are checked)"""
        k = it.skey(b)
        if k is None:
            return None
        if k == ('disir_context', 16):
            o = it.origin(st, b)
            if o is None:
                return None
            if o[0] in self.climbing:
                return None                     # the walk upwards went round a loop
            self.climbing.append(o[0])
            vals, known = it.kind_vals(st, o[0])
            self.climbing.pop()
            if not known:
                return None
            r = set()
            for x in vals:
                r |= self.parents.get(x, set())
            return r or None
        return self.fieldkind.get(k)

    def consistent(self, it, st):
        """do the kinds this path assumed of contexts agree with the fields those were reached through"""
        for b, f in st.facts.items():
            if b[0] == 'I' and b[2] == 0 and f[3] is not None and it.lkey((b[1], 0)) == ('disir_context', 0):
                k = self.kind_of_field(it, st, b[1])
                if k is not None and not (set(f[3]) & set(k)):
                    return False
        return True

    def client_call(self, it, st, ins, callee, args):
        pass

    def client_indirect(self, it, st, ins, slot, cv, args):
        pass

    def client_outcome(self, it, st, ins, callee, args, r):
        pass

    def client_gep(self, it, st, p, struct, off, ins):
        k = self.kinds.get(struct)
        if not k or not is_sym(p):
            return
        b = p[0]
        loc = it.origin(st, b)
        if loc is None or it.lkey(loc) != ('disir_context', 8):
            return
        it.need_type(st, (loc[0], 0), k, 'accessed as %s' % struct[6:])

    def kind_report(self, it, st, b, bad, vals, allowed, what, where):
        inv = {}
        for n, v in self.enum.items():
            if n.startswith('DISIR_CONTEXT_'):
                inv.setdefault(v, n[14:])
        it.report('kind', '%s is %s while it may be a %s%s' % (
            it.describe(b), what, '/'.join(inv.get(x, str(x)) for x in bad[:4]),
            ' (%s)' % where if where else ''), st)

    def client_trunc(self, it, st, v, ins):
        pass

    def client_entry(self, it, st):
        k = self.entrykind.get(it.fn.dname)
        if k:
            st.facts[('P', 0)] = NONZERO
            it.assume_kind(st, ('P', 0), k)
            it.typereq[0] = (k, 'its callers dispatch on the kind')

    def client_exit(self, it, st, rv, ins):
        # a result that may be missing, kept in a structure that outlives this call, while the call reports success
        ptr = it.fn.ret.endswith('*')
        if it.fn.ret == 'void' or rv == 0 and ptr or (type(rv) is int and rv != 0 and not ptr):
            return
        for k, v in st.mem.items():
            if not is_sym(v) or v[1] != 0 or v[0] not in st.mn or v[0][0] != 'R':
                continue
            if k[0][0] == 'A' or not it.lkey(k):
                continue
            r = root_of(it.base_root(k[0]))
            if not (k in st.wr and r[0] in 'PG' or st.own.get(r, (0, 0))[1] > 0):
                continue
            f = it.facts_of(v[0], st)
            if I.fhas(f, 0) and not (f[0] == 0 == f[1]):
                it.report('null', '%s may be NULL and is kept in %s although the operation reports success' % (
                    it.describe(v[0]), self.prog.fieldname(it.lkey(k))), st)

    def reports(self):
        out = {}
        for n, it in self.interp.items():
            for k, r in it.reports.items():
                out.setdefault(k, r)
        return list(out.values())
