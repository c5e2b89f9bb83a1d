"""P14: the names of kinds and keys: every kind has its own name, tables are indexed within bounds, and what the
library writes it recognises when it reads."""
import re

from passes import ASSUME, infn, site, text
from ranges import Ranges
from report import Finding

# document -> (entry points that write it, entry points that read it)
DOCS = {'JSON mold': (('dio_json_serialize_mold',), ('dio_json_unserialize_mold',)),
        'JSON config': (('dio_json_serialize_config',), ('dio_json_unserialize_config',))}


def norm(s):
    return re.sub(r'[^A-Z0-9]+', '_', s.upper()).strip('_')


def suffixes(name):
    w = name.split('_')
    return set('_'.join(w[k:]) for k in range(len(w)))


def strings(u, g):
    """the texts of a constant table of strings, or None"""
    v = u.globals.get(g)
    if not v or not v[2] or v[2][0] != 'arr' or len(v[2][1]) < 3:
        return None
    out = []
    for x in v[2][1]:
        if x and x[0] == 'g':
            out.append(text(u, x))
        elif x and x[0] in ('n', 'zero') or x is None:
            out.append(None)
        else:
            return None
    return out if any(t is not None for t in out) else None


def pairs(u, g):
    """(text, number) pairs of a constant table"""
    v = u.globals.get(g)
    if not v or not v[2] or v[2][0] != 'arr':
        return None
    out = []
    for e in v[2][1]:
        if not e or e[0] != 'arr' or len(e[1]) != 2:
            return None
        a, b = e[1]
        if a[0] == 'i' and b[0] == 'g':
            a, b = b, a
        if a[0] != 'g' or b[0] != 'i' or text(u, a) is None:
            return None
        out.append((text(u, a), b[1]))
    return out or None


def reach(u, roots):
    s, t = set(), list(roots)
    while t:
        n = t.pop()
        if n in s or n not in u.fns:
            continue
        s.add(n)
        f = u.fns[n]
        t += list(f.callees) + list(f.grefs)
    return s


def keys(u, roots):
    out = {}
    for n in reach(u, roots):
        f = u.fns[n]
        for blk in f.blocks:
            for i in blk:
                if i[0] == 'call' and isinstance(i[3], str) and i[3].startswith(('_ZN4Json5Value', '_ZNK4Json5Value')):
                    for a in i[4]:
                        t = text(u, a)
                        if t:
                            out.setdefault(t, (f, i))
    return out


def run(ctx):
    u = ctx.lib
    out = []
    cov = {'tables': 0, 'entries': 0, 'indexes': 0, 'pairs': 0, 'keys': 0}
    tables = {}
    for g in u.globals:
        ts = strings(u, g)
        if ts is None:
            continue
        best, bn = None, 0
        for en, es in u.enums.items():
            n = sum(1 for nm, v in es if any(t and norm(t) in suffixes(nm) for t in ts))
            if n > bn:
                best, bn = en, n
        if best is None or bn < 3 or bn * 2 < len(u.enums[best]) - 2:
            continue
        tables[g] = (best, ts)
        cov['tables'] += 1
        es = u.enums[best]
        top = max(v for nm, v in es)
        nm = dict((v, n) for n, v in es)
        where = u.globals[g][3] or g
        if len(ts) <= top:
            out.append(Finding("%s: fewer names than kinds" % where, "%s has %d names, enum %s needs %d" % (where, len(ts), best, top + 1)))
        for k, t in enumerate(ts):
            cov['entries'] += 1
            if t is None:
                out.append(Finding("%s[%d]: no name" % (where, k), "%s has no name for %s" % (where, nm.get(k, k))))
                continue
            own = [n for n, v in es if norm(t) in suffixes(n)]
            if own and nm.get(k) not in own:
                out.append(Finding("%s: %s named %s" % (where, nm.get(k, k), t), "%s names %s '%s', which is %s" % (where, nm.get(k, k), t, own[0])))
        for k, t in enumerate(ts):
            if t is not None and t in ts[:k]:
                out.append(Finding("%s: %s twice" % (where, t), "%s uses '%s' for two kinds" % (where, t)))
    # every index into a table of names is a kind the table knows
    rg = Ranges(u)
    for name, f in u.fns.items():
        for b in f.order:
            for i in f.blocks[b]:
                if i[0] == 'gep' and i[3][0] == 'g' and i[3][1] in tables and i[5]:
                    cov['indexes'] += 1
                    n = len(tables[i[3][1]][1])
                    lo, hi = i[4], i[4]
                    for v, sc in i[5]:
                        r = rg.at(f, v, b) or (-(1 << 63), 1 << 64)
                        lo, hi = lo + r[0] * sc, hi + r[1] * sc
                    if lo < 0 or hi > (n - 1) * 8:
                        out.append(Finding("%s: index outside %s" % (infn(f, i), i[3][1]),
                                           "%s: nothing keeps the index within the %d names of %s" % (infn(f, i), n, i[3][1]), site(f, i)))
    # what a reader maps back to a kind is what the table calls that kind
    for g in u.globals:
        ps = pairs(u, g)
        if not ps or len(ps) < 3:
            continue
        best, bn = None, 0
        for t, (en, ts) in sorted(tables.items()):
            n = sum(1 for x, v in ps if x in ts)
            if n > bn:
                best, bn = t, n
        if best is None or bn * 2 < len(ps):
            continue
        en, ts = tables[best]
        es = u.enums[en]
        nm = dict((v, n) for n, v in es)
        top = max(v for n, v in es)
        got = set()
        for t, v in ps:
            cov['pairs'] += 1
            got.add(v)
            if not (0 <= v < len(ts)) or ts[v] != t:
                out.append(Finding("'%s' read as %s" % (t, nm.get(v, v)), "'%s' is read as %s, which is written '%s'" % (
                    t, nm.get(v, v), ts[v] if 0 <= v < len(ts) else '?')))
        for n, v in es:
            if 0 < v < top and v not in got:
                out.append(Finding("%s is not read back" % n, "%s is written '%s' and not recognised when read" % (n, ts[v] if v < len(ts) else '?')))
    # keys written are keys read, and the other way round
    for doc, (ws, rs) in sorted(DOCS.items()):
        w, r = keys(u, ws), keys(u, rs)
        if not w or not r:
            continue
        cov['keys'] += len(set(w) | set(r))
        for k in sorted(set(w) - set(r)):
            out.append(Finding("%s: key %s written, never read" % (doc, k), "%s: the key '%s' is written and never read back" % (doc, k), site(*w[k])))
        for k in sorted(set(r) - set(w)):
            out.append(Finding("%s: key %s read, never written" % (doc, k), "%s: the key '%s' is read and never written" % (doc, k), site(*r[k])))
    broken = None
    if cov['tables'] < 4 and not out:
        broken = "only %d tables of names found" % cov['tables']
    return out, cov, ASSUME, broken
