"""P13: versions are ordered totally and every selection by version uses the same boundaries."""
import cfg
from passes import ASSUME, infn, site
from report import Finding
from signs import Signs, Unclear

FN = 'dc_version_compare'
SIGNS = '<=>'


def offsets(u, struct, names):
    t = dict((n, o) for o, n, sz, ty in u.structs.get(struct, ()))
    return [t.get(n) for n in names]


def lexical(p, offs):
    for o in offs:
        r = p.rel.get(o)
        if r is None:
            return None
        if r != '=':
            return r
    return '='


def order(u, out, cov):
    f = u.fns.get(FN)
    if f is None:
        return "no %s in the library" % FN
    offs = offsets(u, 'disir_version', ('sv_major', 'sv_minor'))
    if None in offs:
        return "struct disir_version has no sv_major and sv_minor"
    s = Signs(u)

    def bad(why, p=None):
        st = site(*p.site) if p is not None and p.site else "%s:%d" % (f.file, f.line)
        out.append(Finding("%s: %s" % (FN, why), "%s: %s" % (FN, why), st))
    try:
        paths = s.paths(f)
    except Unclear as e:
        bad(str(e))
        return None
    n = 0
    for p in paths:
        if p.null.get(0) or p.null.get(1) or p.null.get('same'):
            continue
        n += 1
        lx = lexical(p, offs)
        r = p.ret
        if type(r) is int:
            have = '=' if r == 0 else '<' if r < 0 else '>'
            if lx != have:
                bad("yields %s where major is %s and minor is %s" % (
                    {'=': 'equal', '<': 'older', '>': 'newer'}[have], p.rel.get(offs[0], 'any'), p.rel.get(offs[1], 'any')), p)
        elif r and r[0] == 's' and len(r) < 4 and r[2] > 0 and r[1] in offs:
            k = offs.index(r[1])
            if any(p.rel.get(o) != '=' for o in offs[:k]) or (k < len(offs) - 1):
                bad("decides by one number alone", p)
        elif r and r[0] in ('s', 'd', 't'):
            bad("returns a difference that can wrap around", p)
        else:
            bad("result does not follow from the two versions", p)
    if not n:
        return "no path through %s" % FN
    cov['paths'] = n
    cov['relations'] = s.n
    return None


def field(u, f, o):
    """the version field an operand addresses: 'introduced', 'deprecated', or 'target' for anything else"""
    ks, seen, todo = set(), set(), [o]
    while todo:
        o = todo.pop()
        if o[0] == 'n':
            continue
        d = f.defs.get(o[1]) if o[0] == 'v' else None
        if not d:
            ks.add('target')
            continue
        if d[1] in seen:
            continue
        seen.add(d[1])
        if d[0] == 'gep':
            k = 'target'
            for sn, off in d[6]:
                sn = str(sn).replace('struct.', '').replace('class.', '')
                for fo, fname, sz, ty in u.structs.get(sn, ()):
                    if fo == off and 'disir_version' in ty:
                        k = 'introduced' if 'introduced' in fname else 'deprecated' if 'deprecated' in fname else k
            ks.add(k)
        elif d[0] == 'cast':
            todo.append(d[4])
        elif d[0] == 'select':
            todo += [d[4], d[5]]
        elif d[0] == 'phi':
            todo += [v for v, _ in d[3]]
        else:
            ks.add('target')
    return ks.pop() if len(ks) == 1 else 'target'


def sat(pred, c):
    """which signs of the comparison satisfy `pred c`, or None when magnitude matters"""
    def t(x):
        return {'eq': x == c, 'ne': x != c, 'sgt': x > c, 'sge': x >= c, 'slt': x < c, 'sle': x <= c}.get(pred)
    if t(0) is None:
        return None
    r = ''
    for s, xs in (('<', (-1, -7)), ('=', (0,)), ('>', (1, 7))):
        v = set(t(x) for x in xs)
        if len(v) > 1:
            return None
        if v.pop():
            r += s
    return r


def uses(f, v):
    """(instruction, predicate, constant) wherever a value is tested, through copies"""
    out = []
    seen = set()
    todo = [v]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for blk in f.blocks:
            for i in blk:
                if i[0] == 'icmp':
                    if i[4] == ['v', v] and i[5][0] == 'i':
                        out.append((i, i[3], i[5][1]))
                    elif i[5] == ['v', v] and i[4][0] == 'i':
                        sw = {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}
                        out.append((i, sw.get(i[3], i[3]), i[4][1]))
                elif i[0] == 'cast' and i[4] == ['v', v] and i[3] in ('sext', 'bitcast', 'freeze'):
                    todo.append(i[1])
    return out


def boundaries(u, f, out, cov):
    calls = 0
    for blk in f.blocks:
        for i in blk:
            if i[0] != 'call' or i[3] != FN:
                continue
            calls += 1
            a, b = field(u, f, i[4][0]), field(u, f, i[4][1])
            for t, pred, c in uses(f, i[1]):
                w = sat(pred, c)
                cov['tests'] += 1
                if w is None:
                    out.append(Finding("%s: relies on the magnitude of a version comparison" % infn(f, t),
                                       "%s: only the sign of a version comparison means anything" % infn(f, t), site(f, t)))
                    continue
                part = set([w, ''.join(x for x in SIGNS if x not in w)])
                if part in ({'=', '<>'}, {'', '<=>'}):
                    continue
                # put the element's version on the left
                if a != 'target' and b != 'target':
                    continue
                if a == 'target' and b == 'target':
                    continue
                if a == 'target':
                    part = set(x.translate(str.maketrans('<>', '><')) for x in part)
                    part = set(''.join(sorted(x, key=SIGNS.index)) for x in part)
                k = a if a != 'target' else b
                if part != {'<=', '>'}:
                    out.append(Finding("%s: %s version compared with the wrong boundary" % (infn(f, t), k),
                                       "%s: an element %s in a version belongs to that version already; "
                                       "this test puts the boundary one step off" % (infn(f, t), k), site(f, t)))
    cov['calls'] += calls
    return calls


def run(ctx):
    out, cov = [], {'calls': 0, 'tests': 0, 'functions': 0}
    broken = order(ctx.lib, out, cov)
    for u, f in ctx.functions():
        cov['functions'] += 1
        boundaries(u, f, out, cov)
    if not broken and cov['calls'] < 8:
        broken = "only %d version comparisons found" % cov['calls']
    return out, cov, ASSUME, broken
