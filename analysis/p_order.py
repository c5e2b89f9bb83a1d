"""P18: two values compare equal exactly when they are of one type and hold the same content."""
from passes import ASSUME, infn, site
from report import Finding
from signs import Signs, Unclear

FN = 'dx_value_compare'


def narrow32(ctx, off):
    """is the size only ever set from 32-bit numbers (so that the difference of two fits)"""
    n = 0
    for u, f in ctx.functions():
        for blk in f.blocks:
            for i in blk:
                if i[0] != 'store' or i[4][0] != 'v':
                    continue
                d = f.defs.get(i[4][1])
                if not d or d[0] != 'gep' or ['struct.disir_value', off] not in d[6 if len(d) > 6 else 5]:
                    continue
                n += 1
                v = i[3]
                if v[0] == 'i' and 0 <= v[1] < 1 << 31:
                    continue
                e = f.defs.get(v[1]) if v[0] == 'v' else None
                if not e or e[0] != 'cast' or e[3] not in ('sext', 'zext') or e[5] not in ('i8', 'i16', 'i32'):
                    return False
    return n > 0


def run(ctx):
    u = ctx.lib
    out, cov = [], {}
    f = u.fns.get(FN)
    fl = dict((n, o) for o, n, sz, ty in u.structs.get('disir_value', ()))
    en = dict(u.enums.get('disir_value_type', ()))
    need = ('dv_type', 'dv_size', 'dv_string', 'dv_integer', 'dv_float', 'dv_boolean')
    if f is None or not all(x in fl for x in need) or not en:
        return out, {'functions': 0}, ASSUME, "no %s over struct disir_value" % FN
    ty, size, val = fl['dv_type'], fl['dv_size'], fl['dv_string']
    strings = [en.get('DISIR_VALUE_TYPE_STRING'), en.get('DISIR_VALUE_TYPE_ENUM')]
    scalars = [en.get('DISIR_VALUE_TYPE_' + x) for x in ('INTEGER', 'FLOAT', 'BOOLEAN')]

    def bad(why, p=None):
        st = site(*p.site) if p is not None and p.site else "%s:%d" % (f.file, f.line)
        out.append(Finding("%s: %s" % (FN, why), "%s: %s" % (FN, why), st))
    s = Signs(u, [size] if narrow32(ctx, size) else [])
    try:
        paths = s.paths(f)
    except Unclear as e:
        bad(str(e))
        paths = []
    seen = set()
    n = 0
    for p in paths:
        if p.null.get(0) or p.null.get(1) or p.null.get('same'):
            continue
        n += 1
        r = p.ret
        kind = p.eq.get((0, ty), p.eq.get((1, ty)))
        todo = [(p, r)]
        if type(r) is tuple and r[0] == 's':
            if len(r) > 3:
                bad("the difference of two values is cut down to the result's width", p)
                continue
            todo = [(q, {'=': 0, '<': -1, '>': 1, 'u': 1}[x]) for q, x in s.relate(p, r[1])]
        elif type(r) is not int:
            bad("returns a difference that is cut down or can wrap around" if r else "the result does not follow from the two values", p)
            continue
        for q, r in todo:
            differ = [o for o in (ty, size, val) if q.rel.get(o, '=') != '=']
            if r != 0:
                if not differ and kind in strings + scalars:
                    bad("two equal values are said to differ", q)
                continue
            if q.rel.get(ty) != '=':
                bad("values of different types are said to be equal", q)
            elif kind in strings:
                seen.add(kind)
                how = q.text.get(val)
                if q.rel.get(val) != '=' or how is None:
                    bad("texts are said to be equal without comparing them", q)
                elif how == 'all':
                    pass
                elif how == 'nocase':
                    bad("texts that differ in case are said to be equal", q)
                elif not (type(how) is tuple and how[0] == 'f' and how[2] == size and q.rel.get(size) == '='):
                    bad("only part of two texts is compared", q)
            elif kind in scalars:
                seen.add(kind)
                if q.rel.get(val) != '=':
                    bad("two different values are said to be equal", q)
            elif kind is None:
                if q.rel.get(val) != '=':
                    bad("values are said to be equal whatever their type", q)
    cov = {'paths': n, 'relations': s.n, 'comparisons': s.obligations, 'types_decided': len(seen)}
    broken = None
    if not out and len(seen) < 5:
        broken = "only %d of the value types have a path to equality" % len(seen)
    return out, cov, ASSUME, broken
