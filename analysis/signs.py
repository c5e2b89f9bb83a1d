"""Order-relation abstraction: what a loop-free comparison function yields for every relation
between the fields of its two arguments.

Abstract values
    int                      a constant
    ('f', k, off, w)         field at `off` of argument k (w bytes), possibly extended
    ('s', off, s)            a number whose sign is s times the relation of the two fields at `off`
    ('d', off, s)            such a difference that can wrap: only equality with zero means anything
    ('p', k, off)            address inside argument k
    ('l', id)                a local object
    None                     anything else
A path keeps, per field, the relation '<' '=' '>' ('u' for doubles) and the constant it was
found equal to.  Nothing is enumerated but these relations."""

LIMIT = 20000
INT = {'eq': '=', 'ne': '<>', 'ult': '<', 'slt': '<', 'ugt': '>', 'sgt': '>', 'ule': '<=', 'sle': '<=', 'uge': '>=', 'sge': '>='}
FP = {'oeq': '=', 'ogt': '>', 'oge': '>=', 'olt': '<', 'ole': '<=', 'one': '<>', 'ord': '<=>', 'ueq': '=u', 'ugt': '>u', 'uge': '>=u',
      'ult': '<u', 'ule': '<=u', 'une': '<>u', 'uno': 'u', 'true': '<=>u', 'false': ''}
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


class Unclear(Exception):
    pass


class Path(object):
    def __init__(self):
        self.rel = {}      # off -> relation of field in argument 0 to the same field in argument 1
        self.eq = {}       # (k, off) -> constant
        self.ne = {}       # (k, off) -> constants excluded
        self.null = {}     # k -> is that argument NULL
        self.text = {}     # off -> how much of the text was compared
        self.mem = {}
        self.alias = {}
        self.ret = None
        self.site = None

    def copy(self):
        p = Path()
        for a in ('rel', 'eq', 'null', 'text', 'mem', 'alias'):
            setattr(p, a, dict(getattr(self, a)))
        p.ne = {k: set(v) for k, v in self.ne.items()}
        p.site = self.site
        return p


class Signs(object):
    def __init__(self, unit, narrow=()):
        self.u = unit
        self.narrow = set(narrow)     # offsets of fields whose difference fits the result
        self.n = 0
        self.obligations = 0

    def paths(self, f):
        out = []
        for p, r in self.call(f, Path(), [('p', 0, 0), ('p', 1, 0)], 0):
            p.ret = r
            out.append(p)
        return out

    def call(self, f, p, args, depth):
        if depth > 6:
            raise Unclear("recursion")
        work = [(0, None, p, {})]
        res = []
        while work:
            b, prev, p, env = work.pop()
            self.n += 1
            if self.n > LIMIT:
                raise Unclear("too many relations")
            for nb, np, nenv in self.block(f, b, prev, p, env, args, depth, res):
                work.append((nb, b, np, nenv))
        return res

    def val(self, o, env, args):
        if o[0] == 'i':
            return o[1]
        if o[0] == 'n':
            return 0
        if o[0] == 'v':
            return env.get(o[1])
        if o[0] == 'a':
            return args[o[1]] if o[1] < len(args) else None
        return None

    def block(self, f, b, prev, p, env, args, depth, res):
        """run one block; fork on every undecided relation"""
        todo = [(0, p, dict(env))]
        out = []
        blk = f.blocks[b]
        news = {}
        for i in blk:
            if i[0] == 'phi':
                for v, pb in i[3]:
                    if pb == prev:
                        news[i[1]] = self.val(v, env, args)
        todo[0][2].update(news)
        while todo:
            k, p, env = todo.pop()
            while k < len(blk):
                i = blk[k]
                op = i[0]
                k += 1
                if op == 'phi':
                    continue
                if i[2] and i[2][1]:
                    p.site = (f, i)
                if op == 'jmp':
                    out.append((i[3], p, env))
                    break
                if op == 'ret':
                    res.append((p, self.val(i[3], env, args) if i[3] else None))
                    break
                if op == 'br':
                    for np, t in self.truth(i[3], p, env, args):
                        out.append((i[4] if t else i[5], np, dict(env)))
                    break
                if op == 'switch':
                    v = self.val(i[3], env, args)
                    if type(v) is int:
                        out.append((dict((a, t) for a, t in i[5]).get(v, i[4]), p, env))
                    elif v and v[0] == 'f':
                        cases = list(i[5])
                        for c, t in cases:
                            np = self.fix(p, v, c)
                            if np:
                                out.append((t, np, dict(env)))
                        np = p.copy()
                        if (v[1], v[2]) not in np.eq:
                            np.ne.setdefault((v[1], v[2]), set()).update(c for c, t in cases)
                            out.append((i[4], np, dict(env)))
                        elif np.eq[(v[1], v[2])] not in [c for c, t in cases]:
                            out.append((i[4], np, dict(env)))
                    else:
                        for t in set([i[4]] + [t for c, t in i[5]]):
                            out.append((t, p.copy(), dict(env)))
                    break
                if op in ('unreachable', 'resume'):
                    break
                r = self.step(f, i, p, env, args, depth)
                if r is None:
                    continue
                # forked: each alternative resumes after this instruction
                for np, v in r[1:]:
                    e = dict(env)
                    e[i[1]] = v
                    todo.append((k, np, e))
                p, env[i[1]] = r[0]
        return out

    def fix(self, p, v, c):
        """the path on which field v equals constant c, or None"""
        key = (v[1], v[2])
        if key in p.eq:
            return p.copy() if p.eq[key] == c else None
        if c in p.ne.get(key, ()):
            return None
        other = (1 - v[1], v[2])
        r = p.rel.get(v[2])
        if r == '=' and other in p.eq and p.eq[other] != c:
            return None
        np = p.copy()
        np.eq[key] = c
        if r == '=':
            np.eq[other] = c
        if other in np.eq and v[2] not in np.rel:
            a, b = (c, np.eq[other]) if v[1] == 0 else (np.eq[other], c)
            np.rel[v[2]] = '=' if a == b else '<' if a < b else '>'
        return np

    def relate(self, p, off, fp=False):
        """all relations still possible for the fields at off"""
        r = p.rel.get(off)
        if r:
            return [(p, r)]
        out = []
        for x in ('<', '=', '>') + (('u',) if fp else ()):
            np = p.copy()
            np.rel[off] = x
            if x == '=':
                for k in (0, 1):
                    if (k, off) in np.eq:
                        np.eq.setdefault((1 - k, off), np.eq[(k, off)])
                    if (k, off) in np.ne:
                        np.ne.setdefault((1 - k, off), set()).update(np.ne[(k, off)])
            out.append((np, x))
        return out

    def truth(self, o, p, env, args):
        v = self.val(o, env, args)
        if type(v) is int:
            return [(p, bool(v & 1))]
        if v and v[0] == 'b':
            return [(p, v[1])]
        return [(p, True), (p.copy(), False)]

    def step(self, f, i, p, env, args, depth):
        op = i[0]
        if op == 'alloca':
            env[i[1]] = ('l', (depth, f.name, i[1]), 0)
        elif op == 'gep':
            b = self.val(i[3], env, args)
            if b and type(b) is tuple and b[0] in ('p', 'l') and not i[5]:
                env[i[1]] = (b[0], b[1], b[2] + i[4])
            else:
                env[i[1]] = None
        elif op == 'load':
            b = self.val(i[3], env, args)
            w = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'ptr': 8}.get(i[4], 8)
            env[i[1]] = None
            if b and type(b) is tuple and b[0] == 'p':
                v = ('f', b[1], b[2], w)
                env[i[1]] = v
                if (b[1], b[2]) in p.eq:
                    env[i[1]] = p.eq[(b[1], b[2])]
                    env[i[1]] = v
            elif b and type(b) is tuple and b[0] == 'l':
                if b in p.mem:
                    env[i[1]] = p.mem[b]
                else:
                    for (k, off), src in p.alias.items():
                        if k == b[1] and b[2] >= off:
                            env[i[1]] = ('f', src[1], src[2] + b[2] - off, w)
        elif op == 'store':
            b = self.val(i[4], env, args)
            if b and type(b) is tuple and b[0] == 'l':
                p.mem[b] = self.val(i[3], env, args)
            elif b and type(b) is tuple and b[0] == 'p':
                raise Unclear("the comparison changes what it compares")
        elif op == 'cast':
            v = self.val(i[4], env, args)
            if i[3] in ('zext', 'sext', 'bitcast', 'freeze'):
                env[i[1]] = (v & 1 if i[5] == 'i1' else v) if type(v) is int else (int(v[1]) if v and v[0] == 'b' else v)
                if type(v) is tuple and v[0] == 'b' and i[3] == 'sext' and v[1]:
                    env[i[1]] = -1
            elif i[3] == 'trunc':
                if type(v) is int:
                    n = BITS.get(i[6], 64)
                    x = v & ((1 << n) - 1)
                    env[i[1]] = x - (1 << n) if n > 1 and x >> (n - 1) else x
                elif v and v[0] == 's' and v[1] not in self.narrow and len(v) > 3:
                    env[i[1]] = ('d', v[1], v[2])
                elif v and v[0] in ('f', 'd') and i[6] != 'i1':
                    env[i[1]] = ('t',) if v[0] == 'f' else v
                else:
                    env[i[1]] = v
            else:
                # a conversion between integers and doubles does not keep the order of large values apart
                env[i[1]] = v if type(v) is int else ('t',)
        elif op == 'icmp':
            return self.compare(i[1], INT[i[3]], i[4], i[5], p, env, args, False, i)
        elif op == 'other' and i[3] == 'fcmp':
            return self.compare(i[1], FP[i[5]], i[4][0], i[4][1], p, env, args, True, i)
        elif op == 'bin':
            a, b = self.val(i[4], env, args), self.val(i[5], env, args)
            env[i[1]] = self.arith(i[3], a, b, i[6], p)
        elif op == 'other' and i[3] in ('fsub', 'fneg'):
            env[i[1]] = ('t',)
        elif op == 'select':
            t = self.truth(i[3], p, env, args)
            return [(np, self.val(i[4] if x else i[5], env, args)) for np, x in t]
        elif op == 'call':
            return self.docall(f, i, p, env, args, depth)
        else:
            env[i[1]] = None
        return None

    def arith(self, op, a, b, ty, p):
        a = int(a[1]) if type(a) is tuple and a[0] == 'b' else a
        b = int(b[1]) if type(b) is tuple and b[0] == 'b' else b
        if type(a) is int and type(b) is int:
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}.get(op)
            if r is not None and op == 'xor' and ty == 'i1':
                r &= 1
            return r
        if op in ('sub', 'xor') and type(a) is tuple and type(b) is tuple and a[0] == b[0] == 'f':
            if a[2] != b[2] or a[1] == b[1]:
                raise Unclear("subtracts different fields")
            s = 1 if a[1] == 0 else -1
            if op == 'xor':
                return ('d', a[2], s)
            w = BITS.get(ty, 64)
            if a[3] * 8 < w:
                # wide enough for every difference; truncated again it is not
                return ('s', a[2], s, 'w') if a[3] * 8 + 1 > 32 else ('s', a[2], s)
            return ('s', a[2], s) if a[2] in self.narrow else ('d', a[2], s)
        if op == 'sub' and a == 0 and type(b) is tuple and b[0] in ('s', 'd'):
            return (b[0], b[1], -b[2]) + b[3:]
        if op == 'mul' and type(a) is tuple and a[0] == 's' and b in (1, -1):
            return ('s', a[1], a[2] * b) + a[3:]
        if op == 'and' and type(a) is tuple and a[0] == 'f' and type(b) is int:
            return ('t',)
        return None

    def compare(self, dst, want, x, y, p, env, args, fp, ins):
        a, b = self.val(x, env, args), self.val(y, env, args)
        self.obligations += 1
        if type(a) is tuple and a[0] == 'b':
            a = int(a[1])
        if type(b) is tuple and b[0] == 'b':
            b = int(b[1])
        if type(a) is int and type(b) is int:
            return [(p, ('b', (('=' if a == b else '<' if a < b else '>') in want)))]
        if a == b == ('t',):
            raise Unclear("compares a rounded or cut down copy of a field")
        if type(a) is int or (type(b) is tuple and b[0] == 'p' and type(a) is not tuple):
            a, b = b, a
            want = want.translate(str.maketrans('<>', '><'))
        if type(a) is tuple and type(b) is tuple:
            if a[0] == b[0] == 'f':
                if a[1] == b[1] or a[2] != b[2]:
                    raise Unclear("compares different fields")
                out = []
                for np, r in self.relate(p, a[2], fp):
                    if a[1] == 1:
                        r = r.translate(str.maketrans('<>', '><'))
                    out.append((np, ('b', r in want)))
                return out
            if a[0] == b[0] == 'p':
                # the same object
                if a[1] == b[1]:
                    return [(p, ('b', '=' in want))]
                q = p.copy()
                q.null['same'] = True
                return [(p, ('b', '=' not in want)), (q, ('b', '=' in want))]
            return None
        if type(a) is tuple and type(b) is int:
            if a[0] == 'p':
                if b != 0:
                    return None
                out = []
                known = p.null.get(a[1])
                for isnull in ((False, True) if known is None else (known,)):
                    np = p.copy()
                    np.null[a[1]] = isnull
                    out.append((np, ('b', isnull == ('=' in want))))
                return out
            if a[0] in ('s', 'd'):
                if a[0] == 'd' and (b != 0 or not ('=' == want or '<>' == want)):
                    raise Unclear("takes the sign of a difference that can wrap")
                if b != 0:
                    # -1, 0 and 1 are all a sign tells apart
                    if not (b == 1 and want in ('<', '>=')) and not (b == -1 and want in ('>', '<=')):
                        raise Unclear("relies on the magnitude of a comparison")
                    want = {(1, '<'): '<=', (1, '>='): '>', (-1, '>'): '>=', (-1, '<='): '<'}[(b, want)]
                out = []
                for np, r in self.relate(p, a[1]):
                    if a[2] < 0:
                        r = r.translate(str.maketrans('<>', '><'))
                    out.append((np, ('b', r in want)))
                return out
            if a[0] == 'f':
                if want in ('=', '<>'):
                    key = (a[1], a[2])
                    out = []
                    q = self.fix(p, a, b)
                    if q:
                        out.append((q, ('b', want == '=')))
                    if p.eq.get(key) != b:
                        n = p.copy()
                        n.ne.setdefault(key, set()).add(b)
                        out.append((n, ('b', want != '=')))
                    return out or [(p, ('b', True))]
                return [(p, ('b', True)), (p.copy(), ('b', False))]
        if a is None or b is None or type(a) is tuple:
            return [(p, ('b', True)), (p.copy(), ('b', False))]
        return None

    def docall(self, f, i, p, env, args, depth):
        name = i[3] if isinstance(i[3], str) else None
        a = [self.val(o, env, args) for o in i[4]]
        if name and name.startswith('llvm.memcpy') or name == 'memcpy':
            d, s = a[0], a[1]
            if d and s and d[0] == 'l' and s[0] == 'p':
                p.alias[(d[1], d[2])] = s
            return None
        if name in ('memcmp', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'bcmp'):
            x, y = a[0], a[1]
            if not (x and y and x[0] == y[0] == 'f' and x[2] == y[2] and x[1] != y[1]):
                raise Unclear("compares different fields")
            how = 'all' if name == 'strcmp' else 'nocase' if 'case' in name else a[2] if len(a) > 2 else None
            p.text[x[2]] = how
            s = 1 if x[1] == 0 else -1
            return [(p, ('s', x[2], s))]
        g = self.u.fns.get(name) if name else None
        if g is not None and len(g.order) <= 60 and not g.vararg and any(
                type(x) is tuple and x[0] in ('p', 'f', 's') for x in a):
            r = self.call(g, p, a, depth + 1)
            return r or None
        env[i[1]] = None
        return None
