"""Missing arguments are refused (P04, second rule): each operation of the public interface that answers a status is interpreted
(absint.py) with one required object, text or output missing and everything else unknown; no path may answer OK.
required.txt lists which arguments are required: 'operation argument', or 'operation *argument' for what it points to."""
import os

from absint import Interp, Cut
from report import Finding, VERIF

LIMIT = 3000


def required():
    out = []
    for line in open(os.path.join(VERIF, "required.txt")):
        if line.strip() and not line.startswith("#"):
            out.append(tuple(line.split()))
    return out


def args(f, miss):
    """start arguments of f, the one called miss missing"""
    from absint import St
    st, out, hit = St(), [], False
    for k, (name, di, ir, nn) in enumerate(f.params):
        v = ('p', ('arg', k), 0) if ir == 'ptr' else ('s', ('arg', k))
        if ir == 'ptr' and miss == name:
            v, hit = ('c', 0), True
        if ir == 'ptr' and miss == '*' + name:
            st.mem[(('arg', k), 0)] = ('c', 0)
            hit = True
        out.append(v)
    return st, out, hit


class Missing(Interp):
    """calls that get nothing of the missing argument answer anything"""
    mark = None

    def call(self, fr, st, ins):
        a = [self.val(fr, x) for x in ins[4]]
        name = ins[3] if isinstance(ins[3], str) else None
        if name in self.u.fns and fr['depth'] < self.maxdepth and any(x == ('c', 0) and ins[4][i][0] != 'n' and ins[4][i][0] != 'i' or
                                                                      self.mark and x == self.mark for i, x in enumerate(a)):
            return Interp.call(self, fr, st, ins)
        if name and name.startswith(('llvm.', 'mem', 'malloc', 'calloc', 'free', 'abort', 'exit')):
            return Interp.call(self, fr, st, ins)
        for x in a:
            k = self.place(x)
            if k and k[0][0] != 'g' and x != self.mark:
                for o, off in [c for c in st.mem if c[0] == k[0]]:
                    n = ('w', fr['path'], ins[1], o, off)
                    self.forget(st, n)
                    st.mem[(o, off)] = ('s', n)
        return [(st, self.fresh(fr, st, ins) if ins[1] >= 0 else ('c', 0))]


def answers(u, f, miss):
    """'refused', 'unknown', or the states in which OK is the answer"""
    st, a, hit = args(f, miss)
    if not hit:
        return 'gone', 0
    it = Missing(u, limit=LIMIT, depth=8)
    it.mark = next((v for v, p in zip(a, f.params) if miss == '*' + p[0]), None)
    try:
        outs = it.run(f.name, a, st)
    except (Cut, RecursionError):
        return 'unknown', it.n
    if any(s.taint is None and it.related(s, v, ('c', 0)) == {'eq'} for s, v in outs):
        return 'ok', it.n
    if outs and all(it.related(s, v, ('c', 0)) <= {'lt', 'gt'} for s, v in outs):
        return 'refused', it.n
    return 'unknown', it.n


def library():
    import passes
    return passes.Ctx('P04', 'quick').lib


def run(u):
    finds, n, undec, states = [], 0, [], 0
    for fn, miss in required():
        f = u.fns.get(fn)
        if f is None:
            continue
        r, k = answers(u, f, miss)
        states += k
        if r == 'gone':
            continue
        n += 1
        if r == 'unknown':
            undec.append("%s %s" % (fn, miss))
        if r == 'ok':
            finds.append(Finding("missing|%s|%s" % (fn, miss), "in %s: OK is answered although %s is missing" % (fn, miss),
                                 "%s:%d" % (f.file, f.line)))
    return finds, {"required_arguments": n, "required_arguments_undecided": undec, "argument_states": states}, \
        None if n >= 80 else "only %d required arguments found" % n


if __name__ == "__main__":
    # lists the arguments that are refused on the current tree
    import re
    import sys
    import build
    import passes
    u = passes.Ctx('P04', 'quick').lib
    decl = set()
    inc = os.path.join(build.REPO, "include", "disir")
    for d, _, fs in os.walk(inc):
        for x in fs:
            decl |= set(re.findall(r"\b((?:dc|disir)_\w+)\s*\(", open(os.path.join(d, x)).read()))
    for fn in sorted(decl):
        f = u.fns.get(fn)
        if f is None or 'enum disir_status' not in str(f.ret) and f.ret != 'i32':
            continue
        for name, di, ir, nn in f.params:
            if ir != 'ptr':
                continue
            for m in [name] + (['*' + name] if di.count('*') > 1 else []):
                r, k = answers(u, f, m)
                print(("" if r == 'refused' else "# %s " % r) + fn, m)
