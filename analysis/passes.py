"""The checks that are each their own pass over the resolved program (the others are rules of the summary engine, flow.py)."""
import importlib
import os

import build
import engine
import report

# property -> module holding run(ctx) -> (findings, coverage, assumptions, broken)
MODULES = {'P16': 'p_format', 'P19': 'p_loops', 'P13': 'p_version', 'P14': 'p_tables', 'P18': 'p_order',
           'P10': 'p_buffers', 'P11': 'p_report', 'P12': 'p_guards', 'P20': 'p_guards', 'P22': 'p_import', 'P23': 'p_life', 'P09': 'p_dispatch',
           'P15': 'p_force', 'P21': 'p_life', 'P17': 'p_life', 'P24': 'p_dispatch', 'P26': 'p_extract'}


class Unit(object):
    """one linked program: the library, the command line tool, or a plugin"""

    def __init__(self, name, raw):
        self.name = name
        self.prog = engine.Prog(raw)
        self.fns = self.prog.fns
        self.raw = raw['raw']
        self.globals = raw['globals']
        self.structs = raw.get('structs', {})
        self.enums = raw.get('enums', {})


class Ctx(object):
    def __init__(self, pid, tier, root=None):
        self.pid, self.tier = pid, tier
        self.root = root or build.REPO
        p = build.load(self.root, groups=("lib", "cli", "plugins"))
        self.lib = Unit('lib', p['lib'])
        self.cli = Unit('cli', p['cli'])
        self.plugins = [Unit('plugin%d' % i, x) for i, x in enumerate(p['plugins'])]
        self.units = [self.lib, self.cli] + self.plugins

    def functions(self, units=None):
        """every function of the project, each once"""
        seen = set()
        for u in (units or self.units):
            for n, f in u.fns.items():
                k = (n, f.file, f.line)
                if k in seen:
                    continue
                seen.add(k)
                yield u, f


ASSUME = ["the compiled IR at -O0 has the semantics of the source; NDEBUG is set"]


def site(f, ins):
    l = ins[2]
    if not l:
        return "%s:%d" % (f.file, f.line)
    return "%s:%d" % (f.prog.files[l[0]], l[1])


def infn(f, ins):
    """the source function an instruction stands in"""
    l = ins[2]
    return l[2] if l and len(l) > 2 and l[2] else f.dname


def text(u, op):
    """the constant text an operand denotes, or None"""
    if op and op[0] == 'g' and op[2] == 0:
        g = u.globals.get(op[1])
        if g and g[0] and g[2] and g[2][0] == 's':
            return g[2][1].rstrip('\0')
        if g and g[0] and g[2] and g[2][0] == 'zero':
            return ''
    return None


def undecided(pid, finds):
    """(findings without those of functions undecided.txt lists for this check, the functions dropped)"""
    und = set()
    for line in open(os.path.join(report.VERIF, "undecided.txt")):
        p = line.rstrip("\n").split("|")
        if len(p) >= 3 and p[0].startswith(pid + ":"):
            und.add((p[0][len(pid) + 1:], p[1]))
    out, drop = [], set()
    for f in finds:
        k = f.key.split("|")
        if any(k[0] == fn and (k[1] if len(k) > 1 else "").startswith(r) for r, fn in und):
            drop.add(k[0])
        else:
            out.append(f)
    return out, sorted(drop)


def run(pid, tier, ctx=None):
    if pid not in MODULES:
        raise build.AnalysisBroken("no check for " + pid)
    m = importlib.import_module(MODULES[pid])
    return m.run(ctx or Ctx(pid, tier))
