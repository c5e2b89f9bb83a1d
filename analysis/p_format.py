"""P16: formats and their arguments agree, and no text from outside is used as a format."""
import os
import re
import subprocess
import tempfile

import build
from passes import ASSUME, infn, site, text
from report import Finding

LIBC_VAR = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'sprintf': 1, 'snprintf': 2, 'asprintf': 1, 'syslog': 1, 'obstack_printf': 1,
            '__printf_chk': 1, '__fprintf_chk': 2, '__sprintf_chk': 3, '__snprintf_chk': 4, '__asprintf_chk': 2}
LIBC_VA = {'vprintf': 0, 'vfprintf': 1, 'vdprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vasprintf': 1, 'vsyslog': 1,
           '__vsnprintf_chk': 4, '__vfprintf_chk': 2}
CONV = re.compile(r"%(?:(%)|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|q|L|j|z|t|Z)?(.))", re.S)
INTS = {'i8', 'i16', 'i32', 'i1'}


def conversions(s):
    """[(kind, spelled)] expected by a format; None when malformed"""
    out = []
    i = 0
    while True:
        i = s.find('%', i)
        if i < 0:
            return out
        m = CONV.match(s, i)
        if not m:
            return None
        i = m.end()
        if m.group(1):
            continue
        if m.group(3) == '*':
            out.append(('i32', '*'))
        if m.group(4) == '*':
            out.append(('i32', '.*'))
        mod, c = m.group(5) or '', m.group(6)
        sp = m.group(0)
        if c in 'diouxXc':
            out.append(('i64' if mod in ('l', 'll', 'q', 'j', 'z', 't', 'Z') and c != 'c' else 'i32', sp))
        elif c in 'eEfFgGaA':
            out.append(('x86_fp80' if mod == 'L' else 'double', sp))
        elif c in 'spn':
            if c == 'n':
                return None
            out.append(('ptr', sp))
        elif c == 'm':
            pass
        else:
            return None


def optype(f, op):
    if op[0] in ('g', 'n'):
        return 'ptr'
    if op[0] == 'a':
        return f.params[op[1]][2]
    if op[0] != 'v':
        return None
    d = f.defs.get(op[1])
    if not d:
        return None
    k = d[0]
    if k in ('alloca', 'gep'):
        return 'ptr'
    if k in ('load', 'phi'):
        return d[4]
    if k == 'cast':
        return d[6]
    if k == 'bin':
        return d[6]
    if k == 'icmp':
        return 'i1'
    if k == 'call':
        return d[5]
    if k == 'select':
        return d[6] if len(d) > 6 else None
    return None


def roots(f, op, seen=None):
    """where an operand's value comes from, through copies: constants, parameters, other"""
    seen = seen if seen is not None else set()
    if op[0] != 'v':
        return [op]
    if op[1] in seen:
        return []
    seen.add(op[1])
    d = f.defs.get(op[1])
    if d and d[0] == 'phi':
        r = []
        for v, _ in d[3]:
            r += roots(f, v, seen)
        return r
    if d and d[0] == 'select':
        return roots(f, d[4], seen) + roots(f, d[5], seen)
    if d and d[0] == 'gep' and not d[5] and d[4] == 0:
        return roots(f, d[3], seen)
    if d and d[0] == 'cast' and d[3] in ('bitcast', 'addrspacecast'):
        return roots(f, d[4], seen)
    return [op]


def formatfns(units):
    """name -> (index of the format, 'var' or 'va', number of fixed parameters)"""
    out = {n: (k, 'var', k + 1) for n, k in LIBC_VAR.items()}
    out.update({n: (k, 'va', None) for n, k in LIBC_VA.items()})
    # redirected names used by the C library headers
    changed = True
    while changed:
        changed = False
        for u in units:
            for n, f in u.fns.items():
                if n in out:
                    continue
                for b in f.blocks:
                    for i in b:
                        if i[0] != 'call' or not isinstance(i[3], str) or i[3] not in out or n in out:
                            continue
                        k, kind, _ = out[i[3]]
                        if kind != 'va' or k >= len(i[4]):
                            continue
                        r = roots(f, i[4][k])
                        if len(r) == 1 and r[0][0] == 'a':
                            out[n] = (r[0][1], 'var' if f.vararg else 'va', len(f.params))
                            changed = True
    return out


def run(ctx):
    finds, seen = [], set()
    fm = formatfns(ctx.units)
    ncalls = nargs = forwarded = 0
    own = sorted(n for n in fm if n not in LIBC_VAR and n not in LIBC_VA)

    def rep(u, f, i, what):
        k = "%s|%s|%s" % (infn(f, i), f.prog.fns[i[3]].dname if i[3] in f.prog.fns else i[3], what)
        if (k, site(f, i)) in seen:
            return
        seen.add((k, site(f, i)))
        finds.append(Finding(k, "in %s: %s" % (infn(f, i), what), site(f, i)))

    for u, f in ctx.functions():
        mine = fm.get(f.name)
        for b in f.blocks:
            for i in b:
                if i[0] != 'call' or not isinstance(i[3], str) or i[3] not in fm:
                    continue
                k, kind, nfix = fm[i[3]]
                if k >= len(i[4]):
                    continue
                ncalls += 1
                for r in roots(f, i[4][k]):
                    s = text(u, r)
                    if s is None:
                        if mine and r[0] == 'a' and r[1] == mine[0]:
                            forwarded += 1
                            if kind == 'var' and len(i[4]) == nfix and mine[1] == 'var':
                                rep(u, f, i, "a format is passed on without its arguments to %s" % i[3])
                            continue
                        if r[0] == 'n':
                            continue
                        rep(u, f, i, "the format given to %s is not fixed text of the program" % f.prog.fns[i[3]].dname
                            if i[3] in f.prog.fns else "the format given to %s is not fixed text of the program" % i[3])
                        continue
                    if kind == 'va':
                        continue
                    want = conversions(s)
                    if want is None:
                        rep(u, f, i, "the format \"%s\" is malformed" % s[:60])
                        continue
                    got = i[4][nfix:]
                    nargs += len(want)
                    if len(got) < len(want):
                        rep(u, f, i, "the format \"%s\" takes %d arguments, %d are given" % (s[:60], len(want), len(got)))
                        continue
                    if len(got) > len(want):
                        rep(u, f, i, "the format \"%s\" takes %d arguments, %d are given" % (s[:60], len(want), len(got)))
                    for (w, sp), a in zip(want, got):
                        t = optype(f, a)
                        if t is None or t == w or (w == 'i32' and t in INTS):
                            continue
                        if w == 'i64' and t in ('i64',):
                            continue
                        rep(u, f, i, "%s in \"%s\" does not match the argument given for it (%s)" % (sp, s[:60], t))
    # what the types of the source tell beyond the IR: pointers to something else, signedness of width, constants
    protos = []
    for n in own:
        f = next(u.fns[n] for u in ctx.units if n in u.fns)
        if not f.local and not n.startswith('_Z'):
            protos.append((n, f.dname, fm[n]))
    more, nfiles = frontend(ctx, protos)
    finds += [x for x in more if (x.key, x.site) not in seen]
    cov = {"explanation": "Every call that takes a printf-style format (the C library's and the project's own, found by following their "
           "va_list to a vprintf-family call) must be given fixed text whose conversions agree in number and type with the arguments; "
           "a function may pass its own format parameter on. Arguments are compared on the IR, and again by the compiler's type checker.",
           "format_functions": len(own), "format_calls": ncalls, "formats_passed_on": forwarded, "arguments_compared": nargs,
           "files_type_checked": nfiles}
    broken = None
    if ncalls < 400 or len(own) < 12 or nargs < 400:
        broken = "only %d format calls, %d own format functions, %d arguments found" % (ncalls, len(own), nargs)
    return finds, cov, ASSUME, broken


WIDE = {'long', 'unsigned long', 'long long', 'unsigned long long', 'size_t', 'ssize_t', 'int64_t', 'uint64_t', 'intmax_t', 'uintmax_t',
        'ptrdiff_t'}
WORD = {'int', 'unsigned int', 'unsigned', 'int32_t', 'uint32_t'}
CHAR = {'char *', 'const char *', 'unsigned char *', 'const unsigned char *', 'signed char *'}


def sameclass(msg):
    """a difference in spelling only: both types are passed and read the same way"""
    m = re.match(r"format specifies type '([^']*)'(?: \(aka '([^']*)'\))? but the argument has (?:underlying )?type '([^']*)'(?: \(aka '([^']*)'\))?", msg)
    if not m:
        return False
    a, b = m.group(2) or m.group(1), m.group(4) or m.group(3)
    return any(a in c and b in c for c in (WIDE, WORD, CHAR))


HEADERS = ["disir/disir.h", "disir/context.h", "disir/plugin.h"]


def frontend(ctx, protos):
    """compile with the project's own format functions declared as such"""
    import concurrent.futures as cf
    d = tempfile.mkdtemp(prefix="disir-fmt-")
    src = build.sources(ctx.root)
    files = [s for g in src.values() for s in g]
    finds, seen = [], set()

    def one(s):
        body = "#include <stdarg.h>\n" + "".join("#include <%s>\n" % h for h in HEADERS)
        if "/lib/" in s:
            body += "#include \"context_private.h\"\n#include \"log.h\"\n#include \"query_private.h\"\n"
        cxx = not s.endswith(".c")
        if cxx and "/lib/" in s:
            body = 'extern "C" {\n' + body + "}\n"
        known = []
        hdr = os.path.join(d, "%s.h" % re.sub(r"\W", "_", s))

        def comp(names):
            with open(hdr, "w") as o:
                o.write("#pragma GCC system_header\n" if False else "")
                o.write(body)
                for n, dn, (k, kind, nfix) in names:
                    o.write('%sextern __typeof__(%s) %s __attribute__((format(printf, %d, %d)));\n' % (
                        'extern "C" ' if False else '', dn, dn, k + 1, nfix + 1 if kind == 'var' else 0))
            cmd = [c for c in build.flags(ctx.root, s)] + ["-include", hdr, "-fsyntax-only", "-Wno-everything", "-Wformat", "-Wformat-extra-args",
                   "-Wno-format-zero-length", "-Wno-format-pedantic", "-fno-caret-diagnostics", "-fdiagnostics-format=clang",
                   "-ferror-limit=0", "-Wformat-nonliteral", s]
            return build.run(cmd)
        names = list(protos)
        for _ in range(6):
            rc, out, err = comp(names)
            if rc == 0:
                break
            undecl = set(re.findall(r"(?:undeclared identifier|unknown type name|undeclared function) '(\w+)'", err))
            n2 = [x for x in names if x[1] not in undecl]
            if len(n2) == len(names):
                raise build.AnalysisBroken("format check does not compile %s: %s" % (s, err[-800:]))
            names = n2
        return s, err

    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for s, err in ex.map(one, files):
                for line in err.splitlines():
                    m = re.match(r"(.*?):(\d+):\d+: warning: (.*?) \[-W([\w-]+)\]", line)
                    if not m or not m.group(1).startswith(ctx.root):
                        continue
                    if m.group(4) in ('format-nonliteral', 'format-security'):
                        continue    # decided on the IR, where a forwarded parameter is recognised
                    if sameclass(m.group(3)):
                        continue
                    fil = os.path.relpath(m.group(1), ctx.root)
                    k = "%s|%s" % (fil, re.sub(r"\s*\(aka [^)]*\)", "", m.group(3)))
                    x = (k, "%s:%s" % (fil, m.group(2)))
                    if x in seen:
                        continue
                    seen.add(x)
                    finds.append(Finding(k, m.group(3), x[1]))
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    return finds, len(files)
