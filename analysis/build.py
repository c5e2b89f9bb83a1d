"""Compile /repo's current sources to LLVM IR and load the resolved program."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DISIR_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "irdump")
KNOWN = os.path.join(HERE, "known_functions.txt")


class AnalysisBroken(Exception):
    pass


def inc(root):
    return ["-I%s/%s" % (root, d) for d in (
        "lib/include", "3rdparty/void-multimap", "3rdparty/void-list/include",
        "3rdparty/boost_fdstream", "3rdparty/jsoncpp", "3rdparty", "include")]


def sources(root):
    """Every C/C++ source the project builds (globbed, so an added file is seen)."""
    libc = sorted(glob.glob(root + "/lib/*.c") + glob.glob(root + "/lib/fslib/**/*.c", recursive=True))
    libcc = sorted(glob.glob(root + "/lib/*.cc") + glob.glob(root + "/lib/fslib/**/*.cc", recursive=True))
    cli = sorted(glob.glob(root + "/cli/*.cc"))
    plug = sorted(glob.glob(root + "/plugins/*/main.cc"))
    return {"lib": libc + libcc, "cli": cli, "plugins": plug}


def flags(root, src):
    f = inc(root) + ["-fvisibility=hidden"]
    if "/cli/" in src or "/plugins/" in src:
        f = ["-I%s/include" % root, "-I%s/3rdparty" % root]
    if src.endswith(".c"):
        return ["clang", "-std=gnu11"] + f + ["-DNDEBUG"]
    return ["clang++", "-std=gnu++14", "-include", "string"] + f + ["-DNDEBUG"]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    return p.returncode, p.stdout, p.stderr


def ensure_tool():
    src = os.path.join(VERIF, "tools", "irdump.cc")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    q = lambda *a: subprocess.check_output(["llvm-config-18"] + list(a), universal_newlines=True).split()
    tmp = "%s.%d" % (TOOL, os.getpid())
    cmd = ["clang++", "-O1"] + q("--cxxflags") + ["-fno-rtti", "-w", src, "-o", tmp] + q("--ldflags", "--libs")
    rc, _, err = run(cmd)
    if rc:
        raise AnalysisBroken("cannot build irdump: " + err[-2000:])
    os.replace(tmp, TOOL)


def compile_all(root=None, groups=("lib",), extra=(), jobs=8):
    """-> (tmpdir, {group: [bc]}); the caller removes tmpdir."""
    root = root or REPO
    tmp = tempfile.mkdtemp(prefix="disir-sa-")
    todo = []
    s = sources(root)
    for g in groups:
        for i, src in enumerate(s[g]):
            todo.append((g, src, os.path.join(tmp, "%s_%03d.bc" % (g, i))))

    def one(t):
        g, src, out = t
        cmd = flags(root, src) + list(extra) + [
            "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fPIC", "-w", "-Wno-non-pod-varargs", "-emit-llvm", "-c", src, "-o", out]
        rc, _, err = run(cmd)
        return t, rc, err

    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, todo))
    bad = [(t[1], err) for t, rc, err in res if rc]
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise AnalysisBroken("does not compile: %s\n%s" % (bad[0][0], bad[0][1][-1500:]))
    out = {}
    for (g, src, o), rc, err in res:
        out.setdefault(g, []).append(o)
    return tmp, out


def load(root=None, groups=("lib",), known=KNOWN):
    root = root or REPO
    ensure_tool()
    tmp, bcs = compile_all(root, groups)
    progs = {}
    try:
        for g in groups:
            out = os.path.join(tmp, g + ".json")
            # the command line tool's and the plugins' files each have their own symbols
            rc, _, err = run([TOOL, root, known, out] + bcs[g]) if g != "plugins" else (0, "", "")
            if rc:
                raise AnalysisBroken("irdump failed on %s: %s" % (g, err[-1500:]))
            if g == "plugins":
                progs[g] = []
                for b in bcs[g]:
                    rc, _, err = run([TOOL, root, known, out, b])
                    if rc:
                        raise AnalysisBroken("irdump failed: " + err[-1500:])
                    with open(out) as f:
                        progs[g].append(json.load(f))
            else:
                with open(out) as f:
                    progs[g] = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return progs


if __name__ == "__main__":
    import time
    t = time.time()
    p = load(groups=tuple(sys.argv[1:]) or ("lib",))
    print(time.time() - t)
    for g, prog in p.items():
        if isinstance(prog, list):
            continue
        n = sum(len(b) for f in prog["fns"].values() for b in f["blocks"])
        print(g, len(prog["fns"]), "functions", n, "instrs", len(prog["raw"]), "raw")
