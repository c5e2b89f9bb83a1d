"""The checks decided by the path-sensitive summary engine (world.py): which of its rules belong to which property."""
import os
import re

import build
import world
from report import Finding, norm, VERIF

# rule of the engine -> property
RULES = {
    'P01': lambda r: r.rule in ('leak:ref', 'leak:mold', 'leak:object'),
    'P02': lambda r: r.rule.startswith('leak:') and r.rule not in ('leak:ref', 'leak:mold', 'leak:object'),
    'P03': lambda r: r.rule in ('uaf', 'double'),
    'P04': lambda r: r.rule == 'null' and isarg(r),
    'P05': lambda r: r.rule == 'kind',
    'P06': lambda r: r.rule == 'uninit',
    'P07': lambda r: r.rule == 'callback',
    'P08': lambda r: r.rule == 'null' and not isarg(r),
    'P25': lambda r: r.rule == 'abort' and r.site.startswith('lib/'),
}


def isarg(r):
    return bool(re.match(r"\*?argument '", r.what))


# The functions that implement reference counting and the element store: their own bodies acquire for, and release on
# behalf of, the structure they maintain, so the pairing rule is stated for their callers (contracts in world.py).
PRIMITIVE = frozenset("""
dc_begin dc_finalize dc_finalize_keep_reference dc_destroy dc_putcontext dc_getcontext
dx_context_create dx_context_destroy dx_context_attach dx_context_incref dx_context_decref dx_context_transfer_logwarn
dx_keyval_begin dx_section_begin dx_default_begin dx_documentation_begin dx_restriction_begin
dx_keyval_finalize dx_section_finalize
dx_element_storage_add dx_element_storage_get dx_element_storage_get_all dx_element_storage_get_first
dx_element_storage_destroy dx_element_storage_remove dc_collection_push_context
""".split())

# entry points of bundled storage plugins: reached only through the plugin table, with arguments the library validated
SLOTFN = re.compile(r"^(dio_|fslib_)")


def undecided():
    """[(rule prefix, function, file or None)]: where the analysis does not decide (undecided.txt says why)"""
    out = []
    for line in open(os.path.join(VERIF, "undecided.txt")):
        if line.strip() and not line.startswith("#"):
            r, f, why = line.rstrip("\n").split("|", 2)
            f, _, fil = f.partition("@")
            out.append((r, f, fil))
    return out


def scope(pid, r):
    if pid in ('P01', 'P03') and r.fn in PRIMITIVE:
        return False
    if pid == 'P04' and SLOTFN.match(r.fn):
        return False
    return True


def run(pids, root=None, jobs=8, verbose=False, progs=None):
    """-> ({pid: [Finding]}, coverage)"""
    progs = progs or build.load(root, groups=("lib", "cli", "plugins"))
    lib = world.World(progs["lib"], verbose=verbose)
    lib.run(jobs)
    ws = [lib]
    for raw in [progs["cli"]] + list(progs["plugins"]):
        w = world.World(raw, base=lib, verbose=verbose)
        w.run(jobs)
        ws.append(w)
    out = {p: {} for p in pids}
    counts = {}
    fns = states = 0
    incomplete = []
    und = undecided()
    skipped = {}
    for w in ws:
        fns += len(w.interp)
        for n, it in w.interp.items():
            states += it.nstates
            if it.incomplete:
                incomplete.append(w.pretty(n))
            for k, v in it.counts.items():
                counts.setdefault(k, set()).update(v)
        for r in w.reports():
            for p in pids:
                if RULES[p](r) and scope(p, r):
                    if any(r.rule.startswith(u) and r.fn == f and fil in r.site for u, f, fil in und):
                        skipped.setdefault(p, set()).add(r.fn)
                        continue
                    key = "%s|%s|%s" % (r.rule, r.fn, norm(r.what))
                    f = Finding(key, "%s: in %s: %s" % (r.rule, r.fn, r.what), r.site, r.trace or ())
                    out[p].setdefault((key, r.site), f)
    cov = {"functions_analysed": fns, "abstract_states": states, "functions_at_state_bound": sorted(incomplete)}
    cov["functions_not_decided"] = sorted(set().union(*skipped.values())) if skipped else []
    return {p: [out[p][k] for k in sorted(out[p])] for p in pids}, cov, {k: len(v) for k, v in counts.items()}


ENGINE = ("Every function of the library, the bundled storage formats, the command line tool and the example plugins is compiled to LLVM IR "
          "from the current sources and abstractly interpreted along all its paths (branch facts kept, loops to a fixpoint, callees through "
          "summaries computed bottom-up). ")
EXPLAIN = {
    'P01': ENGINE + "Rule: on every path to a return, each context, mold, config or collection reference obtained is handed to the caller, stored, or given back.",
    'P02': ENGINE + "Rule: on every path to a return, each heap block, stream, directory, archive handle or descriptor obtained is handed on or given back.",
    'P03': ENGINE + "Rule: no path uses or gives back something it no longer holds.",
    'P04': ENGINE + "Rule: in an exported function no path reads or writes through a pointer argument (or passes it to something that does) unless a test excluded NULL. "
                    "Second rule: interpreted with a required argument (required.txt) missing, no operation answers OK.",
    'P05': ENGINE + "Rule: the per-kind payload of a context is read or written only where every path has established that kind.",
    'P06': ENGINE + "Rule: no path reads, branches on or passes on a local (or an output a callee may leave alone) before it is written.",
    'P07': ENGINE + "Rule: each call through an optional slot of a plugin's operation table is dominated by a test that the slot is filled.",
    'P08': ENGINE + "Rule: no path uses a possibly-NULL result of an allocation, lookup or internal call as an object, nor passes NULL where it is dereferenced.",
    'P25': ENGINE + "Rule: no path of a library function reaches a call that ends the program (abort, exit, or the internal dx_crash_and_burn).",
}
ASSUME = ["the compiled IR at -O0 has the semantics of the source; NDEBUG is set",
          "calls outside the project follow the contracts in analysis/world.py",
          "C++ exceptions are not followed as paths by this engine",
          "functions_not_decided lists functions where a report was dropped because the abstraction cannot decide them (undecided.txt says why)",
          "functions_at_state_bound lists functions whose path enumeration was cut off at the state bound; there the result is a search, not a proof"]
