"""Keys of reports, the known-findings file, evidence files, and the exit discipline shared by all checks."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.path.join(VERIF, "evidence")


class Finding(object):
    """one construct that breaks a rule.  key: what identifies it across edits (no line numbers)"""

    def __init__(self, key, text, site="", trace=()):
        self.key, self.text, self.site, self.trace = key, text, site, trace


def norm(what):
    what = re.sub(r" \((acquired at|lib/|cli/|plugins/)[^)]*\)+", "", what)
    what = re.sub(r"'[A-Za-z_0-9:.]+', ", "", what)
    what = re.sub(r"\*?argument '[A-Za-z_0-9]+'", "an argument", what)
    what = re.sub(r"'[A-Za-z_0-9]+'", "a variable", what)
    what = re.sub(r"<.*>", "<>", what)
    return re.sub(r"\s+", " ", what).strip()


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) -- (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(pid, tier, findings, coverage, level="other", assumptions=(), t0=None, broken=None):
    """print, write the evidence, and exit"""
    kn = known(pid)
    seen, new = {}, []
    for f in findings:
        if f.key in kn:
            seen.setdefault(f.key, f)
        else:
            new.append(f)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k], seen[k].site))
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, pid + ".report.txt")
    with open(rep, "w") as o:
        for f in new:
            o.write("%s: %s\n    key: %s\n" % (f.site, f.text, f.key))
            for t in f.trace:
                o.write("    via %s\n" % (t,))
    cov = dict(coverage)
    cov["reports_known"] = len(seen)
    cov["reports_new"] = len(new)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - (t0 or time.time()), 2), "violations": len(new)}
    with open(os.path.join(EVID, pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1, sort_keys=True)
        o.write("\n")
    if broken:
        print("ANALYSIS-BROKEN: %s" % broken)
        sys.stdout.flush()
        return 2
    for f in new[:40]:
        print("%s: %s" % (f.site, f.text))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s: held (%s)" % (pid, ", ".join("%s=%s" % (k, v) for k, v in sorted(cov.items())
                                            if isinstance(v, int))))
    return 0
