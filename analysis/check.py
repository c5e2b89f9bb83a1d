#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on the sources now in /repo."""
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    # the same sources give the same answer
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import report

EXPL = {}
# fewest obligations a working analysis of this code base can see, per engine counter (about half of today's)
FLOOR = {"acquire": 200, "release": 350, "kind-access": 150, "kind-check": 20, "callback": 10, "abort-site": 1}
USES = {"P01": ("acquire", "release"), "P02": ("acquire", "release"), "P03": ("release",), "P04": (), "P05": ("kind-access", "kind-check"),
        "P06": (), "P07": ("callback",), "P08": ("acquire",), "P25": ("abort-site",)}


def flow_check(pid):
    import flow
    out, cov, counts = flow.run([pid])
    broken = None
    for c in USES[pid]:
        cov[c.replace("-", "_")] = counts.get(c, 0)
        if counts.get(c, 0) < FLOOR[c]:
            broken = "only %d obligations of kind %s found" % (counts.get(c, 0), c)
    if cov["functions_analysed"] < 300:
        broken = "only %d functions analysed" % cov["functions_analysed"]
    cov["explanation"] = flow.EXPLAIN[pid]
    return out[pid], cov, flow.ASSUME, broken


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        import flow
        if pid in flow.RULES:
            finds, cov, assume, broken = flow_check(pid)
            if pid == 'P04':
                import p_args
                more, c2, b2 = p_args.run(p_args.library())
                finds, broken = finds + more, broken or b2
                cov.update(c2)
        else:
            import passes
            finds, cov, assume, broken = passes.run(pid, tier)
    except build.AnalysisBroken as e:
        finds, cov, assume, broken = [], {"explanation": "the sources could not be analysed"}, [], str(e)
    return report.finish(pid, tier, finds, cov, "other", assume, t0, broken)


if __name__ == "__main__":
    sys.exit(main())
