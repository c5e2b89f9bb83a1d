#!/usr/bin/env python3
"""Maintainer's aid (never run by a check): print `finding:` lines for what the engine reports now."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/analysis")
import flow
f, c, n = flow.run(sorted(flow.RULES))
for p in sorted(f):
    seen = set()
    for x in f[p]:
        if x.key not in seen:
            seen.add(x.key)
            print("finding: property=%s key=%s -- %s [%s]" % (p, x.key, x.text, x.site))
