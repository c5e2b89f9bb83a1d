#!/usr/bin/env python3
"""Print the 'fixed:' lines of known_findings.txt from the fix commits of /repo (property guessed from the subject)."""
import re, subprocess
RULES = [
    (r"^print_verify: a name", "P03"),
    (r"contexts destroyed behind the iterator", "P21"),
    (r"element that could not be added stayed", "P17"),
    (r"left out of (a mold|the answer)|libdisir config that could not|marked updated although a new|damaged archive|archive entry whose header|"
     r"read as another version|counted as none|created beside the existing|registered without the base|loaded without its filepath|"
     r"config or mold that could not be written", "P11"),
    (r"hand a plugin its own record", "P24"), (r"ended the program", "P25"), (r"logged as int|as a format$|used as a format", "P16"), (r"not a number compared", "P18"),
    (r"strict weak order|only looked at the first restriction|missed a restriction|elements of lhs|integers and floats that differ|differ", "P18"),
    (r"wrapped|representable range", "P13"),
    (r"terminated the process|aborted the process", "P25"),
    (r"threw exceptions", "P25"),
    (r"extracted outside|hard link", "P26"),
    (r"logged (an|pointers|a status)|format (argument|string)|log messages passed|arguments of a debug|log args", "P16"),
    (r"overran|copied without bound|size of the one before|buffer smaller|version buffer|buffers as (large|stated)|terminator outside|terminated past|out of bounds|past the name table|past the end|before the start|in front of|too long for its buffer|too long name|read before its entry", "P10"),
    (r"report a failure|reported as written|reported success|fatal error writing|failures? to |handed out as if|dropped a failure|keeps the failure|undefined status", "P11"),
    (r"may not provide|without mold_query|no plugin|plugin may", "P07"),
    (r"only asked the last plugin", "P09"),
    (r"skipped every element|looked at the root|retried forever|entries whose name|could be picked", "P19"),
    (r"uninitiali|unset|never set|never read|undefined|defined answer|kept the|is determined", "P06"),
    (r"stayed in the map|finalized twice|destroyed (parent|defaults)|already destroyed|just freed|destroyed before|wrong reference|exactly once|frees? the strings|destroyed a context it never", "P03"),
    (r"NULL|allocation|without|empty archive|missing", "P08"),
    (r"mold|context|reference|section|element|config|documentation", "P01"),
    (r"", "P02"),
]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], stdout=subprocess.PIPE, universal_newlines=True).stdout
for l in out.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = next(p for r, p in RULES if re.search(r, s))
    print("fixed: property=%s %s %s" % (p, h, s))
print("finding: property=P23 key=dc_destroy|keeps the reference a finalized element's parent took over from its creator -- "
      "dc_destroy of an element that is part of a tree (obtained with dc_find_element, for one) leaves one reference: the 56 bytes "
      "of its context are never freed")
