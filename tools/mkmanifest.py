#!/usr/bin/env python3
"""Maintainer aid: writes MANIFEST.json from the table below."""
import json
import os

FLOW = "path-sensitive interprocedural dataflow over LLVM IR (%s)"
FNOTE = ("Static, all functions and paths of the current sources; sound up to the stated contracts for calls outside the project, "
         "and except in the functions the evidence lists as cut off at the state bound, where it is a search.")
PNOTE = "Static, over every function of the current sources compiled to IR; the evidence counts the constructs decided."
ABS = "abstract interpretation over order relations and intervals, callees in place, on abstract start states"
ANOTE = ("Static, every path of the functions that decide; numbers, values and versions are unbounded (only their order is "
         "abstracted), lists of restrictions and defaults are analysed up to two entries (quick) or three (thorough).")
ABS2 = ("abstract interpretation of the dispatching functions over abstract queues, calls made through function pointers compared with "
        "those due")
DNOTE = ("Static, every path of the functions that decide, for every queue or list up to two elements (quick) or three (thorough) and every "
         "answer of what they call; names are abstract (equal or not).")
ABS3 = ("abstract interpretation of the functions that hold the guarantee from every small abstract start state, the state they end in compared "
        "with the one the property names")
LNOTE = ("Static, every path of the functions that decide; reference counts are one or any number above it, contexts of every kind, parent and "
         "state, each on its own; whole histories are not explored: each call is decided from every state the others can leave.")
CNOTE = ("Static, every path of the functions that decide, for every collection or storage up to three contexts or two elements (quick), four or three "
         "(thorough); the hash map and list of 3rdparty are taken as what their interfaces say.")
VNOTE = ("Static, every path of the functions that decide, for every list up to two entries (quick) or three (thorough) in every order of versions; "
         "a version is one of nine places in the order, neighbours differing in either number; P13 decides the comparison itself for all numbers.")
ENOTE = ("Static, every path of the functions that unpack, for every archive of up to two entries (quick) or three (thorough); libarchive is taken as "
         "what its interface says, with its checks on names and symbolic links.")
C = {
    "P01": (FLOW % "ownership typestate: contexts, molds, configs", FNOTE),
    "P02": (FLOW % "ownership typestate: memory, streams, handles", FNOTE),
    "P03": (FLOW % "typestate: use after release", FNOTE),
    "P04": (FLOW % "null-argument analysis of the exported API", FNOTE),
    "P05": (FLOW % "kind-state of the context union", FNOTE),
    "P06": (FLOW % "definite assignment", FNOTE),
    "P07": (FLOW % "guard dominance for optional function pointers", FNOTE),
    "P08": (FLOW % "nullness of fallible results", FNOTE),
    "P09": (ABS2, DNOTE),
    "P10": ("symbolic bounds analysis over IR: linear inequalities over sizes, lengths and indices, requirements passed to callers", PNOTE),
    "P11": ("path-sensitive status typestate over IR: failed steps against the answers of every path, to a fixpoint over callees", PNOTE),
    "P12": (ABS, ANOTE),
    "P13": ("abstract interpretation over order relations of the two arguments; boundary rule on every version test in the IR", PNOTE),
    "P14": ("constant-table extraction from IR, index range analysis, and comparison of writer and reader key sets over the call graph", PNOTE),
    "P15": (ABS3, VNOTE),
    "P16": ("format-string analysis over IR, and the compiler's format checker run with generated format attributes", PNOTE),
    "P17": (ABS3, CNOTE),
    "P18": ("abstract interpretation over order relations of the two arguments", PNOTE),
    "P19": ("loop progress analysis over IR: every path from header to latch changes what an exit depends on", PNOTE),
    "P20": (ABS, ANOTE),
    "P21": (ABS3, CNOTE),
    "P22": (ABS2, DNOTE),
    "P23": (ABS3, LNOTE),
    "P24": (ABS2, DNOTE),
    "P25": (FLOW % "reachability of program-ending calls under kind and state facts", FNOTE),
    "P26": ("abstract interpretation of the unpacking functions over a model of libarchive; each entry written and each answer is judged", ENOTE),
}
NA = [
    ("P30", "equality of whole documents after a pass through a text format and back quantifies over unbounded recursive content and the "
            "behaviour of the JSON and TOML libraries; no static rule in reach bounds it. P14 decides the part that is key and type names."),
    ("P31", "what an update has to keep is a relation between whole documents and their history; the values compared are runtime content. "
            "P11 decides that a failed step of an update is answered, P13 and P12 the version and value rules it applies."),
    ("P32", "whether generated content meets every restriction depends on the defaults and restrictions the mold holds at run time; the rules "
            "applied to it are decided under P12, P13 and P20."),
    ("P33", "a property of file-system states between system calls, and the code does not provide it: entries are truncated and rewritten in "
            "place by design. P11 decides that a failed write is answered."),
    ("P34", "completeness of a report over two unbounded trees of content; P18 decides the comparison of the values themselves."),
]

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    m = {"version": 1,
         "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'analysis'); import build; build.ensure_tool()\"",
         "checks": [{"property": k, "quick_cmd": "python3 analysis/check.py %s quick" % k,
                     "thorough_cmd": "python3 analysis/check.py %s thorough" % k,
                     "technique": v[0], "level": "other", "level_note": v[1]} for k, v in sorted(C.items())],
         "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
    with open(os.path.join(root, "MANIFEST.json"), "w") as o:
        json.dump(m, o, indent=1)
        o.write("\n")
