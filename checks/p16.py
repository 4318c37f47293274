#!/usr/bin/env python3-vt
"""The containers of the base library: histories from spec/Dict.tla, Heap.tla and Seqs.tla, replayed into
the library (harness/cont.c, with the address checker); results and contents are compared after every call."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cont import *

DICT_OPS = "ins iat iend iref rem ext find swap subst split join2 join3 look".split()

def main():
    C = Check("P16")
    exe = driver(C)
    q = C.quick()
    k = 1 if q else 12
    sh = {"RAND": "TRUE", "HIST": "TRUE"}
    jobs = []
    for seed, (kmax, ln, nodes, num, ops) in enumerate([
            (9, 60, 60, 500, DICT_OPS), (60, 160, 150, 90, DICT_OPS), (3, 40, 30, 400, DICT_OPS),
            (200, 300, 300, 24, DICT_OPS), (40, 60, 60, 300, ["ins", "iref", "iend", "iat", "rem", "ext", "find"]),
            (40, 70, 60, 300, ["ins", "iend", "split", "join2", "join3"])]):
        jobs.append(("Dict", cfg(dict(sh, KMAX=kmax, LEN=ln, OPS=tset(ops), NODES=nodes), ["Sorted", "Apart", "Conserved", "Emit"]), num * k, ln + 1, seed, 0))
    for seed, (pm, ln, nodes, num) in enumerate([(9, 40, 14, 800), (4, 60, 30, 400), (50, 120, 60, 200)]):
        jobs.append(("Heap", cfg(dict(sh, PMAX=pm, LEN=ln, NODES=nodes, KINDS=tset(["ptr", "vec"])), ["SortedBag", "Emit"]), num * k, ln + 1, seed, 0))
    for seed, (vm, ln, size, num, kinds) in enumerate([(9, 40, 12, 1500, ["vec"]), (3, 50, 30, 800, ["vec"]), (200, 40, 60, 500, ["vec"]),
                                                       (1, 30, 12, 80, ["str"]), (1, 30, 12, 600, ["bit", "ring"])]):
        jobs.append(("Seqs", cfg(dict(sh, VMAX=vm, LEN=ln, SIZE=size, KINDS=tset(kinds)), ["Perm", "Emit"]), num * k, ln + 1, seed, size))
    if not q:
        # every history of three calls on few nodes
        jobs.append(("Dict", cfg(dict(KMAX=1, LEN=3, OPS=tset(DICT_OPS), NODES=3, RAND="FALSE", HIST="TRUE"), ["Sorted", "Apart", "Conserved", "Emit"]), 0, 0, -1, 0))
        jobs.append(("Heap", cfg(dict(PMAX=2, LEN=3, NODES=3, RAND="FALSE", HIST="TRUE", KINDS=tset(["ptr", "vec"])), ["SortedBag", "Emit"]), 0, 0, -1, 0))
        jobs.append(("Seqs", cfg(dict(VMAX=1, LEN=2, SIZE=3, RAND="FALSE", HIST="TRUE", KINDS=tset(["vec", "bit", "ring"])), ["Perm", "Emit"]), 0, 0, -1, 3))
    run_jobs(C, exe, jobs, lambda mod, r: "dict" if mod == "Dict" else r["k"] if mod == "Seqs" else "ptr" if r["h"][0]["o"].startswith("h") else "hvec")
    C.assumptions = ["call contracts of the headers (positions within bounds, a node is in one tree at most)",
                     "where the documentation leaves the result of a search open, any result is accepted"]
    C.sample({"harness": "harness/cont.c", "element types": "1, 8 and 16 bytes"})
    C.finish()
guarded(main)
