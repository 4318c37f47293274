#!/usr/bin/env python3-vt
"""Imports and includes: programs of spec/Files.tla distributed over SCAD and STL files; damaged STL files of spec/StlText.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import gen_cfg
from files import *
from bulk import run_bulk

def cfg(acts, nlo, nhi, incw, impw, zn, zf, nlay=4):
    c = gen_cfg(acts, nlo, nhi, nlay=nlay, zn=zn, zf=zf, laws=False, extra=" INCW = %d\n IMPW = %d\n" % (incw, impw))
    return c.replace("SPECIFICATION Spec", "SPECIFICATION FSpec").replace(" EMIT = TRUE", " EMIT = FALSE").replace("INVARIANTS Emit", "INVARIANTS SpreadOk EmitF")

def main():
    C = Check("P15")
    q = C.quick()
    k = 1 if q else 12
    C.assumptions = ["sampled points at least 1/64 away from surfaces", "small integer coordinates", "surfaces that are not closed, trailing data in binary STL files, and binary headers starting with 'solid' are left open"]
    for name, acts, nlo, nhi, incw, impw, zn, zf, num in (
        ("stl", "phd tra mir rot scl dup", 1, 4, 5, 100, 4, 0, 300),
        ("stlop", "phd cube op tra swap dup", 3, 8, 10, 90, 4, 1, 250),
        ("inc3", "cube cyl phd op swap tra emp mod dup", 4, 10, 35, 80, 4, 1, 300),
        ("inc2", "sqr cir pgn op2 op ext tra hul pro cube", 4, 12, 40, 50, 4, 1, 200)):
        if C.enough(): break
        run_files(C, name, cfg(acts, nlo, nhi, incw, impw, zn, zf), num * k, zn, zf, 120 if q else 1200, len(C.cov.get("profiles", {})) + 1)
    if not C.enough():
        run_stl(C, not q, 200 if q else 1500)
    if not C.enough():      # large files, deep nests of includes
        run_bulk(C, "6, 30, 150, 400", 5, "1, 2, 3", 120, 150 * k, 80 if q else 1500, 4, files=True)
    C.finish()
guarded(main)
