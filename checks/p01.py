#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *
from bulk import run_bulk

def main():
    C = Check("P01")
    q = C.quick()
    k = 1 if q else 12
    prof = [
        SemProfile("boxes", gen_cfg("cube fn4 cyl op swap", 3, 12), 240 * k),
        SemProfile("solids", gen_cfg("cube cyl phd op swap", 3, 14), 240 * k),
        SemProfile("round", gen_cfg("cube sph cyl op swap tra", 3, 10), 120 * k),
        SemProfile("heights", gen_cfg("cube cyl phd fn4 op swap", 3, 10, zf=0), 160 * k, zf=0),
    ]
    run_profiles(C, prof, 200 if q else 3000, 1)
    if not C.enough():      # large ones
        run_bulk(C, "1, 6, 30, 120, 300", 6, "1, 2, 5, 40, 200", 120, 250 * k, 100 if q else 2000, 1)
    C.finish()
guarded(main)
