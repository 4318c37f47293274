#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *

def main():
    C = Check("P04")
    q = C.quick()
    k = 1 if q else 12
    prof = [
        SemProfile("exact", gen_cfg("cube cyl phd tra rot mir scl op", 4, 12), 300 * k),
        SemProfile("general", gen_cfg("cube cyl sph phd tra rot rotx mir scl mul col op", 4, 12), 300 * k),
        SemProfile("heights", gen_cfg("cube cyl fn4 tra rot mir scl op", 4, 12, zf=0), 150 * k, zf=0),
        SemProfile("extruded", gen_cfg("cube sqr cir pgn ext rex hul pro tra rot rotx mir scl mul op op2", 4, 12), 300 * k),
    ]
    run_profiles(C, prof, 400 if q else 4000, 4)
    C.finish()
guarded(main)
