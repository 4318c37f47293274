#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *

def main():
    C = Check("P18")
    q = C.quick()
    k = 1 if q else 12
    prof = [
        SemProfile("phd", gen_cfg("phd", 1, 1, zn=5, nlay=10), 200 * k, zn=5),
        SemProfile("phdz", gen_cfg("phd", 1, 1, zn=5, zf=0, nlay=10), 250 * k, zn=5, zf=0),
        SemProfile("spheres", gen_cfg("sph", 1, 1, zn=5, zf=0, nlay=10), 200 * k, zn=5, zf=0),
        SemProfile("sphrot", gen_cfg("sph tra rot rotx mir scl", 2, 4, zn=5, nlay=6), 200 * k, zn=5),
        SemProfile("phdrot", gen_cfg("phd tra rot mir", 2, 4, zf=0, zn=5, nlay=6), 250 * k, zn=5, zf=0),
    ]
    run_profiles(C, prof, 400 if q else 4000, 18)
    C.finish()
guarded(main)
