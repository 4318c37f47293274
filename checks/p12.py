#!/usr/bin/env python3-vt
"""The integer grid: models of all sizes and all grid options drawn from spec/Grid.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *

ALL = '{"default","pow","powdec","dec","frac","gran","granpow","zero"}'
def cfg(kinds, lo, hi, decs, opts, n):
    return ' KINDS={%s}\n ELO=%d EHI=%d DECS={%s}\n OPTS=%s\n MAXN=%d\n' % (
        ",".join('"%s"' % k for k in kinds.split()), lo, hi, decs, opts, n)

def main():
    C = Check("P12")
    q = C.quick()
    k = 3 if q else 40
    for name, c, num in (
        ("sizes", cfg("box dia tri", 9, 20, "0", '{"default"}', 3), 700),
        ("options", cfg("box dia tri", 9, 14, "0,1,2,3", ALL, 3), 900),
        ("slanted", cfg("tet", 9, 20, "0,1,2,3", ALL, 2), 900),
        ("flat", cfg("ext ext box", 9, 20, "0", ALL, 2), 500)):
        if C.enough(): break
        run_grid(C, name, c, num * k, 150 if q else 1500, len(name))
    C.finish()
guarded(main)
