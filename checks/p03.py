#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *

def main():
    C = Check("P03")
    q = C.quick()
    k = 1 if q else 12
    prof = [
        SemProfile("empty", gen_cfg("cube cyl fn4 emp op swap tra", 3, 12), 300 * k),
        SemProfile("modifiers", gen_cfg("cube cyl emp mod op swap tra rot", 3, 12), 300 * k),
        SemProfile("root", gen_cfg("cube cyl mod root op swap tra rot emp", 3, 12), 300 * k),
    ]
    run_profiles(C, prof, 400 if q else 4000, 3)
    C.finish()
guarded(main)
