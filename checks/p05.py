#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *

def main():
    C = Check("P05")
    q = C.quick()
    k = 1 if q else 12
    prof = [
        SemProfile("extrude", gen_cfg("sqr cir pgn ext exts op op2 tra", 3, 12), 300 * k),
        SemProfile("revolve", gen_cfg("sqr cir pgn rex op2 op tra scl", 3, 10), 200 * k),
        SemProfile("hull", gen_cfg("sqr cir pgn hul ext tra rot scl mir op op2", 4, 12), 250 * k),
        SemProfile("project", gen_cfg("cube cyl phd pro ext tra rot op op2", 4, 12), 200 * k),
        SemProfile("nested", gen_cfg("cube cyl sqr cir pgn ext exts rex hul pro tra rot mir op op2", 5, 14), 250 * k),
    ]
    run_profiles(C, prof, 400 if q else 4000, 5)
    C.finish()
guarded(main)
