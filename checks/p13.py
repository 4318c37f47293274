#!/usr/bin/env python3-vt
"""The syntax: files derived (and damaged) by spec/SynGen.tla and all short token sequences of spec/SynEnum.tla are given to the
reader; TLC judges acceptance and the dump by the recogniser spec/Syntax.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from syn import *
from semcheck import *
from canon import run_canon

def main():
    C = Check("P13")
    q = C.quick()
    for ctx in range(1, 9) if "sem" not in sys.argv else []:
        if C.enough(): break
        judge(C, enumerate_tokens(C, (3 if ctx in (2, 3) else 2) if q else (4 if ctx in (1, 2, 3) else 3), ctx, 200), False)
    plan = [(1500, 2, 1, 0, 1), (2500, 6, 2, 0, 2), (2500, 2, 2, 1, 3), (2500, 5, 2, 3, 4)]
    for num, items, fuel, edits, seed in plan if "sem" not in sys.argv else []:
        for rep in range(1 if q else 12):
            if C.enough(): break
            src = generate(C, num, items, fuel, edits, seed + 100 * rep, 60)
            for s in src[:1]:
                C.sample(repr(s))
            judge(C, src, False)
    if not C.enough():
        k = 1 if q else 12
        back = (("@scad",), ("@syn",), ("@scad", "@scad"))
        prof = [
            SemProfile("back3", gen_cfg("cube sph cyl phd fn4 op swap tra rot scl mir mul col rotx", 3, 12), 150 * k, back, rotate=1),
            SemProfile("back2", gen_cfg("sqr cir pgn ext exts rex hul pro op2 op tra rot", 3, 12), 200 * k, back, rotate=1),
            SemProfile("backmod", gen_cfg("cube cyl op swap mod root emp tra", 3, 10), 100 * k, back, rotate=1),
            SemProfile("csg3", gen_cfg("cube cyl phd sph fn4 op swap tra rot scl mir mul col rotx", 3, 12), 150 * k, (("@csg3",), ("@scad", "@csg3")), rotate=1),
        ]
        run_profiles(C, prof, 250 if q else 3000, 13)
    if not C.enough():
        run_canon(C, 3000 if q else 60000, 5, 60 if q else 900, 9)
    C.assumptions = ["empty statements, several modifiers and a comma at the end of a list may be accepted or rejected (the tool accepts them, the grammar does not derive them)",
                     "numbers with more than 18 digits or exponents beyond 290, keywords as functors, and escapes of unprintable bytes are left open",
                     "numbers are compared to 13 significant digits (the dump prints 16)"]
    C.finish()
guarded(main)
