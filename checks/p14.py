#!/usr/bin/env python3-vt
"""Complaints: programs with faulty calls of spec/Faults.tla must end in an outcome the specification permits; wrong files (SynGen)
must be rejected at the right line; damaged programs (spec/Damage.tla) must end in success or an error message."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import gen_cfg
from faults import *
from damage import run_damage
import syn

def cfg(acts, classes, nlo, nhi, nlay=3):
    c = gen_cfg(acts, nlo, nhi, nlay=nlay, laws=False, extra=' CLASSES = {%s}\n' % ",".join('"%s"' % x for x in classes.split()))
    return c.replace("SPECIFICATION Spec", "SPECIFICATION FSpec").replace(" EMIT = TRUE", " EMIT = FALSE").replace("INVARIANTS Emit", "INVARIANTS RunOk EmitF")
def dcfg(acts, nlo, nhi):
    return gen_cfg(acts, nlo, nhi, nlay=1, laws=False).replace("SPECIFICATION Spec", "SPECIFICATION DSpec").replace("INVARIANTS Emit", "INVARIANTS EmitD")

SOFT = "empty collapse outside-3d outside-2d unsupported-functor unknown-param"
def main():
    C = Check("P14")
    q = C.quick()
    k = 1 if q else 12
    for name, acts, classes, nlo, nhi, num in (
        ("soft3", "cube cyl op swap tra emp", SOFT, 3, 8, 450),
        ("soft2", "sqr cir pgn op2 op ext rex tra cube", SOFT, 3, 10, 450),
        ("place2", "sqr op2 ext swap", "outside-3d empty", 3, 7, 400),
        ("place3", "cube op swap", "outside-2d collapse", 2, 5, 300),
        ("hard", "cube sph op tra rot col mir", "hard empty", 2, 6, 700),
        ("hard2", "sqr cir ext hul op2 tra", "hard unknown-param", 2, 6, 400)):
        if C.enough(): break
        run_faults(C, name, cfg(acts, classes, nlo, nhi), num * k, 60, 60 if q else 600, len(C.cov.get("profiles", {})) + 1)
    for i, (items, fuel, edits) in enumerate(((6, 2, 1), (3, 2, 2))):
        if C.enough(): break
        for rep in range(1 if q else 10):
            syn.judge(C, syn.generate(C, 1500, items, fuel, edits, 31 + i + 100 * rep, 60), True)
    for name, acts, nlo, nhi, num in (
        ("damage3", "cube cyl sph phd op tra rot mir scl mul col emp mod swap", 2, 8, 2000),
        ("damage2", "cube sqr cir pgn ext exts rex hul pro op2 op tra rot", 2, 10, 2000)):
        if C.enough(): break
        run_damage(C, name, dcfg(acts, nlo, nhi), num * k, 120 if q else 1200, len(name) + nlo + nhi)
    C.assumptions = ["whether a faulty object counts as an ignored child is left open where the documentation does not say (functors that are not supported, projections and hulls in the wrong context)",
                     "runs of damaged files with extreme numbers may exhaust time or memory, and coordinates beyond the grid may end in the documented 'numeric overflow' refusal",
                     "the severity unknown-functor is left to P06 (known finding)"]
    C.finish()
guarded(main)
