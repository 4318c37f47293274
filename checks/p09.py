#!/usr/bin/env python3-vt
"""All output formats: models, layers and settings drawn from spec/Formats.tla, each written in every format."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from formats import *

def cfg(n, r, lay, big): return " MAXN=%d R0=%d MAXLAY=%d BIG=%s\n" % (n, r, lay, big)

def main():
    C = Check("P09")
    q = C.quick()
    # the scene's encoding: reading gives back what any writer wrote
    rc, out, st, di = tlc_check("JsScene", "SPECIFICATION Spec\nCONSTANTS CAP=4 POINTS=2 MAXT=%d SHIFT={0,2}\nINVARIANT ReadBack\n" % (2 if q else 3))
    if rc != 0: raise TlcError("JsScene: %s" % out[-600:])
    C.add("states", di); C.add("transitions", st)
    k = 2 if q else 25
    for name, c, num, b in (
        ("small", cfg(2, 6, 3, "FALSE"), 300, 200),
        ("several", cfg(6, 8, 5, "FALSE"), 500, 300),
        ("batches", cfg(1, 6, 2, "TRUE"), 40, 300)):
        if C.enough(): break
        run_formats(C, name, c, num * k, b if q else 1500, len(name))
    C.finish()
guarded(main)
