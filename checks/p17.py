#!/usr/bin/env python3-vt
"""SVG import: documents of spec/Svg.tla compared region by region; damaged documents of spec/XmlText.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from svg import *

def main():
    C = Check("P17")
    q = C.quick()
    k = 1 if q else 15
    C.assumptions = ["sampled points away from boundaries by the approximation of curves", "coordinates in halves", "left open: only one of width and height, user units without a view box other than 1 mm, percentages inside an svg without view box, errors in transform lists, CDATA sections, processing instructions"]
    for name, nlo, nhi, pathw, bad, num in (
        ("shapes", 1, 5, 0, False, 500),
        ("paths", 1, 2, 10, True, 900),
        ("mixed", 2, 7, 6, True, 700)):
        if C.enough(): break
        run_svg(C, name, nlo, nhi, pathw, bad, num * k, 150 if q else 1500, len(C.cov.get("profiles", {})) + 1)
    if not C.enough():
        parts = 3 if q else 1
        run_xml(C, C.seed % parts, parts, False, 150)
        if not q and not C.enough():
            run_xml(C, 0, 1, True, 2000)
    C.finish()
guarded(main)
