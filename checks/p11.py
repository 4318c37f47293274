#!/usr/bin/env python3-vt
"""The polygon library's triangulations: cases from spec/GonGen.tla, answers judged by spec/Arrange.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gon import *

def main():
    C = Check("P11")
    q = C.quick()
    k = 4 if q else 60
    run_gon(C, "tri", [("tiny small mid even sixt odd octi", 5, 1600 * k, 60 if q else 600),
                      ("wide free flat thin huge", 5, 700 * k, 60 if q else 600),
                      ("tiny small even octi", 14, 200 * k, 60 if q else 600),
                      ("full fullflat fullthin corners", 5, 300 * k, 60 if q else 600),
                      ("pencil", 2, 8 * k, 60 if q else 600)], 2)
    C.finish()
guarded(main)
