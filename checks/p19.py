#!/usr/bin/env python3-vt
"""The encoding of text: byte sequences and answers from spec/Utf8.tla, replayed into the library (harness/cont.c)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cont import *

def main():
    C = Check("P19")
    exe = driver(C)
    k = 1 if C.quick() else 30
    jobs = [("Utf8", cfg(dict(LEN=30, ITEMS=i), ["RoundTrip", "Emit"]), num * k, 31, s, 0) for s, (i, num) in enumerate([(1, 500), (3, 700), (12, 200)])]
    run_jobs(C, exe, jobs, lambda mod, r: "utf")
    C.assumptions = ["a backslash is not the last byte of a string (contract of cp_utf8_escaped_decode)", "escapes of surrogates and of the code 0 are left open"]
    C.finish()
guarded(main)
