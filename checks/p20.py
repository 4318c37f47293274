#!/usr/bin/env python3-vt
"""The command line: argument lists drawn from spec/Cmd.tla, run as given and in their canonical form."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from cmdline import *

def main():
    C = Check("P20")
    q = C.quick()
    k = 1 if q else 12
    for name, nargs, bad, num in (("every", 1, 1, 0), ("long", 12, 2, 900), ("short", 4, 8, 900)):
        if C.enough(): break
        run_cmd(C, name, nargs, bad, num * k, 150 if q else 1500, len(name))
    C.assumptions = ["texts of messages are not compared, only that an error is reported on stderr with status 1",
                     "what follows an error or a request for help on the command line is ignored"]
    C.finish()
guarded(main)
