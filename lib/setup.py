#!/usr/bin/env python3-vt
"""setup_cmd: builds /repo's working tree once (the checks rebuild when it changes) and parses every specification."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
print("hob3l:", tool())
