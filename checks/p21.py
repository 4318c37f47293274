#!/usr/bin/env python3-vt
"""The integer geometry: histories of calls with their exact results from spec/Prim.tla, replayed into the library
(harness/prim.c), once with and once without 128 bit integers of the compiler."""
import os, sys, json, subprocess, threading
import concurrent.futures as cf
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def z(v):
    n = 0
    for d in reversed(v[1]): n = n * 10000 + d
    return n * v[0]
def flat(a):
    for x in a:
        if isinstance(x, list): yield from flat(x)
        else: yield x
BIGARGS = ("div", "divw", "divx", "divr", "mul", "frac")
def line(c):
    a = [z(x) for x in c["a"]] if c["op"] in BIGARGS else list(flat(c["a"]))
    return " ".join(["0" if c["in"] else "1", c["op"]] + [str(x) for x in a])
sgn = lambda v: (v > 0) - (v < 0)

def rat(v, want):
    i, n, d = v
    if d == 0 or not 0 <= n < d: return "the fraction %d + %d/%d is not normal" % (i, n, d)
    return None if Fr(n, d) + i == want else "%d + %d/%d, exactly %s" % (i, n, d, want)

def judge(c, a):
    op, r = c["op"], c["r"]
    if a and a[0] == "unknown": return "the driver does not know this call"
    if a and a[0] == "overflow": return "an overflow is reported" if c["in"] else None
    if a and a[0] == "abort": return "the program is aborted"
    if a and a[0] == "two answers": return "two variants of the operation disagree"
    if op in ("cross", "sqd"):
        w = z(r)
        return None if a == [w] * 3 else "%s, exactly %d" % (a, w)
    if op == "meet":
        if a[0] != r["k"]: return "result %d, by the specification %d" % (a[0], r["k"])
        if r["k"] <= 0: return None
        x, y = Fr(z(r["x"][0]), z(r["x"][1])), Fr(z(r["y"][0]), z(r["y"][1]))
        for v, w in ((a[1], x), (a[2], y), (a[3], x), (a[4], y)):
            b = rat(v, w)
            if b: return b
        for v, w in ((a[5], x), (a[6], y)):
            if abs(Fr(v) - w) > Fr(1, 1000000): return "as float %r, exactly %s" % (v, w)
        h = [(2 * w.numerator + w.denominator) // (2 * w.denominator) for w in (x, y)]
        if a[7] != r["k"] or a[8:] != h: return "rounded %s, by the specification %s" % (a[7:], [r["k"]] + h)
        return None
    if op == "edge":
        s = [sgn(v) for v in a]
        if s[1:] != [s[0]] * 2: return "the variants of the comparison disagree: %s" % a
        return None if s[0] in r else "%d, permitted %s" % (s[0], r)
    if op == "cmp":
        s = [sgn(v) for v in a[:3]] + [bool(v) for v in a[3:]]
        w = r + [r[0] == 0, r[1] == 0, r[2] == 0]
        return None if s == w else "%s, exactly %s" % (s, w)
    if op == "round":
        w = [z(v) for v in r[:2]]
        return None if a == w else "%s, nearest is %s" % (a, w)
    if op == "pcmp":
        s = [sgn(v) for v in a]; w = r + [r[2]]
        return None if s == w else "%s, exactly %s" % (s, w)
    if op in ("div", "divw", "divx"):
        w = [z(v) for v in r] * 2
        return None if a == w else "%s, exactly %s" % (a, w)
    if op == "divr":
        return None if a == [z(r[0])] else "%s, exactly %d" % (a, z(r[0]))
    if op == "mul":
        w = z(r)
        w = [w >> 64, w & (2 ** 64 - 1)]
        return None if a == w * 2 + [0, 1] else "%s, exactly %s" % (a, w)
    if op == "frac":
        s = [sgn(v) for v in a]
        return None if s == [r[0], r[0], -r[0], -r[0]] else "%s, exactly %d" % (s, r[0])
    return "unknown operation " + op

LOCK = threading.Lock()
def run_batch(C, exes, batch):
    lines = []
    for h in batch:
        lines.append("new")
        lines += [line(c) for c in h]
    text = "\n".join(lines) + "\n"
    for tag, exe in exes:
        try:
            p = subprocess.run([exe], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, text=True, errors="replace")
            rc, out, err = p.returncode, p.stdout.split("\n"), p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -99, (e.stdout or b"").decode("latin-1").split("\n"), "no answer within 300 s"
        i = 0
        for h in batch:
            for n, c in enumerate(h):
                try: a = json.loads(out[i])
                except (IndexError, ValueError): a = None
                i += 1
                bad = judge(c, a) if a is not None else "the library ended the program (exit %s): %s" % (rc, err.strip()[-300:])
                if bad and not C.enough():
                    with LOCK: C.violation("%s: %s\n%s" % (line(c)[2:], bad, tag), {"calls.txt": "new\n" + "\n".join(line(x) for x in h[:n + 1]) + "\n", "record.json": json.dumps(h[:n + 1])})
                    if a is None or C.enough(): return
            with LOCK:
                C.add("traces_validated_against_impl"); C.add("calls", len(h))
                C.sample({"calls": len(h), "first": line(h[0])[:100]})

def main():
    C = Check("P21")
    d = build()
    a = harness("prim", ["prim.c"])
    b = harness("prim-noint128", ["prim.c"], extra=("-U__SIZEOF_INT128__", os.path.join(d, "src/hob3lop/matq.c")))
    if a is None:
        C.error("the driver does not compile against the library"); C.finish()
    exes = [("with 128 bit integers", a)] + ([("without 128 bit integers", b)] if b else [])
    k = 1 if C.quick() else 25
    jobs = [(12, 40, "FALSE", 900 * k, 0), (30, 120, "FALSE", 250 * k, 1), (12, 40, "TRUE", 150 * k, 2)]
    ex = cf.ThreadPoolExecutor(NCPU)
    for npt, nops, wide, num, s in jobs:
        S = Sim("Prim", "SPECIFICATION Spec\nCONSTANTS NPT = %d NOPS = %d WIDE = %s\nINVARIANTS Law Emit\nCHECK_DEADLOCK FALSE\n" % (npt, nops, wide), num, npt + nops + 1, C.seed * 31 + s, budget=200 if C.quick() else 1500, workdir=C.work)
        batch, fs = [], []
        for _, r in S:
            batch.append(r["h"])
            if len(batch) == 20:
                fs.append(ex.submit(run_batch, C, exes, batch)); batch = []
            if C.enough(): S.stopped = True; break
        fs.append(ex.submit(run_batch, C, exes, batch))
        for f in fs: f.result()
        C.add("states", S.states); C.add("transitions", S.transitions)
        for e in S.errors: C.error(e)
        if C.enough(): break
    C.assumptions = ["coordinates of at most 30 bits and a sign; beyond that an overflow may be reported instead of the result, but never a wrong result",
                     "an edge is given from its right to its left end; where it only touches the unit square of a point, either answer is permitted"]
    C.finish()
guarded(main)
