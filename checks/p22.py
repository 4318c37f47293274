#!/usr/bin/env python3-vt
"""The matrix library: histories of calls on registers with their exact results from spec/Mat.tla, replayed into the
library (harness/mat.c).  After each call the register is set to the exact result, so errors do not add up."""
import os, sys, json, math, subprocess, threading
import concurrent.futures as cf
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

WI = ("mat2i", "mat2wi", "mat3i", "mat3wi", "mat4i")
W = ("mat2w", "mat2wi", "mat3w", "mat3wi")
def nums(t, M):
    """The numbers of a matrix in the order of the library."""
    e, d = M["e"], M["d"]
    n = len(e)
    if t in W: return [Fr(e[i][j], d) for i in range(n - 1) for j in range(n - 1)] + [Fr(e[i][n - 1], d) for i in range(n - 1)]
    return [Fr(x, d) for r in e for x in r]
def txt(q):
    q = Fr(q); return "%d/%d" % (q.numerator, q.denominator)
def line(c):
    return " ".join([c["kind"], c["op"], c["t"], c["s"], str(c["r"]), str(c["a"]), str(c["b"])] + ["%d/%d" % tuple(x) for x in c["n"]])
def put(c):
    """The command that sets the register to the exact result."""
    if c["kind"] == "v": return "put v %s %d " % (c["t"], c["r"]) + " ".join(txt(Fr(x, c["x"]["d"])) for x in c["x"]["e"])
    if c["kind"] == "m" and c["x"]["d"] > 0:
        v = nums(c["t"], c["x"])
        if c["t"] in WI: v += nums(c["t"], c["i"]) + [Fr(*c["d"])]
        return "put m %s %d " % (c["t"], c["r"]) + " ".join(map(txt, v))
    return None
def cmds(c):
    p = put(c)
    return ([] if c["op"] == "set" else [line(c)]) + ([p] if p else [])
def near(a, b, tol=1e-7):
    if a is None or b is None: return False
    a, b = float(a), float(b)
    return abs(a - b) <= tol * (1 + abs(b))
def same(a, b): return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
def fmt(v): return "[" + ", ".join("%.6g" % float(x) for x in v) + "]"

def square(t, v):
    """The matrix part and the translation of an orthogonal matrix of 3 dimensions."""
    if t in W: return [v[0:3], v[3:6], v[6:9]], v[9:12]
    if len(v) == 16: return [v[0:3], v[4:7], v[8:11]], [v[3], v[7], v[11], v[12], v[13], v[14], v[15] - 1]
    return [v[0:3], v[3:6], v[6:9]], []
def det3(m):
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
def ident(m, k): return all(near(sum(m[i][x] * k[x][j] for x in range(3)), i == j) for i in range(3) for j in range(3))
def T(m): return [list(x) for x in zip(*m)]
def rotation(m): return ident(m, T(m)) and near(det3(m), 1)

def into_z(c, a):
    m, rest = square(c["t"], a["x"])
    if not rotation(m) or not same(rest, [0] * len(rest)): return "no rotation: %s" % fmt(a["x"])
    u = [Fr(*x) for x in c["n"]]
    l = math.sqrt(sum(x * x for x in u))
    w = [sum(m[i][j] * float(u[j]) for j in range(3)) / l for i in range(3)]
    if not same(w, [0, 0, 1]): return "the direction %s is rotated to %s" % (fmt(u), fmt(w))
    if c["t"] in WI:
        k, rk = square(c["t"], a["i"])
        if not ident(m, k) or not same(rk, [0] * len(rk)): return "the inverse is wrong: %s" % fmt(a["i"])
        if not near(a["d"][0], 1): return "the determinant of a rotation is given as %g" % a["d"][0]
    return None

def into_zx(c, f):
    if len(f) != 31 or not f[0]: return "not done: %s" % f[:1]
    m, w, k, kw, o, p = square("mat3wi", f[1:13])[0], f[10:13], square("mat3wi", f[13:25])[0], f[22:25], f[25:28], f[28:31]
    q = [float(Fr(*x)) for x in c["n"][1:]]
    ap = lambda x: [sum(m[i][j] * x[j] for j in range(3)) + w[i] for i in range(3)]
    if not rotation(m): return "no rotation: %s" % fmt(f[1:10])
    if not ident(m, k): return "the inverse is wrong"
    if not same([sum(k[i][j] * w[j] for j in range(3)) + kw[i] for i in range(3)], [0, 0, 0]): return "the inverse is wrong in the translation"
    if not same(ap(o), [0, 0, 0]): return "the origin is moved to %s" % fmt(ap(o))
    z = ap(p)
    if not (near(z[0], 0) and near(z[1], 0) and z[2] > 0): return "the axis is moved to %s" % fmt(z)
    y = ap(q)
    if not near(y[1], 0): return "the second point is moved to %s, not into the plane y = 0" % fmt(y)
    return None

def circle(n, f):
    if len(f) != 3 * n: return "%d steps of %d" % (len(f) // 3, n)
    seen = set()
    for i in range(n):
        x, co, si = f[3 * i:3 * i + 3]
        if x != int(x) or not 0 <= x < n or x in seen: return "index %g" % x
        seen.add(x)
        if not (near(co, math.cos(2 * math.pi * x / n), 1e-9) and near(si, math.sin(2 * math.pi * x / n), 1e-9)): return "point %d of %d is %g %g" % (x, n, co, si)
        if (x == 0 or 2 * x == n) and (abs(co) != 1 or si != 0): return "point %d of %d is %r %r" % (x, n, co, si)
        # the points are mirror images of each other, exactly
    p = {f[3 * i]: (f[3 * i + 1], f[3 * i + 2]) for i in range(n)}
    for x, (co, si) in p.items():
        if x and p[n - x] != (co, -si): return "points %d and %d of %d are not mirrored: %r %r" % (x, n - x, n, p[x], p[n - x])
    return None

def judge(c, a):
    op, f, k, t = c["op"], a.get("f"), c["kind"], c["t"]
    if "unknown" in a: return "the driver does not know this call"
    w = [Fr(*x) if x[1] else None for x in c["f"]]
    if op in ("rot_unit_into_z", "rot_into_z"):
        if w and not same(f, w): return "returned %s" % f
        return into_z(c, a)
    if op == "into_zx": return into_zx(c, f)
    if op == "circle": return circle(c["n"][0][0], f)
    if op in ("angle", "angle3"):
        g = math.atan2(w[0], w[1])
        d = abs(f[0] - g)
        return None if min(d, abs(d - 2 * math.pi)) < 1e-7 and -math.pi < f[0] <= math.pi else "angle %r, exactly %r" % (f[0], g)
    if op == "sincos":
        al = math.radians(c["n"][0][0] % 360)
        for g, e, s in zip(f, w, (math.sin(al), math.cos(al))):
            if e is not None and g != e: return "%r, exactly %s" % (f, [str(x) for x in w])
            if not near(g, s, 1e-9): return "%r, exactly %r" % (g, s)
        return None
    if op == "get_int": return None if f == [float(x) for x in w] else "%s, by the specification %s" % (f, [str(x) for x in w])
    if op in ("lex_cmp",):
        s = [(f[0] > 0) - (f[0] < 0), f[1]]
        return None if s == [w[0], w[0] == 0] else "%s, exactly %s" % (f, w[0])
    if op in ("sqr_len", "sqr_dist"):
        return None if same(f, [w[0], math.sqrt(w[0])]) else "%s, exactly %s" % (f, w[0])
    if not same(f, w): return "returned %s, exactly %s" % (fmt(f), [str(x) for x in w])
    if k == "b":
        inf = lambda x: {999: math.inf, -999: -math.inf}.get(x, x)
        lo, hi = [inf(x[0]) for x in c["x"]], [inf(x[1]) for x in c["x"]]
        return None if a["x"] == lo and a["i"] == hi else "%s %s, exactly %s %s" % (a["x"], a["i"], lo, hi)
    if k == "v":
        e = [Fr(x, c["x"]["d"]) for x in c["x"]["e"]]
        return None if same(a["x"], e) else "%s, exactly %s" % (fmt(a["x"]), fmt(e))
    if k == "m" and c["x"]["d"] > 0:
        e = nums(t, c["x"])
        if not same(a["x"], e): return "%s, exactly %s" % (fmt(a["x"]), fmt(e))
        if t in WI:
            e = nums(t, c["i"])
            if not same(a["i"], e): return "inverse %s, exactly %s" % (fmt(a["i"]), fmt(e))
            if not near(a["d"][0], Fr(*c["d"])): return "determinant %g, exactly %s" % (a["d"][0], Fr(*c["d"]))
    return None

LOCK = threading.Lock()
def run_batch(C, exe, batch):
    lines = []
    for h in batch:
        lines.append("new")
        for c in h:
            lines += cmds(c)
    try:
        p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, text=True, errors="replace")
        rc, out, err = p.returncode, p.stdout.split("\n"), p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = -99, (e.stdout or b"").decode("latin-1").split("\n"), "no answer within 300 s"
    i = 0
    for h in batch:
        for n, c in enumerate(h):
            if c["op"] == "set": continue
            try: a = json.loads(out[i])
            except (IndexError, ValueError): a = None
            i += 1
            bad = judge(c, a) if a is not None else "the library ended the program (exit %s): %s" % (rc, err.strip()[-300:])
            if bad and not C.enough():
                txt = ["new"]
                for x in h[:n + 1]: txt += cmds(x)
                with LOCK: C.violation("%s: %s" % (line(c), bad), {"calls.txt": "\n".join(txt) + "\n", "record.json": json.dumps(h[:n + 1])})
                if a is None or C.enough(): return
        with LOCK:
            C.add("traces_validated_against_impl"); C.add("calls", len(h))
            if h: C.sample({"calls": len(h), "first": line(h[0])[:100]})

def main():
    C = Check("P22")
    build()
    exe = harness("mat", ["mat.c"], libs=("hob3lmat", "hob3lbase"))
    if exe is None:
        C.error("the driver does not compile against the library"); C.finish()
    k = 3 if C.quick() else 25
    jobs = [(40, "mat", 1500 * k, 0), (40, "vec", 1000 * k, 1)]
    ex = cf.ThreadPoolExecutor(NCPU)
    for nops, mode, num, s in jobs:
        S = Sim("Mat", "SPECIFICATION Spec\nCONSTANTS NOPS = %d MODE = \"%s\"\nINVARIANTS Law Emit\nCHECK_DEADLOCK FALSE\n" % (nops, mode), num, nops + 1, C.seed * 37 + s, budget=200 if C.quick() else 1500, workdir=C.work)
        batch, fs = [], []
        for _, r in S:
            batch.append(r["h"])
            if len(batch) == 20:
                fs.append(ex.submit(run_batch, C, exe, batch)); batch = []
            if C.enough(): S.stopped = True; break
        fs.append(ex.submit(run_batch, C, exe, batch))
        for f in fs: f.result()
        C.add("states", S.states); C.add("transitions", S.transitions)
        for e in S.errors: C.error(e)
        if C.enough(): break
    C.assumptions = ["entries are fractions of small numbers, determinants between 1/4000 and 4000 or 0; results are compared to within 1e-7, relative",
                     "which of the rotations of a direction into the Z axis is made is left open"]
    C.finish()
guarded(main)
