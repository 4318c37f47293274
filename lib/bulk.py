"""Large models of spec/Bulk.tla: written down, sliced, and compared at the sample points."""
import os, sys, random, time, struct, tempfile, shutil
import concurrent.futures as cf
import numpy as np
from vlib import *
sys.setrecursionlimit(20000)

def cube(b): return "translate([%d,%d,%d]) cube([%d,%d,%d]);" % (b[0], b[1], b[2], b[3] - b[0], b[4] - b[1], b[5] - b[2])
LINK = dict(mx="mirror([1,0,0])", my="mirror([0,1,0])", mz="mirror([0,0,1])", rz="rotate([0,0,90])", rx="rotate([90,0,0])", ry="rotate([0,90,0])", sw="mirror([1,-1,0])")
def link(t): return "translate([%d,%d,%d])" % tuple(t[1:]) if t[0] == "t" else LINK[t[0]]
WRAPS = [None, "union() {", "group() {", "render() {", "color(\"red\") {", "{", "translate([0,0,0]) {"]

def comb_points(m):
    n = m["n"]; p = [(-n, 0), (n, 0)]
    # teeth of the top edge, from the right
    p.append((n, 3))
    for i in range(n - 1, -1, -1):
        a = -n + 2 * i
        p += [(a + 1, 3), (a + 1, 8), (a, 8)]
        if i: p.append((a, 3))
    return p, [range(len(p))]
def comb(m):
    return "linear_extrude(height=%d) polygon(points=[%s]);" % (m["h"], ",".join("[%d,%d]" % q for q in comb_points(m)[0]))

def board_points(m):
    n = m["n"]; w = 2 * n + 1
    o = -(w + w % 2) // 2
    P = [(0, 0), (w, 0), (w, w), (0, w)]; H = [[0, 1, 2, 3]]
    for i in range(n):
        for j in range(n):
            k = len(P)
            x, y = 2 * i + 1, 2 * j + 1
            P += [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]; H.append([k, k + 1, k + 2, k + 3])
    return [(a + o, b + o) for a, b in P], H
def board(m):
    P, H = board_points(m)
    return "linear_extrude(height=%d) polygon(points=[%s], paths=[%s]);" % (m["h"], ",".join("[%d,%d]" % q for q in P), ",".join("[%s]" % ",".join(map(str, h)) for h in H))

def brick(m):
    """a box as a polyhedron whose faces are split into n by n squares"""
    x0, y0, z0, x1, y1, z1 = m["b"][0]; n = m["n"]
    P, F, idx = [], [], {}
    def pt(i, j, k):
        q = (x0 + (x1 - x0) * i / n, y0 + (y1 - y0) * j / n, z0 + (z1 - z0) * k / n)
        if (i, j, k) not in idx:
            idx[(i, j, k)] = len(P); P.append(q)
        return idx[(i, j, k)]
    for i in range(n):
        for j in range(n):
            for a in (0, n):
                for f in (lambda u, v: (a, u, v), lambda u, v: (v, a, u), lambda u, v: (u, v, a)):
                    c = [pt(*f(i, j)), pt(*f(i + 1, j)), pt(*f(i + 1, j + 1)), pt(*f(i, j + 1))]
                    F.append(c if a == 0 else c[::-1])
    # seen from outside, clockwise
    return "polyhedron(points=[%s], faces=[%s]);" % (",".join("[%.17g,%.17g,%.17g]" % p for p in P), ",".join("[%s]" % ",".join(map(str, f)) for f in F))

def stairs(m):
    return "union() {\n%s}" % "".join("translate([0,0,%d]) cube([%d,%d,1]);\n" % (i, 1 + (i * 7) % 50, m["h"]) for i in range(m["n"]))

def brick_tris(m):
    x0, y0, z0, x1, y1, z1 = m["b"][0]; n = m["n"]
    c = lambda p: (x0 + (x1 - x0) * p[0] / n, y0 + (y1 - y0) * p[1] / n, z0 + (z1 - z0) * p[2] / n)
    r = []
    for i in range(n):
        for j in range(n):
            for a in (0, n):
                for f in (lambda u, v: (a, u, v), lambda u, v: (v, a, u), lambda u, v: (u, v, a)):
                    q = [c(f(i, j)), c(f(i + 1, j)), c(f(i + 1, j + 1)), c(f(i, j + 1))]
                    if a == 0: q = q[::-1]      # counterclockwise seen from outside
                    r += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return r

class Files:
    """parts of the model in files of their own"""
    def __init__(self, rng):
        self.rng = rng; self.f = {}
    def put(self, ext, data):
        n = "f%d.%s" % (len(self.f), ext); self.f[n] = data if isinstance(data, bytes) else data.encode()
        return n
    def stl(self, m):
        T = brick_tris(m); self.rng.shuffle(T)
        if self.rng.random() < 0.5:
            return self.put("stl", b"brick".ljust(80) + struct.pack("<I", len(T)) + b"".join(struct.pack("<12fH", *([0, 0, 0] + [x for v in t for x in v] + [0])) for t in T))
        g = self.rng.choice(["%.9g", "%.7e", "%.6f"])
        if g == "%.6f": T = [[[round(x, 6) for x in v] for v in t] for t in T]
        return self.put("stl", "solid %s\n%sendsolid\n" % ("x" * self.rng.choice([0, 5, 300, 3000]), "".join(
            "facet normal 0 0 0\nouter loop\n%sendloop\nendfacet\n" % "".join(("vertex " + " ".join([g] * 3) + "\n") % tuple(v) for v in t) for t in T)))
    def svg(self, P, H):
        """points with y upwards"""
        x0 = min(p[0] for p in P); y0 = min(p[1] for p in P); w = max(p[0] for p in P) - x0; h = max(p[1] for p in P) - y0
        Q = [(x - x0, h - (y - y0)) for x, y in P]
        if len(H) == 1 and self.rng.random() < 0.4:
            el = "<polygon points=\"%s\"/>" % self.rng.choice([" ", ",", "\n"]).join("%d,%d" % Q[i] for i in H[0])
        else:
            el = "<path fill-rule=\"evenodd\" d=\"%s\"/>" % "".join("M%s" % "".join("%d %d" % Q[i] + ("L" if i != c[-1] else "Z") for i in c) for c in H)
        n = self.put("svg", "<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"%dmm\" height=\"%dmm\" viewBox=\"0 0 %d %d\">%s%s</svg>\n" % (w, h, w, h, "<!--%s-->" % ("c" * self.rng.choice([0, 300, 5000])), el))
        return "translate([%d,%d]) import(\"%s\");" % (x0, y0, n)

def write(m, out, fl=None):
    k = m["k"]
    if fl:
        if k == "brick":
            out.append("import(\"%s\");" % fl.stl(m)); return
        if k in ("comb", "board"):
            P, H = (comb_points if k == "comb" else board_points)(m)
            out.append("linear_extrude(height=%d) %s" % (m["h"], fl.svg(P, H))); return
        if k == "wrap":
            o = []; write(m["c"][0], o, fl)
            for i in range(min(len(m["t"]), 30)):
                o = ["include <%s>" % fl.put("scad", "\n".join(o) + "\n")]
            out += o; return
        if k == "boxes" and len(m["b"]) > 4:
            # whether several statements of an included file count as one is left open
            out.append("union() { include <%s> }" % fl.put("scad", "\n".join(cube(b) for b in m["b"]) + "\n")); return
    if k == "boxes":
        out.append("union() {"); out += [cube(b) for b in m["b"]]; out.append("}")
    elif k == "inter":
        out.append("intersection() {"); out += [cube(b) for b in m["b"]]; out.append("}")
    elif k == "less":
        out.append("difference() {"); write(m["c"][0], out, fl); out += [cube(b) for b in m["b"]]; out.append("}")
    elif k == "nest":
        for b in m["b"]:
            out.append("difference() { " + cube(b))
        write(m["c"][0], out, fl)
        out.append("}" * len(m["b"]))
    elif k == "chain":
        out += [link(t) for t in m["t"]]
        out.append("{"); write(m["c"][0], out, fl); out.append("}")
    elif k == "wrap":
        out += [WRAPS[t] for t in m["t"]]
        write(m["c"][0], out, fl)
        out.append("}" * len(m["t"]))
    elif k in ("comb", "board", "stairs", "brick"):
        out.append(dict(comb=comb, board=board, stairs=stairs, brick=brick)[k](m))
    else:
        out.append({"union": "union() {", "diff": "difference() {", "inters": "intersection() {"}[k])
        for c in m["c"]:
            out.append("union() {"); write(c, out, fl); out.append("}")
        out.append("}")

def inside(T, P):
    n = np.zeros(len(P), dtype=np.int64)
    for i in range(0, len(T), 4000):
        t = T[i:i + 4000]; x = P[:, 0, None]; y = P[:, 1, None]
        par = np.zeros((len(P), len(t)), dtype=bool)
        for k in range(3):
            a, b = t[:, k], t[:, (k + 1) % 3]
            up = (a[:, 1] > y) != (b[:, 1] > y)
            d = np.where(a[:, 1] == b[:, 1], 1, b[:, 1] - a[:, 1])
            par ^= up & (x < a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / d)
        n += par.sum(axis=1)
    return n

def one(job):
    exe, rec, opts, work, seed = job
    out = []
    fl = Files(random.Random(seed)) if seed else None
    write(rec["m"], out, fl)
    text = "\n".join(out) + "\n"
    o = ["--min=%s" % (rec["z0"] + 0.5), "--max=%s" % (rec["z0"] + rec["n"] - 0.25), "--step=1"] + opts
    t0 = time.time()
    d = tempfile.mkdtemp(dir=work)
    try:
        for n, b in (fl.f if fl else {}).items(): open(os.path.join(d, n), "wb").write(b)
        open(os.path.join(d, "in.scad"), "w").write(text)
        r = run([exe] + o + ["in.scad", "-o", "out.stl", "--stl-bin"], cwd=d, timeout=240)
        lay = None
        if r.rc == 0:
            try: lay = layers_of(parse_stlb(open(os.path.join(d, "out.stl"), "rb").read())[0])
            except (Bad, OSError) as e: r.err += str(e).encode()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    more = dict(fl.f) if fl else {}
    tm = time.time() - t0
    if lay is None:
        return ("too slow" if r.timeout else "status %s: %s" % (r.rc, r.err.decode("latin-1")[-300:])), text, o, 0, 0, tm, more
    zs = sorted(lay)
    yes = 0
    for i, L in enumerate(rec["lay"]):
        z = rec["z0"] + i + 0.5
        T = [lay[k] for k in zs if abs(k - z) < 1e-3]
        P = np.array([[p[0] / 2, p[1] / 2] for p in L]); want = np.array([p[2] for p in L])
        got = inside(T[0], P) if T else np.zeros(len(P), dtype=np.int64)
        bad = np.nonzero(got != want)[0]
        yes += int(want.sum())
        if len(bad):
            return "layer at z=%g: %d points of %d differ; (x, y, expected, triangles): %s" % (z, len(bad), len(P), [(P[j][0], P[j][1], int(want[j]), int(got[j])) for j in bad[:5]]), text, o, 0, 0, tm, more
    return None, text, o, sum(map(len, rec["lay"])), yes, tm, more

def run_bulk(C, sizes, nstep, nlays, npts, num, budget, salt, optsets=((),), files=False):
    exe = tool()
    cfg = "SPECIFICATION Spec\nCONSTANTS\n SIZES = {%s}\n NSTEP = %d\n NLAYS = {%s}\n NPTS = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (sizes, nstep, nlays, npts)
    S = Sim("Bulk", cfg, num, nstep + 2, C.seed * 43 + salt, budget=budget, workdir=C.work)
    tot = dict(models=0, points=0, inside=0, slow=0, too_slow=0)
    pend = set(); k = 0
    def absorb(fs):
        for f in fs:
            bad, text, o, n, yes, tm, more = f.result()
            tot["models"] += 1; tot["points"] += n; tot["inside"] += yes
            tot["slow"] = max(tot["slow"], round(tm, 1))
            if bad == "too slow":
                tot["too_slow"] += 1; continue
            if tot["models"] % 40 == 1:
                C.sample({"bulk_model": text[:500], "bytes": len(text), "points": n, "inside": yes}, 8)
            if bad:
                C.violation(bad + "\noptions: " + " ".join(o), {**more, "in.scad": text, "cmd.txt": "hob3l.x in.scad %s -o out.stl --stl-bin\n" % " ".join(o)})
    with cf.ProcessPoolExecutor(max_workers=7) as ex:
        for sh, rec in S:
            pend.add(ex.submit(one, (exe, rec, list(optsets[k % len(optsets)]), C.work, "%d.%d" % (C.seed, k) if files else None))); k += 1
            if len(pend) > 40:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough(): break
        absorb(cf.wait(pend)[0])
    C.add("states", S.states); C.add("transitions", S.transitions)
    C.add("traces_validated_against_impl", tot["models"])
    C.cov["bulk"] = tot
    for e in S.errors: C.error("Bulk: %s" % e)
    if tot["models"] == 0 and not C.viol: C.error("Bulk produced no model")
