"""Models of spec/Grid.tla written as SCAD files; the chosen grid and the vertices of a layer compared."""
import os, re, random, tempfile, shutil, concurrent.futures as cf
from fractions import Fraction as Fr
from vlib import *

def dec(q):
    """exact decimal of a fraction whose denominator has only the factors 2 and 5"""
    q = Fr(q)
    s = "-" if q < 0 else ""
    n, d = abs(q).numerator, q.denominator
    k = 0
    while d % 10 == 0: d //= 10; k += 1
    while d % 2 == 0: d //= 2; n *= 5; k += 1
    while d % 5 == 0: d //= 5; n *= 2; k += 1
    t = str(n).rjust(k + 1, "0")
    return s + (t[:-k] + "." + t[-k:] if k else t)

def big(l):
    r = 0
    for d in reversed(l): r = r * 10000 + d
    return r

def vec(v): return "[" + ",".join(dec(x) for x in v) + "]"

def write_solid(b, u):
    dr = b["d"]
    uo = [Fr(2) ** (u["e"] - dr["j"]) / 10 ** u["f"]] * 2 + [Fr(2) ** (u["ez"] - dr["j"]) / 10 ** u["f"]]
    uf = [Fr(2) ** u["e"] / 10 ** u["f"]] * 2 + [Fr(2) ** u["ez"] / 10 ** u["f"]]
    P = [[c * k for c, k in zip(p, uo)] for p in b["p"]]
    kind = b["kind"]
    lo = [min(p[i] for p in P) for i in range(3)]; hi = [max(p[i] for p in P) for i in range(3)]
    if kind == "box":
        o = "cube(%s);" % vec([h - l for h, l in zip(hi, lo)])
        if any(lo): o = "translate(%s) %s" % (vec(lo), o)
    elif kind == "dia":
        o = "cylinder(h=%s, r=%s, $fn=4);" % (dec(hi[2] - lo[2]), dec((hi[0] - lo[0]) / 2))
        o = "translate(%s) %s" % (vec([(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, lo[2]]), o)
    elif kind == "tet":
        a, c, d, e = b["p"]
        m = [[a[i] - e[i] for i in range(3)], [c[i] - e[i] for i in range(3)], [d[i] - e[i] for i in range(3)]]
        det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
               + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
        F = [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]
        if det > 0: F = [f[::-1] for f in F]
        o = "polyhedron(points=[%s], faces=%s);" % (",".join(vec(p) for p in P), json.dumps(F))
    else:
        bot = P[0::2]
        ar = sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(bot, bot[1:] + bot[:1]))
        if ar < 0: bot = bot[::-1]
        if kind == "ext":
            flat = "polygon([%s]);" % ",".join(vec(p[:2]) for p in bot)
            if dr["w"] == 1: flat = "hull() { %s polygon([%s]); }" % (flat, ",".join(vec(p[:2]) for p in bot[1:] + bot[:1]))
            if dr["w"] == 2:
                m = max(abs(c) for p in bot for c in p[:2]); n = len(bot)
                pts = [[p[0], p[1], -m * 2 ** dr["hd"]] for p in bot] + [[p[0], p[1], m * 2 ** dr["hu"]] for p in bot]
                flat = "projection(cut=true) polyhedron(points=[%s], faces=%s);" % (",".join(vec(p) for p in pts), json.dumps(
                    [list(range(n)), list(range(2 * n - 1, n - 1, -1))] + [[i, i + n, (i + 1) % n + n, (i + 1) % n] for i in range(n)]))
            o = "linear_extrude(height=%s) %s" % (dec(hi[2] - lo[2]), flat)
            if lo[2]: o = "translate(%s) %s" % (vec([0, 0, lo[2]]), o)
        else:
            n = len(bot)
            pts = [[p[0], p[1], lo[2]] for p in bot] + [[p[0], p[1], hi[2]] for p in bot]
            F = [list(range(n)), list(range(2 * n - 1, n - 1, -1))] + [[i, i + n, (i + 1) % n + n, (i + 1) % n] for i in range(n)]
            o = "polyhedron(points=[%s], faces=%s);" % (",".join(vec(p) for p in pts), json.dumps(F))
    if dr["r"]: o = "rotate(%d) %s" % (90 * dr["r"], o)
    if dr["m"]: o = "mirror([1,0,0]) " + o
    if dr["j"]: o = "scale(%s) %s" % (dec(Fr(2) ** dr["j"]), o)
    if any(dr["t"]): o = "translate(%s) %s" % (vec([c * k for c, k in zip(dr["t"], uf)]), o)
    return o

def write_model(rec):
    u = rec["unit"]
    add = [write_solid(b, u) for b in rec["base"] if not b["sub"]]
    sub = [write_solid(b, u) for b in rec["base"] if b["sub"]]
    if not sub:
        return "\n".join(add) + "\n"
    return "difference() {\n  union() {\n    %s\n  }\n  %s\n}\n" % ("\n    ".join(add), "\n  ".join(sub))

def grid_of(rec):
    g = rec["grid"]
    return Fr(2) ** g["k"] if g["pow"] else Fr(big(g["n"]), big(g["d"]))

def info_grid(err):
    m = re.search(rb"Info: Z:.* grid=(\S+)", err)
    if not m: return None
    t = m.group(1).decode()
    if t.startswith("2^"): return Fr(2) ** int(t[2:])
    return float(t)

def area2(p):
    return abs(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])))

def simple(p):
    """strictly convex, no vertex close to the line through two others"""
    n = len(p)
    if n < 3 or len(set(p)) < n: return False
    s = set()
    for i in range(n):
        a, b, c = p[i - 1], p[i], p[(i + 1) % n]
        k = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
        if abs(k) <= 2 * max(max(abs(v[0] - w[0]), abs(v[1] - w[1])) for v, w in ((a, b), (b, c), (a, c))): return False
        s.add(k > 0)
    return len(s) == 1

def near_edge(v, p, tol):
    """v lies on the outline p, up to rounding (where a sliver's edges have come to cross)"""
    for a, b in zip(p, p[1:] + p[:1]):
        m = max(abs(b[0] - a[0]), abs(b[1] - a[1]))
        if (min(a[0], b[0]) - tol <= v[0] <= max(a[0], b[0]) + tol and min(a[1], b[1]) - tol <= v[1] <= max(a[1], b[1]) + tol
                and abs((b[0] - a[0]) * (v[1] - a[1]) - (b[1] - a[1]) * (v[0] - a[0])) <= tol * m): return True
    return False

def judge(rec, r, files):
    g = grid_of(rec)
    if rec["out"] == "refused":
        if r.rc == 0:      # fine if nothing that does not fit is in the layer
            V, _ = parse_stla(files["o.stl"])
            u = rec["unit"]; k = float(Fr(2) ** u["e"] / 10 ** u["f"])
            for i in (0, 1):
                lim = [p[i] * k for b, ps in zip(rec["base"], rec["pts"]) if not b["sub"] for p in ps]
                w = V[:, :, i].ravel()
                if len(w) and (w.min() < min(lim) - 1 / float(g) or w.max() > max(lim) + 1 / float(g)):
                    return "coordinates that do not fit the grid come out elsewhere: %r" % w[:9]
        return None
    if r.rc != 0:
        return "status %s: %s" % (r.rc, r.err[-300:].decode("latin-1"))
    ig = info_grid(r.err)
    if ig is None: return "no Info line with the grid"
    if (ig != g) if isinstance(ig, Fr) else abs(ig - float(g)) > 1e-9 * float(g):
        return "the grid is %s, expected %s" % (float(ig), float(g))
    try:
        V, _ = parse_stla(files["o.stl"])
    except Bad as e:
        return str(e)
    L = layers_of(V)
    T = L[min(L)] if L else np.zeros((0, 3, 2))
    got = set()
    tot = 0
    for t in T.tolist():
        q = []
        for x, y in t:
            a, b = Fr(x) * g, Fr(y) * g
            i, j = round(a), round(b)
            if abs(a - i) > Fr(1, 10000) or abs(b - j) > Fr(1, 10000):
                return "vertex (%r,%r) is not on the grid" % (x, y)
            q.append((i, j))
        got |= set(q)
        tot += area2(q)
    # the solids' cuts
    cuts = [c for c, b in zip(rec["cut"], rec["base"]) if not b["sub"]]
    rng = sorted((min(v["x"] - v["tol"] for v in c["p"]), max(v["x"] + v["tol"] for v in c["p"])) for c in cuts if c["p"] and c["here"] != "no")
    apart = all(a[1] < b[0] for a, b in zip(rng, rng[1:]))
    allowed = [v for c in cuts if c["here"] != "no" for v in c["p"]]
    exact = {(v["x"], v["y"]) for v in allowed}
    slivers = [(p, 2 + max(v["tol"] for v in c["p"])) for c in cuts if c["here"] != "no" and c["p"]
               for p in [[(v["x"], v["y"]) for v in c["p"]]] if not simple(p)]
    for v in got:
        if v in exact or any(near_edge(v, p, t) for p, t in slivers): continue
        if not any(abs(v[0] - w["x"]) <= w["tol"] and abs(v[1] - w["y"]) <= w["tol"] for w in allowed) and apart:
            return "vertex %s (grid steps, %s per mm) is not where the model's edges meet the layer: %s" % (v, float(g), sorted(exact)[:12])
    if apart:
        sharp = all(c["here"] != "open" and all(v["tol"] == 0 for v in c["p"]) for c in cuts)
        want = 0; fat = True
        for c in cuts:
            if c["here"] != "yes" or not c["p"]: continue
            p = [(v["x"], v["y"]) for v in c["p"]]
            tol = max(v["tol"] for v in c["p"])
            if len(set(p)) < 3 or area2(p) == 0: continue
            want += area2(p)
            if not simple(p): fat = False; continue
            if tol == 0:
                miss = [v for v in p if v not in got]
                if miss: return "vertex %s (grid steps, %s per mm) is missing" % (miss[0], float(g))
        if sharp and fat and want != tot:
            return "the layer's area is %s, expected %s (half square grid steps)" % (tot, want)
        rec["sharp"] = sharp and want > 0
    return None

def judge_bin(rec, files):
    """the binary file holds the same vertices; exactly, where the grid is chosen for it"""
    g = grid_of(rec)
    V, _ = parse_stla(files["o.stl"])
    try:
        W, _ = parse_stlb(files["b.stl"])
    except Bad as e:
        return str(e)
    if V.shape != W.shape: return "%d triangles in the binary file, %d in the text file" % (len(W), len(V))
    gf = float(g)
    if np.abs(V[:, :, :2] * gf).max(initial=0) < 2.0 ** 50:
        V[:, :, :2] = np.rint(V[:, :, :2] * gf) / gf      # the text has 16 digits only
    with np.errstate(over="ignore"):
        F = V.astype(np.float32).astype(np.float64)
        # heights: half way between two floats either may be the nearest of the 16 digits
        z = abs(V[:, :, 2] - W[:, :, 2]) <= 0.5000001 * np.spacing(abs(W[:, :, 2]).astype(np.float32)).astype(np.float64)
    F[:, :, 2][z] = W[:, :, 2][z]
    if not (F == W).all():
        return "the binary file has %r for %r" % (W[F != W][0], V[F != W][0])
    if rec["auto"] == "on" and rec["grid"]["pow"] and not (V[:, :, :2] == W[:, :, :2]).all():
        d = V[:, :, :2] != W[:, :, :2]
        return "the automatic grid does not fit the binary format: %r" % V[:, :, :2][d][0]
    return None

def one(job):
    exe, rec, work = job
    d = tempfile.mkdtemp(dir=work)
    try:
        text = write_model(rec)
        open(os.path.join(d, "m.scad"), "w").write(text)
        u = rec["unit"]
        z = dec(rec["z"] * Fr(2) ** u["ez"] / 10 ** u["f"])
        argv = ["m.scad", "-v", "--z=" + z] + rec["opt"]
        r = run([exe] + argv + ["--stl-txt", "-o", "o.stl"], cwd=d, timeout=60)
        files = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
        bad = "does not end" if r.timeout else judge(rec, r, files)
        if bad is None and rec["out"] == "ok":
            r = run([exe] + argv + ["--stl-bin", "-o", "b.stl"], cwd=d, timeout=60)
            files = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
            bad = judge_bin(rec, files) if r.rc == 0 else "binary output fails with status %s" % r.rc
        return bad, text, argv, rec
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_grid(C, name, cfg, num, budget, salt, workers=7):
    exe = tool()
    sim = Sim("Grid", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS\n" + cfg, num, 9, C.seed * 53 + salt, budget=budget, workdir=C.work)
    st = dict(models=0, ok=0, refused=0, exactly=0, auto=0)
    pend = set(); seen = set()
    def absorb(done):
        for f in done:
            bad, text, argv, rec = f.result()
            st["models"] += 1; st[rec["out"]] += 1
            st["auto"] += rec["grid"]["pow"]; st["exactly"] += bool(rec.get("sharp"))
            if st["models"] % 120 == 3:
                C.sample({"argv": argv, "model": text, "grid": str(grid_of(rec)), "cut": rec["cut"]}, 4)
            if bad:
                C.violation(bad + "\noptions: " + " ".join(argv), {"m.scad": text, "argv.json": json.dumps(argv), "case.json": json.dumps(rec)})
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        for shard, rec in sim:
            if rec["out"] == "open": continue
            k = json.dumps(rec)
            if k in seen: continue
            seen.add(k)
            pend.add(ex.submit(one, (exe, rec, C.work)))
            if len(pend) > 64:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough(): break
        done, pend = cf.wait(pend)
        absorb(done)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["models"])
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors: C.error("%s: %s" % (name, e))
    if st["models"] == 0 and not C.viol: C.error("profile %s produced nothing" % name)
