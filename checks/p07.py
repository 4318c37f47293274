#!/usr/bin/env python3-vt
"""The layer stack: heights, count, thickness and region of every layer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *
from bulk import run_bulk

CFG = """SPECIFICATION LSpec
CONSTANTS
 RAND = TRUE
 ACTS = {%s}
 NLO = 1
 NHI = %d
 R = 4
 ZN = 4
 ZF = 1
 NLAY = 0
 EMIT = FALSE
INVARIANTS LawCount LawCover LawBox LEmit
"""
U = 160.0
EPS = 1e-3

def dec(k):
    s = "%.6f" % (k / U)
    return s.rstrip("0").rstrip(".")

def opts_of(p):
    o = ["--step=" + dec(p["step"])]
    if p["mode"] == "z":
        o.append("--z=" + dec(p["min"]))
    if p["mode"] in ("min", "both"):
        o.append("--min=" + dec(p["min"]))
    if p["mode"] in ("max", "both"):
        o.append("--max=" + dec(p["max"]))
    if p["gap"] >= 0:
        o.append("--layer-gap=" + dec(p["gap"]))
    return o

def planes(tri, nrm, sign):
    """{z: triangles} of the horizontal facets whose normal points up or down"""
    z = tri[:, :, 2]
    sel = (z[:, 0] == z[:, 1]) & (z[:, 1] == z[:, 2]) & (nrm[:, 2] * sign > 0.5)
    t = tri[sel]
    return {float(zz): t[t[:, 0, 2] == zz][:, :, :2] for zz in np.unique(t[:, 0, 2])} if len(t) else {}

def at(lay, z):
    for zz in lay:
        if abs(zz - z) < EPS:
            return lay[zz]
    return np.zeros((0, 3, 2))

def job(a):
    exe, rec, work = a
    text = scad_prog(rec["prog"])
    p = rec["par"]
    o = opts_of(p)
    d = tempfile.mkdtemp(dir=work)
    cmd = "hob3l.x %s in.scad -o out.stl --stl-bin\n" % " ".join(o)
    try:
        f = os.path.join(d, "in.scad")
        open(f, "w").write(text)
        out = os.path.join(d, "out.stl")
        r = run([exe] + o + [f, "-o", out, "--stl-bin"], cwd=d, timeout=60)
        if r.rc != 0:
            return text, cmd, "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace")[:300]), 0
        try:
            tri, nrm = parse_stlb(open(out, "rb").read())
        except (Bad, OSError) as e:
            return text, cmd, str(e), 0
        m = re.search(rb"layer_cnt=(\d+)", r.err)
        if m and int(m.group(1)) != rec["cnt"]:
            return text, cmd, "%d layers announced, the specification has %d" % (int(m.group(1)), rec["cnt"]), 0
        bot, top = planes(tri, nrm, -1), planes(tri, nrm, 1)
        # every vertex lies in the bottom or the top plane of some layer of the specification
        gap = 0.01 if p["gap"] < 0 else p["gap"] / U
        th = max(0.0, p["step"] / U - gap)
        for name, pl, off in (("bottom", bot, 0.0), ("top", top, th)):
            for z in pl:
                i = round((z - off - rec["first"] / U) / (p["step"] / U))
                want = rec["first"] / U + i * p["step"] / U + off
                if not (0 <= i < rec["cnt"]) or abs(z - want) > EPS:
                    return text, cmd, "layer %s at z=%.6g is none of the specification's (first=%.6g, step=%.6g, count=%d, thickness %.6g)" % (
                        name, z, rec["first"] / U, p["step"] / U, rec["cnt"], th), 0
        if len(bot) > rec["cnt"]:
            return text, cmd, "%d layers written, the specification has %d" % (len(bot), rec["cnt"]), 0
        P = grid_points(rec["r"])
        n = 0
        for L in rec["lay"]:
            z = L["z"] / U
            exp = np.array(L["v"])
            known = exp != 2
            for name, t, zz in (("bottom", bot, z), ("top", top, z + th)):
                if name == "top" and th < 0.0005:
                    continue
                got = count_in(at(t, zz), P, GRID, 10)
                n += int(known.sum())
                bad = known & (got != exp)
                if bad.any():
                    q = np.nonzero(bad)[0]
                    return text, cmd, "layer z=%g, %s plane z=%g: %d points differ from the specification; (x,y,expected,found): %s" % (z, name, zz, len(q),
                        [(float(P[k][0]) / 10 / GRID, float(P[k][1]) / 10 / GRID, int(exp[k]), int(got[k])) for k in q[:5]]), n
        return text, cmd, None, n
    finally:
        shutil.rmtree(d, ignore_errors=True)

def grid_points(r):
    i = np.arange(-r, r)
    X, Y = np.meshgrid(10 * i + 3, 10 * i + 4)
    return np.stack([X.ravel(), Y.ravel()], axis=1) * GRID

def main():
    C = Check("P07")
    q = C.quick()
    exe = tool()
    k = 1 if q else 15
    tot = dict(stacks=0, layers=0, nonempty=0)
    with cf.ProcessPoolExecutor(max_workers=6) as ex:
        for gi, (name, acts, num, nhi) in enumerate([
                ("single", "cube sph phd cyl fn4 tra rot mir scl mul", 500 * k, 3),
                ("tree", "cube sph phd cyl fn4 op tra rot mir scl mul", 700 * k, 10),
                ("flat", "cube sqr pgn ext op tra rot mir", 400 * k, 8)]):
            sim = Sim("Layers", CFG % (",".join('"%s"' % a for a in acts.split()), nhi), num, 450, C.seed * 17 + gi, budget=90 if q else 1000, workdir=C.work)
            pend = set()
            st = dict(stacks=0, points=0)
            def absorb(done):
                for f in done:
                    text, cmd, what, n = f.result()
                    st["stacks"] += 1; st["points"] += n
                    if st["stacks"] % 97 == 3:
                        C.sample({"profile": name, "program": text, "command": cmd.strip()}, 2 + 2 * gi)
                    if what:
                        C.violation(what, {"in.scad": text, "cmd.txt": cmd})
            modes = {}
            for sh, rec in sim:
                modes[rec["par"]["mode"]] = modes.get(rec["par"]["mode"], 0) + 1
                tot["layers"] += rec["cnt"]
                pend.add(ex.submit(job, (exe, rec, C.work)))
                if len(pend) > 48:
                    done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                    absorb(done)
                if C.enough():
                    break
            done, pend = cf.wait(pend)
            absorb(done)
            C.add("states", sim.states); C.add("transitions", sim.transitions)
            C.add("traces_validated_against_impl", st["stacks"])
            C.add("points_compared", st["points"])
            st["modes"] = modes
            C.cov.setdefault("profiles", {})[name] = st
            for e in sim.errors:
                C.error(e)
            if st["stacks"] < 20 and not C.viol:
                C.error("profile %s: too few stacks" % name)
            if C.enough():
                break
    if not C.enough():      # hundreds of layers
        run_bulk(C, "1, 4, 300", 3, "120, 300, 900", 1500, 50 * k, 60 if q else 900, 3)
    C.cov["layers_specified"] = tot["layers"]
    C.finish()
guarded(main)
