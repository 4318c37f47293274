#!/usr/bin/env python3-vt
"""Every layer solid is the closed, outward oriented boundary of a prism: programs from
spec/ScadGen.tla, run by hob3l on coarse grids, each written layer judged by spec/StlSolid.tla."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *

LO, CNT = -3.5, 8

def job(a):
    exe, rec, grid, extra, text_stl, work = a
    text = scad_prog(rec["prog"])
    o = ["--grid=%d" % grid, "--min=%g" % LO, "--max=%g" % (LO + CNT - 0.5), "--step=1"] + extra
    d = tempfile.mkdtemp(dir=work)
    cmd = "hob3l.x %s in.scad -o out.stl %s\n" % (" ".join(o), "" if text_stl else "--stl-bin")
    try:
        f = os.path.join(d, "in.scad")
        open(f, "w").write(text)
        out = os.path.join(d, "out.stl")
        r = run([exe] + o + [f, "-o", out] + ([] if text_stl else ["--stl-bin"]), cwd=d, timeout=60)
        if r.rc != 0:
            return text, cmd, "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace")[:300]), []
        try:
            b = open(out, "rb").read()
            tri, nrm = parse_stla(b) if text_stl else parse_stlb(b)
        except (Bad, OSError) as e:
            return text, cmd, str(e), []
        if len(tri) == 0:
            return text, cmd, None, []
        z = tri[:, :, 2] - LO
        lay = np.floor(z.min(axis=1) + 1e-3).astype(int)
        zz = z - lay[:, None]
        cod = np.where(np.abs(zz) < 1e-3, 0, np.where(np.abs(zz - 0.99) < 1e-3, 1, 2))
        xy = np.rint(tri[:, :, :2] * grid).astype(int)
        nn = np.rint(nrm * 1000).astype(int)
        recs = []
        for L in np.unique(lay):
            s = np.nonzero(lay == L)[0]
            recs.append({"t": [[[int(xy[i, k, 0]), int(xy[i, k, 1]), int(cod[i, k])] for k in range(3)] for i in s],
                         "n": [[int(v) for v in nn[i]] for i in s]})
        return text, cmd, None, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    C = Check("P08")
    q = C.quick()
    exe = tool()
    rng = random.Random(C.seed)
    k = 1 if q else 14
    prof = [("solids", "cube cyl phd op swap tra rot mir scl", 3, 12, 180 * k),
            ("round", "cube sph cyl op swap tra", 2, 8, 60 * k),
            ("flat", "sqr cir pgn op2 ext rex hul tra rot mir scl", 3, 10, 110 * k),
            ("touch", "cube op swap", 6, 20, 110 * k)]
    src, recs, tris = [], [], 0
    tot = dict(programs=0, layers=0, triangles=0, empty=0)
    def judge():
        nonlocal src, recs
        if not recs:
            return
        bad, st = trace_check("StlSolid", recs)
        C.add("states", st); C.add("transitions", max(0, st - NCPU)); C.add("traces_validated_against_impl", len(recs))
        for i, what in bad:
            text, cmd = src[i]
            C.violation(what, {"in.scad": text, "cmd.txt": cmd, "layer.json": json.dumps(recs[i])})
        src, recs = [], []
    with cf.ProcessPoolExecutor(max_workers=7) as ex:
        for pi, (name, acts, lo, hi, num) in enumerate(prof):
            sim = Sim("ScadGen", gen_cfg(acts, lo, hi, r=1, nlay=0, laws=False), num, 60, C.seed * 7 + pi, budget=60 if q else 400, workdir=C.work)
            fs = []
            for sh, rec in sim:
                grid = rng.choice([16, 64, 256])
                fs.append(ex.submit(job, (exe, rec, grid, rng.choice([[], [], ["--max-simultaneous=%d" % rng.randint(2, 9)], ["--opt-no-drop-collinear"]]), rng.random() < 0.3, C.work)))
                if len(fs) >= num:
                    break
            for f in fs:
                text, cmd, what, rr = f.result()
                tot["programs"] += 1
                if what:
                    C.violation(what, {"in.scad": text, "cmd.txt": cmd})
                if not rr:
                    tot["empty"] += 1
                for r in rr:
                    tot["layers"] += 1; tot["triangles"] += len(r["t"])
                    if tot["layers"] % 400 == 1:
                        C.sample({"profile": name, "program": text, "triangles": len(r["t"])})
                    src.append((text, cmd)); recs.append(r)
            C.add("states", sim.states); C.add("transitions", sim.transitions)
            for e in sim.errors:
                C.error(e)
            if len(recs) > 6000 or pi == len(prof) - 1:
                judge()
            if C.enough():
                break
    C.cov["solids"] = tot
    if tot["layers"] < 200 and not C.viol:
        C.error("too few layers")
    C.finish()
guarded(main)
