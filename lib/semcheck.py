#!/usr/bin/env python3-vt
"""Replays programs generated by spec/ScadGen.tla into hob3l and compares the
region of every layer with the specification's answer, point by point."""
import os, sys, json, time, tempfile, shutil, concurrent.futures as cf
import numpy as np
from vlib import *

def gen_cfg(acts, nlo, nhi, r=4, zn=4, zf=1, nlay=4, rand=True, laws=True, extra=""):
    return ("SPECIFICATION Spec\nCONSTANTS\n RAND = %s\n ACTS = {%s}\n NLO = %d\n NHI = %d\n R = %d\n ZN = %d\n ZF = %d\n NLAY = %d\n EMIT = TRUE\n%s"
            "INVARIANTS %sEmit\n") % ("TRUE" if rand else "FALSE", ",".join('"%s"' % a for a in acts.split()),
                                      nlo, nhi, r, zn, zf, nlay, extra, "SemanticLaws " if laws else "")

def sample_points(r):
    i = np.arange(-r, r)
    x = 7 * i + 2
    y = 7 * i + 3
    X, Y = np.meshgrid(x, y)           # row = j (y), column = i (x)
    return np.stack([X.ravel(), Y.ravel()], axis=1)

GRID = 8192

def zrange(zn, zf):
    lo = -zn + zf / 2.0
    hi = zn - 1 + zf / 2.0
    return lo, hi

def slice_layers(exe, text, opts, work, timeout=60, keep=None):
    """runs hob3l on text; returns (run, {z: tris})"""
    d = tempfile.mkdtemp(dir=work)
    try:
        f = os.path.join(d, "in.scad")
        open(f, "w", encoding="latin-1").write(text)
        o = os.path.join(d, "out.stl")
        r = run([exe] + list(opts) + [f, "-o", o, "--stl-bin"], cwd=d, timeout=timeout)
        if r.rc != 0:
            return r, None
        try:
            v, n = parse_stlb(open(o, "rb").read())
        except (Bad, OSError) as e:
            r.rc = 0
            r.err += str(e).encode()
            return r, None
        return r, layers_of(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def region_at(lay, z, P, gap_eps=1e-4):
    """membership count of sample points in the (bottom or top) faces at height z"""
    for zz, tri in lay.items():
        if abs(zz - z) < gap_eps:
            c = count_in(tri, P, GRID)
            return c
    return np.zeros(len(P), dtype=np.int64)

def dump(exe, text, stage, work, timeout=60):
    fd, p = tempfile.mkstemp(suffix=".scad", dir=work)
    os.write(fd, text.encode("latin-1"))
    os.close(fd)
    r = run([exe, p, "--dump-" + stage], timeout=timeout)
    os.unlink(p)
    return r

def check_program(args):
    exe, rec, zn, zf, optsets, work, timeout = args
    text = scad_prog(rec["prog"])
    alt = scad_prog(rec["alt"]) if rec.get("alt") else None
    lo, hi = zrange(zn, zf)
    P = sample_points(rec["r"]) * GRID
    res = []
    npts = 0
    for oi, opts in enumerate(optsets):
        if alt and oi == len(optsets) - 1:
            text = alt
        base = ["--min=%g" % lo, "--max=%g" % (hi + 0.25), "--step=1"]
        orig = text
        via = [x[1:] for x in opts if x.startswith("@")]
        o = base + [x for x in opts if not x.startswith("@")]
        # "@scad": through the dump of that stage, read back
        ok = True
        for stage in via:
            r = dump(exe, text, stage, work, timeout)
            if r.rc != 0:
                res.append((["--dump-" + stage], "timeout" if r.timeout else "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace").strip()[:300]), text))
                ok = False
                break
            text = r.out.decode("latin-1")
        if not ok:
            text = orig
            continue
        r, lay = slice_layers(exe, text, o, work, timeout)
        if lay is None and r.timeout:
            r, lay = slice_layers(exe, text, o, work, 3 * timeout)
        if lay is None:
            what = "timeout" if r.timeout else "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace").strip()[:300])
            res.append((o, what, text))
            continue
        for L in rec["lay"]:
            z = L["z2"] / 2.0
            exp = np.array(L["v"])
            got = region_at(lay, z, P)
            known = exp != 2
            npts += int(known.sum())
            bad = known & (got != exp)
            if bad.any():
                q = np.nonzero(bad)[0]
                pts = [(round(float(P[k][0]) / 7 / GRID, 4), round(float(P[k][1]) / 7 / GRID, 4), int(exp[k]), int(got[k])) for k in q[:6]]
                res.append((list(opts) + base, "layer z=%g: %d points differ from the specification; (x, y, expected, layers of triangles found): %s" % (z, len(q), pts), orig))
                break
        text = orig
    unk = sum(v == 2 for L in rec["lay"] for v in L["v"])
    yes = sum(v == 1 for L in rec["lay"] for v in L["v"])
    return text, res, npts, unk, yes

def spread_opts(rng, n):
    out = []
    for i in range(n):
        o = ['--max-simultaneous=%d' % rng.randint(2, 10)]
        if rng.random() < 0.5:
            o.append(rng.choice(['--opt-no-skip-empty', '--opt-skip-empty']))
        if rng.random() < 0.5:
            o.append(rng.choice(['--opt-no-drop-collinear', '--opt-drop-collinear']))
        out.append(tuple(o))
    return out

class SemProfile:
    def __init__(self, name, cfg, num, optsets=((),), zn=4, zf=1, depth=60, rotate=None, exhaustive=False):
        self.name, self.cfg, self.num, self.optsets = name, cfg, num, optsets
        self.zn, self.zf, self.depth, self.rotate = zn, zf, depth, rotate
        self.exhaustive = exhaustive

def run_profiles(C, profiles, budget, seed_salt=0, timeout=60, module="ScadGen", workers=6):
    """runs every profile; budget: seconds for all of them together"""
    exe = tool()
    t0 = time.time()
    tot = sum(p.num for p in profiles)
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        for pi, p in enumerate(profiles):
            left = budget - (time.time() - t0)
            share = left if pi == len(profiles) - 1 else left * p.num / max(1, sum(q.num for q in profiles[pi:]))
            sim = Sim(module, p.cfg, p.num, p.depth, C.seed * 31 + seed_salt * 7 + pi + 1, budget=max(20, share), workdir=C.work,
                      exhaustive=p.exhaustive)
            pend = set()
            cnt = 0
            st = dict(programs=0, points=0, unknown=0, inside=0)
            def absorb(done):
                for f in done:
                    text, res, npts, unk, yes = f.result()
                    if yes > 40 and st["programs"] % 50 < 3:
                        C.sample({"profile": p.name, "program": text, "points": npts, "inside": yes, "undecided": unk}, 2 + 2 * pi)
                    st["programs"] += 1; st["points"] += npts; st["unknown"] += unk; st["inside"] += yes
                    for o, what, text in res:
                        C.violation("%s\noptions: %s" % (what, " ".join(o)),
                                    {"in.scad": text, "cmd.txt": "hob3l.x %s in.scad -o out.stl --stl-bin\n" % " ".join(o)})
            for shard, rec in sim:
                opts = p.optsets if p.rotate is None else [p.optsets[(cnt * p.rotate + k) % len(p.optsets)] for k in range(p.rotate)]
                cnt += 1
                pend.add(ex.submit(check_program, (exe, rec, p.zn, p.zf, opts, C.work, timeout)))
                if len(pend) > 64:
                    done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                    absorb(done)
                if C.enough():
                    break
            done, pend = cf.wait(pend)
            absorb(done)
            C.add("states", sim.states); C.add("transitions", sim.transitions)
            C.add("traces_validated_against_impl", st["programs"])
            C.add("points_compared", st["points"]); C.add("points_undecided", st["unknown"]); C.add("points_inside", st["inside"])
            C.cov.setdefault("profiles", {})[p.name] = st
            for e in sim.errors:
                C.error("%s: %s" % (p.name, e))
            if st["programs"] == 0 and not C.viol:
                C.error("profile %s produced no program" % p.name)
            if C.enough():
                return
