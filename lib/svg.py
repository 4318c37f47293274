"""Replays SVG documents written by spec/Svg.tla into hob3l and compares the
region they import as, point by point."""
import os, json, random, tempfile, shutil, concurrent.futures as cf
import numpy as np
from vlib import *
from semcheck import region_at, GRID

REPL = {"@bom@": "\ufeff", "@ae@": "\xe4", "@euro@": "\u20ac", "@big@": "\U0001d11e"}

def subst(t):
    for k, v in REPL.items():
        t = t.replace(k, v)
    return t

def scad_str(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'

def scad_of(rec, name="a.svg"):
    a = ['"%s"' % name]
    if rec["layer"]: a.append("layer=" + scad_str(subst(rec["layer"])))
    if rec["dpi"]: a.append("dpi=" + rec["dpi"])
    if rec["center"]: a.append("center=" + ("true" if rec["center"] == 1 else "false"))
    return "%s linear_extrude(height=1) import(%s);\n" % (rec["outer"], ",".join(a))

def points_of(rec):
    p = np.array(rec["pts"], dtype=np.float64)
    P = np.rint(p[:, :2] * (GRID * 7) / rec["den"]).astype(np.int64)
    return P, p[:, 2].astype(np.int64)

OPTS = ["--min=0.5", "--max=0.75", "--step=1"]
def replay(args):
    exe, recs, work, keep = args
    d = tempfile.mkdtemp(dir=work)
    out = []
    try:
        for rec in recs:
            svg = subst(rec["svg"]).encode("utf-8")
            scad = scad_of(rec).encode("utf-8")
            open(os.path.join(d, "a.svg"), "wb").write(svg)
            open(os.path.join(d, "in.scad"), "wb").write(scad)
            o = os.path.join(d, "o.stl")
            if os.path.exists(o): os.unlink(o)
            r = run([exe] + OPTS + ["in.scad", "-o", o, "--stl-bin"], cwd=d, timeout=60)
            P, exp = points_of(rec)
            what = None
            if r.rc != 0 or not os.path.exists(o):
                what = "timeout" if r.timeout else "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace").strip()[:400])
            else:
                try:
                    lay = layers_of(parse_stlb(open(o, "rb").read())[0])
                    got = region_at(lay, 0.5, P)
                    bad = (exp != 2) & (got != exp)
                    if bad.any():
                        q = np.nonzero(bad)[0]
                        what = "%d points of %d differ from the specification; (x, y, expected, found): %s" % (len(q), int((exp != 2).sum()),
                            [(round(float(P[k][0]) / 7 / GRID, 4), round(float(P[k][1]) / 7 / GRID, 4), int(exp[k]), int(got[k])) for k in q[:6]])
                except Bad as e:
                    what = "malformed STL: " + str(e)
            known = int((exp != 2).sum())
            out.append((rec, what, known, int((exp == 1).sum()), {"a.svg": svg, "in.scad": scad, "cmd.txt": "hob3l.x %s in.scad -o o.stl --stl-bin\n" % " ".join(OPTS)} if what else None))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def svg_cfg(nlo, nhi, pathw, bad):
    return "SPECIFICATION Spec\nCONSTANTS\n NLO = %d\n NHI = %d\n PATHW = %d\n BAD = %s\nINVARIANTS MatLaw Emit\n" % (nlo, nhi, pathw, "TRUE" if bad else "FALSE")

def run_svg(C, name, nlo, nhi, pathw, bad, num, budget, salt, exe=None):
    exe = exe or tool()
    sim = Sim("Svg", svg_cfg(nlo, nhi, pathw, bad), num, 400, C.seed * 41 + salt, budget=budget, workdir=C.work)
    st = dict(documents=0, empty=0, points=0, inside=0)
    seen = set()
    def absorb(fs):
        for f in fs:
            for rec, what, pts, ins, files in f.result():
                st["documents"] += 1; st["points"] += pts; st["inside"] += ins
                st["empty"] += rec["n"] == 0
                if st["documents"] % 300 == 7:
                    C.sample({"profile": name, "svg": subst(rec["svg"]), "scad": scad_of(rec)}, 2)
                if what: C.violation(what, files)
    with cf.ProcessPoolExecutor(max_workers=5) as ex:
        pend, batch = set(), []
        for shard, rec in sim:
            h = hash(rec["svg"])
            if h in seen: continue
            seen.add(h)
            batch.append(rec)
            if len(batch) == 10:
                pend.add(ex.submit(replay, (exe, batch, C.work, False))); batch = []
                if len(pend) > 20:
                    done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                    absorb(done)
            if C.enough(): break
        if batch: pend.add(ex.submit(replay, (exe, batch, C.work, False)))
        absorb(cf.wait(pend)[0])
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["documents"])
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors:
        C.error("%s: %s" % (name, e))
    if not st["documents"] and not C.viol:
        C.error("profile %s produced no document" % name)

# ------------------------------------------------------------ XML recogniser
def judge_xml(args):
    exe, recs, work, base = args
    d = tempfile.mkdtemp(dir=work)
    res = []
    try:
        scad = "linear_extrude(height=1) import(\"a.svg\");\n"
        open(os.path.join(d, "in.scad"), "w").write(scad)
        o = os.path.join(d, "o.stl")
        for r in recs:
            c = r["s"].encode("utf-8").replace(b"@ff@", b"\xff")
            open(os.path.join(d, "a.svg"), "wb").write(c)
            if os.path.exists(o): os.unlink(o)
            x = run([exe] + OPTS + ["in.scad", "-o", o, "--stl-txt"], cwd=d, timeout=20)
            what = None
            if x.timeout or x.rc not in (0, 1):
                what = "timeout" if x.timeout else "exit %d: %s" % (x.rc, x.err.decode("latin-1")[-300:])
            elif x.rc == 1 and b"Error: " not in x.err:
                what = "exit 1 without an error message"
            elif r["v"] == "same" and x.rc != 0:
                what = "a well-formed document is rejected: " + x.err.decode("latin-1")[:300]
            elif r["v"] == "bad" and x.rc == 0:
                what = "a document that is not well-formed is accepted"
            elif r["v"] == "same":
                got = open(o, "rb").read()
                b = base.setdefault(r["k"], got)
                if got != b: what = "the result differs from the one of the unedited document"
            if what:
                res.append((what + "; edits " + str(r["e"]), {"a.svg": c, "in.scad": scad, "cmd.txt": "hob3l.x %s in.scad -o o.stl --stl-txt\n" % " ".join(OPTS)}))
        return res, base
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_xml(C, part, parts, double, budget, exe=None):
    exe = exe or tool()
    cfg = "SPECIFICATION Spec\nCONSTANTS\n DOCS = {1, 2}\n PART = %d\n PARTS = %d\n DOUBLE = %s\nINVARIANTS Sane Emit\n" % (part, parts, "TRUE" if double else "FALSE")
    sim = Sim("XmlText", cfg, 0, 0, 1, budget=budget, workdir=C.work, exhaustive=True, heap="4g")
    st = dict(same=0, ok=0, bad=0, open=0)
    base = None
    with cf.ProcessPoolExecutor(max_workers=6) as ex:
        fs, batch, held = [], [], []
        for _, r in sim:
            st[r["v"]] += 1
            if base is None:
                # the unedited documents come first
                held.append(r)
                done = {h["k"]: h for h in held if h["e"][0]["o"] == "none"}
                if len(done) < 2: continue
                res, base = judge_xml((exe, list(done.values()), C.work, {}))
                for what, files in res: C.violation(what, files)
                if len(base) < 2: break
                batch = held
                continue
            batch.append(r)
            if len(batch) >= 60:
                fs.append(ex.submit(judge_xml, (exe, batch, C.work, base))); batch = []
            if len(fs) > 20:
                for what, files in fs.pop(0).result()[0]: C.violation(what, files)
            if C.enough(): break
        if batch and base: fs.append(ex.submit(judge_xml, (exe, batch, C.work, base)))
        for f in fs:
            for what, files in f.result()[0]: C.violation(what, files)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", sum(st.values()))
    C.cov.setdefault("profiles", {})["xml"] = st
    for e in sim.errors: C.error("XmlText: " + e)
    if not C.viol and not (st["same"] and st["bad"] and base): C.error("XmlText: nothing generated")
