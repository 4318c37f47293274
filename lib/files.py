"""Replays programs distributed over files (spec/Files.tla) into hob3l and compares every layer."""
import os, re, random, struct, tempfile, shutil, concurrent.futures as cf
import numpy as np
from vlib import *
from semcheck import sample_points, region_at, zrange, GRID

ODD = {"@Q@": ('"', '\\"'), "@B@": ("\\", "\\\\"), "@T@": ("\t", "\\t"), "@N@": ("\n", "\\n"), "@R@": ("\r", "\\r"), "@U@": ("\xe9", "\xe9")}
def odd(s, k):
    """the special characters of a name, as they are (0) or as a string spells them (1)"""
    for a, b in ODD.items():
        s = s.replace(a, b[k])
    return s

def show(n, root, ind=0):
    pre = "  " * ind
    if n["f"] == "include":
        return pre + "include <%s>\n" % n["nm"]["txt"].replace("@ROOT@", root)
    args = ",".join((a["n"] + "=" if a["n"] else "") + num(a["v"]) for a in n["a"])
    args = odd(args.replace("@ROOT@", root), 1)
    head = pre + n["m"] + ("%s(%s)" % (n["f"], args) if n["f"] else "")
    if not n["c"] and n["f"] in LEAVES:
        return head + ";\n"
    if n.get("inc"):
        return head + "\n" + show(n["c"][0], root, ind + 1)
    return head + (" " if n["f"] else "") + "{\n" + "".join(show(c, root, ind + 1) for c in n["c"]) + pre + "}\n"

def binary(f):
    b = f["head"].encode().ljust(80, b"\0" if len(f["head"]) % 2 else b" ") + struct.pack("<I", len(f["b"]))
    for t in f["b"]:
        for v in t:
            b += struct.pack("<3f", *v)
        b += struct.pack("<H", f["attr"])
    return b

BIG = [(x, y, z) for z in (-9, 9) for y in (-9, 9) for x in (-9, 9)]
BIGF = [(0, 3, 1), (0, 2, 3), (4, 5, 7), (4, 7, 6), (0, 1, 5), (0, 5, 4), (2, 7, 3), (2, 6, 7), (0, 6, 2), (0, 4, 6), (1, 3, 7), (1, 7, 5)]
DECOY_STL = "solid decoy\n" + "".join("facet normal 0 0 0\nouter loop\n%sendloop\nendfacet\n" % "".join("vertex %d %d %d\n" % BIG[i] for i in t) for t in BIGF) + "endsolid decoy\n"

def lay_out(rec, root):
    """writes the files of a record below root"""
    out = {}
    for f in rec["files"]:
        p = os.path.join(root, *[odd(x, 0) for x in f["p"]])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f["t"] == "scad":
            c = "".join(show(n, root) for n in f["b"]).encode("utf-8")
        elif f["t"] == "text":
            c = "".join(f["b"]).replace("@8@", "\xe4").encode("latin-1")
        else:
            c = binary(f)
        open(p, "wb").write(c)
        out["/".join(f["p"])] = c
    for d in rec["dirs"]:
        os.makedirs(os.path.join(root, *d), exist_ok=True)
    for d, segs in list(rec["use"]) + [(d, s) for d in rec["dirs"] for _, s in rec["use"]]:
        cur = list(d)
        for s in segs[:-1]:
            if s == "..":
                if not cur: break
                cur.pop()
            elif s != ".":
                cur.append(s)
            os.makedirs(os.path.join(root, *cur), exist_ok=True)
    scad = {f["p"][-1] for f in rec["files"] if f["t"] == "scad"}
    for d in rec["decoys"]:
        p = os.path.join(root, *[odd(x, 0) for x in d])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("cube([19,19,19],center=true);\n" if d[-1] in scad else DECOY_STL)
        out["/".join(d) + " (decoy)"] = b""
    return out

def compare(rec, lay, P, dz=0.0):
    for L in rec["lay"]:
        z = L["z2"] / 2.0 + dz
        exp = np.array(L["v"])
        got = region_at(lay, z, P)
        bad = (exp != 2) & (got != exp)
        if bad.any():
            q = np.nonzero(bad)[0]
            return "layer z=%g: %d points differ from the specification; (x, y, expected, found): %s" % (z, len(q),
                [(round(float(P[k][0]) / 7 / GRID, 4), round(float(P[k][1]) / 7 / GRID, 4), int(exp[k]), int(got[k])) for k in q[:6]])
    return None

def sliced(cmd, o, cwd, txt=False):
    r = run(cmd, cwd=cwd, timeout=60)
    if r.rc != 0 or not os.path.exists(o):
        return None, "timeout" if r.timeout else "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace").strip()[:400])
    b = open(o, "rb").read()
    try:
        return layers_of((parse_stla if txt else parse_stlb)(b)[0]), None
    except Bad as e:
        return None, "malformed STL: " + str(e)

def replay(args):
    exe, rec, seed, zn, zf, work, again = args
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=work)
    res = []
    try:
        root = os.path.join(d, "root")
        files = lay_out(rec, root)
        P = sample_points(rec["r"]) * GRID
        lo, hi = zrange(zn, zf)
        cwd = os.path.join(root, *rec["cwd"])
        main = os.path.join(root, *rec["main"])
        if rng.random() < 0.7:
            main = os.path.relpath(main, cwd)
        o = os.path.join(d, "out.stl")
        txt = again and rng.random() < 0.5
        base = ["--min=%g" % lo, "--max=%g" % (hi + 0.25), "--step=1"]
        cmd = [exe] + base + [main, "-o", o, "--stl-txt" if txt else "--stl-bin"]
        lay, bad = sliced(cmd, o, cwd, txt)
        bad = bad or compare(rec, lay, P)
        if bad:
            files = {k.replace("/", "_").replace(" ", "~"): v for k, v in files.items()}
            files["cmd.txt"] = "file names: '/' printed as '_', ' ' as '~'; in directory root/%s: hob3l.x %s\n" % ("/".join(rec["cwd"]), " ".join(cmd[1:]))
            res.append((bad, files))
        elif again:
            # the written layers, imported again and cut a quarter above their lower faces
            name = "again.stl"
            dst = os.path.join(root, *rec["main"][:-1], name)
            shutil.copy(o, dst)
            open(os.path.join(root, "re.scad"), "w").write('import("%s");\n' % "/".join(list(rec["main"][:-1]) + [name]))
            o2 = os.path.join(d, "out2.stl")
            dz = rng.choice([0.125, 0.25, 0.5, 0.75])
            cmd = [exe, "--min=%r" % (lo + dz), "--max=%r" % (hi + 0.125 + dz), "--step=1", os.path.join(root, "re.scad"), "-o", o2, "--stl-bin"]
            lay2, bad = sliced(cmd, o2, d)
            bad = bad or compare(rec, lay2, P, dz)
            if bad:
                files = {k.replace("/", "_").replace(" ", "~"): v for k, v in files.items()}
                files["written.stl"] = open(o, "rb").read()
                files["cmd.txt"] = "import(\"written.stl\"); sliced by: %s\n" % " ".join(cmd[1:])
                res.append(("re-import of the written layers: " + bad, files))
        kinds = [f["t"] for f in rec["files"]]
        return res, kinds, sum(v != 2 for L in rec["lay"] for v in L["v"]), len(rec["decoys"]), bool(again), \
            {"/".join(f["p"]): ("".join(show(n, "/ROOT") for n in f["b"]) if f["t"] == "scad" else f["t"]) for f in rec["files"]}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_files(C, name, cfg, num, zn, zf, budget, salt, again=4):
    exe = tool()
    sim = Sim("Files", cfg, num, 80, C.seed * 37 + salt, budget=budget, workdir=C.work)
    st = dict(programs=0, included=0, text=0, binary=0, decoys=0, reimported=0, points=0)
    def absorb(done):
        for f in done:
            res, kinds, pts, dec, ag, text = f.result()
            st["programs"] += 1; st["included"] += kinds.count("scad") - 1; st["text"] += kinds.count("text"); st["binary"] += kinds.count("bin")
            st["decoys"] += dec; st["reimported"] += ag; st["points"] += pts
            if len(kinds) > 3 and st["programs"] % 40 < 2:
                C.sample({"profile": name, "files": text}, 2)
            for what, files in res:
                C.violation(what, files)
    with cf.ProcessPoolExecutor(max_workers=6) as ex:
        pend = set()
        for i, (shard, rec) in enumerate(sim):
            pend.add(ex.submit(replay, (exe, rec, C.seed * 1000003 + salt * 7919 + i, zn, zf, C.work, i % again == 0)))
            if len(pend) > 64:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough(): break
        done, pend = cf.wait(pend)
        absorb(done)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["programs"])
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors:
        C.error("%s: %s" % (name, e))
    if not st["programs"] and not C.viol:
        C.error("profile %s produced no program" % name)

# ------------------------------------------------------------ STL recogniser
import math
TPTS = [(-3, -2, -2), (3, -2, -2), (0, 3, -2), (0, 0, 3)]
TTRI = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]
TNRM = [(0, 0, -1), (0, -1, 0.4), (1, 0.6, 0.6), (-1, 0.6, 0.6)]

def tetra(patch=None):
    v = [list(TNRM[k]) + [c for i in TTRI[k] for c in TPTS[i]] for k in range(4)]
    if patch:
        v[patch["k"] - 1][patch["i"] - 1] = float(patch["x"])
    return v
def tetra_bin(cnt, vals):
    b = b"a small solid".ljust(80) + struct.pack("<I", cnt)
    for v in vals:
        b += struct.pack("<12fH", *v, 0)
    return b

def stl_content(r):
    if r["k"] == "text":
        return r["s"].encode()
    if r["k"] == "special":
        return tetra_bin(4, tetra(r["b"]))
    b = tetra_bin(r["cnt"], tetra())
    return (b + bytes((i * 37 + 11) % 256 for i in range(400)))[:r["len"]]

def judge_stl(args):
    exe, recs, work, base = args
    d = tempfile.mkdtemp(dir=work)
    res = []
    try:
        open(os.path.join(d, "in.scad"), "w").write('import("m.stl");\n')
        o = os.path.join(d, "o.stl")
        for r in recs:
            c = stl_content(r)
            open(os.path.join(d, "m.stl"), "wb").write(c)
            if os.path.exists(o): os.unlink(o)
            x = run([exe, "--min=-1.5", "--max=2.75", "--step=1", "in.scad", "-o", o, "--stl-txt"], cwd=d, timeout=60)
            what = None
            if x.timeout or x.rc not in (0, 1):
                what = "timeout" if x.timeout else "exit %d: %s" % (x.rc, x.err.decode("latin-1")[-300:])
            elif x.rc == 1 and b"Error: " not in x.err:
                what = "exit 1 without an error message"
            elif r["v"] == "ok" and x.rc != 0:
                what = "a file in the format is rejected: " + x.err.decode("latin-1")[:300]
            elif r["v"] == "bad" and x.rc == 0:
                what = "a file that is not in the format is accepted"
            elif r["v"] == "ok":
                got = open(o, "rb").read()
                if base is None: base = got
                elif got != base: what = "the solid differs from the one of the unedited file"
            if what:
                res.append((what + "; edit " + str(r.get("e") or r.get("b") or (r.get("len"), r.get("cnt"))), {"m.stl": c, "in.scad": 'import("m.stl");\n', "cmd.txt": "hob3l.x --min=-1.5 --max=2.75 --step=1 in.scad -o o.stl --stl-txt\n"}))
        return res, base
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_stl(C, double, budget):
    exe = tool()
    cfg = "SPECIFICATION Spec\nCONSTANTS\n DOUBLE = %s\nINVARIANTS Sane Emit\n" % ("TRUE" if double else "FALSE")
    sim = Sim("StlText", cfg, 0, 0, 1, budget=budget, workdir=C.work, exhaustive=True, heap="4g")
    base = None
    st = dict(ok=0, bad=0, open=0)
    with cf.ProcessPoolExecutor(max_workers=6) as ex:
        _, base = judge_stl((exe, [{"k": "bin", "len": 284, "cnt": 4, "v": "ok"}], C.work, None))
        fs, batch = [], []
        for _, r in sim:
            st[r["v"] if r["v"] in st else "open"] += 1
            batch.append(r)
            if len(batch) == 60:
                fs.append(ex.submit(judge_stl, (exe, batch, C.work, base))); batch = []
            if len(fs) > 20:
                for what, files in fs.pop(0).result()[0]: C.violation(what, files)
            if C.enough(): break
        if batch: fs.append(ex.submit(judge_stl, (exe, batch, C.work, base)))
        for f in fs:
            for what, files in f.result()[0]: C.violation(what, files)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", sum(st.values()))
    C.cov.setdefault("profiles", {})["stl files"] = st
    for e in sim.errors: C.error("StlText: " + e)
    if not st["ok"] or not st["bad"]: C.error("StlText: nothing generated")
