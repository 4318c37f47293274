"""Replays programs with faulty calls (spec/Faults.tla) into hob3l and compares the outcome."""
import os, re, random, tempfile, shutil, concurrent.futures as cf
import numpy as np
from vlib import *
from semcheck import sample_points, region_at, zrange, GRID

class Layout:
    """prints a program over lines (and files), remembering where each fault is"""
    def __init__(self, rng, split):
        self.rng, self.split = rng, split
        self.files = {}
        self.where = {}          # tag -> (file, first line, last line)
    def emit(self, f, text):
        if self.rng.random() < 0.2:
            self.files[f].append(self.rng.choice(["", "// note", "/* a", "   ", "\t// cube([0,0,0]);"]))
            if self.files[f][-1] == "/* a":
                self.files[f].append("   comment */")
        self.files[f].append(text)
        return len(self.files[f])
    def node(self, f, n, ind):
        pre = "  " * ind if self.rng.random() < 0.8 else "\t" * ind
        if n["t"] and n["raw"]:
            a = b = self.emit(f, pre + n["raw"][0])
            for l in n["raw"][1:]:
                self.files[f].append(pre + "  " + l)
                b += 1
            self.where[n["t"]] = (f, a, b)
            return
        args = [(a["n"] + "=" if a["n"] else "") + num(a["v"]) for a in n["a"]]
        head = pre + n["m"]
        if n["f"]:
            sep = ", " if self.rng.random() < 0.8 else ",\n" + pre + "   "
            head += "%s(%s)" % (n["f"], sep.join(args))
        leaf = not n["c"] and n["f"] in LEAVES
        lines = (head + (";" if leaf else " {" if n["f"] else "{")).split("\n")
        a = b = self.emit(f, lines[0])
        for l in lines[1:]:
            self.files[f].append(l)
            b += 1
        if n["t"]:
            self.where[n["t"]] = (f, a, b)
        if leaf:
            return
        self.kids(f, n["c"], ind + 1)
        self.files[f].append(pre + "}")
    def kids(self, f, c, ind):
        for n in c:
            if self.rng.random() < self.split and len(self.files) < 4:
                g = "part%d.scad" % len(self.files)
                self.files[g] = []
                self.emit(f, "  " * ind + "include <%s>" % g)
                self.node(g, n, 0)
            else:
                self.node(f, n, ind)
    def program(self, prog):
        self.files["in.scad"] = []
        self.kids("in.scad", prog, 0)
        return {k: "\n".join(v) + "\n" for k, v in self.files.items()}

PART_STL = "solid p\n%sendsolid p\n" % "".join(
    "facet normal 0 0 0\nouter loop\n%sendloop\nendfacet\n" % "".join("vertex %d %d %d\n" % v for v in f) for f in
    (((0, 0, 0), (0, 3, 0), (3, 0, 0)), ((0, 0, 0), (3, 0, 0), (0, 0, 3)), ((0, 3, 0), (0, 0, 3), (3, 0, 0)), ((0, 0, 0), (0, 0, 3), (0, 3, 0))))
PART_SVG = '<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" width="4mm" height="4mm" viewBox="0 0 4 4"><rect x="1" y="1" width="2" height="2"/></svg>\n'

MSG = re.compile(rb"^(?:([^\n:]+):(\d+):(?:\d+:)? )?(Error|Warning): ", re.M)

def messages(err):
    return [(os.path.basename((m.group(1) or b"").decode("latin-1")), int(m.group(2) or 0), m.group(3).decode()) for m in MSG.finditer(err)]

def replay(args):
    exe, rec, seed, work, env = args
    rng = random.Random(seed)
    lay = Layout(rng, 0.2 if rng.random() < 0.4 else 0.0)
    files = lay.program(rec["prog"])
    d = tempfile.mkdtemp(dir=work)
    try:
        for k, v in files.items():
            open(os.path.join(d, k), "w", newline="").write(v)
        open(os.path.join(d, "data.dat"), "w").write("1 2 3\n4 5 6\n")
        open(os.path.join(d, "part.stl"), "w").write(PART_STL)
        open(os.path.join(d, "part.svg"), "w").write(PART_SVG)
        lo, hi = zrange(4, 1)
        opts = ["--%s=%s" % (c, rng.choice({"error": ["error", "err", "fail"], "warn": ["warn", "warning"], "ignore": ["ignore", "ign"]}[m]))
                for c, m in sorted(rec["sev"].items()) if m]
        opts += ["--min=%g" % lo, "--max=%g" % (hi + 0.25), "--step=1"]
        o = os.path.join(d, "out.stl")
        cmd = [exe] + opts + [os.path.join(d, "in.scad"), "-o", o, "--stl-bin"]
        r = run(cmd, cwd=d, timeout=60)
        if r.timeout:
            r = run(cmd, cwd=d, timeout=240)
        bad = judge_run(rec, lay.where, r)
        npts = 0
        if not bad and not rec["errs"]:
            try:
                v, _ = parse_stlb(open(o, "rb").read())
                tri = layers_of(v)
            except (Bad, OSError) as e:
                bad = "no output: %s" % e
                tri = None
            P = sample_points(rec["r"]) * GRID
            for L in rec["lay"] if tri is not None else []:
                exp = np.array(L["v"])
                got = region_at(tri, L["z2"] / 2.0, P)
                known = exp != 2
                npts += int(known.sum())
                q = np.nonzero(known & (got != exp))[0]
                if len(q):
                    k = q[0]
                    bad = "layer z=%g: %d points differ from the program without the faulty objects, e.g. (%.4f, %.4f): expected %d, found %d" % (
                        L["z2"] / 2.0, len(q), P[k][0] / 7 / GRID, P[k][1] / 7 / GRID, exp[k], got[k])
                    break
        return bad, files, opts, r.rc, r.err, npts
    finally:
        shutil.rmtree(d, ignore_errors=True)

def judge_run(rec, where, r):
    """None, or what is wrong with the outcome (Permitted of Faults.tla)"""
    if r.timeout:
        return "timeout"
    msgs = messages(r.err)
    errs = [m for m in msgs if m[2] == "Error"]
    warns = [m for m in msgs if m[2] == "Warning"]
    def at(m, t):
        f, a, b = where[t]
        return m[0] == f and a <= m[1] <= b
    if r.rc not in (0, 1):
        return "exit status %d: %s" % (r.rc, r.err.decode("latin-1")[-300:])
    for m in warns:
        if not any(at(m, t) for t in rec["warns"]):
            return "a warning names %s:%d, where no fault is to be warned of (%s)" % (m[0], m[1], {t: where[t] for t in rec["warns"]})
    if rec["errs"]:
        if r.rc == 0:
            return "exit status 0 although the calls at %s are errors" % {t: where[t] for t in rec["errs"]}
        if len(errs) != 1:
            return "%d error messages: %r" % (len(errs), r.err.decode("latin-1")[-300:])
        if not any(at(errs[0], t) for t in rec["errs"]):
            return "the error names %s:%d, the calls in error are at %s" % (errs[0][0], errs[0][1], {t: where[t] for t in rec["errs"]})
        return None
    if r.rc != 0:
        return "rejected although no complaint is an error: %s" % r.err.decode("latin-1")[-300:]
    for t in rec["warns"]:
        if not any(at(m, t) for m in warns):
            return "no warning names the fault at %s" % (where[t],)
    return None

def run_faults(C, name, cfg, num, depth, budget, salt, workers=6):
    exe = tool()
    sim = Sim("Faults", cfg, num, depth, C.seed * 41 + salt, budget=budget, workdir=C.work)
    st = dict(programs=0, stopped=0, warned=0, silent=0, points=0)
    pend = {}
    def absorb(done):
        for f in done:
            rec = pend.pop(f)
            bad, files, opts, rc, err, npts = f.result()
            st["programs"] += 1; st["points"] += npts
            st["stopped" if rec["errs"] else "warned" if rec["warns"] else "silent"] += 1
            if st["programs"] % 40 < 2:
                C.sample({"files": files, "options": opts, "must stop at": rec["errs"], "must warn of": rec["warns"], "stderr": err.decode("latin-1")[-300:]}, 3 + salt % 5)
            if bad:
                files = dict(files)
                files["cmd.txt"] = "hob3l %s in.scad -o out.stl --stl-bin\n" % " ".join(opts)
                files["stderr.txt"] = err
                C.violation(bad + "\noptions: " + " ".join(opts), files)
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        for i, (shard, rec) in enumerate(sim):
            pend[ex.submit(replay, (exe, rec, "%d/%d/%s" % (C.seed, shard, json.dumps(rec["prog"])[:200]), C.work, None))] = rec
            if len(pend) > 64:
                done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough():
                break
        done, _ = cf.wait(list(pend))
        absorb(done)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["programs"]); C.add("points_compared", st["points"])
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors:
        C.error("%s: %s" % (name, e))
    if st["programs"] == 0 and not C.viol:
        C.error("profile %s produced no program" % name)
