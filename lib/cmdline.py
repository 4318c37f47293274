"""Runs command lines of spec/Cmd.tla and their canonical forms and compares everything they write."""
import os, re, random, tempfile, shutil, concurrent.futures as cf
from vlib import *

BASE = """// corners in the middle of edges, overlapping and touching solids, curves
union() {
  color("red") difference() {
    cube([4,3,2]);
    translate([1,1,-1]) cylinder(h=5, r=1, $fn=24);
  }
  color([0,0.5,1]) linear_extrude(height=1.5) polygon([[0,0],[1,0],[2,0],[2,4],[1,5],[0,4],[0,2]]);
  intersection() { sphere(2, $fn=10); translate([-3,-3,-1]) cube([4,4,4]); translate([-1,-4,-2]) cube([3,8,4]); }
}
# translate([0,0,1]) cube(1);
"""
FAULTS = {"": "", "empty": "cube([0,1,1]);", "collapse": "scale([1,0,1]) cube(2);", "outside-3d": "linear_extrude(1) { cube(1); square(1); }",
          "outside-2d": "square(2);", "unsupported-functor": "minkowski() { cube(1); }", "unknown-param": "cube([1,1,3], colour=2);"}

def run_one(exe, argv, d):
    os.mkdir(d)
    open(os.path.join(d, "in.scad"), "w").write(run_one.text)
    # stdout may be binary; the files written are everything but in.scad
    r = run([exe] + argv, cwd=d, timeout=60)
    files = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if f != "in.scad"}
    if open(os.path.join(d, "in.scad")).read() != run_one.text:
        files["in.scad"] = b"changed"
    return r, files

def looks(fmt, b):
    t = b.lstrip()
    if fmt == "":
        return b == b""
    if fmt == "dump-stl":
        try: parse_stla(b); return True
        except Bad: return False
    if fmt == "dump-stlb":
        try: parse_stlb(b); return True
        except Bad: return False
    if fmt == "dump-ps": return t.startswith(b"%!PS")
    if fmt == "dump-js": return t == b"" or t.startswith(b"scene.push(")
    return re.match(rb"(?:(?://[^\n]*\n)|\s)*[*!#%]?\s*[a-z_]+ ?\(", t + b"x(") is not None

def one(job):
    exe, rec, seed, work = job
    rng = random.Random(seed)
    fault = rng.choice(["", "", ""] + sorted(FAULTS)[1:])
    run_one.text = BASE + FAULTS[fault] + "\n"
    d = tempfile.mkdtemp(dir=work)
    argv = rec["argv"]
    try:
        a, fa = run_one(exe, argv, os.path.join(d, "a"))
        bad = None
        said = re.search(rb"^(?:[^\n]*: )?Error(?: [^\n]*)?:", a.err, re.M)
        if a.timeout or a.rc not in (0, 1):
            bad = "exit status %d: %s" % (a.rc, a.err.decode("latin-1")[-200:])
        elif rec["verdict"] == "help":
            if a.rc != 0 or b"Usage" not in a.out and b"usage" not in a.out:
                bad = "a request for help ended with status %d, output %r" % (a.rc, a.out[:80])
        elif rec["verdict"] == "fail":
            if a.rc != 1 or not said:
                bad = "a wrong command line (%s) ended with status %d and the message %r" % (rec["why"], a.rc, a.err.decode("latin-1")[-200:])
            elif fa.get(rec["out"]) and rec["why"] != "file ending" or [f for f in fa if f != rec["out"]]:
                bad = "a wrong command line (%s) still wrote files: %s" % (rec["why"], sorted(fa))
        else:
            b, fb = run_one(exe, rec["canon"], os.path.join(d, "b"))
            outa = fa.pop(rec["out"], None) if rec["out"] else a.out
            outb = b.out
            if a.rc != b.rc:
                bad = "exit status %d, but %d with the equivalent arguments %s\n%s" % (a.rc, b.rc, " ".join(rec["canon"]), (a.err if a.rc else b.err).decode("latin-1")[-200:])
            elif fa or fb:
                bad = "unexpected files: %s" % (sorted(fa) + sorted(fb))
            elif rec["out"] and a.out:
                bad = "output on stdout in spite of -o"
            elif a.rc == 1 and not said:
                bad = "status 1 without an error message"
            elif a.rc == 0:
                if outa is None:
                    bad = "no output file %s" % rec["out"]
                elif outa != outb:
                    bad = "the output differs from the one with the equivalent arguments %s" % " ".join(rec["canon"])
                elif not looks(rec["fmt"], outa):
                    bad = "the output is not of the format %s: %r" % (rec["fmt"], outa[:60])
        return bad, argv, run_one.text, a.rc, rec["verdict"]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_cmd(C, name, nargs, badp, num, budget, salt, workers=7):
    """num 0: all command lines of CmdAll"""
    exe = tool()
    cfg = "SPECIFICATION %s\nCONSTANTS\n NARGS = %d\n BAD = %d\nINVARIANTS TypeOk Emit\n" % ("Spec" if num else "SpecAll", nargs, badp)
    if num: sim = Sim("Cmd", cfg, num, nargs + 8, C.seed * 47 + salt, budget=budget, workdir=C.work)
    else: sim = Sim("CmdAll", cfg, 0, 0, 1, budget=budget, workdir=C.work, exhaustive=True)
    st = dict(lines=0, run=0, fail=0, help=0, converted=0)
    pend = set(); seen = set()
    def absorb(done):
        for f in done:
            bad, argv, text, rc, verdict = f.result()
            st["lines"] += 1; st[verdict] += 1
            st["converted"] += verdict == "run" and rc == 0
            if st["lines"] % 150 == 3:
                C.sample({"argv": argv, "verdict": verdict, "status": rc}, 6)
            if bad:
                C.violation(bad + "\narguments: " + json.dumps(argv), {"in.scad": text, "argv.json": json.dumps(argv)})
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        for i, (shard, rec) in enumerate(sim):
            k = json.dumps(rec["argv"])
            if k in seen:
                continue
            seen.add(k)
            pend.add(ex.submit(one, (exe, rec, "%d/%s" % (C.seed, k), C.work)))
            if len(pend) > 64:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough():
                break
        done, pend = cf.wait(pend)
        absorb(done)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["lines"])
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors:
        C.error("%s: %s" % (name, e))
    if st["lines"] == 0 and not C.viol:
        C.error("profile %s produced nothing" % name)
