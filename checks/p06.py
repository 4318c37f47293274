#!/usr/bin/env python3-vt
"""Argument binding: calls generated by spec/Args.tla, replayed into hob3l."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *
from canon import run_canon

CFG = """SPECIFICATION Spec
CONSTANTS
 RAND = TRUE
 FUNCS = {%s}
 MAXARGS = 5
 MAXFN = 12
 R = 4
 EMIT = TRUE
INVARIANTS LawNaming LawUnknown Emit
"""
SHAPES = "cube square circle sphere cylinder polyhedron polygon".split()
OTHERS = "translate mirror scale rotate multmatrix color linear_extrude rotate_extrude projection".split()

def text(v):
    t = v["t"]
    if t == "num":
        h, st = v["h"], v["st"]
        s, a = ("-" if h < 0 else ""), abs(h)
        i, f = divmod(a, 2)
        if st == 3 and h >= 0 and not f:
            return "+%d" % i
        if st == 1:
            return "%s%d.%s0" % (s, i, "5" if f else "0")
        if st == 2:
            return "%s%de-1" % (s, a * 5)
        if st == 4:
            return "%s%d.%sE0" % (s, i, "5" if f else "")
        if st == 5:
            return "%s.%02de+1" % (s, a * 5) if a < 20 else "%s%d.%d" % (s, i, 5 * f)
        return "%s%d%s" % (s, i, ".5" if f else "")
    if t == "bool":
        return "true" if v["h"] else "false"
    if t == "undef":
        return "undef"
    if t == "str":
        return '"%s"' % v["s"]
    return "[" + ",".join(text(x) for x in v["e"]) + "]"

def call(f, args, kid, flat):
    s = "%s(%s)" % (f, ", ".join((a["n"] + "=" if a["n"] else "") + text(a["v"]) for a in args))
    s += " {\n" + "".join(scad(k, 1) for k in kid) + "}\n" if kid else ";\n"
    return ("linear_extrude(height=4, center=true) " if flat else "") + s

def check_call(job):
    exe, rec, opts, alt, work = job
    prog = call(rec["f"], rec["alt"] if alt else rec["args"], rec["kid"], rec["flat"])
    o = ["--max-fn=12", "--min=-1.5", "--max=2.75", "--step=1"] + list(opts)
    if rec["opt"]:
        o.append("--unknown-param=" + rec["opt"])
    r, lay = slice_layers(exe, prog, o, work)
    cmd = "hob3l.x %s in.scad -o out.stl --stl-bin\n" % " ".join(o)
    if rec["open"]:
        return prog, cmd, None if r.rc in (0, 1) else "exit %d" % r.rc, 0
    if not rec["ok"]:
        e = r.err.decode("latin-1", "replace")
        if r.rc == 0:
            return prog, cmd, "accepted, but the documentation makes this call an error", 0
        if r.rc != 1 or "Error:" not in e:
            return prog, cmd, "not rejected with an error message: exit %d: %s" % (r.rc, e[:200]), 0
        return prog, cmd, None, 0
    if lay is None:
        return prog, cmd, "not accepted: exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace")[:300]), 0
    P = sample_points(rec["r"]) * GRID
    n = 0
    for L in rec["lay"]:
        exp = np.array(L["v"])
        got = region_at(lay, L["z2"] / 2.0, P)
        known = exp != 2
        n += int(known.sum())
        bad = known & (got != exp)
        if bad.any():
            q = np.nonzero(bad)[0]
            return prog, cmd, "layer z=%g: %d points differ from the documented shape, (x,y,expected,found): %s" % (L["z2"] / 2.0, len(q),
                [(round(float(P[k][0]) / 7 / GRID, 3), round(float(P[k][1]) / 7 / GRID, 3), int(exp[k]), int(got[k])) for k in q[:5]]), n
    return prog, cmd, None, n

def main():
    C = Check("P06")
    q = C.quick()
    exe = tool()
    cnt = dict(calls=0, accepted=0, rejected=0, unevaluated=0)
    per = {}
    with cf.ProcessPoolExecutor(max_workers=7) as ex:
        for gi, (fs, num) in enumerate([(SHAPES, 1200 if q else 15000), (["cylinder"], 500 if q else 8000), (OTHERS, 1300 if q else 15000)]):
            sim = Sim("Args", CFG % ",".join('"%s"' % f for f in fs), num, 20, C.seed * 13 + gi, budget=80 if q else 900, workdir=C.work)
            pend = set()
            def absorb(done):
                for f in done:
                    prog, cmd, what, n = f.result()
                    C.add("points_compared", n)
                    if cnt["calls"] % 301 < 2:
                        C.sample({"call": prog, "points": n}, 6)
                    cnt["calls"] += 1
                    if what:
                        C.violation(what, {"in.scad": prog, "cmd.txt": cmd})
            for sh, rec in sim:
                per[rec["f"]] = per.get(rec["f"], 0) + 1
                cnt["accepted" if rec["ok"] else "rejected"] += 1
                if rec["ok"] and not rec["lay"]:
                    cnt["unevaluated"] += 1
                k = sum(cnt.values())
                pend.add(ex.submit(check_call, (exe, rec, (), bool(rec["alt"]) and k % 3 == 0, C.work)))
                if len(pend) > 64:
                    done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                    absorb(done)
                if C.enough():
                    break
            done, pend = cf.wait(pend)
            absorb(done)
            C.add("states", sim.states); C.add("transitions", sim.transitions)
            for e in sim.errors:
                C.error(e)
    C.add("traces_validated_against_impl", cnt["calls"])
    C.cov["calls"] = cnt
    C.cov["calls_per_functor"] = per
    # every functor and every parameter, also those that do not change the geometry
    if not C.enough():
        run_canon(C, 4000 if C.quick() else 80000, 4, 60 if C.quick() else 900, 5)
    # unknown functors: the documented default is an error
    f = os.path.join(C.work, "u.scad")
    open(f, "w").write("foo() cube(1);\n")
    r = run([exe, "--unknown-functor=error", f, "-o", os.path.join(C.work, "u.stl")])
    if r.rc == 0:
        C.violation("--unknown-functor=error (the default) accepts an unknown functor", {"in.scad": "foo() cube(1);\n"}, ident="unknown-functor")
    if cnt["calls"] < 100 and not C.viol:
        C.error("too few calls")
    C.finish()
guarded(main)
