#!/usr/bin/env python3-vt
"""Replays cases of spec/GonGen.tla into the polygon library (harness/sweep.c);
the answers are judged by spec/Arrange.tla."""
import json, subprocess, threading
import concurrent.futures as cf
from vlib import *

def case_line(c):
    o = [c["scale"], len(c["grps"])]
    for g in c["grps"]:
        o += [len(g["ops"])] + g["tab"]
        e = []
        for m, op in enumerate(g["ops"]):
            for p in op:
                for i in range(len(p)):
                    e.append([1 << m] + p[i] + p[(i + 1) % len(p)])
        o.append(len(e))
        for x in e:
            o += x
    if len(c["grps"]) > 1:
        o += c["ftab"]
    return " ".join(map(str, o))

def record(c, a):
    """projection of the library's answer to the record of Arrange.tla"""
    r = {"grps": c["grps"], "ftab": c["ftab"], "pts": c["pts"], "exact": c["exact"],
         "tol": 1 if len(c["grps"]) == 1 else 2}
    if not c["exact"]:
        r["tol"] += 1
    if "crash" in a:
        r["crash"] = a["crash"]
        return r
    idx, v = {}, []
    s = c["scale"]
    bad = []
    def ix(x, y):
        k = (int(x), int(y))
        if k != (x, y):
            bad.append("a coordinate is not an integer")
        if k not in idx:
            if c["exact"]:
                if k[0] % s or k[1] % s:
                    bad.append("vertex %s is not where input edges cross" % (k,))
                p = [k[0] // s, k[1] // s]
            else:
                p = [(2 * k[0] + s) // (2 * s), (2 * k[1] + s) // (2 * s)]
            v.append(p)
            idx[k] = len(v)
        return idx[k]
    r["arr"] = [[ix(e[0], e[1]), ix(e[2], e[3])] for e in a["arr"]]
    r["red"] = [[ix(e[0], e[1]), ix(e[2], e[3])] for e in a["red"]]
    n = len(v)
    r["path"] = [[ix(p[2 * i], p[2 * i + 1]) for i in range(len(p) // 2)] for p in a["path"]]
    r["tri"] = [[ix(t[0], t[1]), ix(t[2], t[3]), ix(t[4], t[5]), t[6]] for t in a["tri"]]
    r["v"] = v
    r["x"] = max(a["arr_x"], a["red_x"], key=abs) if (a["arr_x"] or a["red_x"]) else 0
    r["empty"], r["polyok"], r["triok"] = a["empty"], a["polyok"], a["triok"]
    if bad:
        r["crash"] = bad[0]
    return r

def replay(exe, lines):
    p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) != len(lines):
        raise RuntimeError("harness answered %d of %d cases" % (len(out), len(lines)))
    return out

def run_gon(C, part, profiles, salt):
    exe = harness("sweep", ["sweep.c"])
    if exe is None:
        C.error("the polygon library's interface changed: harness/sweep.c does not compile")
        return
    st = {}
    for pi, (styles, maxp, num, budget) in enumerate(profiles):
        cfg = "SPECIFICATION Spec\nCONSTANTS\n STYLES = {%s}\n MAXP = %d\nINVARIANTS Emit\n" % (",".join('"%s"' % s for s in styles.split()), maxp)
        sim = Sim("GonGen", cfg, num, 60, C.seed * 53 + salt * 7 + pi, budget=budget, workdir=C.work)
        cases = []
        for sh, c in sim:
            cases.append(c)
            if len(cases) >= num:
                break
        for e in sim.errors:
            C.error(e)
        C.add("states", sim.states); C.add("transitions", sim.transitions)
        if not cases:
            C.error("no case generated")
            return
        lines = [case_line(c) for c in cases]
        k = (len(lines) + 6) // 7
        with cf.ThreadPoolExecutor(7) as ex:
            ans = [a for x in ex.map(lambda i: replay(exe, lines[i:i + k]), range(0, len(lines), k)) for a in x]
        recs = [record(c, a) for c, a in zip(cases, ans)]
        big = cases[0]["big"]
        assert all(c["big"] == big for c in cases)
        bad, states = trace_check("Arrange", recs, ' PART = "%s"\n BIG = %s\n' % (part, str(big).upper()), timeout=800 if C.quick() else 6000)
        C.add("states", states); C.add("transitions", max(0, states - NCPU)); C.add("traces_validated_against_impl", len(recs))
        for c, a in zip(cases, ans):
            s = st.setdefault(c["sty"], dict(cases=0, edges=0, boundary=0, triangles=0, twostage=0))
            s["cases"] += 1; s["edges"] += len(a.get("arr", [])); s["boundary"] += len(a.get("red", [])); s["triangles"] += len(a.get("tri", []))
            s["twostage"] += len(c["grps"]) > 1
        for i in range(0, len(recs), max(1, len(recs) // 2)):
            C.sample({"case": lines[i][:400], "answer": json.dumps(ans[i])[:400]}, 6)
        for i, what in bad:
            C.violation("%s (style %s, scale %d)" % (what, cases[i]["sty"], cases[i]["scale"]),
                        {"case.txt": lines[i] + "\n", "answer.json": json.dumps(ans[i]), "record.json": json.dumps(recs[i])})
        if C.enough():
            break
    C.cov["styles"] = st
