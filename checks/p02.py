#!/usr/bin/env python3-vt
"""Batching of boolean operations: truth tables (spec/Lazy.tla) and whole
programs (spec/ScadGen.tla) under every option setting."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from semcheck import *
from bulk import run_bulk

LZ = """SPECIFICATION Spec
CONSTANTS
 RAND = %s
 K = %d
 NLO = %d
 NHI = %d
 MAXSIMS = {%s}
 EMIT = %s
 LAZY = %s
INVARIANTS %s
"""

def check_table(args):
    exe, rec, optsets, work = args
    text = scad_prog(rec["prog"])
    side = 2 ** (rec["k"] // 2)
    i = np.arange(side)
    X, Y = np.meshgrid(7 * i + 2, 7 * i + 3)
    P = np.stack([X.ravel(), Y.ravel()], axis=1) * GRID
    exp = np.array(rec["tab"])
    res = []
    for o in optsets:
        o = ["--z=0"] + list(o)
        r, lay = slice_layers(exe, text, o, work, 120)
        if lay is None:
            res.append((o, "timeout" if r.timeout else "exit %d: %s" % (r.rc, r.err.decode("latin-1", "replace")[:300])))
            continue
        got = region_at(lay, 0.0, P)
        if (got != exp).any():
            q = np.nonzero(got != exp)[0]
            res.append((o, "truth table differs in %d of %d combinations, e.g. combinations (bit i = inside solid i) %s" %
                        (len(q), len(exp), [(format(int(k), "0%db" % rec["k"]), int(exp[k]), int(got[k])) for k in q[:5]])))
    return text, res, len(exp) * len(optsets), int(exp.sum())

def main():
    C = Check("P02")
    q = C.quick()
    rng = random.Random(C.seed)
    exe = tool()
    # 1. the batching algorithm itself, exhaustively
    for k, nn, ms in ([(2, 5, "2,3,4")] if q else [(2, 6, "2,3,4,5"), (4, 4, "2,3,4")]):
        rc, out, st, di = tlc_check("Lazy", LZ % ("FALSE", k, nn, nn, ms, "FALSE", "TRUE", "BatchOk GeoOk"), timeout=600 if q else 3000)
        if rc != 0:
            C.error("Lazy.tla: " + out[-1500:])
        C.add("states", di); C.add("transitions", st)
        C.add("batching_model_states", di)
    # 2. complete truth tables of formulas over ten solids
    num = 160 if q else 3000
    sim = Sim("Lazy", LZ % ("TRUE", 10, 5, 26, "10", "TRUE", "FALSE", "GeoOk Emit"), num, 80, C.seed * 17 + 5, budget=150 if q else 2000, workdir=C.work)
    cnt = comb = ones = 0
    with cf.ProcessPoolExecutor(max_workers=7) as ex:
        pend = set()
        def absorb(done):
            nonlocal cnt, comb, ones
            for f in done:
                text, res, np_, on = f.result()
                cnt += 1; comb += np_; ones += on
                if on and cnt % 40 == 1:
                    C.sample({"truth_table_program": text[:600], "combinations": np_, "true": on})
                for o, what in res:
                    C.violation(what + "\noptions: " + " ".join(o), {"in.scad": text, "cmd.txt": "hob3l.x %s in.scad -o out.stl --stl-bin\n" % " ".join(o)})
        for sh, rec in sim:
            os_ = [("--max-simultaneous=10",)] + spread_opts(rng, 2)
            pend.add(ex.submit(check_table, (exe, rec, os_, C.work)))
            if len(pend) > 40:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough():
                break
        done, pend = cf.wait(pend)
        absorb(done)
    C.add("states", sim.states); C.add("transitions", sim.transitions); C.add("traces_validated_against_impl", cnt)
    C.add("truth_table_entries_compared", comb)
    for e in sim.errors:
        C.error(e)
    if cnt == 0:
        C.error("no truth table program")
    # 3. programs with many operands: all settings must give the specified region
    if not C.enough():
        sets = spread_opts(rng, 24)
        kk = 1 if q else 10
        run_profiles(C, [SemProfile("wide", gen_cfg("cube cyl fn4 op swap wide alt", 10, 26), 120 * kk, sets, rotate=4),
                         SemProfile("mixed", gen_cfg("cube cyl phd sqr pgn cir ext emp op op2 tra swap wide alt", 8, 22), 120 * kk, sets, rotate=4)],
                     200 if q else 3000, 2)
    if not C.enough():      # hundreds of operands
        run_bulk(C, "5, 12, 40, 200, 400", 5, "1, 2, 3", 120, 120 if q else 3000, 80 if q else 1500, 2, spread_opts(rng, 24))
    C.finish()
guarded(main)
