"""Runs the reader on files and records what it does, for spec/SynTrace.tla."""
import re, tempfile, os
import concurrent.futures as cf
from vlib import *

EXE = None
def record(job):
    """job: (bytes, scratch directory): the record of a run of --dump-syn"""
    src, d = job
    fd, p = tempfile.mkstemp(suffix=".scad", dir=d)
    os.write(fd, src)
    os.close(fd)
    r = run([EXE, p, "--dump-syn"], timeout=30)
    l = 0
    if r.rc != 0:
        m = re.search(re.escape(p.encode()) + rb":(\d+)", r.err)
        l = int(m.group(1)) if m else 0
    os.unlink(p)
    return dict(s=list(src), rc=r.rc, d=list(r.out), l=l)

def judge(C, sources, lines, ident=None):
    """sources: bytes; runs each and lets TLC judge the records"""
    global EXE
    EXE = tool()
    sources = list(dict.fromkeys(sources))
    # a process per shard: the interpreter lock would serialise the runs
    with cf.ProcessPoolExecutor(NCPU) as ex:
        recs = list(ex.map(record, [(s, C.work) for s in sources], chunksize=32))
    bad, st = trace_check("SynTrace", recs, " LINES = %s\n" % ("TRUE" if lines else "FALSE"), timeout=850, heap="12g", limit=4000000)
    C.add("states", st)
    C.add("transitions", max(0, st - NCPU))
    C.add("traces_validated_against_impl", len(recs))
    C.add("accepted", sum(1 for r in recs if r["rc"] == 0))
    C.add("rejected", sum(1 for r in recs if r["rc"] == 1))
    for i, what in bad:
        r = recs[i]
        C.violation("%s\nfile: %r\nexit status %d, dump: %r, line named: %d" % (what, bytes(r["s"]), r["rc"], bytes(r["d"]), r["l"]),
                    {"input.scad": bytes(r["s"]), "dump.txt": bytes(r["d"]), "run.sh": "hob3l input.scad --dump-syn\n"})
        if C.enough():
            break
    return recs

def generate(C, num, items, fuel, edits, seed, budget):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n ITEMS = %d\n FUEL = %d\n EDITS = %d\nINVARIANTS Emit Agree\n" % (items, fuel, edits)
    S = Sim("SynGen", cfg, num, items + edits + 4, C.seed * 77 + seed, budget=budget, workdir=C.work)
    out = [bytes(r["s"]) for _, r in S]
    C.add("states", S.states); C.add("transitions", S.transitions)
    for e in S.errors:
        C.error(e)
    return out

def enumerate_tokens(C, length, ctx, budget):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n LEN = %d\n CTX = %d\nINVARIANTS Emit\n" % (length, ctx)
    S = Sim("SynEnum", cfg, 1, 1, 1, budget=budget, workdir=C.work, exhaustive=True, heap="4g")
    out = [bytes(r["s"]) for _, r in S]
    C.add("states", S.states); C.add("transitions", S.transitions)
    for e in S.errors:
        C.error(e)
    return out
