"""Gives damaged input (spec/Damage.tla) to the tool, built with the address checker."""
import os, re, tempfile, shutil, concurrent.futures as cf
from vlib import *

NUMBER = re.compile(r"-?\d+\.?\d*")
WORD = re.compile(r"[A-Za-z_$]+")
def damage(text, edits):
    b = text
    for e in edits:
        i = len(b) * e["at"] // 1000
        j = min(len(b), i + e["len"])
        to = len(b) * e["to"] // 1000
        k = e["k"]
        t = e["t"].replace("\\u0000", "\0")
        if k == "del": b = b[:i] + b[j:]
        elif k == "ins": b = b[:i] + t + b[i:]
        elif k == "rep": b = b[:i] + t + b[j:]
        elif k == "dup": b = b[:j] + b[i:j] + b[j:]
        elif k == "cut": b = b[:i]
        elif k == "line":
            ls = b.split("\n")
            ls.insert(len(ls) * e["at"] // 1000, t)
            b = "\n".join(ls)
        elif k == "move":
            x = b[i:j]; b = b[:i] + b[j:]; b = b[:to] + x + b[to:]
        else:
            ms = list((NUMBER if k == "num" else WORD).finditer(b))
            if ms:
                m = ms[len(ms) * e["at"] // 1000]
                b = b[:m.start()] + t + b[m.end():]
    return b

OVERFLOW = b"ERROR: numeric overflow"
def outcome(r, extreme):
    """None, or why this end of a run is not one of the permitted outcomes: success, an error message and status 1, or the
    documented refusal of coordinates beyond the range of the grid"""
    if b"AddressSanitizer" in r.err and b"rss limit" not in r.err and b"allocat" not in r.err:
        m = re.search(rb"ERROR: AddressSanitizer:[^\n]*", r.err)
        f = re.search(rb"#\d+ 0x\w+ in (cp_\w+|[a-z]\w+) [^\n]*src/[^\n]*", r.err)
        return "memory error: %s %s" % ((m.group() if m else b"").decode("latin-1")[:200], (f.group() if f else b"").decode("latin-1")[-160:])
    if r.timeout or b"rss limit" in r.err or b"AddressSanitizer" in r.err:
        return None if extreme else "timeout or memory exhausted"
    if OVERFLOW in r.err and b"Try --grid" in r.err:
        return None
    if r.rc not in (0, 1):
        return "exit status %d: %s" % (r.rc, r.err.decode("latin-1")[-300:])
    said = re.search(rb"^(?:[^\n]*: )?Error(?: [^\n]*)?:", r.err, re.M)
    if r.rc == 1 and not said:
        return "status 1 without an error message: %s" % r.err.decode("latin-1")[-300:]
    if r.rc == 0 and said:
        return "status 0 in spite of an error message: %s" % r.err.decode("latin-1")[-300:]
    return None

def one(job):
    exe, rec, work = job
    b = damage(scad_prog(rec["prog"]), rec["edits"])
    d = tempfile.mkdtemp(dir=work)
    try:
        p = os.path.join(d, "in.scad")
        open(p, "w", encoding="latin-1", newline="").write(b)
        open(os.path.join(d, "data.dat"), "w").write("1 2 3\n4 5 6\n7 8 9\n")
        opts = list(rec["opts"])
        if not any(o.startswith("--z=") for o in opts):
            opts += ["--min=-4.25", "--max=4"]
        r = run([exe] + opts + [p], cwd=d, timeout=60)
        extreme = any(e["k"] in ("num", "rep", "ins", "del", "move", "dup", "line") for e in rec["edits"])
        bad = outcome(r, extreme)
        if not bad and r.rc == 0 and "--dump-stl" in opts:
            try:
                parse_stla(r.out)
            except Bad as e:
                bad = "status 0, but %s" % e
        if not bad and r.rc == 0 and "--dump-stlb" in opts:
            try:
                parse_stlb(r.out)
            except Bad as e:
                bad = "status 0, but %s" % e
        return bad, b, opts, r.rc, r.timeout, r.err
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_damage(C, name, cfg, num, budget, salt, workers=7):
    exe = tool_asan()
    st = dict(files=0, accepted=0, rejected=0, other=0)
    if exe is None:
        exe = tool()
        st["note"] = "no address checker"
    ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=2500:handle_abort=0"
    sim = Sim("Damage", cfg, num, 60, C.seed * 43 + salt, budget=budget, workdir=C.work)
    pend = set()
    def absorb(done):
        for f in done:
            bad, b, opts, rc, to, err = f.result()
            st["files"] += 1
            st["accepted" if rc == 0 else "rejected" if rc == 1 else "other"] += 1
            if st["files"] % 200 == 7:
                C.sample({"file": b, "options": opts, "status": rc, "stderr": err.decode("latin-1")[-200:]}, 8)
            if bad:
                C.violation(bad + "\noptions: " + " ".join(opts), {"in.scad": b.encode("latin-1"), "cmd.txt": "hob3l %s in.scad\n" % " ".join(opts), "stderr.txt": err})
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        for shard, rec in sim:
            pend.add(ex.submit(one, (exe, rec, C.work)))
            if len(pend) > 64:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough():
                break
        done, pend = cf.wait(pend)
        absorb(done)
    del ENV["ASAN_OPTIONS"]
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["files"])
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors:
        C.error("%s: %s" % (name, e))
    if st["files"] == 0 and not C.viol:
        C.error("profile %s produced no file" % name)
