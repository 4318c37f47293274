#!/usr/bin/env python3-vt
"""Replays histories of calls into the base library (harness/cont.c) and compares the answers."""
import os, sys, json, subprocess, hashlib, threading
import concurrent.futures as cf
from vlib import *

def cfg(consts, invs):
    return "SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (" ".join("%s = %s" % kv for kv in consts.items()), " ".join(invs))
def tset(l):
    return "{%s}" % ", ".join('"%s"' % x for x in l)

def text(kind, typ, size, h):
    o = ["new %s %d %d" % (kind, typ, size)]
    for s in h:
        o.append(" ".join([s["o"]] + [str(x) for x in s["a"]]))
    return o

def judge(kind, s, a):
    """None, or what is wrong with answer a to step s"""
    if "x" in a and a["x"] == "unknown":
        return "the driver does not know this call"
    if "bad" in a:
        return "broken invariant: " + a["bad"]
    r = s["r"]
    if r != [-1] or s["o"] == "bsearch":
        if a["r"] not in r:
            return "result %s, permitted: %s" % (a["r"], r)
    if kind == "dict":
        if a["t"] != s["t"]:
            return "sequences %s, expected %s" % (a["t"], s["t"])
        if a["s"] != s["s"]:
            return "sums %s, expected %s" % (a["s"], s["s"])
        if any(x > y for x, y in zip(a["b"], s["b"])):
            return "heights %s exceed the bounds %s" % (a["b"], s["b"])
    elif kind in ("ptr", "hvec"):
        if a["m"] != s["m"] or a["c"] != s["c"]:
            return "least %s of %s elements, expected %s of %s" % (a["m"], a["c"], s["m"], s["c"])
    else:
        if a["x"] != s["x"]:
            return "contents %s, expected %s" % (a["x"], s["x"])
    return None

def replay(C, exe, batch, lock):
    """batch: list of (kind, type, size, history)"""
    todo = list(batch)
    while todo and not C.enough():
        lines = []
        for k, t, z, h in todo:
            lines += text(k, t, z, h)
        try:
            p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, text=True, errors="replace",
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1"))
            rc, out, err = p.returncode, p.stdout.split("\n"), p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -99, (e.stdout or b"").decode("latin-1").split("\n"), "no answer within 120 s"
        i = 0
        nxt = len(todo)
        for j, (k, t, z, h) in enumerate(todo):
            crash = False
            for n, s in enumerate(h):
                try:
                    a = json.loads(out[i])
                except (IndexError, ValueError):
                    a = None
                i += 1
                if a is None:
                    crash = True
                    bad = "the library ended the program (exit %s): %s" % (rc, "\n".join(err.split("\n")[:12]))
                else:
                    bad = judge(k, s, a)
                if bad:
                    with lock:
                        if not C.enough():
                            C.violation("%s: call %d: %s %s: %s" % (k, n + 1, s["o"], s["a"], bad),
                                    {"history.txt": "\n".join(text(k, t, z, h[:n + 1])) + "\n",
                                     "run.txt": "build/*/out/bin/cont < history.txt   (one answer per call)\n",
                                     "expected.json": json.dumps(s)})
                    break
            if crash:
                nxt = j + 1
                break
            if bad:
                i += len(h) - 1 - n
            with lock:
                C.add("traces_validated_against_impl")
                C.add("calls_" + k, len(h))
        todo = todo[nxt:]

def driver(C):
    d = build()
    base = os.path.join(d, "src", "hob3lbase")
    srcs = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith(".c") and "test" not in f]
    inc = hashlib.sha256(open(os.path.join(VERIF, "harness", "cont_vec.inc"), "rb").read()).hexdigest()
    exe = harness("cont", ["cont.c"], extra=["-fsanitize=address", "-DINC=" + inc, "-I" + os.path.join(VERIF, "harness")] + srcs, libs=())
    if exe is None:
        C.error("the driver does not compile against the library")
        C.finish()
    return exe

def run_jobs(C, exe, jobs, kind_of):
    """jobs: (module, cfg, num, depth, seed, size); seed < 0: exhaustive"""
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for mod, c, num, depth, seed, size in jobs:
            if C.enough():
                break
            S = Sim(mod, c, num, depth, C.seed * 31 + seed, budget=40 if C.quick() else 900, workdir=C.work, exhaustive=seed < 0)
            batch, fs, cnt = [], [], 0
            for i, r in S:
                h = r["h"]
                if not h:
                    continue
                cnt += 1
                batch.append((kind_of(mod, r), cnt % 3, size, h))
                if len(batch) >= 60:
                    fs.append(ex.submit(replay, C, exe, batch, lock))
                    batch = []
                    if C.enough():
                        S.stopped = True
                        break
            if batch:
                fs.append(ex.submit(replay, C, exe, batch, lock))
            for f in fs:
                f.result()
            C.add("states", S.states)
            C.add("transitions", S.transitions)
            for e in S.errors:
                C.error(e)
