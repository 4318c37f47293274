#!/usr/bin/env python3-vt
"""Shared machinery of the checks: build of /repo's working tree, TLC runs,
hob3l runs, output parsers, verdict and evidence bookkeeping."""
import os, sys, json, time, hashlib, shutil, subprocess, tempfile, struct, fcntl, re, threading, queue
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
NCPU = min(8, os.cpu_count() or 1)
ENV = {k: v for k, v in os.environ.items()
       if k not in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL", "MODE", "CFLAGS", "CPPFLAGS", "CC", "LDFLAGS")}
ENV["LC_ALL"] = "C"
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_k] = "1"

# ------------------------------------------------------------------- build
TREE = ["Makefile", "include", "src", "script", "share"]

def _files():
    out = []
    names = sorted(os.listdir(REPO))
    for n in names:
        p = os.path.join(REPO, n)
        if n in TREE or n.endswith(".mk"):
            if os.path.isdir(p):
                for d, ds, fs in os.walk(p):
                    ds.sort()
                    for f in sorted(fs):
                        out.append(os.path.relpath(os.path.join(d, f), REPO))
            else:
                out.append(n)
    return out

def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b"\0")
        try:
            with open(os.path.join(REPO, f), "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def gen_sum():
    h = hashlib.sha256()
    for f in ("script/mkmat", "script/mkrotmat"):
        try:
            h.update(open(os.path.join(REPO, f), "rb").read())
        except OSError:
            pass
    return h.hexdigest()

def build():
    """Builds /repo's working tree in a scratch copy; returns its directory."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        d = os.path.join(BUILD, h)
        if os.path.exists(os.path.join(d, ".ok")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        old = sorted((x for x in os.listdir(BUILD) if len(x) == 20),
                     key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
        for x in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        os.makedirs(d)
        for f in _files():
            t = os.path.join(d, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), t, follow_symlinks=True)
        skip = ["-o", "script/mkmat", "-o", "script/mkrotmat"]
        gs = os.path.join(VERIF, "lib", "gen.sum")
        if os.path.exists(gs) and open(gs).read().strip() != gen_sum():
            skip = []
            for f in ("script/mkmat", "script/mkrotmat"):
                os.utime(os.path.join(d, f))
        cmd = ["make", "-j8", "MODE=", "TARGET=gcc"] + skip + [
            "out/bin/hob3l.x", "out/bin/libhob3lbase.a", "out/bin/libhob3lmat.a", "out/bin/libhob3lop.a"]
        p = subprocess.run(cmd, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        open(os.path.join(d, "build.log"), "wb").write(p.stdout)
        if p.returncode != 0 or not os.path.exists(os.path.join(d, "out/bin/hob3l.x")):
            raise BuildError(p.stdout.decode("latin-1")[-3000:])
        open(os.path.join(d, ".ok"), "w").write("ok")
        return d

def tool():
    return os.path.join(build(), "out/bin/hob3l.x")

def tool_asan():
    """the tool built with the address checker; None if that does not work"""
    d = build()
    t = os.path.join(d, "asan")
    exe = os.path.join(t, "out/bin/hob3l.x")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        for f in _files():
            o = os.path.join(t, f)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), o, follow_symlinks=True)
        p = subprocess.run(["make", "-j8", "MODE=", "TARGET=gcc", "-o", "script/mkmat", "-o", "script/mkrotmat",
                            "CC=gcc -fsanitize=address -g", "out/bin/hob3l.x"],
                           cwd=t, env=dict(ENV, ASAN_OPTIONS="detect_leaks=0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return exe if p.returncode == 0 and os.path.exists(exe) else None

def harness(name, sources, extra=(), libs=("hob3lop", "hob3lmat", "hob3lbase"), cc="gcc"):
    """Compiles a harness of /verif/harness against the freshly built libraries.
    Returns None if it does not compile (an internal interface changed)."""
    d = build()
    out = os.path.join(d, "out/bin", name)
    src = [os.path.join(VERIF, "harness", s) for s in sources]
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = hashlib.sha256(b"".join(open(s, "rb").read() for s in src) + repr((extra, libs, cc)).encode()).hexdigest()
        if os.path.exists(out) and os.path.exists(out + ".sum") and open(out + ".sum").read() == stamp:
            return out
        cmd = [cc, "-std=gnu11", "-O1", "-g", "-w", "-fno-strict-aliasing", "-I" + d + "/include", "-I" + d + "/src", "-I" + d + "/out/src", "-I" + d + "/out/include"] + \
              list(extra) + src + ["-o", out + ".new", "-L" + d + "/out/bin"] + ["-l" + l for l in libs] + ["-lm"]
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write("harness %s does not compile:\n%s\n" % (name, p.stdout.decode("latin-1")[-2000:]))
            return None
        os.replace(out + ".new", out)
        open(out + ".sum", "w").write(stamp)
        return out

# --------------------------------------------------------------- run hob3l
class Run:
    __slots__ = ("rc", "out", "err", "timeout")
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

def run(cmd, cwd=None, timeout=60, stdin=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL if stdin is None else None,
                           input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return Run(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as e:
        return Run(-999, e.stdout or b"", e.stderr or b"", True)

# ------------------------------------------------------------ SCAD printer
def num(v):
    """exact decimal text of a value of the specification"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, dict):
        if "s" in v:
            return v["s"]
        if "q" in v:
            return '"' + v["q"] + '"'
        if "n" in v:
            return repr(v["n"] / v["d"]) if v["n"] % v["d"] else str(v["n"] // v["d"])
    if isinstance(v, list):
        return "[" + ",".join(num(x) for x in v) + "]"
    raise ValueError(v)

def scad(n, ind=0):
    args = ",".join((a["n"] + "=" if a["n"] else "") + num(a["v"]) for a in n["a"])
    pre = "  " * ind
    head = pre + n["m"]
    if n["f"]:
        head += "%s(%s)" % (n["f"], args)
    if not n["c"] and n["f"] in LEAVES:
        return head + ";\n"
    return head + (" " if n["f"] else "") + "{\n" + "".join(scad(c, ind + 1) for c in n["c"]) + pre + "}\n"

LEAVES = {"cube", "cylinder", "sphere", "polyhedron", "square", "circle", "polygon", "import", "text"}

def scad_prog(p):
    return "".join(scad(n) for n in p)

# -------------------------------------------------------------- STL parser
class Bad(Exception):
    """the output file is malformed"""

def parse_stlb(b):
    if len(b) < 84:
        raise Bad("binary STL shorter than its header (%d bytes)" % len(b))
    n = struct.unpack("<I", b[80:84])[0]
    if len(b) != 84 + 50 * n:
        raise Bad("binary STL: %d triangles announced, %d bytes" % (n, len(b)))
    a = np.frombuffer(b, dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("x", "<u2")]), count=n, offset=84)
    return a["v"].astype(np.float64), a["n"].astype(np.float64)

_NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
_FACET = re.compile(
    (r"\s*facet normal (N) (N) (N)\s+outer loop\s+vertex (N) (N) (N)\s+vertex (N) (N) (N)\s+vertex (N) (N) (N)"
     r"\s+endloop\s+endfacet\b").replace("N", _NUM))

def parse_stla(t):
    if isinstance(t, bytes):
        t = t.decode("latin-1")
    m = re.match(r"\s*solid\b[^\n]*\n", t)
    if not m:
        raise Bad("text STL does not start with 'solid'")
    pos = m.end()
    rows = []
    while True:
        m = _FACET.match(t, pos)
        if not m:
            break
        rows.append(m.groups())
        pos = m.end()
    if not re.match(r"\s*endsolid\b[^\n]*\s*\Z", t[pos:]):
        raise Bad("text STL: unexpected text at offset %d: %r" % (pos, t[pos:pos + 60]))
    a = np.array(rows, dtype=np.float64).reshape(-1, 4, 3)
    return a[:, 1:, :], a[:, 0, :]

# -------------------------------------------------- exact point membership
def count_in(tri, pts, mul, den=7):
    """tri (n,3,2) floats that are multiples of 1/mul; pts (m,2) integers over
    the grid mul*den (already multiplied).  Number of triangles over each point,
    with a half-open rule, so that a partition counts every point once."""
    if len(tri) == 0:
        return np.zeros(len(pts), dtype=np.int64)
    T = np.rint(tri * (mul * den)).astype(np.int64)
    P = pts.astype(np.int64)
    par = np.zeros((len(T), len(P)), dtype=bool)
    for i in range(3):
        a, b = T[:, i], T[:, (i + 1) % 3]
        ay = a[:, 1, None] > P[None, :, 1]
        by = b[:, 1, None] > P[None, :, 1]
        span = ay != by
        cr = (a[:, 0, None] - P[None, :, 0]) * (b[:, 1, None] - P[None, :, 1]) \
            - (a[:, 1, None] - P[None, :, 1]) * (b[:, 0, None] - P[None, :, 0])
        left = np.where(by & ~ay, cr > 0, cr < 0)
        par ^= span & left
    return par.sum(axis=0)

def layers_of(v):
    """splits STL triangles (n,3,3) into {z: (n,3,2) triangles lying in the plane z}"""
    if len(v) == 0:
        return {}
    z = v[:, :, 2]
    flat = (z[:, 0] == z[:, 1]) & (z[:, 1] == z[:, 2])
    out = {}
    fv = v[flat]
    for zz in np.unique(fv[:, 0, 2]):
        out[float(zz)] = fv[fv[:, 0, 2] == zz][:, :, :2]
    return out

# -------------------------------------------------------------------- TLC
JAR = "/opt/veriftools/tla/tla2tools.jar"

class TlcError(Exception):
    pass

def tlc_cmd(module, cfg, meta, args=(), heap="1200m"):
    j = shutil.which("tlc")
    return ["tlc"] + list(args) + ["-metadir", meta, "-config", cfg, module]

def _unq(line):
    """a line printed by PrintT(ToJson(..)): a quoted TLA+ string"""
    return json.loads(json.loads(line))

class Sim:
    """Runs several TLC simulations side by side and yields the JSON records
    they print, each as (shard, record)."""
    def __init__(self, module, cfg_text, num, depth, seed, procs=None, budget=600, heap="1g", workdir=None, exhaustive=False):
        self.module, self.cfg_text, self.num, self.depth, self.seed = module, cfg_text, num, depth, seed
        self.procs = procs or NCPU
        self.budget, self.heap = budget, heap
        self.exhaustive = exhaustive
        self.states = 0; self.transitions = 0; self.traces = 0
        self.errors = []
        self.tmp = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    def __iter__(self):
        q = queue.Queue(maxsize=4000)
        ps = []
        per = max(1, (self.num + self.procs - 1) // self.procs)
        n = 1 if self.exhaustive else self.procs
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), self.tmp)
        cfg = os.path.join(self.tmp, "run.cfg")
        open(cfg, "w").write(self.cfg_text)
        def reader(i, p):
            tail = []
            for line in p.stdout:
                line = line.rstrip("\n")
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        q.put((i, _unq(line)))
                    except ValueError:
                        self.errors.append("unreadable record: " + line[:200])
                else:
                    tail.append(line)
                    m = re.search(r"The number of states generated: (\d+)", line) 
                    if m:
                        self.states += int(m.group(1)); tail_st[i] = int(m.group(1))
                    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", line)
                    if m:
                        self.transitions += int(m.group(1)); self.states += int(m.group(2))
                    m = re.search(r"(\d+) traces? generated", line)
                    if m:
                        tail_tr[i] = int(m.group(1))
            rc = p.wait()
            if rc != 0 and not self.stopped:
                self.errors.append("TLC exit %d: %s" % (rc, "\n".join([l for l in tail if "Error" in l or "nvariant" in l][:6] + tail[-8:])))
            q.put((i, None))
        tail_tr = {}; tail_st = {}
        self.stopped = False
        env = dict(ENV)
        env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss128m -XX:ParallelGCThreads=2 -XX:CICompilerCount=2" % self.heap
        env["JDK_JAVA_OPTIONS"] = "-Xss128m"      # for the main thread
        for i in range(n):
            args = ["tlc", "-deadlock", "-workers", "1" if not self.exhaustive else str(NCPU)]
            if not self.exhaustive:
                args += ["-simulate", "num=%d" % per, "-depth", str(self.depth), "-seed", str(self.seed * 1009 + i + 1)]
            args += ["-metadir", os.path.join(self.tmp, "m%d" % i), "-config", cfg, self.module]
            p = subprocess.Popen(args, cwd=self.tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ps.append(p)
            threading.Thread(target=reader, args=(i, p), daemon=True).start()
        t0 = time.time()
        live = n
        try:
            while live:
                left = self.budget - (time.time() - t0)
                if left <= 0 and not self.stopped:
                    self.stopped = True
                    for p in ps:
                        p.kill()
                try:
                    i, r = q.get(timeout=max(0.1, min(5, left)))
                except queue.Empty:
                    continue
                if r is None:
                    live -= 1
                else:
                    yield i, r
        finally:
            self.stopped = True
            for p in ps:
                if p.poll() is None:
                    p.kill()
            self.traces = sum(tail_tr.values())
            self.transitions += sum(tail_st.values()) - self.traces
            shutil.rmtree(self.tmp, ignore_errors=True)

def tlc_check(module, cfg_text, extra_files=(), workers=NCPU, timeout=800, heap="6g", extra_args=()):
    """One model-checking run.  Returns (ok, output, states, distinct)."""
    tmp = tempfile.mkdtemp(prefix="tlcc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        for name, content in extra_files:
            open(os.path.join(tmp, name), "w" if isinstance(content, str) else "wb").write(content)
        cfg = os.path.join(tmp, "run.cfg")
        open(cfg, "w").write(cfg_text)
        env = dict(ENV)
        env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss128m" % heap
        env["JDK_JAVA_OPTIONS"] = "-Xss128m"      # for the main thread
        cmd = ["tlc", "-deadlock", "-workers", str(workers)] + list(extra_args) + \
              ["-metadir", os.path.join(tmp, "m"), "-config", cfg, module]
        try:
            p = subprocess.run(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired as e:
            raise TlcError("TLC timed out on " + module)
        st = di = 0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        if m:
            st, di = int(m[-1][0]), int(m[-1][1])
        return p.returncode, p.stdout, st, di
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def trace_check(module, records, consts="", timeout=600, heap="6g", invs="Report", limit=8000000):
    """TLC judges recorded behaviour: returns ([(index, what)], states).
    The module walks over the records of FILE and prints a verdict for each bad one."""
    bad, states = [], 0
    chunk, size, base = [], 0, 0
    def go():
        nonlocal chunk, size, base, states
        cfg = "SPECIFICATION Spec\nCONSTANTS\n FILE = \"trace.ndjson\"\n SHARDS = %d\n%sINVARIANTS %s\n" % (NCPU, consts, invs)
        rc, out, st, di = tlc_check(module, cfg, [("trace.ndjson", "\n".join(chunk) + "\n")], timeout=timeout, heap=heap)
        for line in out.splitlines():
            if line.startswith('"{'):
                r = _unq(line)
                bad.append((base + r["at"] - 1, r["what"]))
        if rc != 0 or di < len(chunk):
            raise TlcError("%s: TLC exit %d, %d of %d records: %s" % (module, rc, di, len(chunk), "\n".join(
                [l for l in out.splitlines() if "Error" in l or "nvariant" in l][:6] + out.splitlines()[-12:])))
        states += di
        base += len(chunk); chunk = []; size = 0
    for r in records:
        j = json.dumps(r, separators=(",", ":"))
        chunk.append(j); size += len(j)
        if size > limit:
            go()
    if chunk:
        go()
    return sorted(bad), states

# ------------------------------------------------- check bookkeeping
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.known_hit = []
        self.assumptions = []
        self.errors = []
        self.known = load_known(pid)
        self.work = tempfile.mkdtemp(prefix="chk-%s-" % pid)
    def quick(self):
        return self.tier != "thorough"
    def elapsed(self):
        return time.time() - self.t0
    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)
    def violation(self, what, files, ident=None):
        """files: {name: text/bytes} that reproduce it; ident: identity for known findings"""
        if ident is not None and ident in self.known:
            if ident not in self.known_hit:
                self.known_hit.append(ident)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[ident]))
            return
        d = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        k = hashlib.sha256(repr((what, sorted(files.items()))).encode()).hexdigest()[:12]
        p = os.path.join(d, k)
        os.makedirs(p, exist_ok=True)
        for n, c in files.items():
            with open(os.path.join(p, n), "wb") as f:
                f.write(c if isinstance(c, bytes) else str(c).encode())
        with open(os.path.join(p, "WHAT.txt"), "w") as f:
            f.write("property %s\n%s\n" % (self.pid, what))
        self.viol.append((what, p))
        if len(self.viol) <= 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + what.replace("\n", "\n  ")[:600])
            sys.stdout.flush()
    def enough(self):
        return len(self.viol) >= 5
    def error(self, e):
        self.errors.append(e)
    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = dict(property=self.pid, tier="thorough" if self.tier == "thorough" else "quick", seed=self.seed,
                  level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.viol:
            sys.exit(1)
        if self.errors:
            for e in self.errors[:5]:
                sys.stderr.write("ERROR: %s\n" % e)
            sys.exit(2)
        print("OK property=%s tier=%s %s (%.1fs)" % (self.pid, self.tier,
              {k: v for k, v in self.cov.items() if isinstance(v, int)}, time.time() - self.t0))
        sys.exit(0)

def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

def guarded(main):
    """top level of every check: an internal failure is an error, never a verdict"""
    try:
        main()
    except SystemExit:
        raise
    except BuildError as e:
        sys.stderr.write("build of /repo failed:\n%s\n" % e)
        sys.exit(2)
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
