"""Writes down the calls of spec/Canon.tla, dumps them with --dump-scad and compares the dump with the canonical forms."""
import re, os, sys, tempfile, shutil, math, random
import concurrent.futures as cf
from vlib import *
sys.setrecursionlimit(20000)

TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|[A-Za-z_$][\w$]*|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|.)', re.S)
class Reader:
    """reads a dump: calls with named arguments"""
    def __init__(self, text):
        self.t = [m.group(1) for m in TOK.finditer(text) if m.group(1).strip()]
        self.i = 0
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def next(self, want=None):
        x = self.peek()
        if x is None or (want is not None and x != want):
            raise Bad("dump: expected %r, found %r (token %d)" % (want, x, self.i))
        self.i += 1
        return x
    def value(self):
        x = self.next()
        if x == "[":
            r = []
            while self.peek() != "]":
                r.append(self.value())
                if self.peek() == ",":
                    self.next()
            self.next("]")
            return r
        if x.startswith('"') or x in ("true", "false", "undef"):
            return x
        if x == "PI":
            return math.pi
        try:
            return float(x)
        except ValueError:
            raise Bad("dump: %r is no value" % x)
    def calls(self, end):
        r = []
        while self.peek() != end:
            if self.peek() == ";":
                self.next(); continue
            mod = ""
            while self.peek() in ("#", "%", "*", "!"):
                mod += self.next()
            f = self.next()
            if not re.match(r"[a-z_]", f):
                raise Bad("dump: %r is no functor" % f)
            self.next("(")
            a = {}
            while self.peek() != ")":
                k = self.next()
                self.next("=")
                if k in a:
                    raise Bad("dump: %s is there twice" % k)
                a[k] = self.value()
                if self.peek() == ",":
                    self.next()
            self.next(")")
            c = []
            if self.peek() == "{":
                self.next()
                c = self.calls("}")
                self.next("}")
            elif self.peek() == ";":
                self.next()
            else:
                raise Bad("dump: %s is not closed" % f)
            r.append((f, a, "".join(sorted(mod)), c))
        return r

def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1, abs(a))
    return type(a) is type(b) and a == b

def spell(v):
    """the long values"""
    if not v.startswith("@"): return v
    n = int(v[2:])
    if v[1] == "S": return '"' + ("abc d/*e*/;[0]{}()=," * (n // 20 + 1))[:n] + '"'
    if v[1] == "P": return "[" + ",".join("[%d,%d]" % (i, i * i) for i in range(n)) + "]"
    return "[[" + ",".join(map(str, range(n))) + "]]"
def shown(e):
    return Reader(spell(e)).value()
def expand(calls):
    """what is written many times or nested deeply"""
    out = []
    for e in calls:
        e = dict(e); e["c"] = expand(e["c"])
        for i in range(e["nest"] - 1):
            e = dict(e, c=[e])
        out += [e] * e["rep"]
    return out

NAMES = {"group": "union", "render": "union"}
def differ(exp, got):
    """exp: calls of the specification; got: what the dump shows.  None, or what differs"""
    if len(exp) != len(got):
        return "%d calls, the dump shows %d" % (len(exp), len(got))
    for e, (f, a, mod, c) in zip(exp, got):
        if NAMES.get(e["f"], e["f"]) != f:
            return "%s is shown as %s" % (e["f"], f)
        if "".join(sorted(e["m"])) != mod:
            return "%s: modifiers %r, shown %r" % (f, e["m"], mod)
        want = {k: v for k, v in e["e"]}
        if f == "color":
            al = float(want["alpha"])
            if want["c"] == "undef":
                if not (a.get("c", "undef") == "undef" and isinstance(a.get("alpha"), float) and abs(a["alpha"] * 255 - al) < 0.5):
                    return "color: %s, shown %s" % (want, a)
            else:
                w = shown(want["c"]) + [al]
                s = a.get("c")
                if isinstance(s, list) and len(s) == 3:
                    s = s + [a.get("alpha", 1.0)]
                if not (isinstance(s, list) and len(s) == 4 and all(isinstance(x, float) and abs(x * 255 - y) < 0.5 for x, y in zip(s, w))):
                    return "color: %s, shown %s" % (w, a)
        else:
            for k, v in want.items():
                if v == "*":
                    continue
                if k not in a:
                    return "%s: %s=%s is not shown" % (f, k, v)
                if not same(shown(v), a[k]):
                    return "%s: %s=%s, shown %s" % (f, k, v, a[k])
            more = set(a) - set(want)
            if f == "import" and more & {"layer", "id"} or f == "rotate" and "v" in more:
                return "%s: %s shown, but not given" % (f, more)
        d = differ(e["c"], c)
        if d:
            return d
    return None

def write(rng, calls, ind=0):
    out = []
    for e in calls:
        def val(v):
            if e["f"] == "color" and v.startswith('"') and e["cs"]:
                return v.upper() if e["cs"] == 1 else v.title()
            return spell(v)
        sep = rng.choice([", ", ",", " , "])
        h = " " * ind + e["m"] + e["f"] + "(" + (rng.choice([" ", "\n", "\t"]) * e["pad"] if e["pad"] % 3 else "/*" + "x y*" * (e["pad"] // 4) + "*/" if e["pad"] else "") + sep.join((a["n"] + rng.choice(["=", " = "]) if a["n"] else "") + val(a["v"]) for a in e["a"]) + ")"
        if not e["c"]:
            out.append(h + rng.choice([";", " { }", ";"]))
        elif len(e["c"]) == 1 and rng.random() < 0.5:
            out.append(h)
            out += write(rng, e["c"], ind + 1)
        else:
            out.append(h + " {")
            out += write(rng, e["c"], ind + 2)
            out.append(" " * ind + "}")
    return out

def one(job):
    exe, rec, seed, work = job
    prog = expand(rec["prog"])
    text = "\n".join(write(random.Random(seed), prog)) + "\n"
    d = tempfile.mkdtemp(dir=work)
    try:
        p, q = os.path.join(d, "in.scad"), os.path.join(d, "dump.scad")
        open(p, "w").write(text)
        opts = ["--unknown-param=error", "--unsupported-functor=error", "--dump-scad"]
        r = run([exe, p] + opts, timeout=30)
        if r.rc != 0:
            return "status %s: %s" % (r.rc, r.err.decode("latin-1")[-300:]), text, r.out
        try:
            bad = differ(prog, Reader(r.out.decode("latin-1")).calls(None))
        except Bad as e:
            bad = str(e)
        if not bad:
            open(q, "wb").write(r.out)
            r2 = run([exe, q] + opts, timeout=30)
            if r2.rc != 0:
                bad = "the dump is rejected: %s" % r2.err.decode("latin-1")[-300:]
            elif r2.out != r.out:
                bad = "the dump of the dump differs: %r" % r2.out.decode("latin-1")[-300:]
        return bad, text, r.out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_canon(C, num, depth, budget, salt):
    exe = tool()
    cfg = "SPECIFICATION Spec\nCONSTANTS\n DEPTH = %d\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n" % depth
    S = Sim("Canon", cfg, num, 14 * depth, C.seed * 61 + salt, budget=budget, workdir=C.work)
    cnt, pend = 0, set()
    def absorb(fs):
        nonlocal cnt
        for f in fs:
            bad, text, out = f.result()
            cnt += 1
            if cnt % 300 == 1:
                C.sample({"calls": text, "dump": out.decode("latin-1")}, 6)
            if bad:
                C.violation(bad + "\n" + text, {"in.scad": text, "dump.txt": out, "cmd.txt": "hob3l in.scad --dump-scad\n"})
    with cf.ProcessPoolExecutor(max_workers=6) as ex:
        for shard, rec in S:
            pend.add(ex.submit(one, (exe, rec, "%d/%s" % (C.seed, shard), C.work)))
            if len(pend) > 64:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough():
                break
        absorb(cf.wait(pend)[0])
    C.add("states", S.states); C.add("transitions", S.transitions)
    C.add("traces_validated_against_impl", cnt)
    C.cov["canonical_dumps"] = cnt
    for e in S.errors:
        C.error("Canon: %s" % e)
    if cnt == 0 and not C.viol:
        C.error("Canon produced no program")
