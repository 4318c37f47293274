"""Models of spec/Formats.tla written as SCAD files; every output format read back and compared with the
specification's layers, and the formats with each other."""
import os, re, random, tempfile, shutil, math, concurrent.futures as cf
from fractions import Fraction as Fr
from vlib import *
from grid import dec

UNITS = [None, Fr(1, 8), Fr(1, 4), Fr(1, 2), Fr(1), Fr(5, 4), Fr(10), Fr(64)]
PAPER = (595, 842, 56)
MM = 72 / 25.4

# ----------------------------------------------------------------- the model
def vec(v): return "[" + ",".join(dec(x) for x in v) + "]"

def solid(s, u, alt):
    x0, y0, x1, y1, z0, z1 = (s[k] * u for k in ("x0", "y0", "x1", "y1", "z0", "z1"))
    if s["kind"] == "box":
        return "translate(%s) cube(%s);" % (vec([x0, y0, z0]), vec([x1 - x0, y1 - y0, z1 - z0]))
    if s["kind"] == "dia":
        return "translate(%s) cylinder(h=%s, r=%s, $fn=4);" % (vec([x0, y0, z0]), dec(z1 - z0), dec(s["r"] * u))
    if s["kind"] == "comb":
        p = []
        for i in range(s["k"]):
            a = x0 + 2 * i * u
            p += [[a, y0 + u], [a, y0 + 3 * u], [a + u, y0 + 3 * u], [a + u, y0 + u]]
        e = x0 + 2 * s["k"] * u
        p += [[e, y0 + u], [e, y0], [x0, y0]]
    else:
        p = [[x0, y0], [x1, y0], [x0, y1]]
        if alt:
            return "polyhedron(points=[%s], faces=[[0,1,2],[5,4,3],[0,3,4,1],[1,4,5,2],[2,5,3,0]]);" % ",".join(
                vec(q + [z]) for z in (z0, z1) for q in p)
    t = "linear_extrude(height=%s) polygon([%s]);" % (dec(z1 - z0), ",".join(vec(q) for q in p))
    return ("translate(%s) " % vec([0, 0, z0]) if z0 else "") + t

def model(rec):
    u = UNITS[rec["unit"]]
    t = ""
    for i, s in enumerate(rec["sols"]):
        o = solid(s, u, (i + rec["b"]) % 4 == 0)
        t = o if not t else "%s(){\n%s\n%s\n}" % ("difference" if s["sub"] else "union", t, o)
    if rec["set"]["root"]:
        t = "cube(%s);\n%s !union(){\n%s\n}\ntranslate([3,3,3]) cube(7);" % (dec(5 * u), " ".join(rec["set"]["ctx"]), t)
    return t + "\n"

# ----------------------------------------------------------------- regions
def cover(T, P, tol):
    """T (n,k,2) polygons, P (m,2): how many contain each point, and which points are within tol of an edge"""
    n = np.zeros(len(P), dtype=np.int64)
    near = np.zeros(len(P), dtype=bool)
    T = np.asarray(T, dtype=np.float64)
    for c in range(0, len(T), 4096):
        t = T[c:c + 4096]
        par = np.zeros((len(t), len(P)), dtype=bool)
        for i in range(t.shape[1]):
            a, b = t[:, i], t[:, (i + 1) % t.shape[1]]
            d = b - a
            L = np.hypot(d[:, 0], d[:, 1])
            ax = P[None, :, 0] - a[:, 0, None]; ay = P[None, :, 1] - a[:, 1, None]
            cr = d[:, 0, None] * ay - d[:, 1, None] * ax
            dot = d[:, 0, None] * ax + d[:, 1, None] * ay
            ok = L[:, None] > 0
            inseg = (dot >= -tol * L[:, None]) & (dot <= (L * (L + tol))[:, None])
            near |= ((np.abs(cr) <= tol * L[:, None]) & inseg & ok).any(axis=0)
            up = (a[:, 1, None] <= P[None, :, 1]); ub = (b[:, 1, None] <= P[None, :, 1])
            par ^= (up != ub) & np.where(ub, cr < 0, cr > 0)
        n += par.sum(axis=0)
    return n, near

def points(rec, u):
    r = rec["r"]
    i = np.arange(-r, r)
    X, Y = np.meshgrid(7 * i + 2, 7 * i + 3)
    return np.stack([X.ravel(), Y.ravel()], axis=1) * (float(u) / 7)

def differs(T, P, want, tol, what, once=True):
    if len(T) == 0:
        n, near = np.zeros(len(P), dtype=np.int64), np.zeros(len(P), dtype=bool)
    else:
        n, near = cover(T, P, tol)
    w = np.array(want)
    bad = (w != 2) & ~near & ((n != w) if once else ((n > 0) != (w > 0)))
    if bad.any():
        k = np.nonzero(bad)[0]
        return "%s: %d points differ from the model; (x, y, expected, found): %s" % (
            what, len(k), [(round(float(P[i][0]), 4), round(float(P[i][1]), 4), int(w[i]), int(n[i])) for i in k[:5]])
    return None

def layer_z(rec):
    u = UNITS[rec["unit"]]
    return [Fr(rec["b"] + i * rec["step"], 8) * u for i in range(rec["n"])]

def thick(rec, default):
    u = UNITS[rec["unit"]]
    gap = default if rec["gap"] < 0 else Fr(rec["gap"], 8) * u
    return max(Fr(0), Fr(rec["step"], 8) * u - gap)

# --------------------------------------------------------------------- STL
def area2(t): return (t[:, 1, 0] - t[:, 0, 0]) * (t[:, 2, 1] - t[:, 0, 1]) - (t[:, 1, 1] - t[:, 0, 1]) * (t[:, 2, 0] - t[:, 0, 0])

def judge_solid(V, N, rec, default_gap, eps, ntol, what):
    """triangles (n,3,3) with normals: the solids of all layers"""
    u = UNITS[rec["unit"]]
    P = points(rec, u)
    h = thick(rec, default_gap)
    zs = [float(z) for z in layer_z(rec)]
    z = V[:, :, 2]
    flat = (z[:, 0] == z[:, 1]) & (z[:, 1] == z[:, 2])
    a = area2(V[flat][:, :, :2]) if flat.any() else np.zeros(0)
    top = V[flat][a > 0]; bot = V[flat][a < 0]
    if (a == 0).any():
        return what + ": a triangle without area"
    seen_t = np.zeros(len(top), dtype=bool); seen_b = np.zeros(len(bot), dtype=bool)
    side = V[~flat]; seen_s = np.zeros(len(side), dtype=bool)
    for k, z0 in enumerate(zs):
        want = rec["lay"][k]
        m = np.abs(bot[:, 0, 2] - z0) <= eps if len(bot) else seen_b
        seen_b |= m
        bad = differs(bot[m][:, :, :2], P, want, 1e-9 * float(u), "%s: lower side of the layer at z=%g" % (what, z0))
        if bad: return bad
        if h > 0:
            z1 = z0 + float(h)
            m = np.abs(top[:, 0, 2] - z1) <= eps if len(top) else seen_t
            seen_t |= m
            bad = differs(top[m][:, :, :2], P, want, 1e-9 * float(u), "%s: upper side of the layer at z=%g..%g" % (what, z0, z1))
            if bad: return bad
            if len(side):
                zz = side[:, :, 2]
                lo = np.abs(zz - z0) <= eps; hi = np.abs(zz - z1) <= eps
                seen_s |= (lo | hi).all(axis=1) & lo.any(axis=1) & hi.any(axis=1)
        else:
            seen_t |= np.abs(top[:, 0, 2] - z0) <= eps if len(top) else seen_t
    for s, w in ((seen_t, top), (seen_b, bot), (seen_s, side)):
        if not s.all():
            return "%s: a triangle that belongs to no layer: %r" % (what, w[~s][0].tolist())
    # normals
    if len(V):
        c = np.cross(V[:, 1] - V[:, 0], V[:, 2] - V[:, 0])
        L = np.linalg.norm(c, axis=1)
        c = c / np.where(L > 0, L, 1)[:, None]
        d = np.abs(N - c).max(axis=1)
        k = int(d.argmax())
        if d[k] > ntol:
            return "%s: normal %r of triangle %r" % (what, N[k].tolist(), V[k].tolist())
    return None

def turn(T):
    """(n,9) integer triangles up to the choice of the first corner, sorted"""
    T = T.reshape(-1, 3, 3)
    best = T.copy()
    for r in (1, 2):
        c = np.roll(T, -r, axis=1)
        a = best.reshape(-1, 9); b = c.reshape(-1, 9)
        d = a != b
        f = d.argmax(axis=1)
        less = d.any(axis=1) & (b[np.arange(len(a)), f] < a[np.arange(len(a)), f])
        best[less] = c[less]
    r = best.reshape(-1, 9)
    return r[np.lexsort(r.T[::-1])] if len(r) else r

# ---------------------------------------------------------------- JavaScript
NODE = r"""
const fs=require('fs'), vm=require('vm');
const c={}; vm.createContext(c);
vm.runInContext('var group={}; var scene=[];', c);
vm.runInContext(fs.readFileSync(process.argv[1],'latin1'), c);
process.stdout.write(JSON.stringify(vm.runInContext('scene', c)));
"""
def read_js(path):
    r = run(["node", "-e", NODE, path], timeout=120)
    if r.rc != 0:
        raise Bad("the scene is not accepted by a JavaScript engine: %s" % r.err.decode("latin-1")[:300])
    return json.loads(r.out)

def js_batch(b):
    """the checks of JsScene!WellFormed for any size"""
    v, n, c, ix = (b.get(k) for k in ("vertex", "normal", "color", "index"))
    for k, a in (("vertex", v), ("normal", n), ("color", c), ("index", ix)):
        if not isinstance(a, list) or not all(isinstance(x, (int, float)) for x in a):
            raise Bad("batch without a numeric '%s' array" % k)
    if len(v) % 3: raise Bad("the length of the vertex array is not a multiple of 3")
    m = len(v) // 3
    if m > 65535: raise Bad("%d vertices in a batch" % m)
    if len(n) != 3 * m: raise Bad("the arrays of vertices and normals differ in length")
    if len(c) != 4 * m: raise Bad("the arrays of vertices and colours do not match")
    if len(ix) % 3: raise Bad("the length of the index array is not a multiple of 3")
    sc = b.get("scaleC", 1); sv = b.get("scaleV", 1); si = b.get("shiftI", 0)
    if c and (min(c) < 0 or max(c) > sc): raise Bad("a colour is out of range")
    if not sv > 0: raise Bad("scaleV is %r" % sv)
    a = np.cumsum(np.array(ix, dtype=np.int64) - si)
    if len(a) and (a.min() < 0 or a.max() >= m or a.max() > 65535): raise Bad("an index is out of range")
    V = (np.array(v, dtype=np.float64) / sv).reshape(-1, 3)
    N = (np.array(n, dtype=np.float64) / sv).reshape(-1, 3)
    t = a.reshape(-1, 3)
    return V[t] * 1000, N[t][:, 0], N[t]

def judge_js(scene, rec):
    want = sorted(rec["set"]["groups"])
    V, N = [], []
    for b in scene:
        if sorted(k for k, v in b.get("group", {}).items() if v is True) != want:
            return "the batch is in the groups %r, not %r" % (b.get("group"), want), None, None
        try:
            v, n, n3 = js_batch(b)
        except Bad as e:
            return str(e), None, None
        if len(n3) and (n3[:, 0] != n3[:, 1]).any() | (n3[:, 0] != n3[:, 2]).any():
            pass                                            # smooth normals would be fine
        if rec["set"]["root"] == 2:
            x = b.get("xform")
            m, d = rec["set"]["xform"]["m"], rec["set"]["xform"]["d"]
            e = [Fr(m[r][c], d) / (1000 if c == 3 else 1) for c in range(4) for r in range(3)]
            if x is None: return "no transformation for the part marked with !", None, None
            g = [x[4 * c + r] for c in range(4) for r in range(3)]
            if len(x) != 16 or any(abs(float(p) - q) > 1e-12 * max(1, abs(float(p))) for p, q in zip(e, g)) or [x[3], x[7], x[11], x[15]] != [0, 0, 0, 1]:
                return "the scene's transformation is %r, expected the columns %r" % (x, [float(p) for p in e]), None, None
        elif b.get("xform") is not None and b["xform"] != [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]:
            return "the scene is transformed by %r" % b["xform"], None, None
        V.append(v); N.append(n)
    V = np.concatenate(V) if V else np.zeros((0, 3, 3))
    N = np.concatenate(N) if N else np.zeros((0, 3))
    return None, V, N

# ------------------------------------------------------------- sliced SCAD
_TOK = re.compile(r"\s+|//[^\n]*|(?P<num>[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|(?P<id>\$?[A-Za-z_]\w*)|(?P<p>[][(){};,=])")
def tokens(t):
    out, i = [], 0
    while i < len(t):
        m = _TOK.match(t, i)
        if not m: raise Bad("sliced SCAD: unexpected text %r" % t[i:i + 40])
        if m.lastgroup: out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

class ScadReader:
    """group, union, translate, linear_extrude, polygon -> [(z, h, [points of a path])]"""
    def __init__(self, t):
        self.t = tokens(t) + [("p", "")]; self.i = 0
        self.out = []
        while self.t[self.i][1] != "": self.stmt(0.0, None)
    def need(self, x):
        if self.t[self.i][1] != x: raise Bad("sliced SCAD: %r where %r is expected" % (self.t[self.i][1], x))
        self.i += 1
    def val(self):
        k, x = self.t[self.i]; self.i += 1
        if k == "num": return float(x)
        if x in ("true", "false"): return x == "true"
        if x == "[":
            r = []
            while self.t[self.i][1] != "]":
                r.append(self.val())
                if self.t[self.i][1] == ",": self.i += 1
            self.i += 1
            return r
        raise Bad("sliced SCAD: %r where a value is expected" % x)
    def args(self):
        self.need("(")
        a = {}; n = 0
        while self.t[self.i][1] != ")":
            if self.t[self.i][0] == "id" and self.t[self.i + 1][1] == "=":
                k = self.t[self.i][1]; self.i += 2; a[k] = self.val()
            else:
                a[n] = self.val(); n += 1
            if self.t[self.i][1] == ",": self.i += 1
        self.i += 1
        return a
    def stmt(self, z, h):
        k, x = self.t[self.i]
        if x == ";": self.i += 1; return
        if x == "{":
            self.i += 1
            while self.t[self.i][1] != "}":
                if self.t[self.i][1] == "": raise Bad("sliced SCAD: unclosed block")
                self.stmt(z, h)
            self.i += 1
            return
        if k != "id": raise Bad("sliced SCAD: %r where a statement is expected" % x)
        self.i += 1
        a = self.args()
        if x in ("group", "union"): return self.stmt(z, h)
        if x == "translate":
            v = a.get("v", a.get(0))
            if v[0] or v[1]: raise Bad("sliced SCAD: the layer is moved by %r" % v)
            return self.stmt(z + v[2], h)
        if x == "linear_extrude":
            if a.get("center") or a.get("twist"): raise Bad("sliced SCAD: extrusion with %r" % a)
            return self.stmt(z, a.get("height", a.get(0)))
        if x == "polygon":
            p = a.get("points", a.get(0)); paths = a.get("paths", a.get(1)) or [list(range(len(p)))]
            for q in paths:
                for i in q:
                    if not 0 <= i < len(p): raise Bad("sliced SCAD: point %g does not exist" % i)
                self.out.append((z, h, [p[int(i)] for i in q]))
            return self.stmt(z, h)
        raise Bad("sliced SCAD: unexpected %r" % x)

def judge_scad(text, rec, eps):
    u = UNITS[rec["unit"]]
    P = points(rec, u)
    try:
        out = ScadReader(text.decode("latin-1")).out
    except Bad as e:
        return str(e)
    h = float(thick(rec, Fr(0)))
    zs = [float(z) for z in layer_z(rec)]
    by = {i: [] for i in range(len(zs))}
    for z, hh, q in out:
        k = [i for i, zz in enumerate(zs) if abs(zz - z) <= eps]
        if not k: return "sliced SCAD: there is no layer at z=%r" % z
        if hh is None or abs(hh - h) > eps: return "sliced SCAD: the layer at z=%r has height %r, expected %r" % (z, hh, h)
        by[k[0]].append(q)
    for i in by:
        n = np.zeros(len(P), dtype=np.int64); near = np.zeros(len(P), dtype=bool)
        for ln in {len(q) for q in by[i]}:
            a, b = cover([q for q in by[i] if len(q) == ln], P, 1e-9 * float(u))
            n += a; near |= b
        w = np.array(rec["lay"][i])
        bad = (w != 2) & ~near & (n != w)
        if bad.any():
            k = np.nonzero(bad)[0]
            return "sliced SCAD: layer at z=%g: %d points differ from the model; (x, y, expected, found): %s" % (
                zs[i], len(k), [(round(float(P[j][0]), 4), round(float(P[j][1]), 4), int(w[j]), int(n[j])) for j in k[:5]])
    return None

# ---------------------------------------------------------------- PostScript
class PsReader:
    """the few operators a page needs; each page: [(colour, polygon)] filled, strings shown, strokes"""
    def __init__(self, text):
        self.pages = []; self.dsc = {}
        self.strokes = 0
        head = text.split("\n", 1)[0]
        if not head.startswith("%!PS-Adobe"): raise Bad("PostScript: the file starts with %r" % head[:40])
        st = []; path = []; sub = None; col = None; saved = []; page = None; self.open = 0
        for line in text.split("\n"):
            if line.startswith("%%"):
                m = re.match(r"%%(\w+):\s*(.*)", line)
                if m:
                    if m.group(1) == "Page":
                        if page is not None: raise Bad("PostScript: a page begins within another")
                        page = dict(fill=[], show=[], stroke=[], dots=[], num=m.group(2), xy=[]); width = None
                    else: self.dsc.setdefault(m.group(1), []).append(m.group(2))
                continue
            if line.startswith("%"): continue
            for t in re.findall(r"\((?:[^()\\]|\\.)*\)|[^\s()]+", line):
                if re.fullmatch(_NUM, t): st.append(float(t)); continue
                if t[0] in "(/": st.append(t); continue
                def pop(n):
                    if len(st) < n: raise Bad("PostScript: stack underflow at %r in %r" % (t, line[:80]))
                    r = st[len(st) - n:]; del st[len(st) - n:]
                    return r
                if page is None: raise Bad("PostScript: %r outside of the pages" % t)
                if t == "newpath": path = []; shut = False
                elif t == "moveto": path.append([pop(2)])
                elif t == "lineto":
                    if not path: raise Bad("PostScript: lineto without a current point")
                    path[-1].append(pop(2))
                elif t == "closepath": shut = True
                elif t == "arc": path.append(("dot", pop(5)))
                elif t in ("gsave", "save"): saved.append((t, col, list(path)))
                elif t in ("grestore", "restore"):
                    if not saved or saved[-1][0] != ("gsave" if t == "grestore" else "save"): raise Bad("PostScript: %s does not match" % t)
                    _, col, path = saved.pop()
                elif t == "setrgbcolor":
                    col = pop(3)
                    if min(col) < 0 or max(col) > 1: raise Bad("PostScript: colour %r" % col)
                elif t in ("setlinecap", "setlinejoin", "setlinewidth", "setgray", "scalefont", "findfont", "setfont"):
                    a = pop(2 if t == "scalefont" else 1)
                    if t == "setlinewidth": width = a[0]
                    if t in ("scalefont", "findfont"): st.append("font")
                elif t == "show": page["show"].append(pop(1)[0]); path = []
                elif t in ("fill", "stroke"):
                    dots = [q[1] for q in path if q[0] == "dot"]
                    if dots:
                        if t != "fill" or len(path) > 1: raise Bad("PostScript: an arc among lines")
                        page["dots"].append((tuple(col), dots[0]))
                    else:
                        if t == "fill": page["fill"].append((tuple(col), path))
                        else: page["stroke"].append((tuple(col), path, shut, width))
                        page["xy"] += [q for s in path for q in s]
                    path = []
                elif t == "showpage":
                    if saved or st: raise Bad("PostScript: state left over at the end of a page: %r" % (saved or st))
                    self.pages.append(page); page = None
                else: raise Bad("PostScript: unknown operator %r" % t)
        if page is not None: raise Bad("PostScript: the last page does not end")
_NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"

def wind(loops, Q, tol):
    """how often a ray from each point crosses the closed polygons; and which points are close to them"""
    n = np.zeros(len(Q), dtype=np.int64); near = np.zeros(len(Q), dtype=bool)
    for L in loops:
        for k in range(0, len(L), 2000):
            a = L[k:k + 2000]; b = np.roll(L, -1, axis=0)[k:k + 2000]
            x, y = Q[:, 0][:, None], Q[:, 1][:, None]
            up = (a[:, 1] > y) != (b[:, 1] > y)
            dy = np.where(b[:, 1] == a[:, 1], 1, b[:, 1] - a[:, 1])
            n += (up & (x < a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / dy)).sum(axis=1)
            dx, dyy = b[:, 0] - a[:, 0], b[:, 1] - a[:, 1]
            l2 = np.maximum(dx * dx + dyy * dyy, 1e-30)
            t = np.clip(((x - a[:, 0]) * dx + (y - a[:, 1]) * dyy) / l2, 0, 1)
            near |= (np.hypot(x - a[:, 0] - t * dx, y - a[:, 1] - t * dyy) <= tol).any(axis=1)
    return n, near

def lines(p, s):
    """the lines and points of a page: which there are, in which colours; adds p["loops"] and p["marks"]"""
    rgb = {k: tuple(c / 255 for c in v) for k, v in s["col"].items()}
    is_ = lambda c, k: max(abs(x - y) for x, y in zip(c, rgb[k])) <= 1e-5
    by = dict(tri=[], path=[], mark=[])
    for c, path, shut, w in p["stroke"]:
        if w is None or abs(w - float(s["lw"][1])) > 1e-5: return "lines of width %r, expected %s" % (w, s["lw"][1])
        k = [k for k in by if is_(c, k)]
        if not k: return "a line of colour %r" % (c,)
        if shut != (k[0] != "mark"): return "%s: open or closed" % k[0]
        by[k[0]] += path
    dr = s["drawn"]
    for k in by:
        if by[k] and not dr[k]: return "%s drawn, but switched off" % k
    fills = [q for c, path in p["fill"] for q in path]
    if dr["tri"] and sorted(by["tri"]) != sorted(fills): return "%d triangles are outlined, %d are filled" % (len(by["tri"]), len(fills))
    p["loops"], p["marks"] = by["path"], by["mark"]
    if not dr["path"]:
        return "points or marks drawn, but the paths are switched off" if p["dots"] or by["mark"] else None
    if any(not is_(c, "vertex") for c, _ in p["dots"]): return "points of colour %r" % (p["dots"][0][0],)
    if any(q[2] <= 0 or q[3:] != [0, 360] for _, q in p["dots"]): return "points that are no discs"
    V = {tuple(v) for q in by["path"] + fills for v in q}
    D = {tuple(q[:2]) for _, q in p["dots"]}
    if D != V: return "the points drawn (%d) are not the corners (%d)" % (len(D), len(V))
    if dr["mark"]:
        if len(by["mark"]) != len([q for q in by["path"] if len(q) > 1]): return "%d marks for %d paths" % (len(by["mark"]), len(by["path"]))
        big = max([abs(x) for v in V for x in v] + [1])
        t = 2e-5 * big + 1e-4
        for m in by["mark"]:
            if len(m) != 2: return "a mark of %d points" % len(m)
        mids = np.array([((np.array(q) + np.roll(np.array(q), -1, axis=0)) / 2)[0] for q in by["path"] if len(q) > 1])
        dirs = np.array([np.array(q[1]) - np.array(q[0]) for q in by["path"] if len(q) > 1])
        for k, m in enumerate(by["mark"]):
            a, b = np.array(m[0]), np.array(m[1])
            if np.abs(mids[k] - a).max() > t: return "the mark of path %d begins at %r, the middle of its first edge is %r" % (k, m[0], mids[k].tolist())
            l = np.hypot(*dirs[k])
            if l > 100 * t and (abs(np.hypot(*(b - a)) - 2) > 0.01 + t or abs(np.dot(b - a, dirs[k] / l)) > 0.1 + 4 * t * 2 / l): return "the mark %r is not perpendicular to its edge" % (m,)
    return None

def page_map(rec):
    """(x, y, z) in mm -> page coordinates (within half a point), and the scale"""
    s = rec["set"]
    u = float(UNITS[rec["unit"]])
    M = np.array(s["psm"]["m"], dtype=np.float64) / s["psm"]["d"]
    mx, ax, ay = MM, PAPER[0] / 2, PAPER[1] / 2
    if s["fit"]:
        b = rec["box"] if s["fit"] == 1 else rec["full"]
        x0, y0, x1, y1 = [c * u for c in b]
        mx = min((PAPER[0] - PAPER[2]) / (x1 - x0), (PAPER[1] - PAPER[2]) / (y1 - y0))
        ax -= mx * (x0 + x1) / 2; ay -= mx * (y0 + y1) / 2
    def f(P, z):
        Q = np.concatenate([P, np.full((len(P), 1), z), np.ones((len(P), 1))], axis=1) @ M.T
        w = 1 - s["per"] * Q[:, 2] / 1000
        return Q[:, :2] / w[:, None] * mx + [ax, ay], w
    return f

def judge_ps(text, rec):
    s = rec["set"]
    u = UNITS[rec["unit"]]
    try:
        ps = PsReader(text.decode("latin-1"))
    except Bad as e:
        return str(e)
    if ps.dsc.get("Pages", ["?"])[-1] != str(len(ps.pages)):
        return "PostScript: %d pages, announced: %r" % (len(ps.pages), ps.dsc.get("Pages"))
    for i, p in enumerate(ps.pages):
        if p["num"].split() != [str(i + 1)] * 2: return "PostScript: page %d is called %r" % (i + 1, p["num"])
    P = points(rec, u)
    f = page_map(rec)
    zs = [float(z) for z in layer_z(rec)]
    xy = [q for p in ps.pages for q in p["xy"]]
    try:
        bb = [float(x) for x in ps.dsc.get("BoundingBox", ["?"])[-1].split()]
        assert len(bb) == 4
    except (ValueError, AssertionError):
        return "PostScript: bounding box %r" % ps.dsc.get("BoundingBox")
    if xy:
        a = np.array(xy)
        lo, hi = a.min(axis=0), a.max(axis=0)
        t = 1e-5 * max(abs(a).max(), 100)
        if (lo < np.array(bb[:2]) - t).any() or (hi > np.array(bb[2:]) + t).any() or (lo > np.array(bb[:2]) + 2 + t).any() or (hi < np.array(bb[2:]) - 2 - t).any():
            return "PostScript: bounding box %r, drawn: %r %r" % (bb, lo.tolist(), hi.tolist())
    fill = np.array([int(c) / 255 for c in s["col"]["fill"]])
    got = {}
    for p in ps.pages:
        for c, path in p["fill"]:
            if np.abs(np.array(c) - fill).max() > 1e-5: return "PostScript: filled with %r, expected %r" % (c, fill.tolist())
        bad = lines(p, s)
        if bad: return "PostScript: " + bad
        if s["single"]: continue
        k = None
        for t in p["show"]:
            m = re.search(r"z=(%s)" % _NUM, t)
            if m:
                near = [i for i, z in enumerate(zs) if abs(z - float(m.group(1))) <= 1e-5 * max(1, abs(z))]
                if not near: return "PostScript: a page for z=%s" % m.group(1)
                k = near[0]
        if k is None or k in got: return "PostScript: pages do not correspond to layers: %r" % p["show"]
        got[k] = p
    if list(got) != sorted(got): return "PostScript: the pages are not in the order of the layers"
    M2 = np.array(s["psm"]["m"], dtype=np.float64) / s["psm"]["d"]
    for k, z in enumerate(zs):
        want = rec["lay"][k]
        Q, w = f(P, z)
        pages = [ps.pages[0]] if s["single"] and ps.pages else [got[k]] if k in got else []
        T = [q for p in pages for c, path in p["fill"] for q in path]
        # how much the page shrinks the layer
        E, _ = f(np.array([[0, 0], [1, 0], [0, 1.0]]) * float(u), z)
        d = (E[1] - E[0]); e = (E[2] - E[0])
        det = abs(d[0] * e[1] - d[1] * e[0]); L = max(np.hypot(*d), np.hypot(*e))
        b = [c * float(u) for c in rec["full"]]
        w = np.concatenate([w, f(np.array([[b[i], b[j]] for i in (0, 2) for j in (1, 3)]), z)[1]])
        flat = abs(M2[0, 0] * M2[1, 1] - M2[0, 1] * M2[1, 0]) < 0.05
        if flat or w.min() < 0.2 or L == 0 or det / L < 0.5: continue      # seen from the side or too small
        lim = np.abs(np.array([q for t in T for q in t])).max() if T else 0
        tol = 0.001 + 1e-5 * lim
        if s["single"]:
            if k == 0:
                allw = [max((rec["lay"][i][j] for i in range(len(zs))), key=lambda v: {0: 0, 2: 1, 1: 2}[v]) for j in range(len(want))]
            if not s["plain"] or len({len(q) for q in T} - {3}): continue
            best = None
            for dx in (0, -0.5):
                bad = differs(T, Q + [dx, 0], allw, tol, "PostScript: single page", False) if T or any(v == 1 for v in allw) else None
                if not bad: best = "ok"
            if best is None: return bad
            continue
        bads = []
        for dx in (0, -0.5):
            n = np.zeros(len(P), dtype=np.int64); near = np.zeros(len(P), dtype=bool)
            for ln in {len(q) for q in T}:
                a, b = cover([q for q in T if len(q) == ln], Q + [dx, 0], tol)
                n += a; near |= b
            wv = np.array(want)
            bad = (wv != 2) & ~near & (n != wv)
            bads.append(None if not bad.any() else [(round(float(P[j][0]), 4), round(float(P[j][1]), 4), int(wv[j]), int(n[j])) for j in np.nonzero(bad)[0][:5]])
        if all(bads): return "PostScript: layer at z=%g differs from the model; (x, y, expected, found): %s" % (z, bads[1])
        # the paths enclose the region
        if s["drawn"]["path"] and any(p["loops"] for p in pages):       # the current tool has only triangles
            loops = [np.array(q) for p in pages for q in p["loops"]]
            wv = np.array(want)
            for dx in (0, -0.5):
                n, near = wind(loops, Q + [dx, 0], tol)
                bad = (wv != 2) & ~near & (n % 2 != wv)
                if not bad.any(): break
            if bad.any():
                return "PostScript: the paths of the layer at z=%g enclose another region; (x, y, expected): %s" % (z, [(round(float(P[j][0]), 4), round(float(P[j][1]), 4), int(wv[j])) for j in np.nonzero(bad)[0][:5]])
            # marks point to the inside, unless the page shows the layer from behind
            if s["drawn"]["mark"] and d[0] * e[1] - d[1] * e[0] > 0:
                for p in pages:
                    A = np.array([q[0] for q in p["marks"]]); B = np.array([q[1] for q in p["marks"]])
                    if len(A):
                        n, near = wind(loops, A + (B - A) * 0.05, 2 * tol)
                        if (~near & (n % 2 == 0)).any(): return "PostScript: a mark points outside, z=%g" % z
    return None

# ------------------------------------------------------------------ one case
def base_args(rec):
    u = UNITS[rec["unit"]]
    zs = layer_z(rec)
    st = Fr(rec["step"], 8) * u
    return ["m.scad", "-q", "--min=" + dec(zs[0]), "--max=" + dec(zs[-1] + st / 2), "--step=" + dec(st)] + rec["set"]["grid"] + (
        ["--js-no-keep-ctxt=no"] if rec["set"]["root"] == 2 else [])

def one(job):
    exe, rec, work, maxtri = job
    d = tempfile.mkdtemp(dir=work)
    u = UNITS[rec["unit"]]
    trace = None
    info = dict(tri=0, batches=0, pages=0, runs=0, inside=sum(v == 1 for l in rec["lay"] for v in l))
    def fail(w, argv): return w, argv, open(os.path.join(d, "m.scad")).read(), rec, info, None
    try:
        open(os.path.join(d, "m.scad"), "w").write(model(rec))
        base = base_args(rec)
        gap = [] if rec["gap"] < 0 else ["--layer-gap=" + dec(Fr(rec["gap"], 8) * u)]
        s = rec["set"]
        s["plain"] = all(x == 0 for x in [s["per"]]) and not s["pso"]
        extra = s["gopt"] + (["--js-color-rand=%d" % s["rnd"]] if s["rnd"] else []) + s["pso"] + (["--ps-persp=%d" % s["per"]] if s["per"] else []) + \
            [[], ["--ps-scale-fit"], ["--ps-scale-max"]][s["fit"]] + (["--ps-no-single-page=no"] if s["single"] else []) + \
            s["wire"] + s["colo"] + ([s["lw"][0]] if s["lw"][0] else [])
        eps = 1e-9 * max(1.0, float(u))
        # reference: text STL without a gap, for the scene
        ref = {}
        def text_stl(g):
            k = tuple(g)
            if k not in ref:
                r = run([exe] + base + g + ["--dump-stl", "-o", "ref"], cwd=d, timeout=120); info["runs"] += 1
                if r.rc != 0: return None, "status %s: %s" % (r.rc, r.err[-300:].decode("latin-1"))
                ref[k] = parse_stla(open(os.path.join(d, "ref"), "rb").read())
            return ref[k], None
        bytes_of = {}
        for si, sel in enumerate(rec["sels"]):
            fn = "o%d.%s" % (si, sel["f"])
            argv = base + gap + extra + sel["o"] + (["-o", fn] if sel["f"] else [])
            if (si + rec["b"]) % 3 == 0: argv = argv[1:] + argv[:1]
            r = run([exe] + argv, cwd=d, timeout=120); info["runs"] += 1
            fmt = sel["fmt"]
            if r.timeout: return fail("does not end", argv)
            if fmt == "error":
                if r.rc != 1 or not r.err.strip(): return fail("an unknown ending is accepted (status %s)" % r.rc, argv)
                continue
            if r.rc != 0: return fail("status %s: %s" % (r.rc, r.err[-300:].decode("latin-1")), argv)
            if sel["f"]:
                data = open(os.path.join(d, fn), "rb").read()
                if r.out: return fail("output on the terminal besides the file: %r" % r.out[:60], argv)
            else: data = r.out
            if fmt == "none":
                if data: return fail("output although none was asked for: %r" % data[:60], argv)
                continue
            try:
                if fmt in bytes_of:
                    if bytes_of[fmt] != data: return fail("the same format asked for in another way gives another file (%s)" % fmt, argv)
                    continue
                bytes_of[fmt] = data
                if fmt == "stla":
                    V, N = parse_stla(data)
                    info["tri"] = len(V)
                    bad = judge_solid(V, N, rec, Fr(1, 100), eps, 1e-6, "text STL")
                elif fmt == "stlb":
                    W, M = parse_stlb(data)
                    x, bad = text_stl(gap)
                    if x is None: return fail(bad, argv)
                    V, N = x
                    # the text has 16 digits: a value that is half way between two floats may be rounded to either
                    with np.errstate(over="ignore", invalid="ignore"):
                        b = N.astype(np.float32).astype(np.float64)
                        same = lambda v, w: (abs(v - w) <= np.spacing(abs(w).astype(np.float32)).astype(np.float64) * 0.5000001) | (v.astype(np.float32) == w)
                        if V.shape != W.shape: bad = "%d triangles in the binary STL file, %d in the text file" % (len(W), len(V))
                        elif not same(V, W).all() or np.abs(b - M).max(initial=0) > 1e-6:
                            # the same, in any order?
                            k = lambda t: np.array(sorted(map(tuple, t.reshape(-1, 9).tolist())))
                            if not same(k(V), k(W)).all(): bad = "the triangles of the binary STL file are not those of the text file"
                            else: bad = judge_solid(W, M, rec, Fr(1, 100), 1e-6 * max(1.0, abs(W).max(initial=0)), 1e-5, "binary STL")
                elif fmt == "js":
                    p = os.path.join(d, "scene.js"); open(p, "wb").write(data)
                    scene = read_js(p)
                    info["batches"] = len(scene)
                    bad, V, N = judge_js(scene, rec)
                    if bad is None:
                        x, bad = text_stl(gap or ["--layer-gap=0"])
                        if x is None: return fail(bad, argv)
                        S = x[0]
                        g = scene[0]["scaleV"] / 1000 if scene else 1
                        if V.shape != S.shape: bad = "%d triangles in the scene, %d in the STL file" % (len(V), len(S))
                        elif len(V):
                            # to the scene's unit, and what 16 digits of text leave open
                            a, b = np.rint(V * g), np.rint(S * g)
                            if np.abs(V - S).max() > 0.51 / g:
                                if not (turn(a.astype(np.int64)) == turn(b.astype(np.int64))).all():
                                    k = np.unravel_index(np.abs(V - S).argmax(), V.shape)[0]
                                    bad = "the triangles of the scene are not those of the STL file: %r, %r" % (V[k].tolist(), S[k].tolist())
                            if bad is None:
                                L = np.linalg.norm(N, axis=1)
                                c = np.cross(V[:, 1] - V[:, 0], V[:, 2] - V[:, 0]); cl = np.linalg.norm(c, axis=1)
                                c = c / np.where(cl > 0, cl, 1)[:, None]
                                dv = np.abs(N - c).max(axis=1)
                                k = int(dv.argmax())
                                # the layer's height may be rounded, so walls are judged where they are visible
                                if dv[k] > 2e-3 + 1 / g: bad = "normal %r of the scene's triangle %r" % (N[k].tolist(), V[k].tolist())
                            if bad is None and len(V) <= maxtri and np.abs(V * g).max() < 2 ** 31 - 1:
                                trace = dict(b=[dict(v=[int(x) for x in q["vertex"]], n=[0] * len(q["normal"]), c=q["color"], i=q["index"], s=q.get("shiftI", 0),
                                                     sc=q.get("scaleC", 1)) for q in scene], t=np.rint(S * g).astype(np.int64).tolist())
                        elif any(v == 1 for l in rec["lay"] for v in l): bad = "an empty scene"
                elif fmt == "csg2":
                    bad = judge_scad(data, rec, eps)
                    if bad is None and info["inside"] and thick(rec, Fr(0)) > Fr(1, 20):
                        open(os.path.join(d, "back.scad"), "wb").write(data)
                        zs = layer_z(rec); st = Fr(rec["step"], 8) * u; h = thick(rec, Fr(0)) / 2
                        ba = ["back.scad", "-q", "--min=" + dec(zs[0] + h), "--max=" + dec(zs[-1] + h + st / 2), "--step=" + dec(st)] + s["grid"]
                        r = run([exe] + ba + ["--dump-stl"], cwd=d, timeout=120); info["runs"] += 1
                        if r.rc != 0: return fail("the sliced SCAD file is refused: status %s: %s" % (r.rc, r.err[-300:].decode("latin-1")), argv)
                        V, N = parse_stla(r.out)
                        back = dict(rec); back["gap"] = -1
                        P = points(rec, u)
                        L = layers_of(V)
                        for k, z in enumerate(zs):
                            t = [tri for zz, tri in L.items() if abs(zz - float(z + h)) <= eps]
                            bad = bad or differs(t[0] if t else [], P, rec["lay"][k], 1e-9 * float(u), "sliced SCAD, read again: layer at z=%g" % z)
                else:
                    bad = judge_ps(data, rec)
                    info["pages"] = data.count(b"showpage")
            except Bad as e:
                bad = str(e)
            if bad: return fail(bad, argv)
        return None, base + gap + extra, open(os.path.join(d, "m.scad")).read(), rec, info, trace
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_formats(C, name, cfg, num, budget, salt, workers=7, maxtri=150, traces=200):
    exe = tool()
    sim = Sim("Formats", "INIT Init\nNEXT Next\nINVARIANT Emit\nCONSTANTS\n" + cfg, num, 12, C.seed * 59 + salt, budget=budget, workdir=C.work)
    st = dict(models=0, runs=0, triangles=0, batches=0, pages=0, points_inside=0, several_batches=0)
    pend = set(); seen = set(); T = []
    def absorb(done):
        for f in done:
            bad, argv, text, rec, info, trace = f.result()
            st["models"] += 1; st["runs"] += info["runs"]; st["triangles"] += info["tri"]; st["batches"] += info["batches"]
            st["pages"] += info["pages"]; st["points_inside"] += info["inside"]; st["several_batches"] += info["batches"] > 1
            if st["models"] % 150 == 3:
                C.sample({"argv": argv, "model": text[:2000], "outputs": rec["sels"], "triangles": info["tri"]}, 4)
            if bad:
                C.violation(bad + "\noptions: " + " ".join(argv), {"m.scad": text, "argv.json": json.dumps(argv), "case.json": json.dumps(rec)})
            elif trace is not None and len(T) < traces:
                T.append((trace, argv, text, rec))
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        for shard, rec in sim:
            k = json.dumps(rec)
            if k in seen: continue
            seen.add(k)
            pend.add(ex.submit(one, (exe, rec, C.work, maxtri)))
            if len(pend) > 64:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                absorb(done)
            if C.enough(): break
        done, pend = cf.wait(pend)
        absorb(done)
    C.add("states", sim.states); C.add("transitions", sim.transitions)
    C.add("traces_validated_against_impl", st["models"])
    if T and not C.enough():
        bad, states = trace_check("JsTrace", [t[0] for t in T])
        C.add("states", states)
        st["scenes_judged_by_TLC"] = len(T)
        for i, what in bad:
            C.violation(what, {"m.scad": T[i][2], "argv.json": json.dumps(T[i][1]), "case.json": json.dumps(T[i][3])})
    C.cov.setdefault("profiles", {})[name] = st
    for e in sim.errors: C.error("%s: %s" % (name, e))
    if st["models"] == 0 and not C.viol: C.error("profile %s produced nothing" % name)
