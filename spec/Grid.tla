-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The integer grid of a conversion: which grid is chosen for a model of a *)
(* given size under given options, and where a layer's vertices come to    *)
(* lie.  Coordinates are exact: an integer times the unit 2^e / 10^f.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Big

CONSTANTS KINDS,     \* kinds of solids
          ELO, EHI,  \* the unit of X and Y is 2^e, -ELO <= e <= EHI
          DECS,      \* decimal exponents f
          OPTS,      \* kinds of grid options
          MAXN       \* solids per model
VARIABLES st, unit, opt, sols, lay
vars == <<st, unit, opt, sols, lay>>

R(S) == RandomElement(S)
Two(k) == 2^k                                  \* 0 <= k <= 30
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxS(_, _, _)
MaxS(s, i, m) == IF i > Len(s) THEN m ELSE MaxS(s, i + 1, MaxI(m, s[i]))

(* k * 2^e / 10^f *)
QU(k, e, f) == QMul(QMul(QZ(k), QPow2(e)), QPow10(-f))
(* the smallest d with |k * 2^e / 10^f| < 2^d; 0 for k = 0 *)
DigOf(k, e, f) ==
  IF k = 0 THEN 0 ELSE IF f = 0 THEN BitLen(AbsI(k)) + e
  ELSE LET d == BitLen(AbsI(k)) - BitLen(10^f)
       IN e + (IF QLt(QMul(QZ(AbsI(k)), QPow10(-f)), QPow2(d)) THEN d ELSE d + 1)

(* ----------------------------------------------------------- the grid *)
(* the grid as an exact rational [1/mm]; what auto-scaling is in force *)
DefGrid == QPow2(13)
RECURSIVE FloorLog2(_, _)
FloorLog2(q, k) == IF QLe(QPow2(k + 1), q) THEN FloorLog2(q, k + 1)
                   ELSE IF QLt(q, QPow2(k)) THEN FloorLog2(q, k - 1) ELSE k
(* xm, zm: the largest absolute coordinates of all solids, in units *)
BestShift(o, u, xm, zm) ==
  MinI((IF o.auto = "max" THEN 30 ELSE 24) - DigOf(xm, u.e, u.f), 30 - DigOf(zm, u.ez, u.f))
Grid(o, u, xm, zm) ==
  IF o.auto = "off" THEN [q |-> o.g, pow |-> FALSE, k |-> 0]
  ELSE LET b == BestShift(o, u, xm, zm) IN
       IF o.g[1][1] = 0 \/ FloorLog2(o.g, 0) > b
       THEN [q |-> QPow2(b), pow |-> TRUE, k |-> b] ELSE [q |-> o.g, pow |-> FALSE, k |-> 0]

(* ------------------------------------------------------------- rounding *)
(* the nearest grid number; tie: (nearly) halfway between two of them *)
Eps == <<Z(1), Z(100000)>>
Rnd(x) == LET y == TLCEval(QAdd(x, QHalf))
              dm == TLCEval(ZDivMod(y[1], y[2]))
              fr == TLCEval(<<dm[2], y[2]>>)
          IN [v |-> dm[1], tie |-> QLt(fr, Eps) \/ QLt(QSub(QZ(1), fr), Eps),
              on |-> QLt(QAbs(QSub(fr, QHalf)), Eps)]
Lim(k) == ZPow(2, k)
ToI(a) == LET n == a[2]     \* a number known to fit
              w == IF n = <<>> THEN 0 ELSE IF Len(n) = 1 THEN n[1] ELSE IF Len(n) = 2 THEN n[1] + n[2] * B
                   ELSE n[1] + n[2] * B + n[3] * (B * B)
          IN a[1] * w

(* ------------------------------------------------------------- the solids *)
(* corner points as <<x, y, z>> in units.  A vertical solid has a polygon   *)
(* and two heights; a tetrahedron has four points.                          *)
Pts(s) == IF s.kind = "tet" THEN s.p
          ELSE [i \in 1..(2 * Len(s.p)) |-> <<s.p[(i + 1) \div 2][1], s.p[(i + 1) \div 2][2], IF i % 2 = 1 THEN s.z0 ELSE s.z1>>]
RECURSIVE CatPts(_, _)
CatPts(ss, i) == IF i > Len(ss) THEN <<>> ELSE Pts(ss[i]) \o CatPts(ss, i + 1)

(* random sizes: small, around a power of two, any *)
Size(lim) == LET k == R(0..3) IN
  IF k = 0 THEN R(1..MinI(9, lim))
  ELSE IF k = 1 THEN LET b == R(1..(BitLen(lim) - 1)) IN MaxI(1, MinI(lim, Two(b) + R({-1, 0, 0, 1})))
  ELSE R(1..lim)
Sgn(x) == R({-1, 1}) * x
Cross(a, b, c) == ZSub(ZMul(Z(b[1] - a[1]), Z(c[2] - a[2])), ZMul(Z(b[2] - a[2]), Z(c[1] - a[1])))

(* solid number i lies in its own range of X; w: twelve random sizes, b: twelve random bits *)
BoxAt(x, y, z, w) ==
  [kind |-> "box", p |-> <<<<x, y>>, <<x + w[1], y>>, <<x + w[1], y + w[2]>>, <<x, y + w[2]>>>>, z0 |-> z, z1 |-> z + w[3]]
DiaAt(x, y, z, w) == LET r == MaxI(1, w[1] \div 2) IN
  [kind |-> "dia", p |-> <<<<x + 2 * r, y>>, <<x + r, y + r>>, <<x, y>>, <<x + r, y - r>>>>, z0 |-> z, z1 |-> z + w[3]]
Ccw(t) == IF Cross(t[1], t[2], t[3])[1] < 0 THEN <<t[1], t[3], t[2]>> ELSE t
TriAt(kd, x, y, z, w) ==
  [kind |-> kd, p |-> Ccw(<<<<x + w[1], y + w[2]>>, <<x + w[4], y + w[5]>>, <<x, y>>>>), z0 |-> z, z1 |-> z + w[3]]
TetAt(x, y, z, w, b) ==
  [kind |-> "tet", p |-> [i \in 1..4 |-> <<x + b[i] * w[i], y + b[i + 4] * w[i + 4], z + b[i + 8] * w[i + 8]>>], z0 |-> z, z1 |-> z]
Det3(p) ==
  LET v(i, k) == Z(p[i][k] - p[4][k])
      m(i, j, a, b) == ZSub(ZMul(v(i, a), v(j, b)), ZMul(v(i, b), v(j, a)))
  IN ZAdd(ZSub(ZMul(v(1, 1), m(2, 3, 2, 3)), ZMul(v(1, 2), m(2, 3, 1, 3))), ZMul(v(1, 3), m(2, 3, 1, 2)))
Good(s) == IF s.kind = "tet" THEN Det3(s.p)[1] # 0
           ELSE IF s.kind \in {"tri", "ext"} THEN Cross(s.p[1], s.p[2], s.p[3])[1] # 0 ELSE TRUE
Orient(s) == IF s.kind = "tet" /\ Det3(s.p)[1] < 0 THEN [s EXCEPT !.p = <<s.p[2], s.p[1], s.p[3], s.p[4]>>] ELSE s

(* how a solid is written: rotated (quarter turns), mirrored, scaled by a   *)
(* power of two, moved -- all exact.  base: the points to write.            *)
Dress(f) == [t |-> IF f = 0 /\ R({0, 1}) = 1 THEN <<R(-1000..1000), R(-100000..100000), R(-1000..1000)>> ELSE <<0, 0, 0>>,
             j |-> R({0, 0, 0, 1, -1, 3, -4}), w |-> R({0, 1, 2, 2}),
             hu |-> R({0, 0, 2, 9, 14, 19}), hd |-> R({0, 0, 1, 8, 13, 18}),   \* a body that is projected is taller by 2^hu, 2^hd
             m |-> R({FALSE, FALSE, TRUE}), r |-> R({0, 0, 0, 1, 2, 3})]
RotB(p, r) == CASE r = 0 -> p [] r = 1 -> <<p[2], -p[1], p[3]>> [] r = 2 -> <<-p[1], -p[2], p[3]>> [] OTHER -> <<-p[2], p[1], p[3]>>
Undress(d, p) ==
  LET a == <<p[1] - d.t[1], p[2] - d.t[2], p[3] - d.t[3]>>
      b == IF d.m THEN <<-a[1], a[2], a[3]>> ELSE a
  IN RotB(b, d.r)

(* ---------------------------------------------------------- the options *)
AutoOf(a) == CASE a = "on" -> R({<<>>, <<>>, <<"--auto-grid">>}) [] a = "off" -> <<"--no-auto-grid">> [] OTHER -> <<"--auto-grid-max">>
SomeGrid(kd, k, n, d) ==
  CASE kd = "pow" -> [s |-> <<"--grid=2^" \o ToString(k)>>, g |-> QPow2(k)]
    [] kd = "powdec" -> LET j == AbsI(k) IN [s |-> <<"--grid=" \o ToString(Two(j))>>, g |-> QPow2(j)]
    [] kd = "dec" -> [s |-> <<"--grid=" \o ToString(n)>>, g |-> QZ(n)]
    [] kd = "frac" -> [s |-> <<"--grid=" \o ToString(n) \o "/" \o ToString(d)>>, g |-> Q(Z(n), Z(d))]
    [] kd = "gran" -> [s |-> <<"--gran=1/" \o ToString(n)>>, g |-> QZ(n)]
    [] kd = "granpow" -> [s |-> <<"--gran=2^" \o ToString(-k)>>, g |-> QPow2(k)]
    [] kd = "zero" -> [s |-> <<"--grid=0">>, g |-> QZ(0)]
    [] OTHER -> [s |-> <<>>, g |-> DefGrid]
Opts(kd, gr, a, au, fst) == [s |-> IF fst = 0 THEN gr.s \o au ELSE au \o gr.s, g |-> gr.g, auto |-> a]

(* ------------------------------------------------------------ transitions *)
Init == st = "unit" /\ unit = <<>> /\ opt = <<>> /\ sols = <<>> /\ lay = <<>>
ChooseUnit ==
  /\ st = "unit"
  /\ \E f \in {IF R({0, 1, 2}) = 0 THEN R(DECS) ELSE 0} : \E e \in {IF f = 0 THEN R((-ELO)..EHI) ELSE 0} :
     \E dz \in {IF f = 0 THEN MaxI(-9 - e, R({0, 0, 0, -3, 5, -8, 11})) ELSE 0} :
     \E l \in {Two(R(1..16))}, ox \in {R({0, 0, Sgn(Size(Two(21)))})}, oy \in {R({0, 0, Sgn(Size(Two(21)))})}, oz \in {R({0, 0, Sgn(Size(Two(18)))})} :
       unit' = [e |-> e, f |-> f, ez |-> e + dz, lim |-> l, o |-> <<ox, oy, oz>>]
  /\ st' = "opt" /\ UNCHANGED <<opt, sols, lay>>
ChooseOpt ==
  /\ st = "opt"
  /\ \E kd \in {R(OPTS)}, k \in {R(-3..24)}, n \in {R({1, 2, 3, 5, 7, 10, 12, 100, 1000, 1023, 1025, 4095, 9999, 10000, 25400})}, d \in {R(1..9)} :
     \E a \in {IF kd = "zero" THEN R({"on", "max"}) ELSE R({"on", "on", "max", "off"})} : \E au \in {AutoOf(a)} :
       opt' = Opts(kd, SomeGrid(kd, k, n, d), a, au, R({0, 1}))
  /\ st' = "sols" /\ UNCHANGED <<unit, sols, lay>>
MakeAt(kd, x, y, z, w, b) ==
  CASE kd = "box" -> BoxAt(x, y, z, w) [] kd = "dia" -> DiaAt(x, y, z, w)
    [] kd = "tri" -> TriAt("tri", x, y, z, w) [] kd = "ext" -> TriAt("ext", x, y, z, w) [] OTHER -> TetAt(x, y, z, w, b)
AddSolid ==
  /\ st = "sols" /\ Len(sols) < MAXN
  /\ \E kd \in {R(KINDS)}, w \in {TLCEval([i \in 1..12 |-> Size(unit.lim)])}, b \in {TLCEval([i \in 1..12 |-> R({0, 1})])},
        dy \in {R(-unit.lim..unit.lim)}, dz \in {R({0, 0, R(0..unit.lim)})} :
     \E s \in {MakeAt(kd, unit.o[1] + 2 * unit.lim * Len(sols), unit.o[2] + dy, unit.o[3] + dz, w, b)} :
     \E d \in {Dress(unit.f)}, sub \in {Len(sols) > 0 /\ R(0..4) = 0} :
       /\ Good(s)
       /\ sols' = Append(sols, [kind |-> s.kind, p |-> Orient(s).p, z0 |-> s.z0, z1 |-> s.z1, d |-> d, sub |-> sub])
  /\ UNCHANGED <<st, unit, opt, lay>>

(* where to cut: through the middle of a solid, or anywhere in its height *)
ZLo(s) == IF s.kind = "tet" THEN -MaxS([i \in 1..4 |-> -s.p[i][3]], 1, -Two(29)) ELSE s.z0
ZHi(s) == IF s.kind = "tet" THEN MaxS([i \in 1..4 |-> s.p[i][3]], 1, -Two(29)) ELSE s.z1
Cut ==
  /\ st = "sols" /\ Len(sols) > 0
  /\ \E s \in {sols[R(1..Len(sols))]} : \E zz \in {IF R({0, 1}) = 0 THEN (ZLo(s) + ZHi(s)) \div 2 ELSE R(ZLo(s)..ZHi(s))} :
     lay' = [z |-> zz]
  /\ st' = "done" /\ UNCHANGED <<unit, opt, sols>>
Next == ChooseUnit \/ ChooseOpt \/ AddSolid \/ Cut
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------- expected layer *)
XM == LET p == TLCEval(CatPts(sols, 1)) IN MaxS([i \in 1..(2 * Len(p)) |-> AbsI(p[(i + 1) \div 2][1 + (i % 2)])], 1, 0)
ZM == LET p == TLCEval(CatPts(sols, 1)) IN MaxS([i \in 1..Len(p) |-> AbsI(p[i][3])], 1, 0)
GX(g, k) == Rnd(QMul(QU(k, unit.e, unit.f), g))
GZ(g, k) == Rnd(QMul(QU(k, unit.ez, unit.f), g))
Fits(g, k) == /\ QLe(QMul(QU(XM, unit.e, unit.f), g), <<Lim(k), Z(1)>>)
              /\ QLe(QMul(QU(MaxI(ZM, AbsI(lay.z)), unit.ez, unit.f), g), <<Lim(k), Z(1)>>)
V3(g, p) == LET x == GX(g, p[1]) y == GX(g, p[2]) z == GZ(g, p[3])
            IN [x |-> x.v, y |-> y.v, z |-> z.v, tie |-> x.tie \/ y.tie \/ z.tie, on |-> x.on /\ y.on /\ z.on]
(* a vertex in grid steps: position, tolerance, whether it is open *)
Vtx(x, y, tol) == [x |-> ToI(x), y |-> ToI(y), tol |-> tol]

(* the cut of an edge; za <= z < zb *)
QNearI(q) == LET r == Rnd(q) IN r
EdgeCut(a, b, z, zon) ==
  LET n == ZSub(z, a.z) d == ZSub(b.z, a.z)
      at(u, v) == QNearI(QAdd(<<u, Z(1)>>, Q(ZMul(ZSub(v, u), n), d)))
      x == TLCEval(at(a.x, b.x)) y == TLCEval(at(a.y, b.y))
      exact == zon /\ a.on /\ b.on
      slope == ZMax(ZDivMod(ZAbs(ZSub(b.x, a.x)), d)[1], ZDivMod(ZAbs(ZSub(b.y, a.y)), d)[1])
  IN Vtx(x.v, y.v, IF exact THEN (IF x.tie \/ y.tie THEN 1 ELSE 0)
                   ELSE 2 + (IF ZLt(slope, Z(100000)) THEN ToI(slope) ELSE 100000))
TetCut(g, s, z, zon) ==
  LET v == TLCEval([i \in 1..4 |-> V3(g, s.p[i])])
      lo == {i \in 1..4 : ZLe(v[i].z, z)} hi == (1..4) \ lo
      Nth(S, k) == CHOOSE i \in S : Cardinality({j \in S : j < i}) = k - 1
      E(i, j) == EdgeCut(v[i], v[j], z, zon)
  IN CASE lo = {} \/ hi = {} -> <<>>
       [] Cardinality(lo) = 1 -> LET a == Nth(lo, 1) IN <<E(a, Nth(hi, 1)), E(a, Nth(hi, 2)), E(a, Nth(hi, 3))>>
       [] Cardinality(lo) = 3 -> LET a == Nth(hi, 1) IN <<E(Nth(lo, 1), a), E(Nth(lo, 2), a), E(Nth(lo, 3), a)>>
       [] OTHER -> LET a == Nth(lo, 1) b == Nth(lo, 2) c == Nth(hi, 1) d == Nth(hi, 2)
                   IN <<E(a, c), E(a, d), E(b, d), E(b, c)>>
(* here = "yes", "no", "open" *)
SolidCut(g, s) ==
  LET zr == TLCEval(GZ(g, lay.z)) IN
  IF s.kind = "tet"
  THEN LET v == TLCEval([i \in 1..4 |-> V3(g, s.p[i])])
       IN [here |-> IF zr.tie \/ \E i \in 1..4 : v[i].tie \/ v[i].z = zr.v THEN "open" ELSE "yes",
           p |-> TetCut(g, s, zr.v, zr.on)]
  ELSE LET a == TLCEval(GZ(g, s.z0)) b == TLCEval(GZ(g, s.z1))
           in == ZLt(a.v, zr.v) /\ ZLt(zr.v, b.v)
           out == ZLt(zr.v, a.v) \/ ZLt(b.v, zr.v)
           pp == TLCEval([i \in 1..Len(s.p) |-> LET x == GX(g, s.p[i][1]) y == GX(g, s.p[i][2])
                                        IN Vtx(x.v, y.v, IF x.tie \/ y.tie THEN 1 ELSE 0)])
       IN [here |-> IF zr.tie \/ a.tie \/ b.tie \/ ~(in \/ out) THEN "open" ELSE IF in THEN "yes" ELSE "no",
           p |-> pp]

(* 2D shapes are combined on a grid of their own: the one asked for, unless   *)
(* they do not fit it; only shapes on that grid count here                    *)
Grid2(m, e, f) == LET fit == QPow2(30 - DigOf(m, e, f))
                  IN IF opt.g[1][1] = 0 \/ QLt(fit, opt.g) THEN fit ELSE opt.g
ExtOk == \A i \in 1..Len(sols) : sols[i].kind # "ext" \/
           LET b == TLCEval([k \in 1..3 |-> Undress(sols[i].d, <<sols[i].p[k][1], sols[i].p[k][2], sols[i].z0>>)])
               e == unit.e - sols[i].d.j
               m == MaxS([k \in 1..6 |-> AbsI(b[(k + 1) \div 2][1 + (k % 2)])], 1, 0)
               h == IF sols[i].d.w = 2 THEN MaxI(sols[i].d.hu, sols[i].d.hd) ELSE 0
               (* the projection is made on the grid that the body fits, the    *)
               (* extrusion on the one that the projected shape fits             *)
               G == {TLCEval(Grid2(m, e + h, unit.f)), TLCEval(Grid2(m, e, unit.f))}
               on(c, g) == LET q == TLCEval(QMul(QU(c, e, unit.f), g)) IN ZDivMod(q[1], q[2])[2] = Z(0)
               (* not so thin that its corners merge with the opposite edges there *)
               area == ZAbs(Cross(b[1], b[2], b[3]))
               len == MaxS([k \in 1..3 |-> AbsI(b[k][1] - b[(k % 3) + 1][1]) + AbsI(b[k][2] - b[(k % 3) + 1][2])], 1, 0)
               wide(g) == QLe(QZ(4 * len), QMul(QMul(<<area, Z(1)>>, QU(1, e, unit.f)), g))
           IN \A g \in G : wide(g) /\ \A k \in 1..3 : on(b[k][1], g) /\ on(b[k][2], g)
GStr(g) == [pow |-> g.pow, k |-> g.k, n |-> g.q[1][2], d |-> g.q[2][2]]
Case ==
  LET g == TLCEval(Grid(opt, unit, XM, ZM))
      fit == Fits(g.q, 30)
  IN [unit |-> unit, opt |-> opt.s, auto |-> opt.auto, z |-> lay.z, grid |-> GStr(g),
      out |-> IF fit THEN "ok" ELSE IF Fits(g.q, 31) THEN "open" ELSE "refused",
      base |-> [i \in 1..Len(sols) |-> [kind |-> sols[i].kind, d |-> sols[i].d, sub |-> sols[i].sub,
                 p |-> LET q == Pts(sols[i]) IN [k \in 1..Len(q) |-> Undress(sols[i].d, q[k])]]],
      pts |-> [i \in 1..Len(sols) |-> Pts(sols[i])],
      cut |-> IF fit THEN [i \in 1..Len(sols) |-> SolidCut(g.q, sols[i])] ELSE <<>>]
Emit == st = "done" => (ExtOk => PrintT(ToJson(Case)))
=============================================================================
