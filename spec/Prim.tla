-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* The integer geometry that everything else is built on: points with      *)
(* whole coordinates of up to 30 bits, their cross products and distances, *)
(* the crossing of two segments as an exact fraction, the order of such    *)
(* fractions and their rounding, the comparison of a point with an edge    *)
(* within half a grid step, and division.                                  *)
(*                                                                         *)
(* The state is a set of points and a set of crossings that were computed  *)
(* before; a transition adds a point (anywhere, at the limits, near to or  *)
(* in line with others, so that several lines share a crossing) or calls   *)
(* one operation with known things.  Results are computed with numbers of  *)
(* any size (Big); every record of a call carries the permitted results.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
LOCAL INSTANCE Big

CONSTANTS NPT, NOPS, WIDE      \* points, calls of a history; WIDE: also coordinates that need 32 bits
VARIABLES pts, xs, hist, st
vars == <<pts, xs, hist, st>>

R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
LIM == 1073741823              \* 2^30 - 1
CAP == IF WIDE THEN 2147483647 ELSE LIM
Pow2(k) == 2 ^ k
OkC(c) == -CAP <= c /\ c <= CAP
AbsI(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* a coordinate of any magnitude, with the limits *)
Coord(x) == LET m == R({1, 2, 3, 4, 5, 6}) s == R({-1, 1}) IN
  CASE m = 1 -> s * (CAP - R(0..3))
    [] m = 2 -> R(-8..8)
    [] m = 3 -> LET e == R(0..29) IN s * (Pow2(e) + R(-1..1))
    [] m = 4 -> LET e == R(1..30) IN s * R(0..(Pow2(e - 1) + (Pow2(e - 1) - 1)))
    [] m = 5 -> s * 32768 * R(0..32767)
    [] OTHER -> s * R(0..LIM)

(* sums in the integers of TLC only where they fit *)
Fits(z) == ZLe(ZAbs(z), Z(CAP))
RECURSIVE NVal(_)
NVal(n) == IF n = <<>> THEN 0 ELSE n[1] + B * NVal(Tail(n))
Val(z) == z[1] * NVal(z[2])
(* the point <<x, y>> from big coordinates, or a fallback *)
PtZ(x, y, p) == IF Fits(x) /\ Fits(y) THEN <<Val(x), Val(y)>> ELSE p
ZSum(a, b, k, c) == ZAdd(Z(a), ZMul(Z(k), ZSub(Z(b), Z(c))))       \* a + k (b - c)

NewPt(x) ==
  LET m == R(1..8) IN
  IF Len(pts) < 2 \/ m <= 2 THEN <<Coord(1), Coord(2)>>
  ELSE LET p == Pick(pts) q == Pick(pts) f == <<Coord(1), Coord(2)>> IN
    CASE m = 3 -> LET a == ZAdd(Z(p[1]), Z(R(-2..2))) b == ZAdd(Z(p[2]), Z(R(-2..2))) IN PtZ(a, b, f)
      [] m = 4 -> \* in line with p and q, or one step beside
           LET k == R(-3..3) e == R({-1, 1, 2, 3}) % 2
           IN PtZ(ZAdd(ZSum(p[1], q[1], k, p[1]), Z(e * R(0..1))), ZSum(p[2], q[2], k, p[2]), f)
      [] m = 5 -> \* the middle of p and q, rounded
           PtZ(ZDivMod(ZAdd(Z(p[1]), Z(q[1])), Z(2))[1], ZDivMod(ZAdd(Z(p[2]), Z(q[2])), Z(2))[1], f)
      [] m = 6 -> \* same column or row
           IF R({TRUE, FALSE}) THEN <<p[1], Coord(1)>> ELSE <<Coord(1), p[2]>>
      [] m = 7 -> \* the other end of a line through a common centre c / (b + 1):  p' + b q = c
           LET c == st.c b == st.b IN PtZ(ZSub(Z(c[1]), ZMul(Z(b), Z(p[1]))), ZSub(Z(c[2]), ZMul(Z(b), Z(p[2]))), f)
      [] OTHER -> PtZ(ZSum(p[1], q[1], 1, Pick(pts)[1]), ZSum(p[2], q[2], 1, Pick(pts)[2]), f)

(* ---------------------------------------------------------- the operations *)
(* cross product (a - o) x (b - o) *)
Cross(a, o, b) == ZSub(ZMul(ZSub(Z(a[1]), Z(o[1])), ZSub(Z(b[2]), Z(o[2]))), ZMul(ZSub(Z(a[2]), Z(o[2])), ZSub(Z(b[1]), Z(o[1]))))
Sqr(z) == ZMul(z, z)
SqD(a, b) == ZAdd(Sqr(ZSub(Z(a[1]), Z(b[1]))), Sqr(ZSub(Z(a[2]), Z(b[2]))))
Fits64(z) == ZLe(ZAbs(z), ZSub(ZPow(2, 63), Z(1)))

(* segments p-q and r-s: -1 if parallel, 0 if they do not meet, otherwise the
   flags and the point as a pair of rationals *)
Meet(p, q, r, s) ==
  LET dx == ZSub(Z(q[1]), Z(p[1])) dy == ZSub(Z(q[2]), Z(p[2]))
      ex == ZSub(Z(s[1]), Z(r[1])) ey == ZSub(Z(s[2]), Z(r[2]))
      fx == ZSub(Z(r[1]), Z(p[1])) fy == ZSub(Z(r[2]), Z(p[2]))
      d0 == TLCEval(ZSub(ZMul(dx, ey), ZMul(dy, ex)))
      t0 == TLCEval(ZSub(ZMul(fx, ey), ZMul(fy, ex)))
      u0 == TLCEval(ZSub(ZMul(fx, dy), ZMul(fy, dx)))
      sg == d0[1]
      d == ZAbs(d0) t == ZN(sg * t0[1], t0[2]) u == ZN(sg * u0[1], u0[2])
  IN IF sg = 0 THEN [k |-> -1]
     ELSE IF t[1] < 0 \/ u[1] < 0 \/ ~ZLe(t, d) \/ ~ZLe(u, d) THEN [k |-> 0]
     ELSE [k |-> 1 + (IF t[1] = 0 THEN 2 ELSE 0) + (IF t = d THEN 4 ELSE 0) + (IF u[1] = 0 THEN 8 ELSE 0) + (IF u = d THEN 16 ELSE 0),
           x |-> <<ZAdd(ZMul(Z(p[1]), d), ZMul(t, dx)), d>>,
           y |-> <<ZAdd(ZMul(Z(p[2]), d), ZMul(t, dy)), d>>]

(* law: the other segment gives the same point *)
SamePoint(p, q, r, s) == LET a == Meet(p, q, r, s) b == Meet(r, s, p, q) IN
  /\ (a.k > 0) <=> (b.k > 0)
  /\ a.k > 0 => QCmp(a.x, b.x) = 0 /\ QCmp(a.y, b.y) = 0

Half(q) == QFloor(<<ZAdd(ZMul(q[1], Z(2)), q[2]), ZMul(q[2], Z(2))>>)     \* nearest whole number, halves up
CmpX(a, b) == LET c == QCmp(a.x, b.x) IN IF c # 0 THEN c ELSE QCmp(a.y, b.y)

(* point v against the edge from l to k (k is not to the right of l): +1 above, -1 below, 0 if
   the edge meets the unit square around v.  Touching only: either. *)
EdgeRnd(v, l, k) ==
  LET bb == Cross(v, l, k)
      b2 == TLCEval(ZMul(Z(2), bb))
      dx == ZSub(Z(k[1]), Z(l[1])) dy == ZSub(Z(k[2]), Z(l[2]))
      (* (v + (i, j) / 2 - l) x (k - l), doubled *)
      C(i, j) == ZAdd(b2, ZSub(ZMul(Z(i), dy), ZMul(Z(j), dx)))[1]
      cs == {C(-1, -1), C(-1, 1), C(1, -1), C(1, 1)}
      out(i) == (v[i] < l[i] /\ v[i] < k[i]) \/ (v[i] > l[i] /\ v[i] > k[i])
      beyond == out(1) \/ out(2)
  IN IF beyond THEN (IF bb[1] = 0 THEN {-1, 1} ELSE {bb[1]})
     ELSE IF {-1, 1} \subseteq cs THEN {0}
     ELSE IF cs = {1} THEN {1} ELSE IF cs = {-1} THEN {-1}
     ELSE {0} \union (cs \ {0})

(* ------------------------------------------------------------------ calls *)
BigRnd(bits) == \* a natural number of up to so many bits, often at a boundary
  LET m == R(1..5) e == R(1..bits) IN
  IF m = 1 THEN ZSub(ZPow(2, e), Z(R(0..1)))
  ELSE IF m = 2 THEN Z(R(0..9))
  ELSE IF m = 3 THEN ZSub(ZPow(2, e), ZPow(2, R(0..(e - 1))))
  ELSE ZDivMod(ZAdd(ZMul(ZAdd(ZMul(Z(R(0..LIM)), ZPow(2, 30)), Z(R(0..LIM))), ZPow(2, 30)), Z(R(0..LIM))), ZPow(2, e))[2]
Pos(z) == IF z[1] = 0 THEN Z(1) ELSE z
NegMaybe(z) == IF R({TRUE, FALSE}) THEN z ELSE ZNeg(z)
(* Euclidean division: the remainder is never negative *)
EDiv(x, d) == LET q == ZDivMod(IF d[1] < 0 THEN ZNeg(x) ELSE x, ZAbs(d)) IN
  IF d[1] > 0 THEN <<q[1], q[2]>>
  ELSE LET e == ZDivMod(x, ZAbs(d)) IN <<ZNeg(e[1]), e[2]>>

(* the calls with points; `in` says that no coordinate leaves the range of the contract *)
In(S) == \A p \in S : AbsI(p[1]) <= LIM /\ AbsI(p[2]) <= LIM
CallCross(a, o, b) == [op |-> "cross", a |-> <<a, o, b>>, r |-> Cross(a, o, b), in |-> In({a, o, b})]
CallSqd(a, b) == [op |-> "sqd", a |-> <<a, b>>, r |-> SqD(a, b), in |-> In({a, b})]
CallMeet(p, q, r, s) == [op |-> "meet", a |-> <<p, q, r, s>>, r |-> Meet(p, q, r, s), in |-> In({p, q, r, s})]
CallEdge(v, l, k) == [op |-> "edge", a |-> <<v, l, k>>, r |-> EdgeRnd(v, l, k), in |-> In({v, l, k})]
LeftOf(l, k) == k[1] < l[1] \/ (k[1] = l[1] /\ k[2] # l[2])

Init == pts = <<>> /\ xs = <<>> /\ hist = <<>> /\ st = [ph |-> "pts", c |-> <<0, 0>>, b |-> 1]

AddPt == /\ st.ph = "pts"
         /\ \E p \in {NewPt(1)} :
              /\ OkC(p[1]) /\ OkC(p[2])
              /\ pts' = Append(pts, p)
              /\ \E c \in {IF Len(pts) % 5 = 1 THEN <<R(-1000000..1000000), R(-1000000..1000000)>> ELSE st.c} :
                 st' = [st EXCEPT !.ph = IF Len(pts) + 1 = NPT THEN "ops" ELSE "pts", !.c = c, !.b = IF Len(pts) % 5 = 1 THEN R(1..3) ELSE st.b]
         /\ UNCHANGED <<xs, hist>>
Log(c) == hist' = Append(hist, c)
Ops == st.ph = "ops" /\ Len(hist) < NOPS

DoCross == Ops /\ \E c \in {CallCross(Pick(pts), Pick(pts), Pick(pts))} : Log(c) /\ UNCHANGED <<pts, xs, st>>
DoSqd == Ops /\ \E c \in {CallSqd(Pick(pts), Pick(pts))} : Log(c) /\ UNCHANGED <<pts, xs, st>>
(* most random segments do not meet: of several pairs take one that does *)
DoMeet == /\ Ops
          /\ \E ts \in {TLCEval([i \in 1..12 |-> <<Pick(pts), Pick(pts), Pick(pts), Pick(pts)>>])} :
             \E ms \in {TLCEval([i \in 1..12 |-> Meet(ts[i][1], ts[i][2], ts[i][3], ts[i][4])])} :
             LET good == {i \in 1..12 : ms[i].k = 1} touch == {i \in 1..12 : ms[i].k > 1} IN
             \E i \in {IF good # {} /\ R(1..6) > 1 THEN R(good) ELSE IF touch # {} THEN R(touch) ELSE R(1..12)} :
                LET c == [op |-> "meet", a |-> ts[i], r |-> ms[i], in |-> In({ts[i][j] : j \in 1..4})] IN
                /\ Log(c)
                /\ xs' = IF ms[i].k > 0 /\ c.in THEN Append(xs, [x |-> ms[i].x, y |-> ms[i].y, h |-> Len(hist) + 1]) ELSE xs
          /\ UNCHANGED <<pts, st>>
DoEdge == /\ Ops
          /\ \E t \in {<<Pick(pts), Pick(pts), Pick(pts)>>} :
             \E l \in {t[2]} : \E k \in {t[3]} : \E m \in {R(1..3)} :
             (* near the edge: the middle, give or take one *)
             \E w \in {IF m = 1 THEN t[1] ELSE PtZ(ZAdd(ZDivMod(ZAdd(Z(l[1]), Z(k[1])), Z(2))[1], Z(R(-1..1))), ZAdd(ZDivMod(ZAdd(Z(l[2]), Z(k[2])), Z(2))[1], Z(R(-1..1))), t[1])} :
                /\ l # k
                /\ Log(IF LeftOf(l, k) THEN CallEdge(w, l, k) ELSE CallEdge(w, k, l))
          /\ UNCHANGED <<pts, xs, st>>
(* two earlier crossings *)
DoCmp == /\ Ops /\ Len(xs) >= 2
         /\ \E i \in {R(1..Len(xs))} : \E j \in {R(1..Len(xs))} :
              Log([op |-> "cmp", a |-> <<xs[i].h, xs[j].h>>, r |-> <<QCmp(xs[i].x, xs[j].x), QCmp(xs[i].y, xs[j].y), CmpX(xs[i], xs[j])>>, in |-> TRUE])
         /\ UNCHANGED <<pts, xs, st>>
DoRound == /\ Ops /\ Len(xs) >= 1
           /\ \E i \in {R(1..Len(xs))} : Log([op |-> "round", a |-> <<xs[i].h>>, r |-> <<Half(xs[i].x), Half(xs[i].y), QFloor(xs[i].x), QFloor(xs[i].y)>>, in |-> TRUE])
           /\ UNCHANGED <<pts, xs, st>>
DoPCmp == /\ Ops /\ Len(xs) >= 1
          /\ \E i \in {R(1..Len(xs))} : \E m \in {R(1..3)} :
             \E p \in {IF m = 1 THEN Pick(pts)
                       ELSE <<Val(ZAdd(QFloor(xs[i].x), Z(R(0..1)))), Val(ZAdd(QFloor(xs[i].y), Z(R(0..1))))>>} :
             LET cx == QCmp(<<Z(p[1]), Z(1)>>, xs[i].x) cy == QCmp(<<Z(p[2]), Z(1)>>, xs[i].y) IN
             Log([op |-> "pcmp", a |-> <<p, xs[i].h>>, r |-> <<cx, cy, IF cx # 0 THEN cx ELSE cy>>, in |-> TRUE])
          /\ UNCHANGED <<pts, xs, st>>
DoDiv == /\ Ops
         /\ \E m \in {R(1..4)} : \E x \in {NegMaybe(IF m = 1 THEN BigRnd(31) ELSE BigRnd(63))} :
            \E d \in {IF m = 4 THEN Pos(BigRnd(62)) ELSE NegMaybe(Pos(IF m = 2 THEN BigRnd(63) ELSE BigRnd(31)))} :
            \E q \in {TLCEval(EDiv(x, d))} :
              /\ Fits64(x) /\ Fits64(d) /\ Fits64(q[1])
              /\ m = 1 => ZLe(ZAbs(x), Z(2147483647)) /\ ZLe(ZAbs(q[1]), Z(2147483647))
              /\ m \in {1, 3} => ZLe(ZAbs(d), Z(2147483647))
              /\ Log([op |-> <<"div", "divw", "divx", "divr">>[m], a |-> <<x, d>>, in |-> m # 3 \/ ZLe(ZAbs(q[1]), Z(2147483646)),
                      r |-> IF m = 4 THEN <<QFloor(<<ZAdd(ZMul(Z(2), x), d), ZMul(Z(2), d)>>), Z(0)>> ELSE q])
         /\ UNCHANGED <<pts, xs, st>>
DoMul == /\ Ops
         /\ \E a \in {BigRnd(64)} : \E b \in {BigRnd(64)} :
              /\ ZLt(a, ZPow(2, 64)) /\ ZLt(b, ZPow(2, 64))
              /\ Log([op |-> "mul", a |-> <<a, b>>, r |-> ZMul(a, b), in |-> TRUE])
         /\ UNCHANGED <<pts, xs, st>>
(* fractions in [0, 1) that are close together *)
DoFrac == /\ Ops
          /\ \E d \in {Pos(BigRnd(63))} : \E e \in {IF R({TRUE, FALSE}) THEN Pos(BigRnd(63)) ELSE ZAdd(d, Z(R(0..1)))} :
             \E n \in {ZDivMod(BigRnd(63), d)[2]} :
             \E m \in {LET u == ZAdd(ZDivMod(ZMul(n, e), d)[1], Z(R({0, 1}))) IN IF ZLt(u, e) THEN u ELSE Z(0)} :
               Log([op |-> "frac", a |-> <<n, d, m, e>>, r |-> <<QCmp(<<n, d>>, <<m, e>>)>>, in |-> TRUE])
          /\ UNCHANGED <<pts, xs, st>>
Next == AddPt \/ DoCross \/ DoSqd \/ DoMeet \/ DoMeet \/ DoMeet \/ DoEdge \/ DoEdge \/ DoCmp \/ DoCmp \/ DoRound \/ DoPCmp \/ DoDiv \/ DoMul \/ DoFrac
Spec == Init /\ [][Next]_vars

(* laws of the specification itself, on the fly *)
Law == Len(hist) > 0 =>
  LET c == hist[Len(hist)] IN
  CASE c.op = "meet" -> SamePoint(c.a[1], c.a[2], c.a[3], c.a[4])
    [] c.op = "cross" -> c.r = ZNeg(Cross(c.a[3], c.a[2], c.a[1]))
    [] c.op \in {"div", "divw", "divx"} -> ZAdd(ZMul(c.r[1], c.a[2]), c.r[2]) = c.a[1] /\ c.r[2][1] >= 0 /\ ZLt(c.r[2], ZAbs(c.a[2]))
    [] OTHER -> TRUE
Emit == Len(hist) = NOPS => PrintT(ToJson([h |-> hist]))
=============================================================================
