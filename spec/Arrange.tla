------------------------------ MODULE Arrange ------------------------------
(***************************************************************************)
(* What the polygon library has to deliver, judged exactly in integers.    *)
(* A record holds one case and the library's answer:                       *)
(*   grps, ftab  the operands (closed paths) and the boolean functions     *)
(*   v           all points of the answer, each once                       *)
(*   arr, red    the arrangement before and after the boolean function, as *)
(*               pairs of indices into v                                   *)
(*   path, tri   outline paths and triangles <<i, j, k, flags>>            *)
(*   exact       v is exact (otherwise divided by the scale and rounded)   *)
(*   tol         rounding distance in units of v                           *)
(*   pts         sample points                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS FILE, SHARDS, PART,
          BIG       \* coordinates use up to 30 bits: products need numbers of any size
Bg == INSTANCE Big
Trace == ndJsonDeserialize(FILE)
N == Len(Trace)
VARIABLES sh, pos, verdict
vars == <<sh, pos, verdict>>

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
DZ(a, b) == Bg!ZSub(Bg!Z(a), Bg!Z(b))
CrossZ(a, b, c) == Bg!ZSub(Bg!ZMul(DZ(b[1], a[1]), DZ(c[2], a[2])), Bg!ZMul(DZ(b[2], a[2]), DZ(c[1], a[1])))
CrossS(a, b, c) == IF BIG THEN CrossZ(a, b, c)[1] ELSE Sgn(Cross(a, b, c))
(* k |cross| - t (|dx| + |dy|), its sign *)
OffS(e, p, k, t) ==
  IF BIG THEN Bg!ZSub(Bg!ZMul(Bg!Z(k), Bg!ZAbs(CrossZ(e[1], e[2], p))),
                      Bg!ZMul(Bg!Z(t), Bg!ZAdd(Bg!ZAbs(DZ(e[2][1], e[1][1])), Bg!ZAbs(DZ(e[2][2], e[1][2])))))[1]
  ELSE Sgn(k * Abs(Cross(e[1], e[2], p)) - t * (Abs(e[2][1] - e[1][1]) + Abs(e[2][2] - e[1][2])))
Odd(x) == x % 2 = 1

(* ------------------------------------------------ operands and regions *)
PathEdges(p) == [i \in 1..Len(p) |-> <<p[i], p[(i % Len(p)) + 1]>>]
OpEdges(o) == FlattenSeq([j \in 1..Len(o) |-> PathEdges(o[j])])
Src(r) == TLCEval(SelectSeq(FlattenSeq([g \in 1..Len(r.grps) |-> FlattenSeq([o \in 1..Len(r.grps[g].ops) |-> OpEdges(r.grps[g].ops[o])])]),
                            LAMBDA e : e[1] # e[2]))
(* number of edges of E to the right of p, half open in y *)
Crossings(E, p) == Cardinality({i \in 1..Len(E) : LET a == E[i][1] b == E[i][2] IN
     (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN CrossS(a, b, p) > 0 ELSE CrossS(a, b, p) < 0)})
InOp(o, p) == Odd(Crossings(OpEdges(o), p))
Index(b) == FoldLeft(LAMBDA acc, i : acc + (IF b[i] THEN 2^(i - 1) ELSE 0), 1, [i \in 1..Len(b) |-> i])
InGrp(g, p) == g.tab[Index([o \in 1..Len(g.ops) |-> InOp(g.ops[o], p)])] = 1
InF(r, p) == IF Len(r.grps) = 1 THEN InGrp(r.grps[1], p)
             ELSE r.ftab[Index([g \in 1..Len(r.grps) |-> InGrp(r.grps[g], p)])] = 1
Beside(e, p, t) == LET a == e[1] b == e[2] IN
     \/ p[1] < Min2(a[1], b[1]) - t \/ p[1] > Max2(a[1], b[1]) + t
     \/ p[2] < Min2(a[2], b[2]) - t \/ p[2] > Max2(a[2], b[2]) + t
(* p is farther than t from the edge *)
Far(e, p, t) == Beside(e, p, t) \/ OffS(e, p, 1, t) > 0
(* p is within t of the edge, measured along an axis *)
Near(e, p, t) == ~Beside(e, p, t) /\ OffS(e, p, 2, t) <= 0
Seg(r, E) == TLCEval([i \in 1..Len(E) |-> <<r.v[E[i][1]], r.v[E[i][2]]>>])

(* -------------------------------------------------------- arrangement *)
Proper(E) == \A i \in 1..Len(E) : E[i][1] # E[i][2]
Unique(E) == Cardinality({{E[i][1], E[i][2]} : i \in 1..Len(E)}) = Len(E)
Apart(a, b, c, d) ==
  \/ Max2(a[1], b[1]) < Min2(c[1], d[1]) \/ Max2(c[1], d[1]) < Min2(a[1], b[1])
  \/ Max2(a[2], b[2]) < Min2(c[2], d[2]) \/ Max2(c[2], d[2]) < Min2(a[2], b[2])
DotS(o, a, b) == IF BIG THEN Bg!ZAdd(Bg!ZMul(DZ(a[1], o[1]), DZ(b[1], o[1])), Bg!ZMul(DZ(a[2], o[2]), DZ(b[2], o[2])))[1]
                 ELSE Sgn((a[1] - o[1]) * (b[1] - o[1]) + (a[2] - o[2]) * (b[2] - o[2]))
Meet(a, b, c, d) ==   \* they have a point in common that is not an end of both
  IF Apart(a, b, c, d) THEN FALSE
  ELSE IF a = c \/ a = d \/ b = c \/ b = d
  THEN LET o == IF a = c \/ a = d THEN a ELSE b
           p == IF o = a THEN b ELSE a
           q == IF o = c THEN d ELSE c
       IN CrossS(o, p, q) = 0 /\ DotS(o, p, q) > 0
  ELSE LET s1 == CrossS(a, b, c) s2 == CrossS(a, b, d)
           s3 == CrossS(c, d, a) s4 == CrossS(c, d, b)
       IN s1 * s2 <= 0 /\ s3 * s4 <= 0
NonCrossing(S) == \A i \in 1..Len(S) : \A j \in (i + 1)..Len(S) : ~Meet(S[i][1], S[i][2], S[j][1], S[j][2])
Even(E, nv) == \A k \in 1..nv : ~Odd(Cardinality({i \in 1..Len(E) : E[i][1] = k \/ E[i][2] = k}))
(* p is the crossing of two edges, each coordinate rounded (exact, for small coordinates) *)
RoundedCrossing(e, f, p) ==
  IF BIG THEN
  LET dx == DZ(e[2][1], e[1][1]) dy == DZ(e[2][2], e[1][2])
      ex == DZ(f[2][1], f[1][1]) ey == DZ(f[2][2], f[1][2])
      fx == DZ(f[1][1], e[1][1]) fy == DZ(f[1][2], e[1][2])
      d == TLCEval(Bg!ZSub(Bg!ZMul(dx, ey), Bg!ZMul(dy, ex)))
      m == TLCEval(Bg!ZSub(Bg!ZMul(fx, ey), Bg!ZMul(fy, ex)))
      near(i, w) == Bg!ZLe(Bg!ZMul(Bg!Z(2), Bg!ZAbs(Bg!ZSub(Bg!ZMul(d, DZ(p[i], e[1][i])), Bg!ZMul(m, w)))), Bg!ZAbs(d))
  IN d[1] # 0 /\ near(1, dx) /\ near(2, dy)
  ELSE
  LET dx == e[2][1] - e[1][1]  dy == e[2][2] - e[1][2]
      ex == f[2][1] - f[1][1]  ey == f[2][2] - f[1][2]
      d == dx * ey - dy * ex
      m == (f[1][1] - e[1][1]) * ey - (f[1][2] - e[1][2]) * ex
  IN d # 0 /\ 2 * Abs(d * (p[1] - e[1][1]) - m * dx) <= Abs(d) /\ 2 * Abs(d * (p[2] - e[1][2]) - m * dy) <= Abs(d)
Small(src) == \A i \in 1..Len(src) : \A k \in 1..2 : \A c \in 1..2 : Abs(src[i][k][c]) <= 300
(* every vertex is an input vertex, or near two input edges; a single sweep of
   small coordinates: the rounded crossing of two *)
VertexOk(r, src, k) ==
  LET p == r.v[k] IN
  IF r.tol = 1 /\ (BIG \/ Small(src)) THEN
     \/ \E i \in 1..Len(src) : src[i][1] = p \/ src[i][2] = p
     \/ \E i \in 1..Len(src) : Near(src[i], p, 1) /\ \E j \in 1..Len(src) : i # j /\ Near(src[j], p, 1) /\ RoundedCrossing(src[i], src[j], p)
  ELSE
  \/ \E i \in 1..Len(src) : src[i][1] = p \/ src[i][2] = p
  \/ \E i \in 1..Len(src) : Near(src[i], p, r.tol) /\
       \E j \in 1..Len(src) : i # j /\ Near(src[j], p, r.tol)
Vertices(r, src, E) == \A k \in {E[i][1] : i \in 1..Len(E)} \cup {E[i][2] : i \in 1..Len(E)} : VertexOk(r, src, k)
Faithful(r, src, S) == \A i \in 1..Len(S) : \E j \in 1..Len(src) : Near(src[j], S[i][1], r.tol) /\ Near(src[j], S[i][2], r.tol)
Region(r, src, S) == \A i \in 1..Len(r.pts) :
   LET p == r.pts[i] IN (\A j \in 1..Len(src) : Far(src[j], p, r.tol + 1)) => (InF(r, p) = Odd(Crossings(S, p)))
Subset(r) == {{r.red[i][1], r.red[i][2]} : i \in 1..Len(r.red)} \subseteq {{r.arr[i][1], r.arr[i][2]} : i \in 1..Len(r.arr)}

ArrVerdict(r) ==
  LET src == Src(r)
      A == Seg(r, r.arr)
      D == Seg(r, r.red)
  IN IF ~Proper(r.arr) THEN "arrangement: degenerate edge"
  ELSE IF ~Unique(r.arr) THEN "arrangement: duplicate edge"
  ELSE IF r.exact /\ ~NonCrossing(A) THEN "arrangement: edges meet outside of their common ends"
  ELSE IF r.x # 0 THEN "arrangement: the library itself finds an intersection left"
  ELSE IF ~Vertices(r, src, r.arr) THEN "arrangement: a vertex is neither an input vertex nor near a crossing"
  ELSE IF ~Faithful(r, src, A) THEN "arrangement: an edge strays from every input edge"
  ELSE IF ~Subset(r) THEN "reduce: an edge is not in the arrangement"
  ELSE IF ~Unique(r.red) THEN "reduce: duplicate edge"
  ELSE IF ~Even(r.red, Len(r.v)) THEN "reduce: a vertex has odd degree"
  ELSE IF ~Region(r, src, D) THEN "reduce: the region is not the boolean function of the operands"
  ELSE IF (r.empty = 1) # (r.red = <<>>) THEN "reduce: emptiness reported wrongly"
  ELSE ""

(* --------------------------------------------- triangles and outlines *)
(* which side of the edge i of S is inside, exactly: 1 if it is on the    *)
(* right of (a, b); coordinates doubled, ray from the middle              *)
RightInside(S, i) ==
  LET a == S[i][1] b == S[i][2]
      m == <<a[1] + b[1], a[2] + b[2]>>
      D(p) == <<2 * p[1], 2 * p[2]>>
      vert == a[1] = b[1]
      above == Cardinality({j \in 1..Len(S) : j # i /\ LET c == D(S[j][1]) d == D(S[j][2]) IN
         IF vert THEN (c[2] > m[2]) # (d[2] > m[2]) /\ (IF d[2] > c[2] THEN CrossS(c, d, m) > 0 ELSE CrossS(c, d, m) < 0)
         ELSE (c[1] > m[1]) # (d[1] > m[1]) /\ (IF d[1] > c[1] THEN CrossS(c, d, m) < 0 ELSE CrossS(c, d, m) > 0)})
  IN \* vert: odd means the place to the right (+x) of it is inside; otherwise: the place above it
     IF vert THEN Odd(above) = (b[2] > a[2]) ELSE Odd(above) = (b[1] < a[1])
(* the boundary as directed edges, inside on the right *)
Boundary(r) == LET S == Seg(r, r.red) IN
   {IF RightInside(S, i) THEN <<r.red[i][1], r.red[i][2]>> ELSE <<r.red[i][2], r.red[i][1]>> : i \in 1..Len(r.red)}
TriEdges(t) == {<<t[1], t[2], t[4] % 2>>, <<t[2], t[3], (t[4] \div 2) % 2>>, <<t[3], t[1], (t[4] \div 4) % 2>>}
PEdges(p) == [i \in 1..Len(p) |-> <<p[i], p[(i % Len(p)) + 1]>>]
TriVerdict(r) ==
  IF r.exact /\ (~Proper(r.arr) \/ ~Unique(r.arr) \/ ~NonCrossing(Seg(r, r.red)) \/ ~Even(r.red, Len(r.v))) THEN ""
  ELSE IF r.polyok # 1 THEN "paths: refused although the arrangement is valid"
  ELSE IF r.triok # 1 THEN "triangles: refused although the arrangement is valid"
  ELSE LET bd == IF r.exact THEN Boundary(r) ELSE {}
           und == {{r.red[i][1], r.red[i][2]} : i \in 1..Len(r.red)}
           pe == FlattenSeq([i \in 1..Len(r.path) |-> PEdges(r.path[i])])
           ps == {pe[i] : i \in 1..Len(pe)}
           te == UNION {{<<e[1], e[2], e[3], i>> : e \in TriEdges(r.tri[i])} : i \in 1..Len(r.tri)}
           td == {<<e[1], e[2]>> : e \in te}
           outl == {<<e[1], e[2]>> : e \in {x \in te : x[3] = 1}}
           inn == {<<e[1], e[2]>> : e \in {x \in te : x[3] = 0}}
       IN IF \E i \in 1..Len(r.path) : Len(r.path[i]) < 3 \/ Cardinality({r.path[i][k] : k \in 1..Len(r.path[i])}) # Len(r.path[i])
          THEN "paths: a path visits a vertex twice"
          ELSE IF Cardinality(ps) # Len(pe) \/ Len(pe) # Len(r.red) THEN "paths: a boundary edge is not traversed exactly once"
          ELSE IF r.exact /\ ps # bd THEN "paths: not the boundary with its inside on the right"
          ELSE IF {{e[1], e[2]} : e \in ps} # und THEN "paths: not the boundary edges"
          ELSE IF \E i \in 1..Len(r.tri) : Cardinality({r.tri[i][1], r.tri[i][2], r.tri[i][3]}) # 3 THEN "triangles: degenerate"
          ELSE IF r.exact /\ \E i \in 1..Len(r.tri) : CrossS(r.v[r.tri[i][1]], r.v[r.tri[i][2]], r.v[r.tri[i][3]]) >= 0
          THEN "triangles: degenerate or not clockwise"
          ELSE IF Cardinality(td) # 3 * Len(r.tri) THEN "triangles: two triangles are on the same side of an edge"
          ELSE IF r.exact /\ outl # bd THEN "triangles: the marked edges are not the boundary with its inside on the right"
          ELSE IF {{e[1], e[2]} : e \in outl} # und THEN "triangles: the marked edges are not the boundary"
          ELSE IF \E e \in inn : <<e[2], e[1]>> \notin inn THEN "triangles: an inner edge has no triangle on its other side"
          ELSE ""

Verdict(r) == IF "crash" \in DOMAIN r THEN "the library failed: " \o r.crash
              ELSE IF PART = "arr" THEN ArrVerdict(r) ELSE TriVerdict(r)
Init == /\ sh \in 1..SHARDS /\ pos = sh
        /\ verdict = IF sh <= N THEN Verdict(Trace[sh]) ELSE ""
Next == /\ pos + SHARDS <= N
        /\ pos' = pos + SHARDS /\ sh' = sh
        /\ verdict' = Verdict(Trace[pos'])
Spec == Init /\ [][Next]_vars
Report == verdict # "" => PrintT(ToJson([at |-> pos, what |-> verdict]))
=============================================================================
