------------------------------ MODULE StlSolid ------------------------------
(***************************************************************************)
(* What one layer of the STL output has to be: the boundary of a right     *)
(* prism.  A record is one layer as written by hob3l, with coordinates in  *)
(* grid units and z = 0 (bottom) or 1 (top):                               *)
(*   t: sequence of triangles, each a sequence of three points <<x,y,z>>   *)
(*   n: their normals, in thousandths                                      *)
(* TLC walks over the recorded layers (several walkers side by side) and   *)
(* judges each by Verdict.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS FILE, SHARDS
Trace == ndJsonDeserialize(FILE)
N == Len(Trace)

VARIABLES sh, pos, verdict
vars == <<sh, pos, verdict>>

Abs(a) == IF a < 0 THEN -a ELSE a

Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
XY(p) == <<p[1], p[2]>>
Horizontal(t) == t[1][3] = t[2][3] /\ t[2][3] = t[3][3]
Wall(t) == \E i \in 1..3 : \E j \in 1..3 : i # j /\ XY(t[i]) = XY(t[j]) /\ t[i][3] # t[j][3]
Edges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}

InPlanes(r) == \A i \in 1..Len(r.t) : \A k \in 1..3 : r.t[i][k][3] \in {0, 1}
Shape(r) == \A i \in 1..Len(r.t) : Horizontal(r.t[i]) \/ Wall(r.t[i])
Proper(r) == \A i \in 1..Len(r.t) :
   LET t == r.t[i] IN Cardinality({t[1], t[2], t[3]}) = 3 /\ (Horizontal(t) => Cross(t[1], t[2], t[3]) # 0)
                      /\ (~Horizontal(t) => Cardinality({XY(t[1]), XY(t[2]), XY(t[3])}) = 2)
(* seen from above, the top is counter-clockwise and the bottom clockwise *)
Facing(r) == \A i \in 1..Len(r.t) : LET t == r.t[i] IN
   Horizontal(t) => IF t[1][3] = 1 THEN Cross(t[1], t[2], t[3]) > 0 ELSE Cross(t[1], t[2], t[3]) < 0
(* every directed edge of a horizontal plane occurs once, and once reversed;
   vertical edges (several prisms may meet in one) occur equally often both ways;
   diagonals of walls once *)
AllEdges(r) == UNION {{<<e, i>> : e \in Edges(r.t[i])} : i \in 1..Len(r.t)}
Vertical(e) == XY(e[1]) = XY(e[2])
Closed(r) ==
  LET A == AllEdges(r)
      H == {x \in A : ~Vertical(x[1])}
      D == {x[1] : x \in H}
      W == {x \in A : Vertical(x[1])}
      DW == {x[1] : x \in W}
  IN /\ Cardinality(D) = Cardinality(H)
     /\ \A e \in D : <<e[2], e[1]>> \in D
     /\ \A e \in DW : Cardinality({x \in W : x[1] = e}) = Cardinality({x \in W : x[1] = <<e[2], e[1]>>})
(* twice the area of the horizontal facets at height z, signed *)
Area(r, z) == FoldLeft(LAMBDA a, t : IF Horizontal(t) /\ t[1][3] = z THEN a + Cross(t[1], t[2], t[3]) ELSE a, 0, r.t)
SameArea(r) == Area(r, 1) = -Area(r, 0) /\ Area(r, 1) > 0
(* the normal of a facet points outward (by the right hand rule), has length one *)
Near(a, b, tol) == Abs(a - b) <= tol
NormalOk(t, m) ==
  IF Horizontal(t) THEN m = <<0, 0, IF t[1][3] = 1 THEN 1000 ELSE -1000>>
  ELSE LET \* two corners below each other, the third beside: the wall's direction
           i == CHOOSE i \in 1..3 : LET j == (i % 3) + 1 IN XY(t[i]) = XY(t[j])
           j == (i % 3) + 1
           k == (j % 3) + 1
           up == t[j][3] - t[i][3]
           \* (t[j]-t[i]) x (t[k]-t[i]) for a vertical first edge
           dx == t[k][1] - t[i][1]  dy == t[k][2] - t[i][2]
           nx == -up * dy   ny == up * dx
           big == IF Abs(nx) > Abs(ny) THEN Abs(nx) ELSE Abs(ny)
       IN /\ m[3] = 0
          /\ Near(m[1] * m[1] + m[2] * m[2], 1000000, 4000)
          /\ Near(m[1] * ny, m[2] * nx, 3 * big + 3)
          /\ (nx # 0 /\ Abs(m[1]) > 2 => (m[1] > 0) = (nx > 0))
          /\ (ny # 0 /\ Abs(m[2]) > 2 => (m[2] > 0) = (ny > 0))
Normals(r) == \A i \in 1..Len(r.t) : NormalOk(r.t[i], r.n[i])

Verdict(r) ==
  IF ~InPlanes(r) THEN "a vertex is neither at the bottom nor at the top of its layer"
  ELSE IF ~Proper(r) THEN "a triangle is degenerate"
  ELSE IF ~Shape(r) THEN "a facet is neither horizontal nor vertical"
  ELSE IF ~Facing(r) THEN "a horizontal facet faces inward"
  ELSE IF ~Closed(r) THEN "an edge is not matched by its reverse"
  ELSE IF ~SameArea(r) THEN "top and bottom differ in area"
  ELSE IF ~Normals(r) THEN "a normal does not match its facet"
  ELSE ""

Init == /\ sh \in 1..SHARDS /\ pos = sh
        /\ verdict = IF sh <= N THEN Verdict(Trace[sh]) ELSE ""
Next == /\ pos + SHARDS <= N
        /\ pos' = pos + SHARDS /\ sh' = sh
        /\ verdict' = Verdict(Trace[pos'])
Spec == Init /\ [][Next]_vars
(* always true: reports the bad ones *)
Report == verdict # "" => PrintT(ToJson([at |-> pos, what |-> verdict]))
=============================================================================
