------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Families of 2D paths and closed polyhedra the program generators draw   *)
(* from.  Faces are clockwise when viewed from outside, as the dialect     *)
(* demands.                                                                *)
(***************************************************************************)
EXTENDS ScadSem, Randomization

CONSTANT RAND          \* TRUE: choose one element at random; FALSE: all
Pick(S) == IF RAND THEN {RandomElement(S)} ELSE S

Dir8 == << <<1,0>>, <<1,1>>, <<0,1>>, <<-1,1>>, <<-1,0>>, <<-1,-1>>, <<0,-1>>, <<1,-1>> >>

(* star-shaped path with vertices on the eight compass directions, ccw *)
StarPath(rs) == [i \in 1..8 |-> <<rs[i] * Dir8[i][1], rs[i] * Dir8[i][2]>>]

(* fixed simple paths, counter-clockwise, no three consecutive collinear *)
Paths == <<
  << <<0,0>>, <<3,0>>, <<0,2>> >>,
  << <<-1,-2>>, <<2,-1>>, <<1,2>>, <<-2,1>> >>,
  << <<0,0>>, <<3,0>>, <<3,1>>, <<1,1>>, <<1,3>>, <<0,3>> >>,
  << <<-2,-1>>, <<2,-1>>, <<2,2>>, <<1,2>>, <<1,0>>, <<-1,0>>, <<-1,2>>, <<-2,2>> >>,
  << <<0,0>>, <<3,-1>>, <<1,0>>, <<2,3>> >>,
  << <<-3,0>>, <<0,-2>>, <<3,0>>, <<0,-1>> >>,
  << <<0,0>>, <<2,0>>, <<2,1>>, <<3,1>>, <<3,2>>, <<1,2>>, <<1,1>>, <<0,1>> >>,
  << <<-3,-3>>, <<3,-3>>, <<3,3>>, <<-3,3>>, <<-3,2>>, <<2,2>>, <<2,-2>>, <<-3,-2>> >>,
  << <<-2,0>>, <<-1,-1>>, <<0,0>>, <<1,-1>>, <<2,0>>, <<1,1>>, <<0,2>>, <<-1,1>> >>,
  << <<0,-3>>, <<1,-1>>, <<3,0>>, <<1,1>>, <<0,3>>, <<-1,1>>, <<-3,0>>, <<-1,-1>> >> >>

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Idx(n) == [i \in 1..n |-> i - 1]

(* frustum/prism: bottom path at z=z0; top path = k*path + (dx,dy) at z=z1 *)
PrismPts(path, z0, z1, k, dx, dy) ==
  [i \in 1..(2 * Len(path)) |->
     IF i <= Len(path) THEN <<path[i][1], path[i][2], z0>>
     ELSE <<k * path[i - Len(path)][1] + dx, k * path[i - Len(path)][2] + dy, z1>>]
PrismFaces(n) ==
  << Idx(n), [i \in 1..n |-> 2 * n - i] >>
  \o [i \in 1..n |-> LET j == i % n IN <<i - 1, n + i - 1, n + j, j>>]
Prism(path, z0, z1, k, dx, dy) == Phd(PrismPts(path, z0, z1, k, dx, dy), PrismFaces(Len(path)))

(* cone over a path: apex above (z1 > z0) or below *)
ConePts(path, z0, ap) == [i \in 1..(Len(path) + 1) |->
     IF i <= Len(path) THEN <<path[i][1], path[i][2], z0>> ELSE ap]
ConeFaces(n, up) ==
  IF up THEN <<Idx(n)>> \o [i \in 1..n |-> <<i - 1, n, i % n>>]
  ELSE <<[i \in 1..n |-> n - i]>> \o [i \in 1..n |-> <<i % n, n, i - 1>>]
Cone(path, z0, ap) == Phd(ConePts(path, z0, ap), ConeFaces(Len(path), ap[3] > z0))

(* double cone: two apexes, one path *)
DblPts(path, z0, a1, a2) == [i \in 1..(Len(path) + 2) |->
     IF i <= Len(path) THEN <<path[i][1], path[i][2], z0>> ELSE IF i = Len(path) + 1 THEN a1 ELSE a2]
Dbl(path, z0, lo, hi) ==
  LET n == Len(path)
  IN Phd(DblPts(path, z0, lo, hi),
         [i \in 1..n |-> <<i - 1, n + 1, i % n>>] \o [i \in 1..n |-> <<i % n, n, i - 1>>])

(* square ring (a solid with a handle): outer half-size o, inner i, z0..z1,
   inner bottom/top may be raised to make slanted faces *)
RingPts(o, i, z0, z1, zi0, zi1) ==
  << <<-o,-o,z0>>, <<o,-o,z0>>, <<o,o,z0>>, <<-o,o,z0>>,
     <<-i,-i,zi0>>, <<i,-i,zi0>>, <<i,i,zi0>>, <<-i,i,zi0>>,
     <<-o,-o,z1>>, <<o,-o,z1>>, <<o,o,z1>>, <<-o,o,z1>>,
     <<-i,-i,zi1>>, <<i,-i,zi1>>, <<i,i,zi1>>, <<-i,i,zi1>> >>
RingFaces ==
  LET q(k) == k % 4 IN
  [k \in 1..4 |-> <<k - 1, q(k), 4 + q(k), 4 + k - 1>>]                  \* bottom
  \o [k \in 1..4 |-> <<8 + q(k), 8 + k - 1, 12 + k - 1, 12 + q(k)>>]     \* top
  \o [k \in 1..4 |-> <<k - 1, 8 + k - 1, 8 + q(k), q(k)>>]               \* outside
  \o [k \in 1..4 |-> <<4 + q(k), 12 + q(k), 12 + k - 1, 4 + k - 1>>]     \* inside
Ring(o, i, z0, z1, zi0, zi1) == Phd(RingPts(o, i, z0, z1, zi0, zi1), RingFaces)

(* box with a box cavity: two shells, the inner one reversed *)
BoxP(l, h) == << <<l[1],l[2],l[3]>>, <<h[1],l[2],l[3]>>, <<h[1],h[2],l[3]>>, <<l[1],h[2],l[3]>>,
                 <<l[1],l[2],h[3]>>, <<h[1],l[2],h[3]>>, <<h[1],h[2],h[3]>>, <<l[1],h[2],h[3]>> >>
BoxF(b) == LET s == PrismFaces(4) IN [i \in 1..6 |-> [j \in 1..Len(s[i]) |-> s[i][j] + b]]
Cavity(l, h, l2, h2) == Phd(BoxP(l, h) \o BoxP(l2, h2), BoxF(0) \o [i \in 1..6 |-> Rev(BoxF(8)[i])])
(* two separate boxes in one polyhedron *)
TwoBox(l, h, l2, h2) == Phd(BoxP(l, h) \o BoxP(l2, h2), BoxF(0) \o BoxF(8))

(* right-angled solid: a heap of unit columns on a 2x2 base would touch itself
   in edges; a staircase does not *)
StairPts == << <<0,0,0>>, <<3,0,0>>, <<3,0,1>>, <<2,0,1>>, <<2,0,2>>, <<1,0,2>>, <<1,0,3>>, <<0,0,3>>,
               <<0,2,0>>, <<3,2,0>>, <<3,2,1>>, <<2,2,1>>, <<2,2,2>>, <<1,2,2>>, <<1,2,3>>, <<0,2,3>> >>
StairFaces == << <<7,6,5,4,3,2,1,0>>, <<8,9,10,11,12,13,14,15>> >>
  \o [k \in 1..8 |-> <<k - 1, k % 8, 8 + (k % 8), 8 + k - 1>>]
Stair == Phd(StairPts, StairFaces)

RandPath(dd) == IF RAND THEN
              LET k == RandomElement(0..(Len(Paths) + 5)) IN
              IF k \in 1..Len(Paths) THEN Paths[k]
              ELSE StarPath(TLCEval([i \in 1..8 |-> RandomElement(1..3)]))
            ELSE Paths[1]
=============================================================================
