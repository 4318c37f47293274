------------------------------ MODULE ScadSem ------------------------------
(***************************************************************************)
(* Denotational semantics of the SCAD dialect of hob3l: which points of    *)
(* space belong to a program.  A program is a tree of records (built with  *)
(* the constructor operators below, which also precompute what the         *)
(* evaluation needs).  A point is a homogeneous integer tuple              *)
(*    <<x, y, z, w>>            or   <<x, y, z, w, dx, dy, dz>>            *)
(* meaning (x/w, y/w, z/w); the second form means "an infinitesimal step   *)
(* away in direction d", which is how a layer exactly at the height of a   *)
(* horizontal face is defined (what starts at the height is in, what ends  *)
(* there is out).                                                          *)
(*                                                                         *)
(* Truth is three-valued: 1 in, 0 out, 2 "too close to a boundary of some  *)
(* solid for the fixed-point arithmetic of an implementation to decide"    *)
(* (closer than MARGIN), combined by Kleene logic.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Trig

YES == 1
NO == 0
UNK == 2
MD == 64        \* a boundary is "close" within 1/MD local units

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* round a/b to nearest, b > 0 *)
DivR(a, b) == (2 * a + b) \div (2 * b)

Not3(a) == IF a = UNK THEN UNK ELSE 1 - a
And3(a, b) == IF a = NO \/ b = NO THEN NO ELSE IF a = UNK \/ b = UNK THEN UNK ELSE YES
Or3(a, b)  == IF a = YES \/ b = YES THEN YES ELSE IF a = UNK \/ b = UNK THEN UNK ELSE NO
Xor3(a, b) == IF a = UNK \/ b = UNK THEN UNK ELSE (a + b) % 2

(***************************************************************************)
(* Matrices.  An affine map is [m |-> <<r1, r2, r3>>, d |-> den] with rows *)
(* of four integers: (x,y,z) -> (m * (x,y,z,1)) / d,  d > 0.               *)
(***************************************************************************)
MatId == [m |-> << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>> >>, d |-> 1]

MatNorm(M) ==
  LET row(r, g) == Gcd(Gcd(Gcd(Gcd(g, Abs(r[1])), Abs(r[2])), Abs(r[3])), Abs(r[4]))
      g == row(M.m[3], row(M.m[2], row(M.m[1], M.d)))
  IN IF g <= 1 THEN M
     ELSE [m |-> [i \in 1..3 |-> [j \in 1..4 |->
                    IF M.m[i][j] >= 0 THEN M.m[i][j] \div g ELSE -((-M.m[i][j]) \div g)]],
           d |-> M.d \div g]

MatMul(A, B) ==     \* first B, then A
  MatNorm([m |-> [i \in 1..3 |-> [j \in 1..4 |->
             A.m[i][1] * B.m[1][j] + A.m[i][2] * B.m[2][j] + A.m[i][3] * B.m[3][j]
             + (IF j = 4 THEN A.m[i][4] * B.d ELSE 0)]],
           d |-> A.d * B.d])

Det3(M) ==
  LET a == M.m IN
    a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2])
  - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1])
  + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])

(* inverse: x = R y / d + t / d   ==>   y = d R^-1 x - R^-1 t *)
MatInv(M) ==
  LET a == M.m
      dt == Det3(M)
      s == Sgn(dt)
      cof(i, j) ==  \* adj(R)[i][j]
        LET r1 == IF j = 1 THEN 2 ELSE 1   r2 == IF j = 3 THEN 2 ELSE 3
            c1 == IF i = 1 THEN 2 ELSE 1   c2 == IF i = 3 THEN 2 ELSE 3
            v  == a[r1][c1] * a[r2][c2] - a[r1][c2] * a[r2][c1]
        IN IF (i + j) % 2 = 0 THEN v ELSE -v
      row(i) == << s * M.d * cof(i,1), s * M.d * cof(i,2), s * M.d * cof(i,3),
                   -s * (cof(i,1) * a[1][4] + cof(i,2) * a[2][4] + cof(i,3) * a[3][4]) >>
  IN MatNorm([m |-> <<row(1), row(2), row(3)>>, d |-> Abs(dt)])

(* rows map a point to one point, axes to axes: floating point stays exact *)
MatExact(M) == M.d \in {1, 2, 4, 8}

Shrink(p) ==
  IF Max2(Max2(Abs(p[1]), Abs(p[2])), Max2(Abs(p[3]), p[4])) < 400 THEN p
  ELSE LET g == Gcd(Gcd(Gcd(p[4], Abs(p[1])), Abs(p[2])), Abs(p[3]))
           q == IF g <= 1 THEN p
                ELSE [i \in 1..Len(p) |->
                        IF i > 4 THEN p[i]
                        ELSE IF p[i] >= 0 THEN p[i] \div g ELSE -((-p[i]) \div g)]
       IN q

TooBig(p) == Abs(p[1]) > 12000 \/ Abs(p[2]) > 12000 \/ Abs(p[3]) > 12000 \/ p[4] > 12000

(* apply an (inverse) affine map to a point; ex: keep the direction.
   An eighth component tells that the layer's plane is not z = const here. *)
Level(p) == Len(p) = 7
Apply(M, ex, p) ==
  LET r == M.m
      f(i) == r[i][1] * p[1] + r[i][2] * p[2] + r[i][3] * p[3] + r[i][4] * p[4]
      g(i) == r[i][1] * p[5] + r[i][2] * p[6] + r[i][3] * p[7]
  IN IF Len(p) >= 7 /\ ex
     THEN Shrink(<<f(1), f(2), f(3), M.d * p[4], g(1), g(2), g(3)>>
                 \o (IF Len(p) = 8 \/ r[3][1] # 0 \/ r[3][2] # 0 THEN <<1>> ELSE <<>>))
     ELSE Shrink(<<f(1), f(2), f(3), M.d * p[4]>>)

(***************************************************************************)
(* Leaf membership                                                         *)
(***************************************************************************)
(* is the normal n parallel to the direction of p?  Only then does a step in
   that direction decide on which side of the face a point of its plane is as
   seen in the layer's plane *)
Parallel(n, p) ==
  /\ n[1] * p[6] = n[2] * p[5]
  /\ n[1] * p[7] = n[3] * p[5]
  /\ n[2] * p[7] = n[3] * p[6]

(* half-space h = <<nx, ny, nz, c>>:  n . p <= c *)
HalfIn(h, p) ==
  LET sl == h[4] * p[4] - (h[1] * p[1] + h[2] * p[2] + h[3] * p[3])
      n1 == Abs(h[1]) + Abs(h[2]) + Abs(h[3])
  IN IF sl = 0
     THEN IF Len(p) >= 7
          THEN LET nd == h[1] * p[5] + h[2] * p[6] + h[3] * p[7]
               IN IF nd = 0 \/ ~Parallel(h, p) THEN UNK ELSE IF nd < 0 THEN YES ELSE NO
          ELSE UNK
     ELSE IF Abs(sl) <= (p[4] * n1) \div MD THEN UNK
     ELSE IF sl > 0 THEN YES ELSE NO

RECURSIVE ConvexIn(_, _, _, _)
ConvexIn(hs, i, p, acc) ==
  IF i > Len(hs) THEN acc
  ELSE LET v == HalfIn(hs[i], p)
       IN IF v = NO THEN NO
          ELSE ConvexIn(hs, i + 1, p, IF v = UNK THEN UNK ELSE acc)

(* Cosines in units of 1/16384, of hundredths of a degree: the power series *)
CosUp45(c) == LET x == (c * 28596) \div 10000
                  x2 == (x * x) \div 16384
                  x4 == (x2 * x2) \div 16384
                  x6 == (x4 * x2) \div 16384
              IN 16384 - x2 \div 2 + x4 \div 24 - x6 \div 720
SinUp45(c) == LET x == (c * 28596) \div 10000
                  x2 == (x * x) \div 16384
                  x3 == (x2 * x) \div 16384
                  x5 == (x3 * x2) \div 16384
                  x7 == (x5 * x2) \div 16384
              IN x - x3 \div 6 + x5 \div 120 - x7 \div 5040
CosQ == [c \in 0..9000 |-> IF c <= 4500 THEN CosUp45(c) ELSE SinUp45(9000 - c)]
CosH(c0) == LET c == c0 % 36000 IN
  IF c <= 9000 THEN CosQ[c] ELSE IF c <= 18000 THEN -CosQ[18000 - c] ELSE IF c <= 27000 THEN -CosQ[c - 18000] ELSE CosQ[36000 - c]
SinH(c) == CosH(c + 27000)

(* A sphere of fn > 0 sides is the polyhedron of OpenSCAD: rings of regular polygons,
   half a step away from the poles.  fn = 0, or more than the largest number of sides
   (100), is a true sphere whose cuts are polygons; n + 1000 is one with cuts of n corners. *)
SphRing(n, i) == ((2 * i + 1) * 9000) \div n
RECURSIVE SphBelow(_, _, _), SphReach(_, _, _, _)
SphBelow(n, i, z) == IF CosH(SphRing(n, i + 1)) < z THEN i ELSE SphBelow(n, i + 1, z)
SphReach(fn, j, x, y) ==          \* the largest distance along the normals of the sides j..fn-1
  IF j >= fn THEN -40000
  ELSE LET h == ((2 * j + 1) * 18000) \div fn
           u == (x * CosH(h) + y * SinH(h)) \div 16384
       IN Max2(u, SphReach(fn, j + 1, x, y))
SphereIn(r, fn, p) ==
  LET w == p[4]
      rr == r * w
      ro == rr + rr \div 64 + w \div 64 + 1
      far == Max2(Abs(p[1]), Max2(Abs(p[2]), Abs(p[3])))
  IN IF far > ro THEN NO
     ELSE IF ro > 12000 THEN UNK
     ELSE LET tol == 256 \div r + 12
              x == (p[1] * 16384) \div rr  y == (p[2] * 16384) \div rr  z == (Abs(p[3]) * 16384) \div rr
              d2 == x * x + y * y + z * z
              lo == 16384 + tol
              smooth == fn = 0 \/ fn > 100
              n == IF fn > 1000 THEN fn - 1000 ELSE 100
          IN IF x > 20000 \/ x < -20000 \/ y > 20000 \/ y < -20000 \/ z > 20000 THEN NO
             ELSE IF d2 > lo * lo THEN NO
             ELSE IF smooth
             THEN LET li == CosH(18000 \div n) - tol IN IF li > 0 /\ d2 < li * li THEN YES ELSE UNK
             ELSE LET k == (fn + 1) \div 2
                      top == CosH(SphRing(k, 0))
                  IN IF z > top + tol THEN NO
                     ELSE IF z >= top - tol THEN UNK
                     ELSE LET i == SphBelow(k, 0, z)
                              a == SphRing(k, i)  b == SphRing(k, i + 1)
                              ra == SinH(a)  rb == SinH(b)  za == CosH(a)  zb == CosH(b)
                              rad == ra + ((rb - ra) * (za - z)) \div (za - zb)
                              apo == (rad * CosH(18000 \div fn)) \div 16384
                              u == SphReach(fn, 0, x, y)
                          IN IF u > apo + tol THEN NO ELSE IF u < apo - tol THEN YES ELSE UNK

(* even-odd path region: number of edges crossed by the ray in +x direction;
   points of pts are integers, p homogeneous *)
EdgeNear(a, b, p) ==
  LET w == p[4]
      ax == a[1] * w - p[1]   ay == a[2] * w - p[2]
      bx == b[1] * w - p[1]   by == b[2] * w - p[2]
      m == w \div 32 + 1
  IN /\ Min2(ax, bx) <= m /\ Max2(ax, bx) >= -m
     /\ Min2(ay, by) <= m /\ Max2(ay, by) >= -m
     /\ Abs(ax * by - ay * bx) <= ((Abs(ax - bx) + Abs(ay - by)) * (w + MD - 1)) \div MD

EdgeCross(a, b, p) ==
  LET w == p[4]
      ax == a[1] * w - p[1]   ay == a[2] * w - p[2]
      bx == b[1] * w - p[1]   by == b[2] * w - p[2]
  IN IF (ay > 0) = (by > 0) THEN 0
     ELSE LET c == ax * by - ay * bx     \* sign: side of the origin
          IN IF (by > ay /\ c > 0) \/ (by < ay /\ c < 0) THEN 1 ELSE 0

RECURSIVE PathParity(_, _, _, _, _)
PathParity(pts, path, i, p, acc) ==
  IF i > Len(path) THEN acc
  ELSE LET a == pts[path[i] + 1]
           b == pts[path[IF i = Len(path) THEN 1 ELSE i + 1] + 1]
       IN IF EdgeNear(a, b, p) THEN UNK
          ELSE PathParity(pts, path, i + 1, p, (acc + EdgeCross(a, b, p)) % 2)

RECURSIVE PathsParity(_, _, _, _, _)
PathsParity(pts, paths, i, p, acc) ==
  IF i > Len(paths) THEN acc
  ELSE LET v == PathParity(pts, paths[i], 1, p, 0)
       IN IF v = UNK THEN UNK ELSE PathsParity(pts, paths, i + 1, p, (acc + v) % 2)

(* Polyhedron: pts integer points, tri: triangles (fans of the faces).
   Parity of the surface crossings of the ray in +x direction, just above
   the plane through p (direction d, or +z). *)
TriNear(a, b, c, p) ==
  LET w == p[4]
      m == w \div 32 + 1
      ax == a[1] * w - p[1]   ay == a[2] * w - p[2]  az == a[3] * w - p[3]
      bx == b[1] * w - p[1]   by == b[2] * w - p[2]  bz == b[3] * w - p[3]
      cx == c[1] * w - p[1]   cy == c[2] * w - p[2]  cz == c[3] * w - p[3]
  IN /\ Min2(ax, Min2(bx, cx)) <= m /\ Max2(ax, Max2(bx, cx)) >= -m
     /\ Min2(ay, Min2(by, cy)) <= m /\ Max2(ay, Max2(by, cy)) >= -m
     /\ Min2(az, Min2(bz, cz)) <= m /\ Max2(az, Max2(bz, cz)) >= -m
     /\ LET ux == b[1] - a[1] uy == b[2] - a[2] uz == b[3] - a[3]
            vx == c[1] - a[1] vy == c[2] - a[2] vz == c[3] - a[3]
            nx == uy * vz - uz * vy
            ny == uz * vx - ux * vz
            nz == ux * vy - uy * vx
            s  == nx * ax + ny * ay + nz * az
        IN IF s = 0 /\ Len(p) >= 7 /\ Parallel(<<nx, ny, nz>>, p) THEN FALSE
           ELSE Abs(s) <= ((Abs(nx) + Abs(ny) + Abs(nz)) * (w + MD - 1)) \div MD

(* does the ray from p in +x direction hit the triangle?  Parity of edges in
   the (y,z) projection, half-open in y and z, and the side of the plane *)
TriCross(a, b, c, p) ==
  LET w == p[4]
      A == <<a[1] * w - p[1], a[2] * w - p[2], a[3] * w - p[3]>>
      B == <<b[1] * w - p[1], b[2] * w - p[2], b[3] * w - p[3]>>
      C == <<c[1] * w - p[1], c[2] * w - p[2], c[3] * w - p[3]>>
      up(q) == q[3] > 0
      \* where does edge q-r cross the plane z = 0+: parity of y > 0
      e(q, r) == IF up(q) = up(r) THEN 0
                 ELSE LET cr == q[2] * r[3] - q[3] * r[2]
                      IN IF (r[3] > q[3] /\ cr > 0) \/ (r[3] < q[3] /\ cr < 0) THEN 1 ELSE 0
  IN IF up(A) = up(B) /\ up(B) = up(C) THEN 0
     ELSE IF (e(A, B) + e(B, C) + e(C, A)) % 2 = 0 THEN 0
     ELSE LET ux == b[1] - a[1] uy == b[2] - a[2] uz == b[3] - a[3]
              vx == c[1] - a[1] vy == c[2] - a[2] vz == c[3] - a[3]
              nx == uy * vz - uz * vy
              ny == uz * vx - ux * vz
              nz == ux * vy - uy * vx
              s  == nx * A[1] + ny * A[2] + nz * A[3]
          IN \* the plane is hit at x > 0 iff s and nx have the same sign
             IF Sgn(s) * Sgn(nx) > 0 THEN 1 ELSE 0

RECURSIVE TriParity(_, _, _, _, _)
TriParity(pts, tri, i, p, acc) ==
  IF i > Len(tri) THEN acc
  ELSE LET a == pts[tri[i][1]]  b == pts[tri[i][2]]  c == pts[tri[i][3]]
       IN IF TriNear(a, b, c, p) THEN UNK
          ELSE TriParity(pts, tri, i + 1, p, (acc + TriCross(a, b, c, p)) % 2)

(* canonical frame: direction d along an axis becomes +z *)
Canon(ax, sg, q) ==
  LET t == IF ax = 1 THEN <<q[3], q[2], q[1]>> ELSE IF ax = 2 THEN <<q[1], q[3], q[2]>> ELSE q
  IN <<t[1], t[2], sg * t[3]>>

PolyIn(n, p) ==
  LET w == p[4]
      out == \E i \in 1..3 : p[i] < n.lo[i] * w - 1 - w \div 32 \/ p[i] > n.hi[i] * w + 1 + w \div 32
      ext == Max2(n.hi[1] - n.lo[1], Max2(n.hi[2] - n.lo[2], n.hi[3] - n.lo[3]))
      hasd == Len(p) >= 7
      nz == IF hasd THEN Cardinality({i \in 5..7 : p[i] # 0}) ELSE 0
  IN IF out THEN NO
     ELSE IF ext * w > 600 THEN UNK
     ELSE IF ~hasd THEN
          IF \E i \in 1..Len(n.pts) : n.pts[i][3] * w = p[3] \/ n.pts[i][2] * w = p[2] THEN UNK
          ELSE TriParity(n.pts, n.tri, 1, p, 0)
     ELSE IF nz # 1 THEN UNK
     ELSE LET ax == CHOOSE i \in 1..3 : p[i + 4] # 0
              sg == Sgn(p[ax + 4])
              pc == Canon(ax, sg, <<p[1], p[2], p[3]>>)
              pp == IF ax = 3 /\ sg = 1 THEN n.pts
                    ELSE [i \in 1..Len(n.pts) |-> Canon(ax, sg, n.pts[i])]
          IN TriParity(pp, n.tri, 1, <<pc[1], pc[2], pc[3], w, 0, 0, 1>>, 0)

(***************************************************************************)
(* Constructors.  Every node has                                           *)
(*   k    kind                       ig   ignored by the documented rule   *)
(*   f, a functor name and arguments as written (for printing)             *)
(*   c    children                   mo   modifier character               *)
(***************************************************************************)
AllIg(c) == \A i \in 1..Len(c) : c[i].ig

Leaf(k, f, a) == [k |-> k, f |-> f, a |-> a, c |-> <<>>, ig |-> FALSE, mo |-> ""]
Pos(v) == [n |-> "", v |-> v]
Nam(n, v) == [n |-> n, v |-> v]
Rat(n, d) == IF d = 1 THEN [n |-> n, d |-> 1] ELSE [n |-> n, d |-> d]

(* [0,a]x[0,b]x[0,c] or centered *)
BoxHs(s, ce) ==
  IF ce THEN << <<2,0,0,s[1]>>, <<-2,0,0,s[1]>>, <<0,2,0,s[2]>>, <<0,-2,0,s[2]>>, <<0,0,2,s[3]>>, <<0,0,-2,s[3]>> >>
  ELSE << <<1,0,0,s[1]>>, <<-1,0,0,0>>, <<0,1,0,s[2]>>, <<0,-1,0,0>>, <<0,0,1,s[3]>>, <<0,0,-1,0>> >>

CvxNode(f, a, hs) == [Leaf("cvx", f, a) EXCEPT !.c = <<>>] @@ [hs |-> hs]
CubeHs(f, a, s, ce) == CvxNode(f, a, BoxHs(s, ce))
Cube(s, ce) == CubeHs("cube", <<Pos(s), Nam("center", ce)>>, s, ce)

(* frustum of a regular n-gon, height h, radii r1, r2 *)
CylHs(h, r1, r2, ce, fn) ==
  LET g == Ngon(fn)
      zlo == IF ce THEN <<0,0,-2,h>> ELSE <<0,0,-1,0>>
      zhi == IF ce THEN <<0,0,2,h>> ELSE <<0,0,1,h>>
      \* h*(nx x + ny y) - a (r2-r1) z' <= a r1 h,  z' = z (+ h/2)
      side(i) == <<2 * h * g.n[i][1], 2 * h * g.n[i][2], -2 * g.a * (r2 - r1),
                   2 * g.a * r1 * h + (IF ce THEN g.a * (r2 - r1) * h ELSE 0)>>
  IN <<zlo, zhi>> \o [i \in 1..fn |-> side(i)]
CylA(f, a, h, r1, r2, ce, fn) == CvxNode(f, a, CylHs(h, r1, r2, ce, fn))
Cyl(h, r1, r2, ce, fn) ==
  CylA("cylinder", <<Nam("h", h), Nam("r1", r1), Nam("r2", r2), Nam("center", ce), Nam("$fn", fn)>>, h, r1, r2, ce, fn)

SphA(f, a, r, fn) == Leaf("sph", f, a) @@ [r |-> r, fn |-> fn]
Sph(r, fn) == SphA("sphere", <<Pos(r), Nam("$fn", fn)>>, r, fn)

RECURSIVE FanAll(_, _)
FanAll(faces, i) ==
  IF i > Len(faces) THEN <<>>
  ELSE [j \in 1..(Len(faces[i]) - 2) |-> <<faces[i][1] + 1, faces[i][j + 1] + 1, faces[i][j + 2] + 1>>]
       \o FanAll(faces, i + 1)
SeqMin(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
SeqMax(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m >= s[i]
PhdA(f, a, pts, faces) ==
  Leaf("phd", f, a) @@
  [pts |-> pts, tri |-> FanAll(faces, 1),
   lo |-> [j \in 1..3 |-> SeqMin([i \in 1..Len(pts) |-> pts[i][j]])],
   hi |-> [j \in 1..3 |-> SeqMax([i \in 1..Len(pts) |-> pts[i][j]])]]
Phd(pts, faces) == PhdA("polyhedron", <<Nam("points", pts), Nam("faces", faces)>>, pts, faces)

(* 2D leaves *)
Sqr(s, ce) == Leaf("cvx", "square", <<Pos(s), Nam("center", ce)>>) @@
   [hs |-> IF ce THEN << <<2,0,0,s[1]>>, <<-2,0,0,s[1]>>, <<0,2,0,s[2]>>, <<0,-2,0,s[2]>> >>
           ELSE << <<1,0,0,s[1]>>, <<-1,0,0,0>>, <<0,1,0,s[2]>>, <<0,-1,0,0>> >>]
CirHs(r, fn) == LET g == Ngon(fn) IN [i \in 1..fn |-> <<g.n[i][1], g.n[i][2], 0, g.a * r>>]
Cir(r, fn) == Leaf("cvx", "circle", <<Nam("r", r), Nam("$fn", fn)>>) @@ [hs |-> CirHs(r, fn)]
PgnA(f, a, pts, paths) == Leaf("pgn", f, a) @@ [pts |-> pts, paths |-> paths]
Pgn(pts, paths) == PgnA("polygon", <<Nam("points", pts), Nam("paths", paths)>>, pts, paths)
Pgn1(pts) == PgnA("polygon", <<Pos(pts)>>, pts, <<[i \in 1..Len(pts) |-> i - 1]>>)

(* inner nodes *)
Op(op, c) == [k |-> op, f |-> op, a |-> <<>>, c |-> c, ig |-> AllIg(c), mo |-> ""]
Uni(c) == [Op("uni", c) EXCEPT !.f = "union"]
Grp(c) == [Op("uni", c) EXCEPT !.f = "group"]
Ren(c) == [Op("uni", c) EXCEPT !.f = "render"]
Blk(c) == [Op("uni", c) EXCEPT !.f = ""]        \* a bare block { ... }
Dif(c) == [Op("dif", c) EXCEPT !.f = "difference"]
Isc(c) == [Op("int", c) EXCEPT !.f = "intersection"]
Hul(c) == [Op("hul", c) EXCEPT !.f = "hull"]
Pro(c) == [Op("pro", c) EXCEPT !.f = "projection", !.a = <<Nam("cut", TRUE)>>]
(* a modifier precedes a functor; a bare block cannot have one *)
Mod(m, n) == [n EXCEPT !.mo = m, !.f = (IF @ = "" THEN "group" ELSE @), !.ig = (IF m \in {"*", "%"} THEN TRUE ELSE @)]

Xf(f, a, M, ex, c) ==
  [k |-> "xf", f |-> f, a |-> a, c |-> c, ig |-> AllIg(c), mo |-> "",
   fw |-> M, q |-> MatInv(M), ex |-> ex]
MatTra(v) == [m |-> << <<1,0,0,v[1]>>, <<0,1,0,v[2]>>, <<0,0,1,v[3]>> >>, d |-> 1]
Tra(v, c) == Xf("translate", <<Pos(v)>>, MatTra(v), TRUE, c)
MatScl(v, d) == [m |-> << <<v[1],0,0,0>>, <<0,v[2],0,0>>, <<0,0,v[3],0>> >>, d |-> d]
Scl(v, d, c) == Xf("scale", <<Pos([i \in 1..3 |-> Rat(v[i], d)])>>, MatScl(v, d), d \in {1,2,4}, c)
(* mirror at the plane with normal v (integers): 1 - 2 v v^T / |v|^2 *)
MatMir(v) ==
  LET n == v[1]*v[1] + v[2]*v[2] + v[3]*v[3]
      e(i, j) == (IF i = j THEN n ELSE 0) - 2 * v[i] * v[j]
  IN MatNorm([m |-> [i \in 1..3 |-> <<e(i,1), e(i,2), e(i,3), 0>>], d |-> n])
Mir(v, c) == Xf("mirror", <<Pos(v)>>, MatMir(v), Cardinality({i \in 1..3 : v[i] # 0}) = 1, c)
(* rotation about an axis a (1..3) with cos = co/d and sin = si/d *)
MatRot(a, co, si, d) ==
  LET z == <<0,0,0,0>> IN
  [m |-> IF a = 1 THEN << <<d,0,0,0>>, <<0,co,-si,0>>, <<0,si,co,0>> >>
         ELSE IF a = 2 THEN << <<co,0,si,0>>, <<0,d,0,0>>, <<-si,0,co,0>> >>
         ELSE << <<co,-si,0,0>>, <<si,co,0,0>>, <<0,0,d,0>> >>,
   d |-> d]
(* quarter turns and two Pythagorean angles: <<degrees as text, cos, sin, den>> *)
Angle(i) == CASE i = 0 -> <<"0", 1, 0, 1>>   [] i = 1 -> <<"90", 0, 1, 1>>
              [] i = 2 -> <<"180", -1, 0, 1>> [] i = 3 -> <<"270", 0, -1, 1>>
              [] i = 4 -> <<"-90", 0, -1, 1>> [] i = 5 -> <<"360", 1, 0, 1>>
              [] i = 6 -> <<"450", 0, 1, 1>>  [] i = 7 -> <<"-180", -1, 0, 1>>
              [] i = 8 -> <<"36.869897645844021", 4, 3, 5>>
              [] i = 9 -> <<"-53.130102354155979", 3, -4, 5>>
              [] i = 10 -> <<"126.869897645844021", -3, 4, 5>>
RotA(i, ax, c) ==     \* rotate(a, v)
  LET g == Angle(i) IN
  Xf("rotate", <<Pos([s |-> g[1]]), Pos([j \in 1..3 |-> IF j = ax THEN 1 ELSE 0])>>,
     MatRot(ax, g[2], g[3], g[4]), i < 8, c)
RotN(i, ax, c) ==     \* the same about the opposite axis of length 2
  LET g == Angle(i) IN
  Xf("rotate", <<Pos([s |-> g[1]]), Pos([j \in 1..3 |-> IF j = ax THEN -2 ELSE 0])>>,
     MatRot(ax, g[2], -g[3], g[4]), i < 8, c)
RotZ(i, c) ==         \* rotate(a)
  LET g == Angle(i) IN
  Xf("rotate", <<Pos([s |-> g[1]])>>, MatRot(3, g[2], g[3], g[4]), i < 8, c)
MatRot3(i, j, k) ==
  LET X == Angle(i) Y == Angle(j) Z == Angle(k) IN
  MatMul(MatRot(3, Z[2], Z[3], Z[4]),
    MatMul(MatRot(2, Y[2], Y[3], Y[4]), MatRot(1, X[2], X[3], X[4])))
Rot3(i, j, k, c) ==   \* rotate([x,y,z])
  Xf("rotate", <<Pos(<<[s |-> Angle(i)[1]], [s |-> Angle(j)[1]], [s |-> Angle(k)[1]]>>)>>,
     MatRot3(i, j, k), i < 8 /\ j < 8 /\ k < 8, c)
(* a third of a turn about the space diagonal: x -> y -> z -> x *)
RotD(c) == Xf("rotate", <<Pos(120), Pos(<<1,1,1>>)>>,
     [m |-> << <<0,0,1,0>>, <<1,0,0,0>>, <<0,1,0,0>> >>, d |-> 1], FALSE, c)
Mul(M, c) == Xf("multmatrix", <<Pos([i \in 1..4 |-> IF i = 4 THEN <<0,0,0,1>> ELSE M[i]])>>,
     [m |-> M, d |-> 1], FALSE, c)
Col(c) == Xf("color", <<Pos(<<1,0,0>>)>>, MatId, TRUE, c)

(* linear_extrude; scale sx/sd, sy/sd; twist in multiples of 15 degrees *)
ExtA(a, c, h, ce, sl, tw, sx, sy, sd) ==
  [k |-> "ext", f |-> "linear_extrude", a |-> a, c |-> c, ig |-> AllIg(c), mo |-> "",
   h |-> h, ce |-> ce, sl |-> sl, tw |-> tw, sx |-> sx, sy |-> sy, sd |-> sd]
Ext(c, h, ce) == ExtA(<<Nam("height", h), Nam("center", ce)>>, c, h, ce, 1, 0, 1, 1, 1)
ExtS(c, h, ce, sl, tw, sx, sy, sd) ==
  ExtA(<<Nam("height", h), Nam("center", ce), Nam("slices", sl), Nam("twist", 15 * tw),
         Nam("scale", IF sx = sy THEN Rat(sx, sd) ELSE <<Rat(sx, sd), Rat(sy, sd)>>)>>,
       c, h, ce, sl, tw, sx, sy, sd)
(* rotate_extrude by ang degrees (multiple of 15) in fn steps *)
RexA(a, c, fn, ang) ==
  [k |-> "rex", f |-> "rotate_extrude", a |-> a, c |-> c, ig |-> AllIg(c), mo |-> "",
   fn |-> fn, ang |-> ang]
Rex(c, fn) == RexA(<<Nam("$fn", fn)>>, c, fn, 360)
RexP(c, fn, ang) == RexA(<<Nam("angle", ang), Nam("$fn", fn)>>, c, fn, ang)

(***************************************************************************)
(* Forward vertices of a hull operand (2D nodes without boolean             *)
(* subtraction): rational points <<x, y, w>>                               *)
(***************************************************************************)
NgonPts(r, fn) == LET g == Ngon(fn) IN {<<r * g.u[i][1], r * g.u[i][2], g.s>> : i \in 1..fn}
Fwd2(M, q) ==
  LET r == M.m f(i) == r[i][1] * q[1] + r[i][2] * q[2] + r[i][4] * q[3]
      t == <<f(1), f(2), M.d * q[3]>>
      g == Gcd(Gcd(t[3], Abs(t[1])), Abs(t[2]))
      dv(a) == IF a >= 0 THEN a \div g ELSE -((-a) \div g)
  IN <<dv(t[1]), dv(t[2]), t[3] \div g>>

RECURSIVE Verts(_), VertsSeq(_, _)
VertsSeq(c, i) == IF i > Len(c) THEN {} ELSE Verts(c[i]) \cup VertsSeq(c, i + 1)
Verts(n) ==
  IF n.mo \in {"*", "%"} THEN {}
  ELSE CASE n.k = "cvx" /\ n.f = "square" ->
         LET s == n.a[1].v ce == n.a[2].v
         IN IF ce THEN {<<i * s[1], j * s[2], 2>> : i \in {-1, 1}, j \in {-1, 1}}
            ELSE {<<i * s[1], j * s[2], 1>> : i \in {0, 1}, j \in {0, 1}}
    [] n.k = "cvx" /\ n.f = "circle" -> NgonPts(n.a[1].v, n.a[2].v)
    [] n.k = "pgn" -> {<<n.pts[i][1], n.pts[i][2], 1>> : i \in 1..Len(n.pts)}
    [] n.k = "xf" -> {Fwd2(n.fw, q) : q \in VertsSeq(n.c, 1)}
    [] n.k \in {"uni", "hul"} -> VertsSeq(n.c, 1)
    [] OTHER -> {}

RECURSIVE HullOk(_)
HullOk(n) == /\ n.k \in {"cvx", "pgn", "xf", "uni", "hul"}
             /\ \A i \in 1..Len(n.c) : HullOk(n.c[i])

(* in the convex hull of the set V of rational points?  p is outside iff some
   line through two hull points has all of V on the other side *)
HullIn(V, p) ==
  LET w == p[4]
      N == {<<v[1] * 14, v[2] * 14, v[3]>> : v \in V}
      \* coordinates on a 1/56 grid, to keep the products small
      S == {<<DivR(v[1] * 56, v[3]), DivR(v[2] * 56, v[3])>> : v \in V}
      px == DivR(p[1] * 56, w)   py == DivR(p[2] * 56, w)
      cr(a, b, x, y) == (b[1] - a[1]) * (y - a[2]) - (b[2] - a[2]) * (x - a[1])
      edges == {<<a, b>> \in S \X S : a # b /\ \A v \in S : cr(a, b, v[1], v[2]) >= -56 }
      side(e) == LET c == cr(e[1], e[2], px, py)
                     l == Abs(e[1][1] - e[2][1]) + Abs(e[1][2] - e[2][2])
                 IN IF c > 3 * l THEN YES ELSE IF c < -3 * l THEN NO ELSE UNK
      vals == {side(e) : e \in edges}
  IN IF Cardinality(S) < 3 THEN UNK
     ELSE IF NO \in vals THEN NO ELSE IF UNK \in vals THEN UNK ELSE YES

(***************************************************************************)
(* The semantics                                                           *)
(***************************************************************************)
RECURSIVE In3(_, _), In2(_, _), Any3(_, _, _, _), Any2(_, _, _, _), All3(_, _, _, _), All2(_, _, _, _)

Any3(c, i, p, acc) ==
  IF i > Len(c) THEN acc
  ELSE LET v == In3(c[i], p) IN IF v = YES THEN YES ELSE Any3(c, i + 1, p, IF v = UNK THEN UNK ELSE acc)
Any2(c, i, p, acc) ==
  IF i > Len(c) THEN acc
  ELSE LET v == In2(c[i], p) IN IF v = YES THEN YES ELSE Any2(c, i + 1, p, IF v = UNK THEN UNK ELSE acc)
(* conjunction over the children that are not ignored; "no operand" is empty *)
All3(c, i, p, acc) ==
  IF i > Len(c) THEN acc
  ELSE IF c[i].ig THEN All3(c, i + 1, p, acc)
  ELSE LET v == In3(c[i], p) IN IF v = NO THEN NO ELSE All3(c, i + 1, p, IF v = UNK THEN UNK ELSE acc)
All2(c, i, p, acc) ==
  IF i > Len(c) THEN acc
  ELSE IF c[i].ig THEN All2(c, i + 1, p, acc)
  ELSE LET v == In2(c[i], p) IN IF v = NO THEN NO ELSE All2(c, i + 1, p, IF v = UNK THEN UNK ELSE acc)

Base(c) == IF \E i \in 1..Len(c) : ~c[i].ig
           THEN CHOOSE i \in 1..Len(c) : ~c[i].ig /\ \A j \in 1..(i - 1) : c[j].ig
           ELSE 0

(* the 2D point an extruded point comes from, on a 1/112 grid *)
ExtScaled(n, p, zz) ==    \* zz: 2*(height above the base)*w
  LET w == p[4]
      hw2 == 2 * n.h * w
      dx == hw2 * n.sd + (n.sx - n.sd) * zz      \* scale factor * hw2 * sd
      dy == hw2 * n.sd + (n.sy - n.sd) * zz
      q(x, d) == IF d <= 0 THEN 11000 ELSE
                 LET num == 112 * x * n.sd
                     \* (112 x / w) * (hw2 sd / d)
                     t == (num \div w) * hw2
                 IN Min2(11000, Max2(-11000, DivR(t, d)))
  IN <<q(p[1], dx), q(p[2], dy), 0, 112>>

(* twisted extrusion: exact only at the heights of the slices *)
ExtTwist(n, p, zz) ==
  LET w == p[4]
      hw2 == 2 * n.h * w
      k == (zz * n.sl) \div hw2
  IN IF (zz * n.sl) % hw2 # 0 \/ (n.tw * k) % n.sl # 0 THEN <<>>
     ELSE LET a == ((n.tw * k) \div n.sl) % 24      \* clockwise by a: invert by +a
              co == CosT[a + 1]  si == SinT[a + 1]
              s == ExtScaled(n, p, zz)
              x == s[1]  y == s[2]
          IN IF Abs(x) > 2000 \/ Abs(y) > 2000 THEN <<11000, 11000, 0, 112>>
             ELSE <<DivR(x * co - y * si, 1000), DivR(x * si + y * co, 1000), 0, 112>>

In3(n, p) ==
  IF n.mo \in {"*", "%"} THEN NO
  ELSE CASE n.k = "cvx" -> IF TooBig(p) THEN UNK ELSE ConvexIn(n.hs, 1, p, YES)
    [] n.k = "sph" -> SphereIn(n.r, n.fn, p)
    [] n.k = "phd" -> PolyIn(n, p)
    [] n.k = "uni" -> Any3(n.c, 1, p, NO)
    [] n.k = "dif" ->
         LET b == Base(n.c) IN
         IF b = 0 THEN NO
         ELSE LET v == In3(n.c[b], p) IN
              IF v = NO THEN NO ELSE And3(v, Not3(Any3(n.c, b + 1, p, NO)))
    [] n.k = "int" -> IF Base(n.c) = 0 THEN NO ELSE All3(n.c, 1, p, YES)
    [] n.k = "xf" -> Any3(n.c, 1, Apply(n.q, n.ex, p), NO)
    [] n.k = "ext" ->
         LET w == p[4]
             zz == 2 * p[3] + (IF n.ce THEN n.h * w ELSE 0)
             v == And3(HalfIn(IF n.ce THEN <<0,0,-2,n.h>> ELSE <<0,0,-1,0>>, p),
                       HalfIn(IF n.ce THEN <<0,0,2,n.h>> ELSE <<0,0,1,n.h>>, p))
         IN IF v = NO THEN NO
            ELSE IF TooBig(p) THEN UNK
            ELSE IF n.tw # 0
                 THEN LET q == ExtTwist(n, p, zz)
                      IN IF q = <<>> THEN UNK ELSE And3(v, Any2(n.c, 1, q, NO))
            ELSE IF n.sx = n.sd /\ n.sy = n.sd
                 THEN And3(v, Any2(n.c, 1, <<p[1], p[2], 0, w>>, NO))
            \* sides that scale unevenly are not planar: only their horizontal sections are straight
            ELSE IF n.sx # n.sy /\ ~Level(p) THEN UNK
            ELSE And3(v, Any2(n.c, 1, ExtScaled(n, p, zz), NO))
    [] n.k = "rex" ->
         LET w == p[4]
             full == n.ang >= 360
             g == Ngon(n.fn)
             S == IF full THEN g.s ELSE 1000
             st == n.ang \div n.fn                   \* step in degrees (partial)
             dir(i) == IF full THEN LET u == g.u[(i % n.fn) + 1] IN <<-u[1], -u[2]>>
                       ELSE <<CosT[(((i * st) \div 15) % 24) + 1], SinT[(((i * st) \div 15) % 24) + 1]>>
             \* the point as seen by a child with x >= 0 (m = 1) or x <= 0 (m = -1)
             val(m, i) ==
               LET x == m * p[1]  y == m * p[2]
                   u == dir(i)  v == dir(i + 1)
                   c1 == u[1] * y - u[2] * x
                   c2 == x * v[2] - y * v[1]
                   dd == (u[1] * v[2] - u[2] * v[1]) \div (IF S = 1000 THEN 1000 ELSE 1)
                   near == Abs(c1) * 32 < w * S \/ Abs(c2) * 32 < w * S
                   edge == ~full /\ near
                   r == DivR(112 * (c1 + c2), dd * w)
                   q == <<m * Min2(11000, r), DivR(112 * p[3], w), 0, 112>>
               IN IF c1 < -(w * S) \div 32 \/ c2 < -(w * S) \div 32 THEN NO
                  ELSE IF c1 < 0 \/ c2 < 0 THEN (IF full THEN NO ELSE
                           And3(UNK, Any2(n.c, 1, q, NO)))
                  ELSE LET z == Any2(n.c, 1, q, NO)
                       IN IF edge THEN And3(UNK, z) ELSE z
         IN IF TooBig(p) \/ Max2(Abs(p[1]), Abs(p[2])) > 900 THEN UNK
            ELSE LET vs == {val(m, i) : m \in {-1, 1}, i \in 0..(n.fn - 1)}
                 IN IF YES \in vs THEN YES ELSE IF UNK \in vs THEN UNK ELSE NO

In2(n, p) ==
  IF n.mo \in {"*", "%"} THEN NO
  ELSE CASE n.k = "cvx" -> IF TooBig(p) THEN UNK ELSE ConvexIn(n.hs, 1, p, YES)
    [] n.k = "pgn" -> IF TooBig(p) THEN (IF p[4] <= 200 THEN NO ELSE UNK)
                      ELSE IF p[4] > 1000 THEN UNK ELSE PathsParity(n.pts, n.paths, 1, p, 0)
    [] n.k = "uni" -> Any2(n.c, 1, p, NO)
    [] n.k = "dif" ->
         LET b == Base(n.c) IN
         IF b = 0 THEN NO
         ELSE LET v == In2(n.c[b], p) IN
              IF v = NO THEN NO ELSE And3(v, Not3(Any2(n.c, b + 1, p, NO)))
    [] n.k = "int" -> IF Base(n.c) = 0 THEN NO ELSE All2(n.c, 1, p, YES)
    [] n.k = "xf" -> LET r == Apply(n.q, FALSE, <<p[1], p[2], 0, p[4]>>)
                     IN Any2(n.c, 1, <<r[1], r[2], 0, r[4]>>, NO)
    [] n.k = "hul" -> IF TooBig(p) THEN UNK
                      ELSE LET V == VertsSeq(n.c, 1) IN IF V = {} THEN NO ELSE HullIn(V, p)
    [] n.k = "pro" -> Any3(n.c, 1, <<p[1], p[2], 0, p[4], 0, 0, 1>>, NO)

(***************************************************************************)
(* The ! modifier: only the marked subtree is rendered, without the        *)
(* transformations around it                                               *)
(***************************************************************************)
RECURSIVE Roots(_), RootsSeq(_, _)
RootsSeq(c, i) == IF i > Len(c) THEN <<>> ELSE Roots(c[i]) \o RootsSeq(c, i + 1)
Roots(n) == (IF n.mo = "!" THEN <<n>> ELSE <<>>) \o RootsSeq(n.c, 1)

Effective(prog) == LET r == RootsSeq(prog, 1) IN IF Len(r) = 0 THEN prog ELSE <<r[1]>>

InProg(prog, p) == Any3(prog, 1, p, NO)

(***************************************************************************)
(* What is printed: functor, arguments, children                           *)
(***************************************************************************)
RECURSIVE Src(_)
Src(n) == [f |-> n.f, a |-> n.a, m |-> n.mo, c |-> [i \in 1..Len(n.c) |-> Src(n.c[i])]]
SrcProg(prog) == [i \in 1..Len(prog) |-> Src(prog[i])]

(***************************************************************************)
(* Laws of the semantics itself (checked by TLC on every generated program)*)
(***************************************************************************)
RECURSIVE Strip(_), StripSeq(_, _)
StripSeq(c, i) == IF i > Len(c) THEN <<>>
                  ELSE IF c[i].ig THEN StripSeq(c, i + 1) ELSE <<Strip(c[i])>> \o StripSeq(c, i + 1)
Strip(n) == IF n.c = <<>> THEN n ELSE [n EXCEPT !.c = StripSeq(n.c, 1)]

(* ignored children have no influence anywhere *)
LawIgnored(prog, P) ==
  LET s == StripSeq(prog, 1) IN \A p \in P : InProg(prog, p) = InProg(s, p)

(* consecutive transformations compose as their matrices *)
RECURSIVE Fuse(_)
Fuse(n) ==
  IF n.k = "xf" /\ Len(n.c) = 1 /\ n.c[1].k = "xf" /\ n.mo = "" /\ n.c[1].mo = ""
  THEN Fuse([n EXCEPT !.fw = MatMul(n.fw, n.c[1].fw), !.q = MatInv(MatMul(n.fw, n.c[1].fw)),
                      !.ex = n.ex /\ n.c[1].ex, !.c = n.c[1].c])
  ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Fuse(n.c[i])]]
Agree(a, b) == a = b \/ a = UNK \/ b = UNK
LawCompose(prog, P) ==
  LET s == [i \in 1..Len(prog) |-> Fuse(prog[i])]
  IN \A p \in P : Agree(InProg(prog, p), InProg(s, p))

(* regrouping and reordering: operands of unions and intersections reversed
   and nested, the subtrahends of a difference united first *)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Tail1(s, k) == SubSeq(s, k + 1, Len(s))
RECURSIVE Regroup(_)
Regroup(n) ==
  LET c == [i \in 1..Len(n.c) |-> Regroup(n.c[i])]
      m == [n EXCEPT !.c = c]
  IN CASE n.k = "uni" /\ Len(c) > 1 -> [m EXCEPT !.c = <<Uni(RevSeq(Tail1(c, 1))), c[1]>>]
       [] n.k = "int" /\ Len(c) > 1 -> [m EXCEPT !.c = <<Isc(RevSeq(Tail1(c, 1))), c[1]>>]
       [] n.k = "dif" /\ Base(c) > 0 /\ Len(c) > Base(c) + 1 ->
            [m EXCEPT !.c = SubSeq(c, 1, Base(c)) \o <<Uni(RevSeq(Tail1(c, Base(c))))>>]
       [] OTHER -> m
LawRegroup(prog, P) ==
  LET s == RevSeq([i \in 1..Len(prog) |-> Regroup(prog[i])])
  IN \A p \in P : Agree(InProg(prog, p), InProg(s, p))
=============================================================================
