-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Large models: hundreds of parts, deep nests of differences, long chains *)
(* of transformations, combs with hundreds of corners, hundreds of layers, *)
(* subdivided polyhedra.  All parts have integer corners and are cut and   *)
(* sampled half way between integers, so that membership is never in       *)
(* doubt.  The state is a stack of models; each step makes a large one, or *)
(* wraps or combines what is there.  The regions are computed point by     *)
(* point, whatever the size.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIZES,     \* numbers of parts, levels, links, teeth
          NSTEP,     \* steps
          NLAYS,     \* numbers of layers
          NPTS       \* sample points per model
VARIABLES stk, n, big
vars == <<stk, n, big>>

RS(S, z) == LET q == IF z < 0 THEN S ELSE S IN RandomElement(q)
RI(a, b, z) == RandomElement(a..(b + z - z))
Half == 100          \* everything is within this distance of the origin, before transformations

(* boxes <<x0, y0, z0, x1, y1, z1>> *)
RandomBox(z) ==
  LET x == RI(-Half, Half - 2, z) y == RI(-Half, Half - 2, z) h == RI(-20, 18, z)
      w == RS({2, 9, 20, 60}, z) d == RS({2, 9, 20, 60}, z) t == RS({4, 9, 30}, z)
  IN <<x, y, h, x + w, y + d, h + t>>
WideBox(z) == LET x == RI(-Half, -20, z) y == RI(-Half, -20, z) h == RI(-60, -10, z) IN <<x, y, h, RI(20, Half, z), RI(20, Half, z), RI(10, 60, z)>>
Boxes(k) == [i \in 1..k |-> RandomBox(i)]
Wides(k) == [i \in 1..k |-> WideBox(i)]
(* points are doubled: <<x, y, z>> stands for (x, y, z)/2, all odd *)
InB(b, p) == 2 * b[1] < p[1] /\ p[1] < 2 * b[4] /\ 2 * b[2] < p[2] /\ p[2] < 2 * b[5] /\ 2 * b[3] < p[3] /\ p[3] < 2 * b[6]
(* what a transformation does to a point, backwards *)
Back(t, p) ==
  CASE t[1] = "t" -> <<p[1] - 2 * t[2], p[2] - 2 * t[3], p[3] - 2 * t[4]>>
    [] t[1] = "mx" -> <<-p[1], p[2], p[3]>>
    [] t[1] = "my" -> <<p[1], -p[2], p[3]>>
    [] t[1] = "mz" -> <<p[1], p[2], -p[3]>>
    [] t[1] = "rz" -> <<p[2], -p[1], p[3]>>        \* a quarter turn around z takes (x, y) to (-y, x)
    [] t[1] = "rx" -> <<p[1], p[3], -p[2]>>
    [] t[1] = "ry" -> <<-p[3], p[2], p[1]>>
    [] OTHER -> <<p[2], p[1], p[3]>>               \* "sw": x and y exchanged
RECURSIVE Chain(_, _, _)
Chain(t, i, p) == IF i > Len(t) THEN p ELSE Chain(t, i + 1, Back(t[i], p))
RECURSIVE Val(_, _), Nest(_, _, _), AnyOf(_, _, _), AllOf(_, _, _)
(* the outermost box is the first *)
Nest(m, i, p) == IF i > Len(m.b) THEN Val(m.c[1], p) ELSE IF ~InB(m.b[i], p) THEN FALSE ELSE ~Nest(m, i + 1, p)
AnyOf(c, i, p) == i <= Len(c) /\ (Val(c[i], p) \/ AnyOf(c, i + 1, p))
AllOf(c, i, p) == i > Len(c) \/ (Val(c[i], p) /\ AllOf(c, i + 1, p))
(* a comb: a bar of height 3 with m.n teeth of width 1, every other unit, 5 long *)
InComb(m, p) == LET x == p[1] + 2 * m.n y == p[2] IN
  /\ 0 < p[3] /\ p[3] < 2 * m.h /\ 0 < x /\ x < 4 * m.n /\ 0 < y
  /\ (y < 6 \/ (y < 16 /\ x % 4 < 2))
(* a board with m.n * m.n square holes, each 1 wide, every other unit *)
InBoard(m, p) == LET w == 2 * m.n + 1 x == p[1] + w + (w % 2) y == p[2] + w + (w % 2) IN
  /\ 0 < p[3] /\ p[3] < 2 * m.h /\ 0 < x /\ x < 2 * w /\ 0 < y /\ y < 2 * w
  /\ ~(x % 4 > 2 /\ y % 4 > 2)
(* stairs: step i covers (i, i+1) in z and all x below 2 i *)
InStairs(m, p) == 0 < p[3] /\ p[3] < 2 * m.n /\ 0 < p[2] /\ p[2] < 2 * m.h /\ 0 < p[1] /\ p[1] < 2 + 2 * (((p[3] \div 2) * 7) % 50)
Val(m, p) ==
  CASE m.k = "boxes" -> \E i \in 1..Len(m.b) : InB(m.b[i], p)
    [] m.k = "inter" -> \A i \in 1..Len(m.b) : InB(m.b[i], p)
    [] m.k = "less" -> Val(m.c[1], p) /\ \A i \in 1..Len(m.b) : ~InB(m.b[i], p)
    [] m.k = "nest" -> Nest(m, 1, p)
    [] m.k = "chain" -> Val(m.c[1], Chain(m.t, 1, p))
    [] m.k = "wrap" -> Val(m.c[1], p)
    [] m.k = "comb" -> InComb(m, p)
    [] m.k = "board" -> InBoard(m, p)
    [] m.k = "stairs" -> InStairs(m, p)
    [] m.k = "brick" -> InB(m.b[1], p)
    [] m.k = "union" -> AnyOf(m.c, 1, p)
    [] m.k = "inters" -> AllOf(m.c, 1, p)
    [] m.k = "diff" -> Val(m.c[1], p) /\ ~AnyOf(m.c, 2, p)

M(k) == [k |-> k, b |-> <<>>, c |-> <<>>, t |-> <<>>, n |-> 0, h |-> 0]
Init == stk = <<>> /\ n = 0 /\ big = 0
Pick(k) == RS(SIZES, k)
Top == stk[Len(stk)]
But == SubSeq(stk, 1, Len(stk) - 1)
Links(k) == [i \in 1..k |-> LET o == RI(1, 12, i) IN
  CASE o <= 5 -> <<"t", RI(-3, 3, i), RI(-3, 3, i), RI(-2, 2, i)>>
    [] o = 6 -> <<"mx", 0, 0, 0>> [] o = 7 -> <<"my", 0, 0, 0>> [] o = 8 -> <<"mz", 0, 0, 0>>
    [] o = 9 -> <<"rz", 0, 0, 0>> [] o = 10 -> <<"rx", 0, 0, 0>> [] o = 11 -> <<"ry", 0, 0, 0>> [] OTHER -> <<"sw", 0, 0, 0>>]
Leaf == /\ Len(stk) < 3
        /\ \E o \in {RI(1, 8, n)} : \E s \in {Pick(n)} :
           LET m == CASE o <= 2 -> [M("boxes") EXCEPT !.b = Boxes(s)]
                      [] o = 3 /\ s < 100 -> [M("inter") EXCEPT !.b = Wides(s)]
                      [] o = 4 -> [M("comb") EXCEPT !.n = s, !.h = RI(2, 30, n)]
                      [] o = 5 -> [M("board") EXCEPT !.n = RS({1, 3, 8, 13}, n), !.h = RI(2, 30, n)]
                      [] o = 6 -> [M("stairs") EXCEPT !.n = s, !.h = RI(2, 90, n)]
                      [] o = 7 -> [M("brick") EXCEPT !.b = <<WideBox(n)>>, !.n = RS({1, 4, 9, 16}, n)]
                      [] OTHER -> [M("boxes") EXCEPT !.b = Wides(2)]
           IN \E x \in {TLCEval(m)} : stk' = Append(stk, x) /\ big' = big + (IF o \in {1, 2} THEN s ELSE IF o = 5 THEN 4 * x.n * x.n ELSE 1)
Wrap == /\ stk # <<>>
        /\ \E o \in {RI(1, 5, n)} : \E s \in {Pick(n)} :
           LET m == CASE o = 1 -> [M("nest") EXCEPT !.b = Wides(s), !.c = <<Top>>]
                      [] o = 2 -> [M("chain") EXCEPT !.t = Links(s), !.c = <<Top>>]
                      [] o = 3 -> [M("wrap") EXCEPT !.t = [i \in 1..s |-> RI(1, 6, i)], !.c = <<Top>>]
                      [] o = 4 -> [M("less") EXCEPT !.b = Boxes(s), !.c = <<Top>>]
                      [] OTHER -> [M("chain") EXCEPT !.t = Links(3), !.c = <<Top>>]
           IN \E x \in {TLCEval(m)} : stk' = Append(But, x) /\ big' = big + (IF o = 1 THEN s ELSE IF o = 4 THEN s ELSE 0)
Join == /\ Len(stk) > 1
        /\ \E o \in {RS({"union", "unions", "diff", "diffs", "inters"}, n)} : stk' = <<[M(IF o = "unions" THEN "union" ELSE IF o = "diffs" THEN "diff" ELSE o) EXCEPT !.c = stk]>> /\ UNCHANGED big
(* the last steps put all together *)
Next == /\ n < NSTEP /\ n' = n + 1
        /\ IF n + 1 = NSTEP THEN IF Len(stk) > 1 THEN Join ELSE Wrap
           ELSE IF stk = <<>> THEN Leaf
           ELSE \E o \in {RI(1, 3, n)} : CASE o = 1 /\ Len(stk) < 3 -> Leaf [] o = 2 /\ Len(stk) > 1 -> Join [] OTHER -> Wrap
Spec == Init /\ [][Next]_vars

(* many layers only for small models *)
Case ==
  LET nl == IF big > 60 THEN RI(1, 2, n) ELSE RS(NLAYS, n)
      z0 == IF nl > 60 THEN -20 ELSE RI(-8, 6, n)
      per == IF nl > NPTS THEN 2 ELSE (NPTS \div nl) + 1
  IN [m |-> Top, z0 |-> z0, n |-> nl, big |-> big,
      lay |-> [i \in 1..nl |-> [j \in 1..per |->
         LET x == 2 * RI(-Half, Half - 1, i + j) + 1 y == 2 * (IF (j % 2) = 0 THEN RI(-Half, Half - 1, i + j) ELSE RI(-10, 10, i + j)) + 1
         IN <<x, y, IF Val(Top, <<x, y, 2 * (z0 + i - 1) + 1>>) THEN 1 ELSE 0>>]]]
(* the records that are written down are evaluated once *)
Emit == n = NSTEP => \E c \in {TLCEval(Case)} : PrintT(ToJson(c))
=============================================================================
