------------------------------ MODULE ScadGen ------------------------------
(***************************************************************************)
(* Program construction as a state machine: a stack of 3D subtrees, a      *)
(* stack of 2D subtrees, and one action per SCAD construct.  Every         *)
(* finished program is emitted together with the semantics' answer at a    *)
(* set of sample points per layer; the conformance driver replays it into  *)
(* hob3l and compares every point.  RAND = FALSE enumerates all choices    *)
(* (exhaustive configuration), RAND = TRUE draws one (simulation).         *)
(***************************************************************************)
EXTENDS Shapes, Json

CONSTANTS
  ACTS,        \* enabled actions and picks (set of strings)
  NLO, NHI,    \* range of the number of construction steps
  R,           \* sample points in -R..R-1 (+ 2/7, 3/7)
  ZN,          \* layers z = k + ZF/2, k in -ZN..ZN-1
  ZF,          \* 1: half-integer heights, 0: integer heights (limit from above)
  NLAY,        \* number of layers sampled per program
  EMIT

VARIABLES s3, s2, n, ph, lay
vars == <<s3, s2, n, ph, lay>>

On(a) == a \in ACTS
OpN == {"uni", "dif", "int"}

R1(S) == IF RAND THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
B(S) == R1(S)

(* ---------------------------------------------------------------- picks *)
Off3(dd) == <<B(-3..2), B(-3..2), B(-3..2)>>
Off2(dd) == <<B(-3..2), B(-3..2)>>
Siz3(dd) == <<B(1..4), B(1..4), B(1..4)>>

Leaf3 ==    \* set of candidate kinds, one shape each
  (IF On("cube") THEN {"cube", "cubec"} ELSE {})
  \cup (IF On("cyl") THEN {"cyl", "cone"} ELSE {})
  \cup (IF On("sph") THEN {"sph"} ELSE {})
  \cup (IF On("phd") THEN {"prism", "frust", "conep", "dbl", "ring", "cav", "stair", "two"} ELSE {})
FnSet == IF On("fn4") THEN {4} ELSE NgonSizes

MkLeaf(k) ==
  CASE k = "cube" -> Cube(Siz3(0), FALSE)
    [] k = "cubec" -> Cube(<<B({2,4}), B({2,4,6}), B({1,2,4})>>, TRUE)
    [] k = "cyl" -> LET r == B(1..3) IN Cyl(B(1..4), r, r, B(BOOLEAN), B(FnSet))
    [] k = "cone" -> LET r1 == B(0..3) IN
                     Cyl(B(1..4), r1, B({x \in 0..3 : x + r1 > 0}), B(BOOLEAN), B(FnSet))
    [] k = "sph" -> Sph(B(1..4), B({3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 24, 37, 60, 99, 100, 101, 200, 0}))
    [] k = "prism" -> LET z == B(-2..1) IN Prism(RandPath(0), z, z + B(1..3), 1, B(-1..1), B(-1..1))
    [] k = "frust" -> LET z == B(-2..1) IN Prism(RandPath(0), z, z + B(1..3), 2, B(-1..1), B(-1..1))
    [] k = "conep" -> LET z == B(-2..1) IN Cone(RandPath(0), z, <<B(-2..2), B(-2..2), z + B({-3,-2,-1,1,2,3})>>)
    [] k = "dbl" -> LET z == B(-1..1) IN
                    Dbl(RandPath(0), z, <<B(-1..1), B(-1..1), z - B(1..3)>>, <<B(-1..1), B(-1..1), z + B(1..3)>>)
    [] k = "ring" -> Ring(3, B(1..2), -2, 2, B({-2,-1}), B({1,2}))
    [] k = "cav" -> Cavity(<<-3,-3,-3>>, <<3,3,2>>, <<B({-2,-1}),B({-2,-1}),B({-2,-1})>>, <<B(0..2),B(0..2),B(0..1)>>)
    [] k = "two" -> TwoBox(<<-3,-3,-2>>, <<B(-2..-1),B(-1..1),B(-1..1)>>, <<B(0..1),B(-3..0),B(-3..0)>>, <<3,B(1..2),B(1..3)>>)
    [] k = "stair" -> Stair

Leaf2 ==
  (IF On("sqr") THEN {"sqr", "sqrc"} ELSE {})
  \cup (IF On("cir") THEN {"cir"} ELSE {})
  \cup (IF On("pgn") THEN {"pgn", "pgn1", "pgnx", "pgnh"} ELSE {})
MkLeaf2(k) ==
  CASE k = "sqr" -> Sqr(<<B(1..4), B(1..4)>>, FALSE)
    [] k = "sqrc" -> Sqr(<<B({2,4,6}), B({2,4,6})>>, TRUE)
    [] k = "cir" -> Cir(B(1..3), B(FnSet))
    [] k = "pgn1" -> Pgn1(RandPath(0))
    [] k = "pgn" -> Pgn1(Rev(RandPath(0)))
    \* two overlapping or nested paths, even-odd
    [] k = "pgnh" -> LET m == << <<-3,-3>>, <<3,-3>>, <<3,3>>, <<-3,3>>,
                                 <<B(-2..-1),B(-2..-1)>>, <<B(0..2),B(-2..-1)>>, <<B(0..2),B(0..2)>>, <<B(-2..-1),B(0..2)>> >>
                     IN Pgn(TLCEval(m), <<Idx(4), <<4,5,6,7>> >>)
    \* self-crossing
    [] k = "pgnx" -> Pgn1(B({ << <<-2,-2>>, <<2,2>>, <<2,-2>>, <<-2,2>> >>,
                              << <<-3,-1>>, <<3,-1>>, <<-2,3>>, <<0,-3>>, <<2,3>> >>,
                              << <<0,0>>, <<3,0>>, <<3,3>>, <<-1,1>>, <<2,1>>, <<2,-2>>, <<-3,-2>> >> }))

Placed(l) == IF RandomElement(1..4) = 1 THEN l ELSE Tra(Off3(0), <<l>>)
Placed2(l) == IF RandomElement(1..4) = 1 THEN l ELSE Tra(Off2(0) \o <<0>>, <<l>>)

Xfs ==
  (IF On("tra") THEN {"tra"} ELSE {})
  \cup (IF On("rot") THEN {"rota", "rotn", "rotz", "rot3"} ELSE {})
  \cup (IF On("rotx") THEN {"rotd", "pyth"} ELSE {})
  \cup (IF On("mir") THEN {"mir", "mirx"} ELSE {})
  \cup (IF On("scl") THEN {"scl", "scln"} ELSE {})
  \cup (IF On("mul") THEN {"mul", "mulm"} ELSE {})
  \cup (IF On("col") THEN {"col"} ELSE {})
MulM == { << <<1,1,0,0>>, <<0,1,0,0>>, <<0,0,1,0>> >>, << <<1,0,1,0>>, <<0,1,0,1>>, <<0,0,1,0>> >>,
          << <<0,1,0,-1>>, <<0,0,1,0>>, <<1,0,0,0>> >>, << <<1,0,0,1>>, <<1,1,0,0>>, <<0,1,1,-1>> >>,
          << <<2,1,0,0>>, <<1,1,0,0>>, <<0,0,1,1>> >>,  << <<1,0,0,0>>, <<0,1,0,0>>, <<1,1,1,0>> >> }
MulN == { << <<-1,0,0,0>>, <<0,1,1,0>>, <<0,0,1,0>> >>, << <<0,1,0,0>>, <<1,0,0,1>>, <<0,0,1,0>> >>,
          << <<1,0,0,0>>, <<0,0,1,0>>, <<0,1,0,-1>> >>, << <<1,2,0,0>>, <<0,-1,0,0>>, <<1,0,1,0>> >> }
MkXf(k, c) ==
  CASE k = "tra" -> Tra(Off3(0), c)
    [] k = "rota" -> RotA(B(0..7), B(1..3), c)
    [] k = "rotn" -> RotN(B(0..7), B(1..3), c)
    [] k = "rotz" -> RotZ(B(0..7), c)
    [] k = "rot3" -> Rot3(B(0..7), B(0..7), B(0..7), c)
    [] k = "rotd" -> RotD(c)
    [] k = "pyth" -> RotA(B(8..10), B(1..3), c)
    [] k = "mir" -> LET a == B(1..3) IN Mir([i \in 1..3 |-> IF i = a THEN B({-1,1,2}) ELSE 0], c)
    [] k = "mirx" -> Mir(B({<<1,1,0>>, <<1,-1,0>>, <<0,1,1>>, <<1,0,-1>>, <<1,2,0>>, <<1,1,1>>}), c)
    [] k = "scl" -> Scl(<<B({1,2,3,4}), B({1,2,3,4}), B({1,2,3,4})>>, 2, c)
    [] k = "scln" -> Scl(<<B({-2,-1,1}), B({-1,1,2}), B({-2,-1,1})>>, B(1..2), c)
    [] k = "mul" -> Mul(B(MulM), c)
    [] k = "mulm" -> Mul(B(MulN), c)
    [] k = "col" -> Col(c)

(* 2D-preserving transformations *)
Xf2s == (IF On("tra") THEN {"tra"} ELSE {}) \cup (IF On("rot") THEN {"rotz", "rotp"} ELSE {})
  \cup (IF On("mir") THEN {"mir"} ELSE {}) \cup (IF On("scl") THEN {"scl"} ELSE {})
  \cup (IF On("mul") THEN {"mul"} ELSE {})
MkXf2(k, c) ==
  CASE k = "tra" -> Tra(Off2(0) \o <<B(0..1)>>, c)
    [] k = "rotz" -> RotZ(B(0..7), c)
    [] k = "rotp" -> RotA(B(8..10), 3, c)
    [] k = "mir" -> Mir(B({<<1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<2,-1,0>>}), c)
    [] k = "scl" -> Scl(<<B({-2,-1,1,2,4}), B({1,2,3,4}), 2>>, 2, c)
    [] k = "mul" -> Mul(B({ << <<1,1,0,0>>, <<0,1,0,0>>, <<0,0,1,0>> >>, << <<0,1,0,1>>, <<1,0,0,-1>>, <<0,0,1,0>> >>,
                            << <<2,1,0,0>>, <<1,1,0,0>>, <<0,0,1,0>> >> }), c)

MkExt(c) ==
  LET h == B(1..4) ce == B(BOOLEAN) sl == B(1..3) IN
  CASE RandomElement(1..4) <= 2 \/ ~On("exts") -> Ext(c, h, ce)
    [] OTHER -> LET sx == B(0..4) sy == IF sx = 0 THEN 0 ELSE B(1..4) IN
                IF RandomElement(1..2) = 1 THEN ExtS(c, h, ce, sl, 0, sx, sy, 2)
                ELSE LET z == B({1, 2}) IN  \* the slices end at integer or half-integer heights
                     LET t == B({-6,-3,3,6,12}) * h * z
                     IN IF RAND /\ RandomElement(1..3) = 1 THEN ExtS(c, h * z, ce, 2 * h * z, t, 1, 1, 1)
                        ELSE ExtS(c, h * z, ce, 2 * h * z, t, B(1..4), B(1..4), 2)

(* right half-plane children for rotate_extrude *)
MkRex(c) ==
  LET half == Isc(<<Uni(c), Tra(<<0, -9, 0>>, <<Sqr(<<9, 18>>, FALSE)>>)>>)
      ch == IF RandomElement(1..3) = 1 THEN Mir(<<1,0,0>>, <<half>>) ELSE half
  IN IF RandomElement(1..2) = 1 THEN Rex(<<ch>>, B(NgonSizes))
     ELSE LET g == B({<<1,90>>, <<2,90>>, <<2,180>>, <<3,270>>, <<4,180>>, <<3,180>>, <<4,240>>, <<2,60>>,
                      <<1,180>>, <<1,270>>, <<1,120>>, <<1,360>>, <<2,360>>, <<2,270>>})
              \* at least two segments for half a turn or more, three for a full turn
              ns == Max2(g[1], IF g[2] >= 360 THEN 3 ELSE IF g[2] >= 180 THEN 2 ELSE 1)
          IN RexA(<<Nam("angle", g[2]), Nam("$fn", g[1])>>, <<ch>>, ns, g[2])

MkOp(o, c) ==
  CASE o = "uni" -> IF RAND THEN (CASE RandomElement(1..4) = 1 -> Grp(c) [] RandomElement(1..4) = 2 -> Ren(c)
                                   [] RandomElement(1..4) = 3 -> Blk(c) [] OTHER -> Uni(c)) ELSE Uni(c)
    [] o = "dif" -> Dif(c)
    [] o = "int" -> Isc(c)

(* things that are ignored by the documented rule *)
RECURSIVE MkEmpty(_)
MkEmpty(d) ==
  LET k == RandomElement(1..7) IN
  IF d = 0 THEN IF k <= 3 THEN Grp(<<>>) ELSE IF k <= 5 THEN Blk(<<>>) ELSE Mod(B({"*", "%"}), Cube(Siz3(0), FALSE))
  ELSE CASE k = 1 -> Grp(<<MkEmpty(d - 1)>>)
    [] k = 2 -> Tra(Off3(0), <<MkEmpty(d - 1)>>)
    [] k = 3 -> Dif(<<MkEmpty(d - 1), MkEmpty(d - 1)>>)
    [] k = 4 -> Ext(<<MkEmpty(0)>>, 2, FALSE)
    [] k = 5 -> Isc(<<MkEmpty(d - 1)>>)
    [] k = 6 -> Uni(<<>>)
    [] OTHER -> Blk(<<MkEmpty(d - 1)>>)
(* not ignored, yet empty *)
MkVoid(dd) ==
  CASE RandomElement(1..4) = 1 -> Dif(<<Cube(<<1,1,1>>, TRUE), Cube(<<2,2,2>>, TRUE)>>)
    [] RandomElement(1..3) = 1 -> Isc(<<Cube(<<1,1,1>>, FALSE), Tra(<<3,3,3>>, <<Cube(<<1,1,1>>, FALSE)>>)>>)
    [] RandomElement(1..2) = 1 -> Ext(<<Isc(<<Sqr(<<1,1>>, FALSE), Tra(<<3,0,0>>, <<Sqr(<<1,1>>, FALSE)>>)>>)>>, 2, FALSE)
    [] OTHER -> Ext(<<Pro(<<Tra(<<0,0,1>>, <<Cube(<<2,2,2>>, FALSE)>>)>>)>>, 2, FALSE)

(* -------------------------------------------------------------- actions *)
Last(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
Drop(s, k) == SubSeq(s, 1, Len(s) - k)
Step == ph = "run" /\ n > 0 /\ n' = n - 1 /\ UNCHANGED <<ph, lay>>

Push3 == Step /\ Leaf3 # {} /\ \E k \in Pick(Leaf3) : s3' = Append(s3, TLCEval(IF RAND THEN Placed(MkLeaf(k)) ELSE MkLeaf(k))) /\ UNCHANGED s2
Push2 == Step /\ Leaf2 # {} /\ \E k \in Pick(Leaf2) : s2' = Append(s2, TLCEval(Placed2(MkLeaf2(k)))) /\ UNCHANGED s3
Wrap3 == Step /\ Xfs # {} /\ Len(s3) > 0
         /\ \E k \in Pick(Xfs), m \in Pick(1..Min2(2, Len(s3))) :
              s3' = Append(Drop(s3, m), TLCEval(MkXf(k, Last(s3, m)))) /\ UNCHANGED s2
Wrap2 == Step /\ Xf2s # {} /\ Len(s2) > 0
         /\ \E k \in Pick(Xf2s), m \in Pick(1..Min2(2, Len(s2))) :
              s2' = Append(Drop(s2, m), TLCEval(MkXf2(k, Last(s2, m)))) /\ UNCHANGED s3
Comb3 == Step /\ On("op") /\ Len(s3) > 0
         /\ \E o \in Pick(OpN), m \in Pick({x \in 1..(IF On("wide") THEN 12 ELSE 4) : x <= Len(s3) /\ (x > 1 \/ Len(s3) = 1)}) :
              s3' = Append(Drop(s3, m), TLCEval(MkOp(o, Last(s3, m)))) /\ UNCHANGED s2
Comb2 == Step /\ On("op2") /\ Len(s2) > 0
         /\ \E o \in Pick(OpN), m \in Pick({x \in 1..3 : x <= Len(s2) /\ (x > 1 \/ Len(s2) = 1)}) :
              s2' = Append(Drop(s2, m), TLCEval(MkOp(o, Last(s2, m)))) /\ UNCHANGED s3
Extr == Step /\ On("ext") /\ Len(s2) > 0
        /\ \E m \in Pick(1..Min2(2, Len(s2))) :
             s2' = Drop(s2, m) /\ s3' = Append(s3, TLCEval(MkExt(Last(s2, m))))
Rext == Step /\ On("rex") /\ Len(s2) > 0
        /\ \E m \in Pick(1..Min2(2, Len(s2))) :
             s2' = Drop(s2, m) /\ s3' = Append(s3, TLCEval(MkRex(Last(s2, m))))
Hull == Step /\ On("hul") /\ Len(s2) > 0
        /\ \E m \in Pick(1..Min2(3, Len(s2))) :
             /\ \A i \in 1..m : HullOk(Last(s2, m)[i])
             /\ s2' = Append(Drop(s2, m), TLCEval(Hul(Last(s2, m)))) /\ UNCHANGED s3
Proj == Step /\ On("pro") /\ Len(s3) > 0
        /\ \E m \in Pick(1..Min2(2, Len(s3))) :
             s3' = Drop(s3, m) /\ s2' = Append(s2, TLCEval(Pro(Last(s3, m))))
Empt == Step /\ On("emp")
        /\ \E e \in Pick({1}) : s3' = Append(s3, TLCEval(IF RandomElement(1..4) = 1 THEN MkVoid(0) ELSE MkEmpty(RandomElement(0..2))))
        /\ UNCHANGED s2
Modi == Step /\ On("mod") /\ Len(s3) > 0 /\ s3[Len(s3)].mo = ""
        /\ \E m \in Pick({"*", "%", "#", "#"}) :
             s3' = Append(Drop(s3, 1), TLCEval(Mod(m, s3[Len(s3)]))) /\ UNCHANGED s2
Root == Step /\ On("root") /\ Len(s3) > 0 /\ RootsSeq(s3, 1) = <<>> /\ RootsSeq(s2, 1) = <<>>
        /\ s3[Len(s3)].mo = "" /\ RandomElement(1..3) = 1
        /\ s3' = Append(Drop(s3, 1), Mod("!", s3[Len(s3)])) /\ UNCHANGED s2
Swap == Step /\ On("swap") /\ Len(s3) > 1
        /\ s3' = <<s3[Len(s3)]>> \o Drop(s3, 1) /\ UNCHANGED s2

Layers == {2 * k + ZF : k \in (-ZN)..(ZN - 1)}      \* in half units
Finish == /\ ph = "run" /\ (n = 0)
          /\ s3 # <<>> \/ s2 # <<>>
          /\ ph' = "done" /\ n' = 0
          /\ s3' = IF s2 = <<>> \/ ~On("ext") THEN s3 ELSE Append(s3, TLCEval(MkExt(s2)))
          /\ s2' = <<>>
          /\ lay' = IF NLAY >= Cardinality(Layers) THEN Layers ELSE RandomSubset(NLAY, Layers)

(* zero-argument definitions of random values would be evaluated only once by
   TLC, hence the dummy arguments above and the separate first step *)
Init == s3 = <<>> /\ s2 = <<>> /\ n = 0 /\ ph = "new" /\ lay = {}
Begin == ph = "new" /\ ph' = "run" /\ n' \in Pick(NLO..NHI) /\ UNCHANGED <<s3, s2, lay>>
Next == \/ Begin \/ Push3 \/ Push2 \/ Wrap3 \/ Wrap2 \/ Comb3 \/ Comb2 \/ Extr \/ Rext \/ Hull \/ Proj
        \/ Empt \/ Modi \/ Root \/ Swap \/ Finish
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------- sample points, laws *)
Pt(i, j, z2) == IF z2 % 2 # 0 THEN <<14 * i + 4, 14 * j + 6, 7 * z2, 14>>
                ELSE <<14 * i + 4, 14 * j + 6, 7 * z2, 14, 0, 0, 1>>
Side == 2 * R
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>>
                     ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                          IN <<m>> \o SetToSortedSeq(S \ {m})
Answer(prog, z2) == [q \in 1..(Side * Side) |->
                       InProg(prog, Pt(((q - 1) % Side) - R, ((q - 1) \div Side) - R, z2))]

LawPts == {Pt(i, j, z) : i \in {-2, 0, 1}, j \in {-1, 1}, z \in {-1, 3}}
SemanticLaws == ph = "done" =>
   LET e == Effective(s3) IN LawIgnored(e, LawPts) /\ LawCompose(e, LawPts) /\ LawRegroup(e, LawPts)

Emit == (ph = "done" /\ EMIT) =>
  LET e == Effective(s3)
      ls == SetToSortedSeq(lay)
  IN PrintT(ToJson([prog |-> SrcProg(s3), r |-> R,
                    alt |-> IF On("alt") THEN RevSeq(SrcProg([i \in 1..Len(s3) |-> Regroup(s3[i])])) ELSE <<>>,
                    lay |-> [i \in 1..Len(ls) |-> [z2 |-> ls[i], v |-> Answer(e, ls[i])]]]))
=============================================================================
