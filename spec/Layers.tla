------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* The stack of layers: which heights a model is sampled at, as a function *)
(* of its bounding box and of the slicing options, and what each layer     *)
(* solid looks like (bottom, top, region).                                 *)
(*                                                                         *)
(* Bounding boxes are exact integers in sixteenths; heights are integers   *)
(* in units of 1/160 (so half a step is an integer, too).  A program whose *)
(* box is not representable is not emitted.                                *)
(***************************************************************************)
EXTENDS ScadGen

VARIABLES par, st       \* the chosen options and the layers produced so far
lvars == <<s3, s2, n, ph, lay, par, st>>

U == 160

(* ------------------------------------------------------- bounding boxes *)
(* [k |-> "no"]: not representable, [k |-> "void"]: nothing, [k |-> "box", lo, hi] *)
NoBox == [k |-> "no"]
Void == [k |-> "void"]
BoxOf(S) ==     \* S: set of points in sixteenths
  [k |-> "box",
   lo |-> [i \in 1..3 |-> CHOOSE m \in {p[i] : p \in S} : \A p \in S : m <= p[i]],
   hi |-> [i \in 1..3 |-> CHOOSE m \in {p[i] : p \in S} : \A p \in S : m >= p[i]]]
Join(a, b) ==
  IF a.k = "no" \/ b.k = "no" THEN NoBox
  ELSE IF a.k = "void" THEN b ELSE IF b.k = "void" THEN a
  ELSE [k |-> "box", lo |-> [i \in 1..3 |-> Min2(a.lo[i], b.lo[i])], hi |-> [i \in 1..3 |-> Max2(a.hi[i], b.hi[i])]]
Meet(a, b) ==
  IF a.k = "no" \/ b.k = "no" THEN NoBox
  ELSE IF a.k = "void" \/ b.k = "void" THEN Void
  ELSE LET lo == [i \in 1..3 |-> Max2(a.lo[i], b.lo[i])]
           hi == [i \in 1..3 |-> Min2(a.hi[i], b.hi[i])]
       IN IF \E i \in 1..3 : lo[i] > hi[i] THEN Void
          ELSE IF \E i \in 1..3 : lo[i] = hi[i] THEN NoBox      \* touching: left open
          ELSE [k |-> "box", lo |-> lo, hi |-> hi]

(* image of homogeneous points under M, in sixteenths; <<>> if not exact *)
Img(M, p) ==
  LET f(i) == 16 * (M.m[i][1] * p[1] + M.m[i][2] * p[2] + M.m[i][3] * p[3] + M.m[i][4] * p[4])
      w == M.d * p[4]
  IN IF \E i \in 1..3 : f(i) % w # 0 THEN <<>> ELSE <<f(1) \div w, f(2) \div w, f(3) \div w>>
ImgBox(M, P) == LET S == {Img(M, p) : p \in P} IN IF <<>> \in S THEN NoBox ELSE BoxOf(S)

Corners(lo, hi, w) == {<<x, y, z, w>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}, z \in {lo[3], hi[3]}}
Isqrt(q) == IF \E s \in 0..60 : s * s = q THEN CHOOSE s \in 0..60 : s * s = q ELSE -1

RECURSIVE Box(_, _), BoxSeq(_, _, _), BoxCut(_, _, _, _)
BoxSeq(M, c, i) == IF i > Len(c) THEN Void ELSE Join(Box(M, c[i]), BoxSeq(M, c, i + 1))
BoxCut(M, c, i, acc) ==
  IF i > Len(c) THEN acc
  ELSE IF c[i].ig THEN BoxCut(M, c, i + 1, acc)
  ELSE BoxCut(M, c, i + 1, IF acc = <<>> THEN Box(M, c[i]) ELSE Meet(acc, Box(M, c[i])))
Box(M, nd) ==
  CASE nd.mo \in {"*", "%"} -> Void
    [] nd.f = "cube" -> LET s == nd.a[1].v IN
         ImgBox(M, IF nd.a[2].v THEN Corners(<<-s[1], -s[2], -s[3]>>, s, 2) ELSE Corners(<<0, 0, 0>>, s, 1))
    [] nd.f = "cylinder" ->
         LET h == nd.a[1].v r1 == nd.a[2].v r2 == nd.a[3].v
             z0 == IF nd.a[4].v THEN -h ELSE 0   z1 == IF nd.a[4].v THEN h ELSE 2 * h
         IN IF nd.a[5].v # 4 THEN NoBox
            ELSE ImgBox(M, {<<2 * r1, 0, z0, 2>>, <<-2 * r1, 0, z0, 2>>, <<0, 2 * r1, z0, 2>>, <<0, -2 * r1, z0, 2>>,
                            <<2 * r2, 0, z1, 2>>, <<-2 * r2, 0, z1, 2>>, <<0, 2 * r2, z1, 2>>, <<0, -2 * r2, z1, 2>>})
    [] nd.k = "sph" ->
         LET ro(i) == Isqrt(M.m[i][1] * M.m[i][1] + M.m[i][2] * M.m[i][2] + M.m[i][3] * M.m[i][3])
             ok == \A i \in 1..3 : ro(i) >= 0 /\ (16 * nd.r * ro(i)) % M.d = 0 /\ (16 * M.m[i][4]) % M.d = 0
         IN IF nd.fn # 0 \/ ~ok THEN NoBox
            ELSE [k |-> "box", lo |-> [i \in 1..3 |-> (16 * M.m[i][4] - 16 * nd.r * ro(i)) \div M.d],
                               hi |-> [i \in 1..3 |-> (16 * M.m[i][4] + 16 * nd.r * ro(i)) \div M.d]]
    [] nd.k = "phd" -> ImgBox(M, {<<nd.pts[i][1], nd.pts[i][2], nd.pts[i][3], 1>> : i \in 1..Len(nd.pts)})
    [] nd.k = "ext" ->
         LET V == VertsSeq(nd.c, 1)
             z(v) == IF nd.ce THEN {-nd.h * v[3], nd.h * v[3]} ELSE {0, 2 * nd.h * v[3]}
         IN IF nd.tw # 0 \/ nd.sx # nd.sd \/ nd.sy # nd.sd \/ V = {} \/ \E i \in 1..Len(nd.c) : ~HullOk(nd.c[i]) THEN NoBox
            ELSE ImgBox(M, UNION {{<<2 * v[1], 2 * v[2], t, 2 * v[3]>> : t \in z(v)} : v \in V})
    [] nd.k = "uni" -> BoxSeq(M, nd.c, 1)
    [] nd.k = "xf" -> LET N == MatMul(M, nd.fw) IN BoxSeq(N, nd.c, 1)
    [] nd.k = "dif" -> IF Base(nd.c) = 0 THEN Void ELSE Box(M, nd.c[Base(nd.c)])
    [] nd.k = "int" -> IF Base(nd.c) = 0 THEN Void ELSE BoxCut(M, nd.c, 1, <<>>)
    [] OTHER -> NoBox
TreeBox(prog) == BoxSeq(MatId, prog, 1)

(* -------------------------------------------------------------- options *)
(* heights in 1/160; min/max "x": not given *)
CeilDiv(a, b) == (a + b - 1) \div b
First(b, p) == IF p.mode \in {"min", "both", "z"} THEN p.min ELSE 10 * b.lo[3] + p.step \div 2
Limit(b, p) == IF p.mode = "z" THEN p.min ELSE IF p.mode \in {"max", "both"} THEN p.max ELSE 10 * b.hi[3]
Count(f, l, s) == IF f = l THEN 1 ELSE IF f > l THEN 0 ELSE CeilDiv(l - f, s)
Gap(p) == IF p.gap < 0 THEN -1 ELSE p.gap       \* in 1/160; -1: the default, 0.01

Steps == {16, 20, 32, 40, 48, 80, 112, 160, 240, 320}
RandPar(b) ==
  LET lo == 10 * b.lo[3]  hi == 10 * b.hi[3]
      s == B(Steps)
      o == B({-240, -80, -37, -16, 0, 8, 16, 25, 80, 160})
      t == B({-80, -16, 0, 0, 7, 16, 80, 200})
      m == B({"def", "def", "min", "max", "both", "z"})
      k == B(0..20)
  IN [mode |-> m, step |-> s,
      min |-> IF m = "z" THEN lo + B(0..(hi - lo)) ELSE lo + o,
      max |-> IF m = "both" /\ B(1..3) = 1 THEN lo + o + k * s + B({0, 0, 1}) ELSE hi + t,
      gap |-> B({-1, -1, -1, 0, 8, s \div 2, s - 2, s, s + 16})]

(* ------------------------------------------- the stack as a state machine *)
(* One step appends one layer: this is the definition of the stack.  The     *)
(* closed form Count is checked against it (LawCount).                       *)
(* ellipsoids: the rows have integer length, so the box is exact *)
EllM == { << <<1,0,0,0>>, <<0,3,4,0>>, <<0,-4,3,0>> >>, << <<3,0,4,1>>, <<0,2,0,0>>, <<-4,0,3,0>> >>,
          << <<1,2,2,0>>, <<2,1,-2,0>>, <<2,-2,1,1>> >>, << <<1,0,0,0>>, <<0,0,1,-1>>, <<3,4,0,2>> >>,
          << <<1,0,0,0>>, <<0,1,0,0>>, <<2,1,2,-1>> >>, << <<0,0,1,0>>, <<0,1,0,0>>, <<-1,2,2,0>> >>,
          << <<1,0,0,0>>, <<0,1,0,0>>, <<0,-3,4,1>> >> }
PushE == Step /\ On("sph") /\ \E m \in Pick(EllM), r \in Pick(1..3) :
           s3' = Append(s3, Mul(m, <<Sph(r, 0)>>)) /\ UNCHANGED s2
GInit == Init /\ par = <<>> /\ st = <<>>
Gen == (Begin \/ PushE \/ Push3 \/ Push2 \/ Wrap3 \/ Wrap2 \/ Comb3 \/ Comb2 \/ Extr \/ Swap \/ Finish) /\ UNCHANGED <<par, st>>
Choose ==
  /\ ph = "done"
  /\ \E b \in {TreeBox(s3)} :
     /\ b.k = "box"
     /\ \E p \in {RandPar(b)} :
        /\ Limit(b, p) - First(b, p) <= 300 * p.step
        /\ par' = p
        /\ st' = [first |-> First(b, p), limit |-> Limit(b, p), z |-> <<>>, box |-> b]
  /\ ph' = "slice" /\ UNCHANGED <<s3, s2, n, lay>>
NextZ == st.first + Len(st.z) * par.step
More == NextZ < st.limit \/ (st.z = <<>> /\ NextZ = st.limit)
AddLayer == ph = "slice" /\ More /\ st' = [st EXCEPT !.z = Append(@, NextZ)] /\ UNCHANGED <<s3, s2, n, ph, lay, par>>
Stop == ph = "slice" /\ ~More /\ ph' = "ready" /\ UNCHANGED <<s3, s2, n, lay, par, st>>
LNext == Gen \/ Choose \/ AddLayer \/ Stop
LSpec == GInit /\ [][LNext]_lvars

Ready == ph = "ready"
LawCount == Ready => Len(st.z) = Count(st.first, st.limit, par.step)
(* by default every height of the model is within one step of a layer, and
   every layer cuts the bounding box *)
LawCover == (Ready /\ par.mode = "def" /\ st.first < st.limit) =>
  /\ st.z[1] - 10 * st.box.lo[3] = par.step \div 2
  /\ 10 * st.box.hi[3] - st.z[Len(st.z)] <= par.step
  /\ \A i \in 1..Len(st.z) : 10 * st.box.lo[3] < st.z[i] /\ st.z[i] < 10 * st.box.hi[3]
  /\ \A i \in 2..Len(st.z) : st.z[i] - st.z[i - 1] = par.step
(* the box really bounds the model *)
LawBox == Ready => LET z1 == 10 * st.box.hi[3] + 16   z0 == 10 * st.box.lo[3] - 16 IN
  \A i \in {-2, 0, 1}, j \in {-1, 0} :
     /\ InProg(s3, <<160 * i + 48, 160 * j + 64, z1, 160>>) # YES
     /\ InProg(s3, <<160 * i + 48, 160 * j + 64, z0, 160>>) # YES

(* sample points x = i + 3/10, y = j + 4/10; "just above" the layer *)
LPt(i, j, z) == <<160 * i + 48, 160 * j + 64, z, 160, 0, 0, 1>>
LAnswer(prog, z) == [q \in 1..(Side * Side) |->
                       InProg(prog, Shrink(LPt(((q - 1) % Side) - R, ((q - 1) \div Side) - R, z)))]
(* a layer at the height of a horizontal face is decided only if all heights
   are exact in floating point *)
Exact == par.step % 5 = 0 /\ st.first % 5 = 0
Usable(z) == z % 10 # 0 \/ Exact
Chosen == LET m == Len(st.z) IN
  {i \in {1, 2, m, m - 1, RandomElement(1..m), RandomElement(1..m), RandomElement(1..m)} : i >= 1 /\ i <= m}

LEmit == (Ready /\ st.z # <<>>) =>
  \A ls \in {SetToSortedSeq({i \in Chosen : Usable(st.z[i])})} :
     PrintT(ToJson([prog |-> SrcProg(s3), r |-> R, par |-> par, first |-> st.first, cnt |-> Len(st.z),
                    box |-> st.box,
                    lay |-> [i \in 1..Len(ls) |-> [z |-> st.z[ls[i]], v |-> LAnswer(s3, st.z[ls[i]])]]]))
=============================================================================
