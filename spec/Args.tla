-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Calls of functors: binding of positional and named arguments, defaults, *)
(* alternatives, and what makes a call invalid.  Bind(call) is either an    *)
(* error or a term of ScadSem.  A state machine builds calls argument by   *)
(* argument (mostly sensible values, sometimes ill-typed, out of range,    *)
(* unknown, misplaced, missing or contradictory ones).  The conformance    *)
(* driver replays every finished call into hob3l.                          *)
(* Numbers are in half units.                                              *)
(***************************************************************************)
EXTENDS Shapes, Json

CONSTANTS FUNCS, MAXARGS, MAXFN, R, EMIT

VARIABLES fn, args, ph, opt
vars == <<fn, args, ph, opt>>

RE(S) == RandomElement(S)

(* ---------------------------------------------------------------- values *)
V(t, h, st, e, s) == [t |-> t, h |-> h, st |-> st, e |-> e, s |-> s]
NumS(h, st) == V("num", h, st, <<>>, "")
Num(h) == NumS(h, RE(0..5))
IntV(i) == NumS(2 * i, RE({0, 3}))          \* written as an integer
Bool(b) == V("bool", IF b THEN 2 ELSE 0, 0, <<>>, "")
Undef == V("undef", 0, 0, <<>>, "")
Str(s) == V("str", 0, 0, <<>>, s)
Arr(e) == V("arr", 0, 0, e, "")
Arr1(S, k) == Arr(TLCEval([i \in 1..k |-> Num(RE(S))]))
IsNum(v) == v.t \in {"num", "bool"}       \* true and false have a numeric value
IsInt(v) == v.t = "bool" \/ (v.t = "num" /\ v.h % 2 = 0 /\ v.st \in {0, 3} /\ v.h >= 0)
IsArr(v, lo, hi) == v.t = "arr" /\ Len(v.e) \in lo..hi
IsNums(v, lo, hi) == IsArr(v, lo, hi) /\ \A i \in 1..Len(v.e) : IsNum(v.e[i])
H(v) == v.h
Hs(v) == [i \in 1..Len(v.e) |-> v.e[i].h]
TF(v) == v.h # 0

(* --------------------------------------------------------------- signatures *)
Detail == << <<"$fa", "any">>, <<"$fs", "any">>, <<"$fn", "fn">> >>
Sig(f) ==
  CASE f = "cube" -> [p |-> << <<"size", "size3">>, <<"center", "bool">> >>, n |-> <<>>, m |-> {}]
    [] f = "square" -> [p |-> << <<"size", "size2">>, <<"center", "bool">> >>, n |-> <<>>, m |-> {}]
    [] f \in {"circle", "sphere"} -> [p |-> << <<"r", "len">> >>, n |-> << <<"d", "len">> >> \o Detail, m |-> {}]
    [] f = "cylinder" -> [p |-> << <<"h", "len">>, <<"r1", "rad">>, <<"r2", "rad">>, <<"center", "bool">> >>,
                          n |-> << <<"d", "rad">>, <<"d1", "rad">>, <<"d2", "rad">>, <<"r", "rad">> >> \o Detail, m |-> {}]
    [] f = "polyhedron" -> [p |-> << <<"points", "pts3">>, <<"faces", "faces">> >>,
                            n |-> << <<"triangles", "tris">>, <<"convexity", "uint">> >>, m |-> {"points"}]
    [] f = "polygon" -> [p |-> << <<"points", "pts2">>, <<"paths", "paths">>, <<"convexity", "uint">> >>, n |-> <<>>, m |-> {"points"}]
    [] f \in {"translate", "mirror"} -> [p |-> << <<"v", "vec23">> >>, n |-> <<>>, m |-> {"v"}]
    [] f = "scale" -> [p |-> << <<"v", "scl">> >>, n |-> <<>>, m |-> {"v"}]
    [] f = "rotate" -> [p |-> << <<"a", "ang">>, <<"v", "axis">> >>, n |-> <<>>, m |-> {"a"}]
    [] f = "multmatrix" -> [p |-> << <<"m", "mat">> >>, n |-> <<>>, m |-> {"m"}]
    [] f = "color" -> [p |-> << <<"c", "col">>, <<"alpha", "unit">> >>, n |-> <<>>, m |-> {"c"}]
    [] f = "linear_extrude" -> [p |-> << <<"height", "len">> >>,
          n |-> << <<"center", "bool">>, <<"slices", "uint">>, <<"twist", "tw">>, <<"scale", "esc">>, <<"convexity", "uint">> >> \o Detail,
          m |-> {"height"}]
    [] f = "rotate_extrude" -> [p |-> <<>>, n |-> << <<"angle", "rang">>, <<"convexity", "uint">> >> \o Detail, m |-> {}]
    [] f = "projection" -> [p |-> << <<"cut", "cut">> >>, n |-> << <<"convexity", "uint">> >>, m |-> {}]

All(s) == s.p \o s.n
TypeOf(s, x) == LET a == All(s) i == CHOOSE i \in 1..Len(a) : a[i][1] = x IN a[i][2]
Known(s, x) == \E i \in 1..Len(All(s)) : All(s)[i][1] = x

(* ------------------------------------------------------------- value pools *)
Pt3(v) == Arr([i \in 1..3 |-> NumS(2 * v[i], 0)])
Pt2(v) == Arr([i \in 1..2 |-> NumS(2 * v[i], 0)])
Pts3(s) == Arr([i \in 1..Len(s) |-> Pt3(s[i])])
Pts2(s) == Arr([i \in 1..Len(s) |-> Pt2(s[i])])
Ix(s) == Arr([i \in 1..Len(s) |-> NumS(2 * s[i], 0)])
IxS(s) == Arr([i \in 1..Len(s) |-> Ix(s[i])])

TetP == << <<0,0,0>>, <<3,0,0>>, <<0,2,0>>, <<1,1,3>> >>
TetF == << <<0,1,2>>, <<1,0,3>>, <<2,1,3>>, <<0,2,3>> >>
PyrP == << <<-2,-2,-1>>, <<2,-2,-1>>, <<2,2,-1>>, <<-2,2,-1>>, <<1,0,3>> >>
PyrF == << <<0,1,2,3>>, <<1,0,4>>, <<2,1,4>>, <<3,2,4>>, <<0,3,4>> >>
PyrT == << <<0,1,2>>, <<0,2,3>>, <<1,0,4>>, <<2,1,4>>, <<3,2,4>>, <<0,3,4>> >>
PtsPool == <<TetP, PyrP>>
FacPool == <<TetF, PyrF>>
TriPool == <<TetF, PyrT>>
PolyPool == << << <<0,0>>, <<3,0>>, <<0,2>> >>,
               << <<-1,-2>>, <<2,-1>>, <<1,2>>, <<-2,1>> >>,
               << <<-3,-3>>, <<3,-3>>, <<3,3>>, <<-3,3>>, <<-2,-1>>, <<1,-1>>, <<1,2>>, <<-2,2>> >> >>
MatPool == { << <<1,1,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>> >>, << <<1,0,1,0>>, <<0,1,0,1>>, <<0,0,1,0>>, <<0,0,0,1>> >>,
             << <<0,1,0,-1>>, <<0,0,1,0>>, <<1,0,0,0>>, <<0,0,0,1>> >>, << <<2,1,0,0>>, <<1,1,0,-2>>, <<0,0,1,1>>, <<0,0,0,1>> >>,
             << <<-1,0,0,0>>, <<0,1,1,0>>, <<0,0,1,0>>, <<0,0,0,1>> >>, << <<0,1,0,0>>, <<1,0,0,1>>, <<0,0,1,0>>, <<0,0,0,1>> >>,
             << <<1,2,0,0>>, <<0,-1,0,0>>, <<1,0,1,0>>, <<0,0,0,1>> >>, << <<2,0,0,1>>, <<0,2,0,-1>>, <<0,0,2,1>>, <<0,0,0,1>> >> }
MatBad ==  { << <<1,1,0,0>>, <<1,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>> >>, << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,0,2>>, <<0,0,0,1>> >>,
             << <<1,1,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,1,1>> >>, << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,2>> >>,
             << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<1,0,0,1>> >> }
MatV(m, nr, nc) == Arr([i \in 1..nr |-> Arr([j \in 1..nc[i] |-> NumS(2 * m[i][j], 0)])])
Angs == {0, 90, 180, 270, -90, 360, 450, -180}
AxPool == { <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<-1,0,0>>, <<0,-2,0>>, <<0,0,-1>>, <<0,0,3>>, <<1,1,1>> }
Names == {"red", "Red", "aliceblue", "AliceBlue", "YELLOWGREEN", "lightGoldenrodYellow", "tan", "black"}
NoNames == {"nocolour", "", "redd", "re", "lightgoldenrodyellows", "RED ", "transparent"}

Junk(T) ==
  LET numeric == {Str("1"), Undef, Arr1({2}, 1), Arr(<<>>)}
      arrays == {Str("x"), Undef, Num(2), Arr(<<>>), Arr(<<Str("1"), Num(2), Num(2)>>)}
  IN CASE T \in {"len", "rad", "tw", "any", "rang", "unit"} -> RE(numeric)
       [] T \in {"fn", "uint"} -> RE(numeric \cup {NumS(9, 0)})
       [] T \in {"bool", "cut"} -> RE({Str("true"), Arr(<<>>), Arr1({2}, 2), NumS(3, 0)})
       [] T \in {"size3", "scl"} -> RE({Str("x"), Undef, Arr1({2,3}, 4), Arr1({2,3}, 1), Arr(<<Num(2), Str("1"), Num(2)>>), Arr(<<Num(2), Num(2), Undef>>)})
       [] T \in {"size2", "esc"} -> RE({Str("x"), Undef, Arr1({2,3}, 3), Arr1({2,3}, 1), Arr(<<Num(2), Str("1")>>)})
       [] T = "vec23" -> RE({Str("x"), Undef, Num(2), Arr1({2,3}, 1), Arr1({2,3}, 4), Arr(<<Num(2), Num(2), Str("1")>>)})
       [] T = "axis" -> RE({Str("x"), Num(2), Arr1({2,3}, 2), Arr1({2,3}, 4), Arr(<<Num(2), Num(2), Str("1")>>)})
       [] T = "ang" -> RE({Str("x"), Undef, Arr1({0, 180}, 2), Arr1({0,180}, 4), Arr(<<Num(0), Str("1"), Num(0)>>)})
       [] T = "mat" -> RE({Str("x"), Undef, Num(2), Arr1({2}, 3), Arr(<<Arr1({2}, 3)>>), MatV(RE(MatPool) \o << <<0,0,0,1>> >>, 5, <<4,4,4,4,4>>),
                           MatV(RE(MatPool), 3, <<4,1,4>>), Arr(<<Arr1({2}, 2), Num(2)>>), Arr(<<Arr1({2}, 5), Arr1({2}, 4), Arr1({2}, 4)>>)})
       [] T = "col" -> RE({Num(2), Arr1({0,1,2}, 2), Arr1({0,1,2}, 5), Arr(<<Num(0), Str("x"), Num(0)>>), Arr1({4}, 3)}
                          \cup {Str(s) : s \in {RE(NoNames)}})
       [] T = "pts3" -> RE({Num(2), Str("x"), Undef, Pts2(PolyPool[1]), Arr(<<Num(1)>>)})
       [] T = "pts2" -> RE({Num(2), Str("x"), Undef, Pts3(TetP), Arr(<<Num(1), Num(2)>>)})
       [] T \in {"faces", "tris"} -> LET b == RE({TetF, PyrF}) IN
             RE({Num(2), Str("x"), Arr(<<Num(0)>>), IxS(b \o << <<0, 1>> >>), IxS(b \o << <<0, 1, 9>> >>), IxS(b \o << <<0, -1, 2>> >>),
                 IxS(SubSeq(b, 1, Len(b) - 1)), IxS(<<Rev(b[1])>> \o SubSeq(b, 2, Len(b)))})
       [] T = "paths" -> RE({Num(2), Str("x"), Arr(<<Num(0)>>), IxS(<< <<0, 1>> >>), IxS(<< <<0, 1, 9>> >>), IxS(<< <<0, -1, 2>> >>)})

Good(T, k) ==        \* k: keeps the pools of one polyhedron together
  CASE T = "len" -> Num(RE(1..6))
    [] T = "rad" -> Num(RE(1..6))
    [] T = "bool" -> RE({Bool(TRUE), Bool(FALSE), IntV(0), IntV(1), IntV(2)})
    [] T = "cut" -> RE({Bool(TRUE), IntV(1)})
    [] T = "any" -> Num(RE(-4..8))
    [] T = "fn" -> IntV(RE({0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 12, 13, 24}))
    [] T = "uint" -> IntV(RE(1..6))
    [] T = "unit" -> Num(RE(0..2))
    [] T = "size3" -> IF RE(1..2) = 1 THEN Num(RE(1..6)) ELSE Arr1(1..6, 3)
    [] T = "size2" -> IF RE(1..2) = 1 THEN Num(RE(1..6)) ELSE Arr1(1..6, 2)
    [] T = "vec23" -> Arr1(-4..4, RE({2, 3}))
    [] T = "scl" -> IF RE(1..3) = 1 THEN Num(RE({-2, -1, 1, 2, 3, 4})) ELSE Arr1({-2, -1, 1, 2, 3, 4}, RE({2, 3}))
    [] T = "ang" -> IF RE(1..3) = 1 THEN Arr(TLCEval([i \in 1..3 |-> IntV(RE(Angs))])) ELSE Num(2 * RE(Angs \cup {120}))
    [] T = "axis" -> LET a == RE(AxPool) IN Arr(TLCEval([i \in 1..3 |-> Num(2 * a[i])]))
    [] T = "mat" -> MatV(RE(MatPool), RE({2, 3, 3, 4, 4}), TLCEval([i \in 1..4 |-> RE({2, 3, 4, 4, 4})]))
    [] T = "col" -> IF RE(1..2) = 1 THEN Str(RE(Names)) ELSE RE({Undef, Arr1(0..2, 3), Arr1(0..2, 4)})
    [] T = "tw" -> Num(2 * RE({0, 0, 90, -90, 180, 30}))
    [] T = "esc" -> IF RE(1..2) = 1 THEN Num(RE(0..4)) ELSE Arr1(1..4, 2)
    [] T = "rang" -> Num(2 * RE({60, 90, 180, 240, 270, 360, 400}))
    [] T = "pts3" -> Pts3(PtsPool[k])
    [] T = "faces" -> IxS(FacPool[k])
    [] T = "tris" -> IxS(TriPool[k])
    [] T = "pts2" -> Pts2(PolyPool[RE(1..3)])
    [] T = "paths" -> RE({Undef, IxS(<< <<0, 1, 2>> >>), IxS(<< <<2, 1, 0>> >>)})

(* values of the right type that the documented range excludes *)
Off(T) ==
  CASE T = "len" -> Num(0)
    [] T = "rad" -> Num(RE({0, -1, -2}))
    [] T = "size3" -> RE({Num(0), Arr(<<Num(2), Num(0), Num(2)>>), Arr(<<Num(1), Num(2), Num(0)>>), Arr(<<Num(0), Num(1), Num(2)>>)})
    [] T = "size2" -> RE({Num(0), Arr(<<Num(2), Num(0)>>), Arr(<<Num(0), Num(1)>>)})
    [] T = "vec23" -> Arr1({0}, RE({2, 3}))          \* mirror
    [] T = "scl" -> RE({Num(0), Arr(<<Num(2), Num(0), Num(2)>>), Arr(<<Num(0), Num(2)>>), Arr(<<Num(2), Num(2), Num(0)>>)})
    [] T = "axis" -> Arr1({0}, 3)
    [] T = "mat" -> LET m == RE(MatBad) IN MatV(m, 4, <<4,4,4,4>>)
    [] T = "esc" -> RE({Num(-2), Arr(<<Num(0), Num(2)>>), Arr(<<Num(2), Num(0)>>), Arr(<<Num(2), Num(-1)>>)})
    [] T = "unit" -> Num(RE({-1, 3, 4}))
    [] T = "uint" -> IntV(0)
    [] T = "rang" -> Num(RE({0, -180}))
    [] T = "cut" -> Bool(FALSE)
    [] OTHER -> Good(T, 1)

Val(T, k) == LET z == RE(1..24) IN TLCEval(IF z = 1 THEN Junk(T) ELSE IF z = 2 THEN Off(T) ELSE Good(T, k))

(* ------------------------------------------------------------------ types *)
Typed(T, v) ==
  CASE T \in {"len", "rad", "tw", "any", "rang"} -> IsNum(v)
    [] T = "unit" -> IsNum(v) /\ v.h \in 0..2
    [] T \in {"fn", "uint", "bool", "cut"} -> IsInt(v)
    [] T = "size3" -> IsNum(v) \/ IsNums(v, 3, 3)
    [] T \in {"size2", "esc"} -> IsNum(v) \/ IsNums(v, 2, 2)
    [] T = "vec23" -> IsNums(v, 2, 3)
    [] T = "scl" -> IsNum(v) \/ IsNums(v, 2, 3)
    [] T = "ang" -> IsNum(v) \/ IsNums(v, 3, 3)
    [] T = "axis" -> IsNums(v, 3, 3)
    [] T = "mat" -> IsArr(v, 2, 4) /\ \A i \in 1..Len(v.e) : IsNums(v.e[i], 2, 4)
    [] T = "col" -> \/ v.t = "undef" \/ (v.t = "str" /\ v.s \in Names)
                    \/ IsNums(v, 3, 4) /\ \A i \in 1..Len(v.e) : v.e[i].h \in 0..2
    [] T = "pts3" -> v.t = "arr" /\ \A i \in 1..Len(v.e) : IsNums(v.e[i], 3, 3)
    [] T = "pts2" -> v.t = "arr" /\ \A i \in 1..Len(v.e) : IsNums(v.e[i], 2, 2)
    [] T = "paths" -> v.t = "undef" \/ (v.t = "arr" /\ \A i \in 1..Len(v.e) : v.e[i].t = "arr" /\ Len(v.e[i].e) >= 3
                                         /\ \A j \in 1..Len(v.e[i].e) : IsInt(v.e[i].e[j]))
    [] T \in {"faces", "tris"} -> v.t = "arr" /\ \A i \in 1..Len(v.e) : v.e[i].t = "arr" /\ Len(v.e[i].e) >= 3
                                         /\ \A j \in 1..Len(v.e[i].e) : IsInt(v.e[i].e[j])

(* ------------------------------------------------------------------ binding *)
FirstNamed(a) == IF \E i \in 1..Len(a) : a[i].n # "" THEN CHOOSE i \in 1..Len(a) : a[i].n # "" /\ \A j \in 1..(i-1) : a[j].n = "" ELSE Len(a) + 1

(* the environment: parameter name -> value, last binding; err if malformed *)
RECURSIVE Env(_, _, _, _)
Env(s, a, i, e) ==
  IF i > Len(a) THEN e
  ELSE LET nm == IF a[i].n = "" THEN s.p[i][1] ELSE a[i].n
       IN Env(s, a, i + 1, IF Known(s, nm) THEN (nm :> a[i].v) @@ e ELSE e)
WellFormed(s, a, o) ==
  /\ \A i \in 1..Len(a) : a[i].n = "" => i <= Len(s.p) /\ i < FirstNamed(a)
  /\ \A i \in 1..Len(a) : a[i].n # "" => Known(s, a[i].n) \/ o # "error"
Has(e, x) == x \in DOMAIN e
Get(e, x, d) == IF Has(e, x) THEN e[x] ELSE d

Half(c) == Scl(<<1, 1, 1>>, 2, c)
FnOf(e) == LET f == H(Get(e, "$fn", NumS(0, 0))) \div 2 IN IF f = 0 \/ f > MAXFN THEN MAXFN ELSE Max2(3, f)
(* more sides than the maximum: a true sphere *)
SphFn(e) == LET f == H(Get(e, "$fn", NumS(0, 0))) \div 2 IN IF f = 0 \/ f > MAXFN THEN 1000 + MAXFN ELSE Max2(3, f)
Res(ok, nodes) == [ok |-> ok, c |-> nodes, open |-> FALSE]
Open == [ok |-> TRUE, c |-> <<>>, open |-> TRUE]      \* the documentation leaves it open
Err == Res(FALSE, <<>>)
Child3 == Tra(<<1, 0, 0>>, <<Cube(<<2, 1, 3>>, FALSE)>>)
Child2 == Pgn1(<< <<0,0>>, <<3,0>>, <<2,1>>, <<2,2>>, <<0,1>> >>)
In2D(f) == f \in {"square", "circle", "polygon", "projection"}
Vec3(v, dflt) == LET h == Hs(v) IN IF Len(h) = 3 THEN h ELSE h \o <<dflt>>
Mat44(v) == [i \in 1..4 |-> [j \in 1..4 |->
              IF i <= Len(v.e) /\ j <= Len(v.e[i].e) THEN v.e[i].e[j].h \div 2 ELSE IF i = j THEN 1 ELSE 0]]
IdxOf(v) == [i \in 1..Len(v.e) |-> [j \in 1..Len(v.e[i].e) |-> v.e[i].e[j].h \div 2]]
PtsOf(v) == [i \in 1..Len(v.e) |-> [j \in 1..Len(v.e[i].e) |-> v.e[i].e[j].h \div 2]]

(* every edge of a closed surface is used once in each direction *)
EdgesOf(fs) == {<<f, j>> : f \in 1..Len(fs), j \in 1..10}
DirEdges(fs) == LET S == {fj \in EdgesOf(fs) : fj[2] <= Len(fs[fj[1]])}
                    ed(fj) == LET w == fs[fj[1]] IN <<w[fj[2]], w[(fj[2] % Len(w)) + 1]>>
                IN [n |-> Cardinality(S), s |-> {ed(fj) : fj \in S}]
Oriented(fs) == LET d == DirEdges(fs) IN d.n = Cardinality(d.s) /\ \A x \in d.s : <<x[2], x[1]>> \in d.s

(* every edge has exactly two adjacent faces *)
ClosedSurface(fs) ==
  LET S == {fj \in EdgesOf(fs) : fj[2] <= Len(fs[fj[1]])}
      ed(fj) == LET w == fs[fj[1]] IN {w[fj[2]], w[(fj[2] % Len(w)) + 1]}
      E == {ed(fj) : fj \in S}
  IN \A e \in E : Cardinality({fj \in S : ed(fj) = e}) = 2

RotOf(deg, ax, sg) ==
  LET d == ((deg % 360) + 360) % 360
      k == d \div 90
      co == CASE k = 0 -> 1 [] k = 1 -> 0 [] k = 2 -> -1 [] k = 3 -> 0
      si == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> 0 [] k = 3 -> -1
  IN MatRot(ax, co, sg * si, 1)

Apply1(f, e) ==
  CASE f = "cube" ->
         LET z == Get(e, "size", NumS(2, 0))
             s == IF IsNum(z) THEN <<z.h, z.h, z.h>> ELSE Hs(z)
         IN IF \E i \in 1..3 : s[i] <= 0 THEN Err
            ELSE Res(TRUE, <<Half(<<CubeHs("", <<>>, s, TF(Get(e, "center", Bool(FALSE))))>>)>>)
    [] f = "square" ->
         LET z == Get(e, "size", NumS(2, 0))
             s == IF IsNum(z) THEN <<z.h, z.h>> ELSE Hs(z)
         IN IF \E i \in 1..2 : s[i] <= 0 THEN Err
            ELSE Res(TRUE, <<Half(<<Sqr(s, TF(Get(e, "center", Bool(FALSE))))>>)>>)
    [] f = "circle" ->
         IF Has(e, "r") /\ Has(e, "d") THEN Err
         ELSE LET q == IF Has(e, "d") THEN H(e["d"]) ELSE 2 * H(Get(e, "r", NumS(2, 0)))     \* quarter units
              IN IF q <= 0 THEN Err ELSE Res(TRUE, <<Scl(<<1,1,1>>, 4, <<Cir(q, FnOf(e))>>)>>)
    [] f = "sphere" ->
         IF Has(e, "r") /\ Has(e, "d") THEN Err
         ELSE LET q == IF Has(e, "d") THEN H(e["d"]) ELSE 2 * H(Get(e, "r", NumS(2, 0)))
              IN IF q <= 0 THEN Err ELSE Res(TRUE, <<Scl(<<1,1,1>>, 4, <<Sph(q, SphFn(e))>>)>>)
    [] f = "cylinder" ->
         LET both(a, b) == Has(e, a) /\ Has(e, b)
             one == NumS(2, 0)
             r1 == IF Has(e, "r") THEN 2 * H(e["r"]) ELSE IF Has(e, "d") THEN H(e["d"])
                   ELSE IF Has(e, "d1") THEN H(e["d1"]) ELSE 2 * H(Get(e, "r1", one))
             r2 == IF Has(e, "r") THEN 2 * H(e["r"]) ELSE IF Has(e, "d") THEN H(e["d"])
                   ELSE IF Has(e, "d2") THEN H(e["d2"]) ELSE 2 * H(Get(e, "r2", one))
             h == 2 * H(Get(e, "h", one))
         IN IF both("r", "r1") \/ both("r", "r2") \/ both("d", "d1") \/ both("d", "d2") \/ both("d", "r")
               \/ both("r1", "d1") \/ both("r2", "d2") THEN Err
            \* not listed, but it determines one radius twice: d together with r1 or r2, r with d1 or d2
            ELSE IF (Has(e, "d") \/ Has(e, "r")) /\ (Has(e, "r1") \/ Has(e, "r2") \/ Has(e, "d1") \/ Has(e, "d2"))
                 THEN Err
            ELSE IF h <= 0 \/ r1 < 0 \/ r2 < 0 \/ (r1 = 0 /\ r2 = 0) THEN Err
            ELSE Res(TRUE, <<Scl(<<1,1,1>>, 4, <<Cyl(h, r1, r2, TF(Get(e, "center", Bool(FALSE))), FnOf(e))>>)>>)
    [] f = "polyhedron" ->
         IF Has(e, "faces") = Has(e, "triangles") THEN Err
         ELSE LET fs == IdxOf(IF Has(e, "faces") THEN e["faces"] ELSE e["triangles"])
                  ps == PtsOf(e["points"])
              IN IF \E i \in 1..Len(fs) : \E j \in 1..Len(fs[i]) : fs[i][j] >= Len(ps) \/ fs[i][j] < 0 THEN Err
                 ELSE IF ~ClosedSurface(fs) THEN Err
                 \* a face listed counter-clockwise: the user's mistake, not checked
                 ELSE IF ~Oriented(fs) THEN Open
                 ELSE Res(TRUE, <<PhdA("", <<>>, ps, fs)>>)
    [] f = "polygon" ->
         LET ps == PtsOf(e["points"])
             dflt == <<Idx(Len(ps))>>
             pa == IF Has(e, "paths") /\ e["paths"].t # "undef" THEN IdxOf(e["paths"]) ELSE dflt
         IN IF \E i \in 1..Len(pa) : \E j \in 1..Len(pa[i]) : pa[i][j] >= Len(ps) \/ pa[i][j] < 0 THEN Err
            ELSE Res(TRUE, <<Pgn(ps, pa)>>)
    [] f = "translate" -> LET v == Vec3(e["v"], 0) IN
         Res(TRUE, <<Xf("", <<>>, [m |-> << <<2,0,0,v[1]>>, <<0,2,0,v[2]>>, <<0,0,2,v[3]>> >>, d |-> 2], TRUE, <<Child3>>)>>)
    [] f = "mirror" -> LET v == Vec3(e["v"], 0) IN
         IF v = <<0,0,0>> THEN Err ELSE Res(TRUE, <<Xf("", <<>>, MatMir(v), FALSE, <<Child3>>)>>)
    [] f = "scale" -> LET v == IF IsNum(e["v"]) THEN <<H(e["v"]), H(e["v"]), H(e["v"])>> ELSE Vec3(e["v"], 2) IN
         IF \E i \in 1..3 : v[i] = 0 THEN Err ELSE Res(TRUE, <<Scl(v, 2, <<Child3>>)>>)
    [] f = "rotate" ->
         LET a == e["a"] IN
         IF a.t = "arr"
         THEN IF Has(e, "v") THEN Err
              ELSE IF \E i \in 1..3 : (H(a.e[i]) \div 2) % 90 # 0 \/ H(a.e[i]) % 2 # 0 THEN Res(TRUE, <<>>)
              ELSE LET g(i) == H(a.e[i]) \div 2 IN
                   Res(TRUE, <<Xf("", <<>>, MatMul(RotOf(g(3), 3, 1), MatMul(RotOf(g(2), 2, 1), RotOf(g(1), 1, 1))), FALSE, <<Child3>>)>>)
         ELSE LET v == IF Has(e, "v") THEN Hs(e["v"]) ELSE <<0, 0, 2>>
                  nz == {i \in 1..3 : v[i] # 0}
                  d == H(a) \div 2
                  ax == CHOOSE i \in nz : TRUE
              IN IF nz = {} THEN Err
                 ELSE IF H(a) % 2 # 0 THEN Res(TRUE, <<>>)
                 ELSE IF Cardinality(nz) = 1 /\ d % 90 = 0
                 THEN Res(TRUE, <<Xf("", <<>>, RotOf(d, ax, Sgn(v[ax])), FALSE, <<Child3>>)>>)
                 ELSE IF v[1] = v[2] /\ v[2] = v[3] /\ v[1] > 0 /\ d \in {0, 120, 360}
                 THEN Res(TRUE, <<IF d = 120 THEN RotD(<<Child3>>) ELSE Child3>>)
                 ELSE Res(TRUE, <<>>)                \* accepted, not evaluated here
    [] f = "multmatrix" ->
         LET m == Mat44(e["m"]) M == [m |-> <<m[1], m[2], m[3]>>, d |-> 1]
         IN IF m[4] # <<0,0,0,1>> \/ Det3(M) = 0 THEN Err ELSE Res(TRUE, <<Xf("", <<>>, M, FALSE, <<Child3>>)>>)
    [] f = "color" ->
         IF e["c"].t = "arr" /\ Len(e["c"].e) = 4 /\ Has(e, "alpha") THEN Err ELSE Res(TRUE, <<Child3>>)
    [] f = "linear_extrude" ->
         LET h == H(e["height"])
             sl == H(Get(e, "slices", NumS(2, 0))) \div 2
             z == Get(e, "scale", NumS(2, 0))
             sc == IF IsNum(z) THEN <<z.h, z.h>> ELSE Hs(z)
             tw == H(Get(e, "twist", NumS(0, 0)))            \* half degrees
         IN IF h <= 0 \/ sl < 1 \/ sc[1] < 0 \/ sc[2] < 0 \/ (sc[1] = 0) # (sc[2] = 0) THEN Err
            ELSE IF tw % 30 # 0 THEN Res(TRUE, <<>>)
            ELSE Res(TRUE, <<Scl(<<2, 2, 1>>, 2, <<ExtA(<<>>, <<Child2>>, h, TF(Get(e, "center", Bool(FALSE))), sl, tw \div 30, sc[1], sc[2], 2)>>)>>)
    [] f = "rotate_extrude" ->
         LET a0 == H(Get(e, "angle", NumS(720, 0)))
             a == IF a0 > 720 THEN 720 ELSE a0
             k == H(Get(e, "$fn", NumS(0, 0))) \div 2
             mn == IF a >= 720 THEN 3 ELSE IF a >= 360 THEN 2 ELSE 1
             n == IF k = 0 \/ k > MAXFN THEN MAXFN ELSE Max2(mn, k)
         IN IF a <= 0 THEN Err
            ELSE IF a = 720 THEN Res(TRUE, <<RexA(<<>>, <<Child2>>, n, 360)>>)
            ELSE IF a % (30 * n) # 0 THEN Res(TRUE, <<>>)
            ELSE Res(TRUE, <<RexA(<<>>, <<Child2>>, n, a \div 2)>>)
    [] f = "projection" -> IF TF(Get(e, "cut", Bool(FALSE))) THEN Res(TRUE, <<Pro(<<Child3>>)>>) ELSE Err

Bind(f, a, o) ==
  LET s == Sig(f) IN
  IF ~WellFormed(s, a, o) THEN Err
  ELSE LET e == Env(s, a, 1, << >>)
       IN IF \E x \in s.m : ~Has(e, x) THEN Err
          ELSE IF \E x \in DOMAIN e : ~Typed(TypeOf(s, x), e[x]) THEN Err
          ELSE Apply1(f, e)

(* ------------------------------------------------------------- the machine *)
Unknown == {"size2", "radius", "Center", "$f", "points2", "foo"}
Used(a, s) == {a[i].n : i \in {j \in 1..Len(a) : a[j].n # ""}} \cup {s.p[i][1] : i \in {j \in 1..Len(s.p) : j <= Len(a) /\ a[j].n = ""}}
NoNamed(a) == \A i \in 1..Len(a) : a[i].n = ""

Init == ph = "new" /\ fn = "" /\ args = <<>> /\ opt = ""
Begin == /\ ph = "new" /\ ph' = "run"
         /\ fn' \in {RandomElement(FUNCS)} /\ args' = <<>>
         /\ opt' \in {RandomElement({"", "error", "warn", "ignore"})}
(* st of a point list remembers which solid it is *)
Solid(a) == IF \E i \in 1..Len(a) : a[i].v.t = "arr" /\ Len(a[i].v.e) = 4 THEN 1 ELSE 2
AddPos == /\ ph = "run" /\ Len(args) < MAXARGS
          /\ LET s == Sig(fn) IN
             /\ NoNamed(args) \/ RandomElement(1..25) = 1
             /\ Len(args) < Len(s.p) \/ RandomElement(1..12) = 1
             /\ args' = Append(args, [n |-> "", v |-> TLCEval(IF Len(args) < Len(s.p)
                   THEN Val(s.p[Len(args) + 1][2], IF args = <<>> THEN RandomElement({1,2}) ELSE Solid(args)) ELSE RE({Num(2), Bool(TRUE), IntV(4)}))])
          /\ UNCHANGED <<fn, ph, opt>>
AddNam == /\ ph = "run" /\ Len(args) < MAXARGS
          /\ LET s == Sig(fn)
                 free == {All(s)[i][1] : i \in 1..Len(All(s))} \ Used(args, s)
             IN /\ free # {}
                /\ \E x \in {RandomElement(free)} :
                     args' = Append(args, [n |-> x, v |-> TLCEval(Val(TypeOf(s, x), IF args = <<>> THEN RandomElement({1,2}) ELSE Solid(args)))])
          /\ UNCHANGED <<fn, ph, opt>>
AddUnk == /\ ph = "run" /\ Len(args) < MAXARGS /\ RandomElement(1..8) = 1
          /\ \E x \in {RandomElement(Unknown)} :
               /\ ~Known(Sig(fn), x) /\ \A i \in 1..Len(args) : args[i].n # x
               /\ args' = Append(args, [n |-> x, v |-> TLCEval(RE({Num(2), Str("a"), Undef, Arr1({1}, 2)}))])
          /\ UNCHANGED <<fn, ph, opt>>
(* a call that lacks something mandatory is finished only now and then *)
Lacks == \E x \in Sig(fn).m : x \notin Used(args, Sig(fn))
Finish == /\ ph = "run" /\ (Lacks => RandomElement(1..8) = 1) /\ ph' = "done" /\ UNCHANGED <<fn, args, opt>>
Next == Begin \/ AddPos \/ AddNam \/ AddUnk \/ Finish
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------------- laws *)
(* naming positional arguments, and reordering named ones, changes nothing *)
NameAll(s, a) == [i \in 1..Len(a) |-> IF a[i].n = "" /\ i <= Len(s.p) THEN [a[i] EXCEPT !.n = s.p[i][1]] ELSE a[i]]
Alt(s, a) == Rev(NameAll(s, a))
AltOk(s, a) == \A i \in 1..Len(a) : a[i].n = "" => i <= Len(s.p) /\ i < FirstNamed(a)
LawNaming == ph = "done" =>
   LET s == Sig(fn) IN AltOk(s, args) => Bind(fn, args, opt) = Bind(fn, Alt(s, args), opt)
(* with severities other than error, unknown parameters are as if absent *)
LawUnknown == (ph = "done" /\ opt # "error") =>
   LET s == Sig(fn)
       b == SelectSeq(args, LAMBDA x : x.n = "" \/ Known(s, x.n))
       wf == \A i \in 1..Len(args) : args[i].n = "" => i <= Len(s.p) /\ i < FirstNamed(args)
   IN wf => Bind(fn, args, opt) = Bind(fn, b, opt)

(* -------------------------------------------------------------------- emit *)
Pt(i, j, z2) == <<14 * i + 4, 14 * j + 6, 7 * z2, 14>>
Side == 2 * R
Answer(c, z2) == [q \in 1..(Side * Side) |-> Any3(c, 1, Pt(((q - 1) % Side) - R, ((q - 1) \div Side) - R, z2), NO)]
Emit == (ph = "done" /\ EMIT) =>
  LET s == Sig(fn)
      r == Bind(fn, args, opt)
      t == IF r.c = <<>> THEN <<>> ELSE IF In2D(fn) THEN <<Ext(r.c, 4, TRUE)>> ELSE r.c
      kid == IF fn \in {"linear_extrude", "rotate_extrude"} THEN <<Src(Child2)>>
             ELSE IF fn \in {"translate", "mirror", "scale", "rotate", "multmatrix", "color", "projection"} THEN <<Src(Child3)>>
             ELSE <<>>
      ls == <<-3, -1, 1, 3, 5>>
  IN PrintT(ToJson([f |-> fn, args |-> args, opt |-> opt, ok |-> r.ok, open |-> r.open, r |-> R, kid |-> kid, flat |-> In2D(fn),
                    alt |-> IF AltOk(s, args) THEN Alt(s, args) ELSE <<>>,
                    lay |-> IF t = <<>> THEN <<>> ELSE [i \in 1..Len(ls) |-> [z2 |-> ls[i], v |-> Answer(t, ls[i])]]]))
=============================================================================
