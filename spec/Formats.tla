------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* One run of the slicer with any output format.  The state is the model   *)
(* (solids with vertical walls added and subtracted one after the other),  *)
(* the layers to cut, the settings of the writers and how each format is   *)
(* asked for.  The transitions draw one of these at a time.                *)
(* Case says, independently of any format, what the file has to describe:  *)
(* which layers, their heights, the region of each (on sample points), the *)
(* box of the model (PostScript fits that to the page), the page's and the *)
(* scene's transformation, the scene's groups -- and which format each     *)
(* command line selects.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MAXN, R0, MAXLAY,    \* solids, half width of the sampled square, layers
          BIG                  \* a comb with very many teeth, sized around the limit of a batch of the JavaScript scene
VARIABLES st, sols, lay, set, sels
vars == <<st, sols, lay, set, sels>>

R(S) == RandomElement(S)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

(* ------------------------------------------------------------- the model *)
(* coordinates in units; heights of solids are whole, those of layers odd  *)
(* eighths, so that no layer touches a face.                               *)
(* Sample points are (7i+2, 7j+3)/7.                                       *)
Inside(s, i, j) ==
  LET x == 7 * i + 2 y == 7 * j + 3 IN
  CASE s.kind = "box" -> IF 7 * s.x0 < x /\ x < 7 * s.x1 /\ 7 * s.y0 < y /\ y < 7 * s.y1 THEN 1 ELSE 0
    [] s.kind = "dia" -> IF AbsI(x - 7 * s.x0) + AbsI(y - 7 * s.y0) < 7 * s.r THEN 1 ELSE 0
    [] s.kind = "comb" -> \* a bar with s.k teeth, every other unit
       LET u == x - 7 * s.x0 v == y - 7 * s.y0 IN
       IF u > 0 /\ u < 14 * s.k /\ v > 0 /\ (v < 7 \/ (v < 21 /\ u % 14 < 7)) THEN 1 ELSE 0
    [] OTHER -> \* the half of the box below its falling diagonal
       LET w == s.x1 - s.x0 h == s.y1 - s.y0 u == x - 7 * s.x0 v == y - 7 * s.y0 IN
       IF u < 0 \/ v < 0 THEN 0
       ELSE IF u * h + v * w < 7 * w * h THEN 1 ELSE IF u * h + v * w = 7 * w * h THEN 2 ELSE 0
At(s, z8) == 8 * s.z0 < z8 /\ z8 < 8 * s.z1
(* the last solid that covers the point decides *)
RECURSIVE Val(_, _, _, _)
Val(k, i, j, z8) ==
  IF k = 0 THEN 0
  ELSE LET s == sols[k] IN
       IF ~At(s, z8) THEN Val(k - 1, i, j, z8)
       ELSE LET m == Inside(s, i, j)
                below == Val(k - 1, i, j, z8)
                v == IF s.sub THEN 0 ELSE 1
            IN IF m = 1 THEN v ELSE IF m = 0 THEN below ELSE IF below = v THEN v ELSE 2
Width == 2 * R0
Region(z8) == [p \in 1..(Width * Width) |-> Val(Len(sols), ((p - 1) % Width) - R0, ((p - 1) \div Width) - R0, z8)]
ZOf(k) == lay.b + (k - 1) * lay.step

(* the box of the solids of a set, <<x0, y0, x1, y1>> *)
Box(s) == IF s.kind = "dia" THEN <<s.x0 - s.r, s.y0 - s.r, s.x0 + s.r, s.y0 + s.r>> ELSE <<s.x0, s.y0, s.x1, s.y1>>
RECURSIVE Boxes(_, _)
Boxes(K, b) == IF K = {} THEN b
               ELSE LET k == CHOOSE k \in K : TRUE c == Box(sols[k]) IN
                    Boxes(K \ {k}, IF b = <<>> THEN c ELSE <<MinI(b[1], c[1]), MinI(b[2], c[2]), MaxI(b[3], c[3]), MaxI(b[4], c[4])>>)

(* ------------------------------------------------- transformation matrices *)
(* three rows of four integers over a common denominator                   *)
Angles == 1..7
AngName == <<"90", "180", "-90", "36.86989764584402", "-36.86989764584402", "53.13010235415598", "0">>
AngC == <<0, -5, 0, 4, 4, 3, 5>>
AngS == <<5, 0, -5, 3, -3, 4, 0>>
Unit == [m |-> <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>>>, d |-> 1]
RotX(a) == [m |-> <<<<5, 0, 0, 0>>, <<0, AngC[a], -AngS[a], 0>>, <<0, AngS[a], AngC[a], 0>>>>, d |-> 5]
RotY(a) == [m |-> <<<<AngC[a], 0, AngS[a], 0>>, <<0, 5, 0, 0>>, <<-AngS[a], 0, AngC[a], 0>>>>, d |-> 5]
RotZ(a) == [m |-> <<<<AngC[a], -AngS[a], 0, 0>>, <<AngS[a], AngC[a], 0, 0>>, <<0, 0, 5, 0>>>>, d |-> 5]
Scale(x, y, z, d) == [m |-> <<<<x, 0, 0, 0>>, <<0, y, 0, 0>>, <<0, 0, z, 0>>>>, d |-> d]
Move(x, y, z) == [m |-> <<<<1, 0, 0, x>>, <<0, 1, 0, y>>, <<0, 0, 1, z>>>>, d |-> 1]
Mul(A, B) ==
  [m |-> [i \in 1..3 |-> [j \in 1..4 |->
      A.m[i][1] * B.m[1][j] + A.m[i][2] * B.m[2][j] + A.m[i][3] * B.m[3][j] + (IF j = 4 THEN A.m[i][4] * B.d ELSE 0)]],
   d |-> A.d * B.d]
RECURSIVE Prod(_, _)
Prod(s, k) == IF k > Len(s) THEN Unit ELSE Mul(s[k].m, Prod(s, k + 1))
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))

(* page: one option after the other is applied to what the ones before made *)
PsOp(k, a, f) == CASE k = "x" -> [t |-> "--ps-rot-x=" \o AngName[a], m |-> RotX(a)]
                   [] k = "y" -> [t |-> "--ps-rot-y=" \o AngName[a], m |-> RotY(a)]
                   [] k = "z" -> [t |-> "--ps-rot-z=" \o AngName[a], m |-> RotZ(a)]
                   [] OTHER -> [t |-> "--ps-scale=" \o (<<"0.5", "2", "1.5">>[f]), m |-> Scale(<<1, 4, 3>>[f], <<1, 4, 3>>[f], <<1, 4, 3>>[f], 2)]
PsMat(ops) == Prod(Rev(ops), 1)
(* scene: the functors around a part marked with "!", outermost first *)
CtxOp(k, a, v) == CASE k = "x" -> [t |-> "rotate([" \o AngName[a] \o ",0,0])", m |-> RotX(a)]
                    [] k = "y" -> [t |-> "rotate([0," \o AngName[a] \o ",0])", m |-> RotY(a)]
                    [] k = "z" -> [t |-> "rotate([0,0," \o AngName[a] \o "])", m |-> RotZ(a)]
                    [] k = "s" -> [t |-> "scale([" \o ToString(v[1]) \o "," \o ToString(v[2]) \o "," \o ToString(v[3]) \o "])", m |-> Scale(v[1], v[2], v[3], 1)]
                    [] k = "m" -> [t |-> "mirror([0,1,0])", m |-> Scale(1, -1, 1, 1)]
                    [] OTHER -> [t |-> "translate([" \o ToString(v[1]) \o "," \o ToString(v[2]) \o "," \o ToString(v[3]) \o "])", m |-> Move(v[1], v[2], v[3])]

(* -------------------------------------------------- which format is meant *)
(* the last --dump option counts; without one, the ending of the file's     *)
(* name; ".stl" is text unless binary is preferred                          *)
Suffixes == {"stl", "stl", "stb", "stlb", "js", "scad", "csg", "ps", "dat", ""}
Dumps == {"stl", "stlb", "js", "csg2", "ps"}
OfDump(d) == CASE d = "stl" -> "stla" [] d = "stlb" -> "stlb" [] OTHER -> d
OfSuffix(f, bin) == CASE f = "stl" -> IF bin THEN "stlb" ELSE "stla" [] f \in {"stb", "stlb"} -> "stlb" [] f = "js" -> "js"
                      [] f \in {"scad", "csg"} -> "csg2" [] f = "ps" -> "ps" [] f = "" -> "none" [] OTHER -> "error"
RECURSIVE LastOf(_, _, _)
LastOf(o, k, kinds) == IF k = 0 THEN "" ELSE IF o[k][1] \in kinds THEN o[k][2] ELSE LastOf(o, k - 1, kinds)
FormatOf(s) ==
  LET d == LastOf(s.o, Len(s.o), {"dump"}) b == LastOf(s.o, Len(s.o), {"pref"}) IN
  IF d # "" THEN OfDump(d) ELSE OfSuffix(s.f, b = "bin")
OptText(o) == IF o[1] = "dump" THEN "--dump-" \o o[2] ELSE "--stl-" \o o[2]
RandomSel(z) == [f |-> R(Suffixes), o |-> [k \in 1..R({0, 0, 1, 1, 2, 3}) |-> IF R({0, 1}) = 0 THEN <<"dump", R(Dumps)>> ELSE <<"pref", R({"bin", "txt"})>>]]
(* a plain way, an option in front of it that does not matter or is overridden *)
PlainSel(fmt) ==
  CASE fmt = "stla" -> R({[f |-> "stl", o |-> <<>>], [f |-> "stl", o |-> <<<<"pref", "bin">>, <<"pref", "txt">>>>], [f |-> "", o |-> <<<<"dump", "stl">>>>],
                          [f |-> "js", o |-> <<<<"dump", "stl">>>>], [f |-> "stb", o |-> <<<<"dump", "js">>, <<"dump", "stl">>>>]})
    [] fmt = "stlb" -> R({[f |-> "stl", o |-> <<<<"pref", "bin">>>>], [f |-> "stb", o |-> <<>>], [f |-> "stlb", o |-> <<<<"pref", "txt">>>>],
                          [f |-> "stl", o |-> <<<<"dump", "stlb">>>>], [f |-> "", o |-> <<<<"pref", "txt">>, <<"dump", "stlb">>>>]})
    [] fmt = "js" -> R({[f |-> "js", o |-> <<>>], [f |-> "js", o |-> <<<<"pref", "bin">>>>], [f |-> "", o |-> <<<<"dump", "js">>>>], [f |-> "ps", o |-> <<<<"dump", "js">>>>]})
    [] fmt = "csg2" -> R({[f |-> "csg", o |-> <<>>], [f |-> "scad", o |-> <<>>], [f |-> "", o |-> <<<<"dump", "csg2">>>>], [f |-> "stl", o |-> <<<<"dump", "csg2">>>>]})
    [] OTHER -> R({[f |-> "ps", o |-> <<>>], [f |-> "", o |-> <<<<"dump", "ps">>>>], [f |-> "js", o |-> <<<<"dump", "ps">>>>]})

(* ------------------------------------------------------------ transitions *)
Init == st = "lay" /\ sols = <<>> /\ lay = <<>> /\ set = <<>> /\ sels = <<>>
(* steps and gaps are in eighths of a unit; a gap of -1: none given *)
ChooseLayers ==
  /\ st = "lay"
  /\ \E b \in {IF BIG THEN 1 ELSE 2 * R(-9..8) + 1}, step \in {2 * R({1, 2, 2, 3, 4, 4, 5, 8})}, n \in {R(1..MAXLAY)}, u \in {IF BIG THEN 1 ELSE R(1..7)} :
     \E g \in {R(IF BIG THEN {0, step} ELSE {-1, -1, 0, 1, step - 1, step, step + 2})} :
       lay' = [b |-> b, step |-> step, n |-> n, gap |-> g, unit |-> u]
  /\ st' = "sols" /\ UNCHANGED <<sols, set, sels>>
SomeSolid(k, x0, y0, w, h, z0, zh, sub) ==
  [kind |-> k, x0 |-> x0, y0 |-> y0, x1 |-> x0 + w, y1 |-> y0 + h, r |-> w, z0 |-> z0, z1 |-> z0 + zh, sub |-> sub, k |-> 0]
(* Triangles a layer of separate simple outlines needs: corners - 2 each if   *)
(* only the lower side is drawn, otherwise twice that and two per edge.       *)
(* The teeth are chosen for a number of triangles around a multiple of 21845, *)
(* which is what a batch of 65535 vertices holds.                             *)
BigSolids(target, sheet, n) ==
  LET t == IF sheet THEN target \div n ELSE target \div (4 * n)
      k == t \div 4
      comb == [SomeSolid("comb", -R0, -R0, 2 * k, 3, -1, 4, FALSE) EXCEPT !.k = k]
      tri == SomeSolid("tri", -R0, -1, 2, 3, -1, 4, FALSE)
      box == SomeSolid("box", 0, 0, 2, 3, -1, 4, FALSE)
  IN CASE t % 4 = 0 -> <<comb>> [] t % 4 = 1 -> <<comb, tri>> [] t % 4 = 2 -> <<comb, box>> [] OTHER -> <<comb, tri, box>>
AddBig ==
  /\ BIG /\ st = "sols"
  /\ \E m \in {R({1, 2, 4})}, d \in {R(-2..2)} : sols' = BigSolids(21845 * m + d, lay.gap >= lay.step, lay.n)
  /\ st' = "set" /\ UNCHANGED <<lay, set, sels>>
AddSolid ==
  /\ st = "sols" /\ Len(sols) < MAXN /\ ~BIG
  /\ \E k \in {R({"box", "box", "dia", "tri"})}, x0 \in {R(-R0..(R0 - 1))}, y0 \in {R(-R0..(R0 - 1))}, w \in {R(1..R0)}, h \in {R(1..R0)},
        z0 \in {R(-4..2)}, zh \in {R(1..6)}, sub \in {Len(sols) > 0 /\ R(0..2) = 0} :
       sols' = Append(sols, SomeSolid(k, x0, y0, w, h, z0, zh, sub))
  /\ UNCHANGED <<st, lay, set, sels>>
Finish ==
  /\ st = "sols" /\ Len(sols) > 0 /\ (Len(sols) > 2 \/ R({0, 1}) = 0)
  /\ st' = "set" /\ UNCHANGED <<sols, lay, set, sels>>
GridOpts == {<<>>, <<>>, <<"--grid=0">>, <<"--grid=2^10">>, <<"--grid=2^18">>, <<"--grid=1000">>, <<"--grid=0", "--auto-grid-max">>, <<"--grid=3000">>}
Tokens == {"a", "b2", "x_y", "Z", "part"}
Seps == {",", ";", " ", ", ", ";;", " ,; "}
GroupOpt(t) == IF t = <<>> THEN <<>>
               ELSE IF Len(t) = 1 THEN <<"--js-group=" \o t[1]>>
               ELSE IF R({0, 1}) = 0 THEN <<"--js-group=" \o t[1] \o R(Seps) \o t[2]>>
               ELSE <<"--js-group=" \o t[1], "--js-group=" \o R(Seps) \o t[2]>>
(* the colours of a page; those of different things are never the same here *)
PsThings == <<"fill", "path", "tri", "vertex", "mark">>
PsDefault == [fill |-> <<204, 204, 204>>, path |-> <<0, 0, 0>>, tri |-> <<0, 153, 153>>, vertex |-> <<255, 0, 0>>, mark |-> <<0, 0, 255>>]
PsColours == [fill |-> {<<"ff00ff", 255, 0, 255>>, <<"336699", 51, 102, 153>>}, path |-> {<<"010203", 1, 2, 3>>, <<"00FF00", 0, 255, 0>>},
              tri |-> {<<"fefdfc", 254, 253, 252>>, <<"102030", 16, 32, 48>>}, vertex |-> {<<"80", 0, 0, 128>>, <<"ff8000", 255, 128, 0>>},
              mark |-> {<<"00ffff", 0, 255, 255>>, <<"7f0000", 127, 0, 0>>}]
(* one option after the other; the last one for a colour counts *)
ColourOpt(t) == LET c == R(PsColours[t]) IN [t |-> "--ps-color-" \o t \o "=" \o c[1], for |-> t, c |-> <<c[2], c[3], c[4]>>]
RECURSIVE LastColour(_, _, _)
LastColour(o, k, t) == IF k = 0 THEN PsDefault[t] ELSE IF o[k].for = t THEN o[k].c ELSE LastColour(o, k - 1, t)
(* what is drawn besides the filled triangles: their outlines, the paths with their points, marks of the inside *)
WireOpts == {"--ps-no-tri", "--ps-no-path", "--ps-no-mark", "--ps-no-wire", "--ps-no-tri=no", "--ps-no-path=no", "--ps-no-mark=no", "--ps-no-tri=yes", "--ps-no-path=1", "--ps-no-mark=true"}
RECURSIVE Drawn(_, _, _)
Drawn(o, k, t) ==
  IF k = 0 THEN TRUE
  ELSE IF o[k] = "--ps-no-wire" THEN FALSE
  ELSE IF o[k] \in {"--ps-no-" \o t, "--ps-no-" \o t \o "=yes", "--ps-no-" \o t \o "=1", "--ps-no-" \o t \o "=true"} THEN FALSE
  ELSE IF o[k] = "--ps-no-" \o t \o "=no" THEN TRUE ELSE Drawn(o, k - 1, t)
Widths == <<<<"", "0.4">>, <<"--ps-line-width=1.5", "1.5">>, <<"--ps-line-width=0.125", "0.125">>, <<"--ps-line-width=3", "3">>>>
ChooseSettings ==
  /\ st = "set"
  /\ \E gr \in {R(GridOpts)}, tk \in {TLCEval([k \in 1..R(0..2) |-> R(Tokens)])}, root \in {R({0, 0, 1, 2})} :
     \E go \in {GroupOpt(tk)},
        ctx \in {TLCEval([k \in 1..R(1..3) |-> CtxOp(R({"x", "y", "z", "s", "m", "t", "t"}), R(Angles), <<R(1..9), R(2..40), R(-3..-1)>>)])},
        pso \in {TLCEval([k \in 1..R({0, 0, 1, 2, 3}) |-> PsOp(R({"x", "y", "z", "z", "s"}), R(Angles), R(1..3)) ])},
        fit \in {R({0, 0, 1, 2})}, per \in {R({0, 0, 0, 1, -2})}, single \in {R({FALSE, FALSE, TRUE})},
        wire \in {TLCEval([k \in 1..R({0, 0, 1, 1, 2, 3}) |-> R(WireOpts)])}, col \in {TLCEval([k \in 1..R({0, 0, 1, 2, 4}) |-> ColourOpt(PsThings[R(1..5)])])},
        lw \in {R(1..4)}, rnd \in {R({0, 0, 15, 255})} :
       set' = [grid |-> gr, groups |-> {tk[k] : k \in 1..Len(tk)}, gopt |-> go,
               root |-> root, ctx |-> IF root = 0 THEN <<>> ELSE [k \in 1..Len(ctx) |-> ctx[k].t], xform |-> IF root = 0 THEN Unit ELSE Prod(ctx, 1),
               pso |-> [k \in 1..Len(pso) |-> pso[k].t], psm |-> PsMat(pso), fit |-> fit, per |-> per, single |-> single,
               wire |-> wire, drawn |-> [t \in {"tri", "path", "mark"} |-> Drawn(wire, Len(wire), t)],
               colo |-> [k \in 1..Len(col) |-> col[k].t], col |-> [t \in {PsThings[i] : i \in 1..5} |-> LastColour(col, Len(col), t)], lw |-> Widths[lw],
               rnd |-> rnd]
  /\ st' = "sel" /\ UNCHANGED <<sols, lay, sels>>
ChooseOutputs ==
  /\ st = "sel"
  /\ \E a \in {PlainSel("stla")}, b \in {PlainSel("stlb")}, c \in {PlainSel("js")}, d \in {PlainSel("csg2")}, e \in {PlainSel("ps")}, f \in {TLCEval(RandomSel(0))} :
       sels' = <<a, b, c, d, e, f>>
  /\ st' = "done" /\ UNCHANGED <<sols, lay, set>>
Next == ChooseLayers \/ AddBig \/ AddSolid \/ Finish \/ ChooseSettings \/ ChooseOutputs
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- what is to be *)
Case ==
  [sols |-> sols, b |-> lay.b, step |-> lay.step, n |-> lay.n, gap |-> lay.gap, unit |-> lay.unit, r |-> R0,
   lay |-> [k \in 1..lay.n |-> Region(ZOf(k))],
   box |-> Boxes({k \in 1..Len(sols) : ~sols[k].sub}, <<>>), full |-> Boxes(1..Len(sols), <<>>),
   set |-> set,
   sels |-> [k \in 1..Len(sels) |-> [f |-> sels[k].f, o |-> [i \in 1..Len(sels[k].o) |-> OptText(sels[k].o[i])], fmt |-> FormatOf(sels[k])]]]
Emit == st = "done" => PrintT(ToJson(Case))
=============================================================================
