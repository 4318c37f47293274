------------------------------- MODULE GonGen -------------------------------
(***************************************************************************)
(* Inputs of the polygon library: operands made of closed paths, boolean   *)
(* functions of them, optionally combined in two stages.  A state machine  *)
(* draws one closed path after another; a finished case is emitted as JSON *)
(* and replayed into the library by the driver (harness/sweep.c), whose    *)
(* answer is then judged by Arrange.tla.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS STYLES,   \* names of the coordinate styles to use
          MAXP      \* paths per case
VARIABLES sty, cur, ops, grps, ph, n
vars == <<sty, cur, ops, grps, ph, n>>

R1(S) == RandomElement(S)
Style == [ tiny  |-> [g |-> 2, u |-> 1],    small |-> [g |-> 4, u |-> 1],  mid |-> [g |-> 9, u |-> 1],
           even  |-> [g |-> 4, u |-> 2],    sixt  |-> [g |-> 3, u |-> 16], odd |-> [g |-> 6, u |-> 97],
           wide  |-> [g |-> 40, u |-> 50],  free  |-> [g |-> 2000, u |-> 1], octi |-> [g |-> 7, u |-> 2],
           huge  |-> [g |-> 2000, u |-> 1], flat  |-> [g |-> 60, u |-> 1], thin |-> [g |-> 900, u |-> 1],
           \* the whole range of coordinates; corners: long edges, nearly parallel
           full |-> [g |-> 1073741823, u |-> 1], fullflat |-> [g |-> 1073741823, u |-> 1], fullthin |-> [g |-> 1073741823, u |-> 1],
           corners |-> [g |-> 1073741823, u |-> 1],
           pencil |-> [g |-> 20, u |-> 1] ]          \* very many edges through one point
BigStyles == {"full", "fullflat", "fullthin", "corners"}
LIM == 1073741823
Clip(x) == IF x > LIM THEN LIM ELSE IF x < -LIM THEN -LIM ELSE x
G(s) == Style[s].g
Pt(s) == LET g == G(s) u == Style[s].u IN
  CASE s = "flat" -> <<30 * R1(-g..g), R1(-3..3)>>
    [] s = "thin" -> <<R1(-3..3), 2 * R1(-g..g)>>
    [] s = "full" -> IF R1(1..4) = 1 THEN <<R1({-LIM, 0, LIM}) , R1({-LIM, 0, LIM})>> ELSE <<R1(-g..g), R1(-g..g)>>
    [] s = "fullflat" -> <<R1(-g..g), R1(-3..3)>>
    [] s = "fullthin" -> <<R1(-3..3), R1(-g..g)>>
    [] s = "corners" -> LET a == R1({-1, 1}) b == R1({-1, 1}) IN
         IF R1(1..5) = 1 THEN <<R1(-4..4), R1(-4..4)>> ELSE <<a * (LIM - R1(0..5)), b * (LIM - R1(0..5))>>
    [] OTHER -> <<u * R1(-g..g), u * R1(-g..g)>>
Add(p, q) == <<Clip(p[1] + q[1]), Clip(p[2] + q[2])>>

Box(s, i) == LET a == Pt(s) b == Pt(s) IN <<a, <<b[1], a[2]>>, b, <<a[1], b[2]>> >>
Dia(s, i) == LET a == Pt(s) r == Style[s].u * R1(1..G(s)) IN
  << Add(a, <<r, 0>>), Add(a, <<0, r>>), Add(a, <<-r, 0>>), Add(a, <<0, -r>>) >>
Half(s, i) == LET a == Pt(s) r == Style[s].u * R1({-3, -2, -1, 1, 2, 3}) IN
  << a, Add(a, <<r, 0>>), Add(a, <<0, r>>) >>
Walk(s, k) == [i \in 1..k |-> Pt(s)]
(* a zigzag: many edges close together *)
Zig(s, k) == LET a == Pt(s) d == Pt(s) IN
  [i \in 1..k |-> IF i % 2 = 1 THEN Add(a, <<i, 0>>) ELSE Add(d, <<i, R1(-1..1)>>)]
(* many edges through (nearly) one point *)
Fan(s, k) == LET c == Pt(s) IN
  [i \in 1..k |-> LET d == Pt(s) IN IF i % 2 = 1 THEN Add(c, d) ELSE IF R1(1..3) = 1 THEN Add(c, <<-d[1], -d[2]>>) ELSE c]
(* very many edges through one point that need not be on the grid *)
Pencil(s, k) == LET c == <<R1(-3..3), R1(-3..3)>> IN
  FlattenSeq([i \in 1..k |-> LET d == TLCEval([x |-> Pt(s)]).x IN <<d, <<c[1] - d[1], c[2] - d[2]>> >>])
(* a long sliver *)
Sliver(s, i) == LET a == Pt(s) b == Pt(s) IN <<a, b, Add(a, <<R1(-1..1), R1(-2..2)>>)>>
(* paths related to what is already there: copies, shifts, edges split in two *)
All == ops \o <<cur>>
Old == {p \in UNION {{All[i][j] : j \in 1..Len(All[i])} : i \in 1..Len(All)} : TRUE}
Shifted(p, i) == LET d == R1({<<0, 0>>, <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 2>>}) IN [k \in 1..Len(p) |-> Add(p[k], d)]
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Split(p, i) == LET m == R1(1..Len(p)) nx == p[(m % Len(p)) + 1] IN SubSeq(p, 1, m) \o <<Mid(p[m], nx)>> \o SubSeq(p, m + 1, Len(p))
(* a path using old vertices *)
Verts == UNION {{p[k] : k \in 1..Len(p)} : p \in Old}
Reuse(s, k) == [i \in 1..k |-> IF R1(1..3) = 1 THEN Pt(s) ELSE R1(Verts)]

Kinds(s) == IF s = "pencil" THEN {"pencil", "walk"} ELSE IF s = "octi" THEN {"box", "dia", "half"} \cup (IF Old = {} THEN {} ELSE {"same"})
            ELSE {"box", "walk", "walk", "zig", "fan", "sliver", "dia"} \cup (IF Old = {} THEN {} ELSE {"copy", "split", "reuse"})
Make(k, s) ==
  CASE k = "box" -> Box(s, 0) [] k = "dia" -> Dia(s, 0) [] k = "half" -> Half(s, 0)
    [] k = "walk" -> Walk(s, R1(3..8)) [] k = "zig" -> Zig(s, 2 * R1(2..4)) [] k = "fan" -> Fan(s, 2 * R1(2..4))
    [] k = "sliver" -> Sliver(s, 0) [] k = "pencil" -> Pencil(s, R1({10, 60, 90, 130, 170}))
    [] k = "same" -> R1(Old)
    [] k = "copy" -> Shifted(R1(Old), 0) [] k = "split" -> Split(R1(Old), 0) [] k = "reuse" -> Reuse(s, R1(3..6))
Bit(x, i) == (x \div (2^i)) % 2
(* a boolean function of m operands: named or arbitrary; the empty place is never inside *)
Fun(m, k) == [x \in 1..(2^m) |-> LET b == x - 1 one == Cardinality({i \in 0..m-1 : Bit(b, i) = 1}) IN
  CASE k = "or" -> IF one > 0 THEN 1 ELSE 0
    [] k = "and" -> IF one = m THEN 1 ELSE 0
    [] k = "xor" -> one % 2
    [] k = "sub" -> IF b = 1 THEN 1 ELSE 0
    [] k = "any" -> IF b = 0 THEN 0 ELSE R1(0..1)]

Init == /\ sty \in STYLES /\ cur = <<>> /\ ops = <<>> /\ grps = <<>> /\ ph = "draw" /\ n \in 1..MAXP
Draw == /\ ph = "draw" /\ n > 0
        /\ \E k \in {R1(Kinds(sty))} : cur' = Append(cur, Make(k, sty))
        /\ n' = n - 1 /\ UNCHANGED <<sty, ops, grps, ph>>
NextOp == /\ ph = "draw" /\ cur # <<>> /\ n > 0 /\ Len(ops) < 3
          /\ ops' = Append(ops, cur) /\ cur' = <<>> /\ UNCHANGED <<sty, grps, ph, n>>
Group(o) == [ops |-> o, tab |-> Fun(Len(o), R1({"or", "and", "xor", "sub", "any", "any"}))]
NextGrp == /\ ph = "draw" /\ cur # <<>> /\ n > 0 /\ Len(grps) < 2
           /\ grps' = Append(grps, Group(Append(ops, cur)))
           /\ ops' = <<>> /\ cur' = <<>> /\ UNCHANGED <<sty, ph, n>>
Finish == /\ ph = "draw" /\ n = 0 /\ cur # <<>>
          /\ grps' = Append(grps, Group(Append(ops, cur)))
          /\ ph' = "done" /\ UNCHANGED <<sty, cur, ops, n>>
Next == Draw \/ NextOp \/ (NextGrp /\ RandomElement(1..3) = 1) \/ Finish
Spec == Init /\ [][Next]_vars

Case == [grps |-> grps, ftab |-> Fun(Len(grps), R1({"or", "and", "xor", "sub", "any"})), sty |-> sty,
         scale |-> CASE sty = "octi" -> R1({1, 1048576, 10000000, 38347922}) [] sty = "huge" -> R1({777, 65536, 200003}) [] OTHER -> 1,
         exact |-> sty # "huge", big |-> sty \in BigStyles,
         pts |-> LET vs == UNION {UNION {UNION {{p[k] : k \in 1..Len(p)} : p \in {g.ops[o][j] : j \in 1..Len(g.ops[o])}} : o \in 1..Len(g.ops)} : g \in {grps[i] : i \in 1..Len(grps)}}
                 IN [i \in 1..40 |-> IF i % 2 = 0 THEN Pt(IF sty = "flat" \/ sty = "thin" THEN sty ELSE sty)
                                     ELSE Mid(R1(vs), Add(R1(vs), <<R1(-5..5), R1(-5..5)>>))]]
Emit == ph = "done" => PrintT(ToJson(Case))
=============================================================================
