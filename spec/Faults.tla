------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Complaints.  Programs of ScadGen get calls that are at fault, each of a *)
(* known class at a known place, and a setting for every class: error,     *)
(* warn or ignore.  The specification says which outcomes of a run are     *)
(* permitted:                                                              *)
(*  - if some fault is an error (a fault of no class always is one), the   *)
(*    run stops with status 1 and one error that names the file and line   *)
(*    of such a fault;                                                     *)
(*  - otherwise the run ends with status 0, every fault whose class is set *)
(*    to warn is named by a warning, nothing else is, and the layers are   *)
(*    those of the program where the faulty objects are empty (and ignored *)
(*    or not by the documented rule; both where the documentation leaves   *)
(*    it open).                                                            *)
(* The run itself is a state machine, too (Run, Stop, Done): it may meet   *)
(* the faults in any order.  Its outcomes are those that Permitted allows. *)
(***************************************************************************)
EXTENDS ScadGen

CONSTANT CLASSES      \* the classes of faults to draw from

VARIABLES sev, nf, todo, said, out
fvars == <<s3, s2, n, ph, lay, sev, nf, todo, said, out>>

Classes == {"empty", "collapse", "outside-3d", "outside-2d", "unsupported-functor", "unknown-param"}
(* the documented defaults *)
Default(c) == IF c \in {"unsupported-functor", "unknown-param"} THEN "warn" ELSE "error"
Sev(c, s) == IF c = "hard" THEN "error" ELSE IF s[c] = "" THEN Default(c) ELSE s[c]

(* a fault: what is written, whether it is an ignored child, and whether that is left open *)
F(cls, ig, op, raw) == [k |-> "uni", f |-> "", a |-> <<>>, c |-> <<>>, ig |-> ig, mo |-> "",
                        raw |-> raw, cls |-> cls, op |-> op]
P4 == "[[0,0,0],[3,0,0],[0,2,0],[1,1,3]]"
F3(cls) ==
  CASE cls = "empty" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"cube([0,1,2]);">>, <<"cube(size=0, center=true);">>, <<"cube([2,", "1,", "0]);">>,
         <<"sphere(0);">>, <<"sphere(d=0, $fn=5);">>, <<"sphere(r=-1);">>,
         <<"cylinder(h=0, r=1);">>, <<"cylinder(h=2, r1=0, r2=0);">>, <<"cylinder(h=2, r1=-1, r2=1);">>, <<"cylinder(r=2,", "h=-1);">>,
         <<"polyhedron([[0,0,0],[1,0,0],[0,1,0]], [[0,1,2],[2,1,0],[0,1,2],[2,1,0]]);">>,
         <<"polyhedron(points=" \o P4 \o ",", "faces=[[0,1,2],[1,0,3],[2,1,3]]);">>,
         <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], [[0,1,1]]);">>, <<"linear_extrude(2, slices=0)", "square(1);">>, <<"linear_extrude(height=0) square(2);">>, <<"linear_extrude(height=-1) {", "circle(2);", "}">>,
         <<"rotate_extrude(angle=0)", "translate([1,0]) square(1);">>}}
         \cup {F(cls, TRUE, FALSE, <<"linear_extrude(height=0) group();">>)}
    [] cls = "collapse" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"scale([1,0,1]) cube(2);">>, <<"scale(0)", "{", "sphere(1);", "}">>, <<"scale([0,1]) cube(1);">>,
         <<"multmatrix([[1,0,0,0],[1,0,0,0],[0,0,1,0],[0,0,0,1]]) cube(3);">>,
         <<"multmatrix([", "[1,2,3,4],", "[0,1,0,0],", "[1,3,3,0]])", "cube(3);">>}}
         \cup {F(cls, TRUE, FALSE, r) : r \in { <<"scale([1,0,1]) group();">>, <<"scale(0) { }">>,
                                               <<"multmatrix([[0,0,0,0],[0,0,0,0],[0,0,0,0]]);">> }}
    [] cls = "outside-2d" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"square(2);">>, <<"circle(r=2, $fn=6);">>, <<"polygon([[0,0],", "[2,0],", "[0,2]]);">>, <<"text(\"a\");">>,
         <<"import(\"part.svg\");">>, <<"import(file=\"part.svg\",", "center=true);">>}}
         \cup {F(cls, FALSE, TRUE, <<"projection(cut=true)", "cube(2);">>)}
    [] cls = "outside-3d" -> {F(cls, FALSE, TRUE, <<"hull() { cube(1); sphere(2); }">>)}
    [] cls = "unsupported-functor" -> {F(cls, FALSE, TRUE, r) : r \in {
         <<"minkowski() {", "cube(1);", "sphere(2); }">>, <<"resize([1,2,3]) cube(1);">>, <<"offset(r=1) square(1);">>}}
    [] cls = "unknown-param" -> {
         CubeHs("cube", <<Pos(<<2,3,1>>), Nam("colour", 3)>>, <<2,3,1>>, FALSE) @@ [cls |-> cls, op |-> FALSE],
         CubeHs("cube", <<Nam("sice", <<2,3,1>>), Nam("size", <<3,1,2>>)>>, <<3,1,2>>, FALSE) @@ [cls |-> cls, op |-> FALSE],
         CubeHs("cube", <<Pos(<<2,4,2>>), Nam("Center", 1), Nam("center", TRUE)>>, <<2,4,2>>, TRUE) @@ [cls |-> cls, op |-> FALSE],
         CylA("cylinder", <<Nam("h", 2), Nam("$fo", 3), Nam("r", 2), Nam("$fn", 4)>>, 2, 2, 2, FALSE, 4) @@ [cls |-> cls, op |-> FALSE]}
    [] cls = "hard" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"surface(\"data.dat\");">>, <<"surface(file=\"data.dat\", center=true);">>,
         <<"surface(\"nowhere.dat\");">>, <<"surface(3);">>,
         <<"surface();">>, <<"import(\"nowhere.stl\");">>,
         <<"import();">>, <<"import(5);">>,
         <<"import(\"a\\qb.stl\");">>, <<"cube([undef,1,1]);">>,
         <<"cube([1,2,3,4]);">>, <<"cube(\"PI\");">>,
         <<"sphere(r=\"x\");">>, <<"cube(1, \"true\");">>,
         <<"cylinder(h=2, r=1, center=[1]);">>, <<"cylinder(h=2, d=1, r1=2);">>,
         <<"cylinder(h=2, d=1, d1=2);">>, <<"cylinder(h=2, r=1, d1=2);">>,
         <<"cylinder(2, 1, 1, false, 5);">>, <<"polyhedron(5, 6);">>,
         <<"polyhedron([[1,2,3],4], [[0,1,2]]);">>, <<"polyhedron([[1,2]], [[0,1,2]]);">>,
         <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], 7);">>, <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], [5]);">>,
         <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], [[0,1]]);">>, <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], [[0,1,9]]);">>,
         <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], [[0,1,1.5]]);">>, <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]], [[0,1,-1]]);">>,
         <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1]]);">>,
         <<"polyhedron(faces=[[0,1,2]]);">>, <<"polyhedron([[0,0,0],[1,0,0],[0,1,0],[0,0,1],[0,0,1]], [[0,1,2],[1,0,3],[2,1,3],[0,2,4]]);">>,
         <<"translate(5) cube(1);">>, <<"translate([1,2,\"3\"]) cube(1);">>,
         <<"translate([1,2,3], 4) cube(1);">>, <<"rotate() cube(1);">>,
         <<"rotate([1,2,3,4]) cube(1);">>, <<"rotate([1]) cube(1);">>,
         <<"rotate(a=\"x\") cube(1);">>, <<"rotate(30, \"z\") cube(1);">>,
         <<"rotate(30, 5) cube(1);">>, <<"rotate(30, [0,0]) cube(1);">>,
         <<"scale() cube(1);">>, <<"scale(\"x\") cube(1);">>,
         <<"scale([1,2,3,4]) cube(1);">>, <<"mirror() cube(1);">>,
         <<"mirror(1) cube(1);">>, <<"color() cube(1);">>,
         <<"color(5) cube(1);">>, <<"color([1,1]) cube(1);">>,
         <<"color([1,1,1,1,1]) cube(1);">>, <<"color([1,1,1,1], 0.5) cube(1);">>,
         <<"color(\"red\", 2) cube(1);">>, <<"color(\"red\", alpha=\"x\") cube(1);">>,
         <<"color([1,1,-0.1]) cube(1);">>, <<"color([1,\"1\",0]) cube(1);">>,
         <<"multmatrix() cube(1);">>, <<"multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,2]]) cube(1);">>,
         <<"multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,1,1]]) cube(1);">>, <<"multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,1],[0,0,0,1]]) cube(1);">>,
         <<"multmatrix([[1,0,0,0],[0,1,0,0],5]) cube(1);">>, <<"multmatrix([[1,0,0,0,0],[0,1,0,0],[0,0,1,0]]) cube(1);">>,
         <<"multmatrix([[1,0,0,\"0\"],[0,1,0,0],[0,0,1,0]]) cube(1);">>, <<"linear_extrude(height=\"x\") square(1);">>,
         
         <<"linear_extrude(2, scale=[1,1,1]) square(1);">>, <<"linear_extrude(2, twist=\"x\") square(1);">>,
         <<"linear_extrude(2, slices=-1) square(1);">>, <<"linear_extrude(2, slices=1.5) square(1);">>,
         <<"rotate_extrude(angle=\"x\") translate([2,0]) square(1);">>, <<"rotate_extrude() square(2, center=true);">>,
         <<"linear_extrude(2) import(\"nowhere.svg\");">>, <<"sphere(1, $fn=-1);">>,
         <<"sphere(1, $fn=\"x\");">>, <<"sphere(1, $fn=2.5);">>,
         <<"sphere(1, $fa=\"x\");">>, <<"cylinder(h=1, r=1, $fn=undef);">>,
         <<"sphere(1, 2);">>, <<"cube(size=[1,1,1], false, true);">>,
         <<"cube(foo);">>, <<"cube([[1,2,3]]);">>,
         <<"cube(\"x\");">>, <<"cube(1, true,", "3);">>, <<"cube(center=true, 2);">>, <<"cube([1,2]);">>, <<"cube([1,2,\"3\"]);">>,
         <<"sphere(r=1, d=2);">>, <<"cylinder(h=[1]);">>, <<"cylinder(h=2, r=1, r1=2);">>, <<"sphere(r=undef);">>,
         <<"translate() cube(1);">>, <<"translate([1]) cube(1);">>, <<"rotate(30, [0,0,0]) cube(1);">>, <<"rotate(\"30\")", "cube(2);">>,
         <<"mirror([0,0,0]) {", "cube(2); }">>, <<"color(\"nocolour\") cube(1);">>, <<"color([0,0,3]) cube(2);">>,
         <<"multmatrix([[1]]) cube(1);">>, <<"multmatrix(5) cube(1);">>,
         <<"linear_extrude() square(1);">>, <<"linear_extrude(height=2, scale=[0,1]) square(2);">>,
         <<"linear_extrude(2) projection(cut=false) cube(1);">>, <<"linear_extrude(2)", "polygon([[0,0],[1,0],[0,1]], [[0,1,5]]);">>,
         <<"polyhedron(faces=[[0,1,2]]);">>, <<"polyhedron(" \o P4 \o ", [[0,1,2],[1,0,3],[2,1,3],[0,2,9]]);">>,
         <<"polyhedron(" \o P4 \o ",", "[[0,1,2],[1,0,3],[2,1,3],[0,2]]);">>,
         <<"import(\"no-such-file.stl\");">>, <<"linear_extrude(2) import(\"no-such-file.svg\");">>, <<"import(5);">>,
         <<"rotate_extrude() translate([-1,0]) square(2);">>}}

F2(cls) ==
  CASE cls = "empty" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"square(0);">>, <<"square([2,", "0]);">>, <<"circle(0);">>, <<"circle(d=0);">>, <<"polygon([[0,0],[1,1]]);">>, <<"polygon([]);">>}}
    [] cls = "collapse" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"scale([0,1]) square(2);">>, <<"scale(0)", "circle(2);">>, <<"multmatrix([[1,1],[1,1]]) square(2);">>}}
    [] cls = "outside-3d" -> {F(cls, TRUE, FALSE, r) : r \in {
         <<"cube(2);">>, <<"sphere(2);">>, <<"cylinder(h=1, r=2);">>,
         <<"polyhedron(" \o P4 \o ",", "[[0,1,2],[1,0,3],[2,1,3],[0,2,3]]);">>,
         <<"import(\"part.stl\");">>, <<"import(", "file=\"part.stl\");">>, <<"surface(\"data.dat\");">>}}
         \cup {F(cls, FALSE, TRUE, r) : r \in {
         <<"linear_extrude(1) square(2);">>, <<"rotate_extrude()", "square(2);">>}}
    [] cls = "outside-2d" -> {}
    [] cls = "unsupported-functor" -> {F(cls, FALSE, TRUE, r) : r \in {
         <<"offset(r=1)", "square(2);">>, <<"minkowski() { square(1); circle(1); }">>}}
    [] cls = "unknown-param" -> {Leaf("pgn", "square", <<Pos(<<2,1>>), Nam("centre", 1)>>)
                                 @@ [pts |-> << <<0,0>>, <<2,0>>, <<2,1>>, <<0,1>> >>, paths |-> <<Idx(4)>>, cls |-> cls, op |-> FALSE]}
    [] cls = "hard" -> {F(cls, FALSE, FALSE, r) : r \in {
         <<"square(\"x\", true);">>, <<"square([1,2,3]);">>, <<"square(1, center=[1]);">>,
         <<"circle(\"r\");">>, <<"circle(r=1, $fn=-3);">>,
         <<"polygon();">>, <<"polygon(5);">>, <<"polygon([1,2,3]);">>,
         <<"polygon([[0,0],[1,0],[0,1]], 5);">>, <<"polygon([[0,0],[1,0],[0,1]], [0,1,2]);">>, <<"polygon([[0,0],[1,0],[0,1]], [[0,1,3]]);">>,
         <<"polygon([[0,0],[1,0],[0,1]], [[0,1,-2]]);">>, <<"polygon([[0,0],[1,\"0\"],[0,1]]);">>, <<"text();">>,
         <<"text(5);">>, <<"import(\"nowhere.svg\");">>, <<"import(7);">>,
         <<"color(\"nored\") circle(1);">>, <<"rotate(\"x\") square(1);">>, <<"scale([1,2,3,4]) square(1);">>,
         <<"mirror([0,0]) square(2);">>, <<"projection(cut=\"x\") cube(1);">>,
         <<"square(\"x\");">>, <<"circle(r=1, d=2);">>, <<"polygon([[0,0,0],[1,0,0],[0,1,0]]);">>,
         <<"polygon([[0,0],[1,0],[0,1]],", "paths=[[0,1]]);">>, <<"projection() cube(1);">>,
         <<"translate([1,2,3,4]) square(1);">>}}

At(x, t) == x @@ [tag |-> t]

(* ------------------------------------------------------------- actions *)
Keep == UNCHANGED <<sev, nf, todo, said, out>>
Fault3 == Step /\ nf < 3
          /\ \E cls \in {RE1 \in CLASSES : F3(RE1) # {}} \cap Pick(CLASSES) :
             \E x \in Pick(F3(cls)) :
               s3' = Append(s3, At(x, nf + 1)) /\ nf' = nf + 1
          /\ UNCHANGED <<s2, sev, todo, said, out>>
Fault2 == Step /\ nf < 3
          /\ \E cls \in {RE1 \in CLASSES : F2(RE1) # {}} \cap Pick(CLASSES) :
             \E x \in Pick(F2(cls)) :
               s2' = Append(s2, At(x, nf + 1)) /\ nf' = nf + 1
          /\ UNCHANGED <<s3, sev, todo, said, out>>

RECURSIVE Tagged(_), TaggedSeq(_, _)
TaggedSeq(c, i) == IF i > Len(c) THEN {} ELSE Tagged(c[i]) \cup TaggedSeq(c, i + 1)
Tagged(x) == (IF "tag" \in DOMAIN x THEN {[t |-> x.tag, cls |-> x.cls, op |-> x.op]} ELSE {}) \cup TaggedSeq(x.c, 1)
Faulty(s) == TaggedSeq(s, 1)
Errs(s, v) == {y.t : y \in {z \in Faulty(s) : Sev(z.cls, v) = "error"}}
Warns(s, v) == {y.t : y \in {z \in Faulty(s) : Sev(z.cls, v) = "warn"}}

FInit == Init /\ sev = [c \in Classes |-> ""] /\ nf = 0 /\ todo = {} /\ said = {} /\ out = ""
Choose == /\ ph = "new" /\ sev' \in Pick([Classes -> {"", "warn", "ignore", "warn", "ignore", "error"}])
          /\ Begin /\ UNCHANGED <<nf, todo, said, out>>
Fin == Finish /\ todo' = Faulty(s3') /\ UNCHANGED <<sev, nf, said, out>>
(* 'use' is a statement of its own, and not supported *)
Use == /\ ph = "done" /\ out = "" /\ "hard" \in CLASSES /\ nf < 4 /\ todo = Faulty(s3)
       /\ \E b \in Pick({1, 2, 3}), r \in Pick({<<"use <data.dat>">>, <<"use", "<data.dat>">>, <<"use <nowhere.scad>">>}) :
            /\ b = 1
            /\ s3' = Append(s3, At(F("hard", FALSE, FALSE, r), nf + 1))
       /\ nf' = nf + 1 /\ todo' = Faulty(s3')
       /\ UNCHANGED <<s2, n, ph, lay, sev, said, out>>

(* the run *)
Run == /\ ph = "done" /\ out = "" /\ \E y \in todo :
            /\ todo' = todo \ {y}
            /\ CASE Sev(y.cls, sev) = "error" -> out' = "stop" /\ said' = said \cup {<<y.t, "error">>}
                 [] Sev(y.cls, sev) = "warn" -> out' = "" /\ said' = said \cup {<<y.t, "warn">>}
                 [] OTHER -> out' = "" /\ said' = said
       /\ UNCHANGED <<s3, s2, n, ph, lay, sev, nf>>
Done == /\ ph = "done" /\ out = "" /\ todo = {} /\ out' = "done"
        /\ UNCHANGED <<s3, s2, n, ph, lay, sev, nf, todo, said>>

FNext == \/ Choose \/ Fin \/ Use \/ Fault3 \/ Fault2 \/ Run \/ Done
         \/ ((Push3 \/ Push2 \/ Wrap3 \/ Wrap2 \/ Comb3 \/ Comb2 \/ Extr \/ Rext \/ Hull \/ Proj \/ Empt \/ Swap) /\ Keep)
FSpec == FInit /\ [][FNext]_fvars

(* what the run may say and how it may end *)
Permitted(s, v, sd, o) ==
  LET es == {m[1] : m \in {x \in sd : x[2] = "error"}}  ws == {m[1] : m \in {x \in sd : x[2] = "warn"}} IN
  /\ ws \subseteq Warns(s, v)
  /\ o = "stop" => Cardinality(es) = 1 /\ es \subseteq Errs(s, v)
  /\ o = "done" => Errs(s, v) = {} /\ ws = Warns(s, v)
RunOk == (ph = "done") => Permitted(s3, sev, said, out)

(* -------------------------------------------------------------- answers *)
(* where ignoring is left open: once ignored, once not *)
RECURSIVE Open(_, _)
Open(x, g) ==
  IF "op" \in DOMAIN x THEN [x EXCEPT !.ig = IF x.op THEN g ELSE @]
  ELSE IF x.c = <<>> THEN x
  ELSE LET c == [i \in 1..Len(x.c) |-> Open(x.c[i], g)] IN [x EXCEPT !.c = c, !.ig = AllIg(c)]
Both(a, b) == IF a = b THEN a ELSE UNK
AnswerF(s, z2) ==
  LET a == [i \in 1..Len(s) |-> Open(s[i], TRUE)]  b == [i \in 1..Len(s) |-> Open(s[i], FALSE)]
      x == TLCEval(Answer(a, z2))
  IN IF a = b THEN x ELSE LET y == TLCEval(Answer(b, z2)) IN [q \in DOMAIN x |-> Both(x[q], y[q])]

RECURSIVE SrcF(_)
SrcF(x) == [f |-> x.f, a |-> x.a, m |-> x.mo, c |-> [i \in 1..Len(x.c) |-> SrcF(x.c[i])],
            t |-> IF "tag" \in DOMAIN x THEN x.tag ELSE 0, raw |-> IF "raw" \in DOMAIN x THEN x.raw ELSE <<>>]
Opens(s) == {y \in Faulty(s) : y.op}
EmitF == (ph = "done" /\ out = "" /\ todo = Faulty(s3) /\ Cardinality(Opens(s3)) <= 1) =>
  LET ls == SetToSortedSeq(lay)  es == Errs(s3, sev) IN
  PrintT(ToJson([prog |-> [i \in 1..Len(s3) |-> SrcF(s3[i])], r |-> R,
                 sev |-> sev, errs |-> SetToSortedSeq(es), warns |-> SetToSortedSeq(Warns(s3, sev)),
                 lay |-> IF es # {} THEN <<>> ELSE [i \in 1..Len(ls) |-> [z2 |-> ls[i], v |-> AnswerF(s3, ls[i])]]]))
=============================================================================
