------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Arbitrary input.  A program of ScadGen, with or without faulty calls,   *)
(* is written down and then damaged: each action edits the text (bytes are *)
(* removed, inserted, replaced, doubled or cut off, a number becomes an    *)
(* extreme one, a word becomes another word).  Positions are thousandths   *)
(* of the text, because the text itself is not part of the state.          *)
(* Whatever the text, the run of the tool must end in one of the Outcomes. *)
(***************************************************************************)
EXTENDS ScadGen

VARIABLES edits, opts
dvars == <<s3, s2, n, ph, lay, edits, opts>>

Toks == {"(", ")", "{", "}", "[", "]", ";", ",", "=", "-", "+", "0", "1e300", "-1", "1e-300", "nan", "inf", "99999999999999999999", "undef", "true",
         "\"x\"", "\"", "\\", "/*", "*/", "//", "\n", "#", "!", "%", "*", "$fn=", "cube", "square(1)", "linear_extrude", "rotate_extrude", "hull", "projection",
         "<", ">", "include <in.scad>", "use <x>", "import(\"in.scad\");", "e", ".", "0.5", "100000", "[[0,0],[1,0],[0,1]]", "$fn=1e9", "union", "intersection",
         "scale=0", "angle=1e9", "twist=7200", "slices=100", "center=true", "\\u0000", "faces", "paths=[[0,0,0]]"}
Nums == {"0", "-1", "1e9", "1e-9", "0.1", "2", "1e300", "1e38", "5000000000", "-0", "0.000001", "1e-320", "-1e20", "1e15", "8191.9999", "1048576", "3.5", "0.00006", "[1,2,3]", "true", "\"1\"", "1e400"}
Words == {"cube", "sphere", "cylinder", "polyhedron", "square", "circle", "polygon", "union", "difference", "intersection", "hull", "projection", "linear_extrude",
          "rotate_extrude", "translate", "rotate", "scale", "mirror", "multmatrix", "color", "group", "import", "surface", "text", "offset", "minkowski", "render",
          "use", "include", "module", "function", "if", "for", "true", "false", "undef", "points", "size", "r", "d", "h", "center", "x", "$fn", "$fa"}

(* whole statements, put in as a line of their own *)
Stms == {"use <in.scad>", "use <nowhere.scad>", "use <data.dat>", "include <nowhere.scad>", "include <in.scad>", "include <data.dat>",
         "surface(\"data.dat\");", "surface(file=\"data.dat\", center=true, invert=true);", "surface(\"nowhere.dat\");", "surface(3);",
         "import(\"data.dat\");", "import(\"nowhere.stl\");", "import(\"in.scad\", id=\"a\", layer=\"b\");", "import(\"\");", "import(\"a\\qb\");",
         "text(\"a\\\"b\\\\\\t\\n\");", "text();", "text(\"\", size=0);", "linear_extrude(1) text(\"x\", font=\"y\", spacing=0);",
         "linear_extrude(1) import(\"data.dat\");", "linear_extrude(1) surface(\"data.dat\");", "projection() text(\"x\");", "hull() import(\"data.dat\");",
         "linear_extrude(1) projection(cut=true) cube(3);", "linear_extrude(1) hull() {}", "rotate_extrude() square(0);", "rotate_extrude(angle=-1) translate([2,0]) circle(1);",
         "color(undef) cube(1);", "color(undef, 0.5) { }", "color(\"red\", alpha=2) cube(1);", "cube(PI);", "cube([PI,undef,1]);", "sphere(r=1, $fn=2);", "sphere(1, $fa=0, $fs=0);",
         "polyhedron([], []);", "polyhedron([[0,0,0]], [[0,0,0]]);", "polygon([]);", "polygon([[0,0],[0,0],[0,0]]);", "polyhedron(5, 6);", "polyhedron([[1,2,3],4], [5]);",
         "group();", "{ }", "; ;", "!cube(1);", "%cube(1);", "*cube(1);", "#cube(1);", "!{ }", "multmatrix([]) cube(1);", "rotate([0,0,1e300]) cube(1);", "rotate(a=1e300, v=[0,0,1]) cube(1);",
         "mirror([1e-30,0,0]) cube(2);", "scale([1e-9,1e9,1]) cube(2);", "linear_extrude(1, twist=1e9, slices=3) square(1);", "linear_extrude(1, slices=0) square(1);",
         "linear_extrude(1, scale=-1) square(1);", "render() cube(1);", "module x() { cube(1); }", "x = 5;", "for (i=[0:2]) cube(i+1);", "echo(\"x\");", "cube(1) sphere(2);"}
Xopts == {"--no-csg", "--no-tri", "--no-diff", "--no-path", "--js-color-rand=15", "--js-group=a,b;c", "--js-no-keep-ctxt", "--ps-scale-fit", "--ps-scale-max", "--ps-no-single-page=no",
          "--ps-no-tri", "--ps-no-path", "--ps-no-mark", "--ps-no-path=no", "--ps-no-mark=no", "--ps-no-wire", "--ps-rot-x=30", "--ps-rot-y=-400", "--ps-scale=0.01", "--ps-persp=1", "--ps-persp=-9",
          "--ps-line-width=0", "--opt-no-skip-empty", "--opt-no-drop-collinear", "--quiet", "--verbose", "--layer-gap=0.5", "--layer-gap=9", "--max-fn=3", "--grid=16", "--gran=0.01", "--eps=0.001"}
Fmts == {"stl", "stlb", "js", "ps", "csg2", "scad", "csg3", "syn"}
Sevs == {"error", "warn", "ignore"}
DInit == Init /\ edits = <<>> /\ opts = <<>>
DBegin == /\ Begin /\ UNCHANGED edits
          /\ \E f \in Pick(Fmts), s \in Pick({"1", "2.5", "0.7"}), k \in Pick(2..10), e \in Pick(Sevs), c \in Pick(Sevs), o2 \in Pick(Sevs), o3 \in Pick(Sevs), u \in Pick(Sevs), g \in Pick({"", "", "", "auto-grid-max", "no-auto-grid"}), z \in Pick({"", "", "-0.5", "0", "1"}),
            x \in Pick(Xopts), xx \in Pick(1..3) :
               opts' = <<"--dump-" \o f, "--step=" \o s, "--max-simultaneous=" \o ToString(k), "--empty=" \o e, "--collapse=" \o c, "--outside-2d=" \o o2,
                         "--outside-3d=" \o o3, "--unknown-functor=" \o u>> \o (IF g = "" THEN <<>> ELSE <<"--" \o g>>) \o (IF z = "" THEN <<>> ELSE <<"--z=" \o z>>) \o (IF xx = 1 THEN <<x>> ELSE <<>>)
Build == ((Push3 \/ Push2 \/ Wrap3 \/ Wrap2 \/ Comb3 \/ Comb2 \/ Extr \/ Rext \/ Hull \/ Proj \/ Empt \/ Modi \/ Swap) /\ UNCHANGED <<edits, opts>>)
DFinish == /\ ph = "run" /\ n = 0 /\ (s3 # <<>> \/ s2 # <<>>)
           /\ ph' = "damage" /\ n' \in Pick(0..4) /\ lay' = lay /\ UNCHANGED <<edits, opts>>
           /\ s3' = s3 \o s2 /\ s2' = <<>>      \* 2D objects may end up anywhere
Edit == /\ ph = "damage" /\ n > 0 /\ n' = n - 1
        /\ \E k \in Pick({"del", "ins", "rep", "dup", "num", "numx", "word", "cut", "move", "line"}), at \in Pick(0..999), to \in Pick(0..999), len \in Pick({1, 2, 3, 5, 10, 30}),
              t \in Pick(Toks), x \in Pick(Nums), w \in Pick(Words), l \in Pick(Stms) :
             edits' = Append(edits, [k |-> IF k = "numx" THEN "num" ELSE k, at |-> at, to |-> to, len |-> len,
                                     t |-> IF k \in {"num", "numx"} THEN x ELSE IF k = "word" THEN w ELSE IF k = "line" THEN l ELSE IF k \in {"ins", "rep"} THEN t ELSE ""])
        /\ UNCHANGED <<s3, s2, ph, lay, opts>>
Close == ph = "damage" /\ n = 0 /\ ph' = "done" /\ UNCHANGED <<s3, s2, n, lay, edits, opts>>
DNext == DBegin \/ Build \/ DFinish \/ Edit \/ Close
DSpec == DInit /\ [][DNext]_dvars

EmitD == (ph = "done") => PrintT(ToJson([prog |-> SrcProg(s3), edits |-> edits, opts |-> opts]))
=============================================================================
