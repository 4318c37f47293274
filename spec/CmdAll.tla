------------------------------- MODULE CmdAll -------------------------------
(* Command lines with one option, all of them: every option of spec/Cmd.tla  *)
(* in every spelling of its value and its dashes, and every wrong value that *)
(* Cmd.tla has.  What they mean is taken from Cmd.tla (Canonical, Format).   *)
EXTENDS Cmd

Dashes == {"-", "--", "---"}
Ways(o, t) == {<<d \o o, t>> : d \in Dashes} \cup {<<d \o o \o "=" \o t>> : d \in Dashes}
Two1(o, t) == {<<"--" \o o, t>>, <<"--" \o o \o "=" \o t>>}
Case(a, v, w, s) == [a |-> a, v |-> v, w |-> w, s |-> s]
Wrong(as, w) == {Case(a, "fail", w, {}) : a \in as}
Right(as, s) == {Case(a, "run", "", s) : a \in as}

NumQ == {-2, -1, 0, 1, 2, 3, 4, 6, 8, 10}
NumOpts == {"min", "max", "z", "step", "layer-gap", "grid", "gran", "eps", "eps2", "ps-scale", "ps-persp", "ps-rot-x", "ps-rot-y", "ps-rot-z", "ps-line-width"}
Meant(o, q) == IF o = "z" THEN {<<"min", <<Canon(q)>> >>, <<"max", <<Canon(q)>> >>}
               ELSE IF o = "ps-line-width" THEN {<<"line", <<Canon(q)>> >>}
               ELSE IF o \in {"ps-scale", "ps-rot-x", "ps-rot-y", "ps-rot-z"} THEN {<<"rot", << <<o, Canon(q)>> >> >>}
               ELSE {<<o, <<Canon(q)>> >>}
QOf(o) == CASE o \in {"min", "max", "z"} -> NumQ
            [] o = "step" -> {q \in NumQ : q > 0}
            [] o = "layer-gap" -> {0, 1}
            [] o = "ps-line-width" -> {1, 2, 4}
            [] OTHER -> {2, 4, 8}
RightNum == UNION {UNION {UNION {Right(IF o = "max" THEN Ways(o, t) ELSE Two1(o, t), Meant(o, q)) : t \in Q(q)} : q \in QOf(o)} :
                   o \in {"min", "max", "z", "step", "layer-gap", "ps-line-width", "ps-scale", "ps-rot-x", "ps-rot-y", "ps-rot-z"}}
WrongNum == UNION {UNION {Wrong(Two1(o, t), "number") : t \in BadNum} : o \in NumOpts}
WrongInt == UNION {UNION {Wrong(Two1(o, t), "number") : t \in BadInt} : o \in {"max-simultaneous", "max-fn", "js-color-rand"}}
WrongRange == UNION {Wrong(Two1(p[1], p[2]), "range") : p \in
   { <<"max-simultaneous", "1">>, <<"max-simultaneous", "0">>, <<"js-color-rand", "256">>, <<"js-color-rand", "257">>, <<"js-color-rand", "511">>,
     <<"js-color-rand", "4294967297">>, <<"max-fn", "4294967296">>, <<"max-fn", "4294967297">>, <<"js-color-rand", "1000">> }}
BoolOpts == UNION {{b[1], b[2]} : b \in Bools}
WrongBool == UNION {UNION {Wrong({<<"--" \o o \o "=" \o t>>}, "boolean") : t \in BadBool} : o \in BoolOpts}
RightBool == UNION {UNION {UNION {Right({<<d \o b[i] \o t>> : d \in Dashes}, {<<b[2], <<IF (i = 1) # (t \in Yes) THEN "yes" ELSE "no">> >>}) :
                                  t \in Yes \cup No} : i \in {1, 2}} : b \in Bools}
WrongErr == UNION {UNION {Wrong(Two1(o, t), "severity") : t \in BadErr} : o \in Sevs \cup {"unknown-functor"}}
RightErr == UNION {UNION {UNION {Right(Two1(f, t), {<<f, <<p[1]>> >>}) : t \in p[2]} :
                          p \in { <<"error", {"error", "err", "fail"}>>, <<"warn", {"warn", "warning"}>>, <<"ignore", {"ignore", "ign"}>> }} : f \in Sevs}
WrongRgb == UNION {UNION {Wrong(Two1(o, t), "colour") : t \in BadRgb} : o \in Rgbs}
RightRgb == UNION {UNION {Right(Two1(f, p[2]), {<<f, <<p[1]>> >>}) : p \in { <<"ff0000", "FF0000">>, <<"00ff7f", "0x00FF7f">>, <<"0000ff", "ff">>, <<"000000", "0">>, <<"000000", "000">> }} : f \in Rgbs}
RightDump == UNION {Right({<<d \o f>> : d \in Dashes}, {<<"dump", <<f>> >>}) : f \in Dumps}
RightOut == UNION {Right(Two1("o", p), {<<"out", <<p>> >>}) : p \in {"x.stl", "y.stl", "x.stb", "x.stlb", "x.js", "x.scad", "x.csg", "x.ps"}}
RightSim == UNION {Right(Two1("max-simultaneous", ToString(n)), {<<"max-simultaneous", <<ToString(IF n > 10 THEN 10 ELSE n)>> >>}) : n \in 2..14}
(* an option that lacks its argument, at the end *)
Lacks == UNION {Wrong({<<d \o o>> : d \in Dashes}, "argument") : o \in NumOpts \cup Sevs \cup Rgbs \cup
                 {"o", "unknown-functor", "max-fn", "max-simultaneous", "js-group", "js-color-rand"}}
(* files that cannot be opened *)
NoOut == Wrong({<<"-o", p>> : p \in {"nowhere/x.stl", "nowhere/deep/x.js", "./nowhere/x.stb", "in.scad/x.ps"}}, "output file")
NoIn == Wrong({<<p>> : p \in {"nowhere.scad", "nowhere/in.scad", "in.scad/a.scad", "in.sca", "in.scad2", " "}}, "input file")
All == NoOut \cup NoIn \cup RightNum \cup WrongNum \cup WrongInt \cup WrongRange \cup WrongBool \cup RightBool \cup WrongErr \cup RightErr \cup WrongRgb
       \cup RightRgb \cup RightDump \cup RightOut \cup RightSim \cup Lacks

(* the input before the option or after it; with a dump or without *)
Doc(c) == IF \E p \in c.s : p[1] \in {"line", "rot", "ps-tri", "ps-path", "ps-mark", "ps-single-page"} \cup Rgbs THEN "dump-ps"
          ELSE IF \E p \in c.s : p[1] = "js-keep-ctxt" THEN "dump-js" ELSE IF \E p \in c.s : p[1] \in Sevs THEN "dump-csg3" ELSE "dump-stl"
InitAll == \E c \in All :
  LET d == IF c.w = "output file" THEN "" ELSE IF \E p \in c.s : p[1] \in {"dump", "out"} THEN "" ELSE Doc(c)
      extra == IF d = "" THEN <<>> ELSE <<"--" \o d>>
      before == c.w # "argument" /\ Len(c.a) = 2
      pairs == c.s \cup {<<"in", <<"in.scad">> >>} \cup (IF d = "" THEN {} ELSE {<<"dump", <<d>> >>})
  IN /\ argv = (IF c.w = "input file" THEN extra \o c.a ELSE IF before THEN c.a \o extra \o <<"in.scad">> ELSE extra \o <<"in.scad">> \o c.a)
     /\ set = [f \in Fields |-> IF \E p \in pairs : p[1] = f THEN (CHOOSE p \in pairs : p[1] = f)[2] ELSE <<>>]
     /\ verdict = c.v /\ why = c.w /\ left = 0
SpecAll == InitAll /\ [][FALSE]_vars
=============================================================================
