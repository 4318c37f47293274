-------------------------------- MODULE Cmd --------------------------------
(***************************************************************************)
(* The command line: arguments are read from left to right.  Every option  *)
(* changes the settings (a later one overrides an earlier one), asks for   *)
(* help (which ends the run with status 0), or is an error (which ends the *)
(* run with status 1).  After the last argument the run needs exactly one  *)
(* input file and an output format.                                        *)
(*                                                                         *)
(* A finished command line is emitted with the verdict and with its        *)
(* canonical form, a function of the settings alone: the conformance       *)
(* driver runs both, and everything they write must be the same.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NARGS, BAD       \* number of arguments; BAD: percentage of erroneous ones

VARIABLES argv, set, verdict, left, why
vars == <<argv, set, verdict, left, why>>

RE(S) == RandomElement(S)

Sevs == {"empty", "collapse", "outside-3d", "outside-2d", "unsupported-functor", "unknown-param"}
Rgbs == {"ps-color-path", "ps-color-tri", "ps-color-fill", "ps-color-vertex", "ps-color-mark"}
Dumps == {"dump-syn", "dump-scad", "dump-csg3", "dump-csg2", "dump-ps", "dump-stl", "dump-stlb", "dump-js"}
(* option with "no-" <-> the same without: the setting it names *)
Bools == { <<"opt-no-skip-empty", "opt-skip-empty">>, <<"opt-no-drop-collinear", "opt-drop-collinear">>,
           <<"no-diff", "diff">>, <<"ps-no-single-page", "ps-single-page">>, <<"ps-no-tri", "ps-tri">>,
           <<"ps-no-path", "ps-path">>, <<"ps-no-mark", "ps-mark">>, <<"js-no-keep-ctxt", "js-keep-ctxt">> }

(* texts of a number given in quarters: decimal, quotient, power, hexadecimal, exponent *)
Q(q) == CASE q = 1 -> {"0.25", "1/4", ".25", "25e-2", "0x1p-2", "2^-2", "+0.25", "0.5^2"}
          [] q = 2 -> {"0.5", "1/2", ".5", "5e-1", "0x.8", "2^-1", "4/8", "0.50"}
          [] q = 3 -> {"0.75", "3/4", "75e-2", "+.75", "1.5/2", "-3/-4"}
          [] q = 4 -> {"1", "1.0", "2/2", "5^0", "1e0", "+1", "0x1"}
          [] q = 6 -> {"1.5", "3/2", "15e-1", "0x1.8", "6/4"}
          [] q = 8 -> {"2", "2.", "4/2", "2^1", "4^0.5", "0x2"}
          [] q = 10 -> {"2.5", "5/2", "25e-1", "10/4"}
          [] q = -2 -> {"-0.5", "-1/2", "1/-2", "-.5", "-0x.8"}
          [] q = -1 -> {"-0.25", "-1/4", "-.25"}
          [] q = 0 -> {"0", "0.0", "-0", "0/3", "0^2"}
Canon(q) == CASE q = 1 -> "0.25" [] q = 2 -> "0.5" [] q = 3 -> "0.75" [] q = 4 -> "1" [] q = 6 -> "1.5" [] q = 8 -> "2"
              [] q = 10 -> "2.5" [] q = -2 -> "-0.5" [] q = -1 -> "-0.25" [] q = 0 -> "0"
BadNum == {"", "x", "1x", "1/", "/2", "1//2", "1^", "^2", "nan", "inf", "-inf", "1/0", "1 ", "1,5", "--1", "1/2/3", "0/0", "1e999", "1/x", "2^x", "0^-1"}
BadInt == {"", "x", "1.5", "3x", "1e1", "0x10", "4 ", "1/1", "+"}
BadBool == {"", "maybe", "TRUE", "Yes", "2", "01", "on", "y", "true "}
BadErr == {"", "none", "warnings", "ERROR", "w", "1", "errors", "ignored", "igno", "fai"}
BadRgb == {"", "xyz", "#ff0000", "ff00g0", "red", "ff 00"}

Yes == {"", "=true", "=1", "=yes"}
No == {"=false", "=0", "=no"}

Dash(x) == RE({"-", "--", "--", "--", "---"})
(* an option with an argument: two spellings *)
Opt(o, v) == IF RE({1, 2, 2}) = 1 THEN <<Dash(0) \o o, v>> ELSE <<Dash(0) \o o \o "=" \o v>>
Flag(o) == <<Dash(0) \o o>>

Fields == {"min", "max", "step", "layer-gap", "grid", "max-simultaneous", "max-fn", "auto", "dump", "bin", "out", "in",
           "fit", "line", "group", "rot"} \cup Sevs \cup Rgbs \cup {b[2] : b \in Bools}
Start == [f \in Fields |-> <<>>]

Put(o, pairs) == /\ argv' = argv \o o
                 /\ set' = [f \in Fields |-> IF \E p \in pairs : p[1] = f THEN (CHOOSE p \in pairs : p[1] = f)[2] ELSE set[f]]
                 /\ UNCHANGED <<verdict, why>>
Fail(o, w) == /\ argv' = argv \o o /\ verdict' = "fail" /\ why' = w /\ UNCHANGED set

Zs == {-2, -1, 0, 1, 2, 3, 4}
Good(k) ==
  CASE k = "min" -> \E q \in {RE(Zs)} : \E t \in {RE(Q(q))} : Put(Opt("min", t), {<<"min", <<Canon(q)>> >>})
    [] k = "max" -> \E q \in {RE(Zs)} : \E t \in {RE(Q(q))} : Put(Opt("max", t), {<<"max", <<Canon(q)>> >>})
    [] k = "z" -> \E q \in {RE(Zs)} : \E t \in {RE(Q(q))} : Put(Opt("z", t), {<<"min", <<Canon(q)>> >>, <<"max", <<Canon(q)>> >>})
    [] k = "step" -> \E q \in {RE({1, 2, 3, 4, 6, 8, 10})} : \E t \in {RE(Q(q))} : Put(Opt("step", t), {<<"step", <<Canon(q)>> >>})
    [] k = "gap" -> \E q \in {RE({0, 1})} : \E t \in {RE(Q(q))} : Put(Opt("layer-gap", t), {<<"layer-gap", <<Canon(q)>> >>})
    [] k = "grid" -> \E p \in {RE({ <<"1024", "2^10", "1024">>, <<"4096", "2^12", "4096.0">>, <<"8192", "2^13", "0x1p13">> })} :
                     \E t \in {RE({p[1], p[2], p[3]})} : Len(set["grid"]) # 2 /\ Put(Opt("grid", t), {<<"grid", <<p[1]>> >>})
    \* (which of --grid and --gran wins is not documented)
    [] k = "gran" -> \E p \in {RE({ <<"1024", "1/1024", "2^-10">>, <<"4096", "1/4096", "0x1p-12">> })} :
                     \E t \in {RE({p[2], p[3]})} : Len(set["grid"]) # 1 /\ Put(Opt("gran", t), {<<"grid", <<p[1], "gran">> >>})
    [] k = "sim" -> \E p \in {RE({ <<"2", "2">>, <<"3", "3">>, <<"5", "5">>, <<"10", "10">>, <<"11", "10">>, <<"64", "10">>, <<"1000000", "10">> })} :
                    Put(Opt("max-simultaneous", p[1]), {<<"max-simultaneous", <<p[2]>> >>})
    [] k = "fn" -> \E p \in {RE({"8", "12", "50", "100"})} : Put(Opt("max-fn", p), {<<"max-fn", <<p>> >>})
    [] k = "auto" -> \E p \in {RE({"no-auto-grid", "auto-grid", "auto-grid-max"})} : Put(Flag(p), {<<"auto", <<p>> >>})
    [] k = "dump" -> \E p \in {RE(Dumps)} : Put(Flag(p), {<<"dump", <<p>> >>})
    [] k = "bin" -> \E p \in {RE({"stl-bin", "stl-txt"})} : Put(Flag(p), {<<"bin", <<p>> >>})
    [] k = "sev" -> \E f \in {RE(Sevs)} : \E p \in {RE({ <<"error", {"error", "err", "fail"}>>, <<"warn", {"warn", "warning"}>>, <<"ignore", {"ignore", "ign"}>> })} :
                    \E t \in {RE(p[2])} : Put(Opt(f, t), {<<f, <<p[1]>> >>})
    [] k = "bool" -> \E b \in {RE(Bools)} : \E neg \in {RE(BOOLEAN)} : \E val \in {RE(BOOLEAN)} : \E t \in {RE(IF val THEN Yes ELSE No)} :
                     Put(<<Dash(0) \o (IF neg THEN b[1] ELSE b[2]) \o t>>, {<<b[2], <<IF neg # val THEN "yes" ELSE "no">> >>})
    [] k = "wire" -> Put(Flag("ps-no-wire"), {<<"ps-tri", <<"no">> >>, <<"ps-path", <<"no">> >>, <<"ps-mark", <<"no">> >>})
    [] k = "fit" -> \E p \in {RE({"ps-scale-fit", "ps-scale-max"})} : Put(Flag(p), {<<"fit", <<p>> >>})
    [] k = "rgb" -> \E f \in {RE(Rgbs)} : \E p \in {RE({ <<"ff0000", "FF0000">>, <<"00ff7f", "0x00FF7f">>, <<"0000ff", "ff">>, <<"000000", "0">> })} :
                    \E t \in {RE({p[1], p[2]})} : Put(Opt(f, t), {<<f, <<p[1]>> >>})
    [] k = "line" -> \E q \in {RE({1, 2, 4})} : \E t \in {RE(Q(q))} : Put(Opt("ps-line-width", t), {<<"line", <<Canon(q)>> >>})
    [] k = "group" -> \E g \in {RE({"a", "b", "c d", "a,b", "x;y"})} : Put(Opt("js-group", g), {<<"group", set["group"] \o <<g>> >>})
    [] k = "rot" -> \E a \in {RE({"ps-rot-x", "ps-rot-y", "ps-rot-z", "ps-scale"})} : \E q \in {RE({2, 4, 8})} : \E t \in {RE(Q(q))} :
                    Put(Opt(a, t), {<<"rot", set["rot"] \o << <<a, Canon(q)>> >> >>})
    [] k = "verb" -> \E p \in {RE({"q", "quiet", "v", "verbose"})} : Put(Flag(p), {})
    [] k = "out" -> \E p \in {RE({"x.stl", "y.stl", "x.stb", "x.stlb", "x.js", "x.scad", "x.csg", "x.ps", "noext", "a.b"})} :
                    Put(Opt("o", p), {<<"out", <<p>> >>})
    [] k = "in" -> Put(<<"in.scad">>, {<<"in", <<"in.scad">> >>})
GoodKinds == {"min", "max", "z", "step", "gap", "grid", "gran", "sim", "fn", "auto", "dump", "bin", "sev", "sev", "bool", "wire", "fit",
              "rgb", "line", "group", "rot", "verb", "out"}
BadArg(k) ==
  CASE k = "num" -> \E o \in {RE({"min", "max", "z", "step", "layer-gap", "grid", "gran", "eps", "ps-scale", "ps-rot-x", "ps-line-width"})} :
                    \E t \in {RE(BadNum)} : Fail(Opt(o, t), "number")
    [] k = "int" -> \E o \in {RE({"max-simultaneous", "max-fn", "js-color-rand"})} : \E t \in {RE(BadInt)} : Fail(Opt(o, t), "number")
    [] k = "range" -> \E p \in {RE({ <<"max-simultaneous", "1">>, <<"max-simultaneous", "0">>, <<"js-color-rand", "256">>,
                                     <<"max-fn", "4294967296">>, <<"js-color-rand", "1000">> })} : Fail(Opt(p[1], p[2]), "range")
    [] k = "bool" -> \E b \in {RE(Bools)} : \E o \in {RE({b[1], b[2]})} : \E t \in {RE(BadBool)} : Fail(<<Dash(0) \o o \o "=" \o t>>, "boolean")
    [] k = "sev" -> \E o \in {RE(Sevs \cup {"unknown-functor"})} : \E t \in {RE(BadErr)} : Fail(Opt(o, t), "severity")
    [] k = "rgb" -> \E o \in {RE(Rgbs)} : \E t \in {RE(BadRgb)} : Fail(Opt(o, t), "colour")
    [] k = "unknown" -> \E t \in {RE({"-", "--", "--dump", "--dumpstl", "--stp", "--steps=1", "--Step=1", "--no", "--nocsg", "--opt-skip", "--dump_stl",
                                      "-x", "-zz", "--max-simultaneou=3", "--max-fnn=3", "--ps-color=ff", "--help-me", "-=1", "--=", "--emptyy=warn",
                                      "--ps-rot=3", "--js-groups=a", "--outside=ign", "--no-no-csg", "--quie", "--qq"})} : Fail(<<t>>, "unknown")
    [] k = "second" -> set["in"] # <<>> /\ Fail(<<RE({"in.scad", "other.scad", ""})>>, "second input")

Step == /\ left > 1 /\ verdict = "run" /\ left' = left - 1
        /\ \/ \E k \in {RE(GoodKinds)} : Good(k)
           \/ \E k \in {RE({"num", "int", "range", "bool", "sev", "rgb", "unknown", "second"})} : RE(1..100) <= BAD /\ BadArg(k)
           \/ RE(1..60) = 1 /\ argv' = argv \o Flag(RE({"h", "?", "help"})) /\ verdict' = "help" /\ UNCHANGED <<set, why>>
        \* what follows an error or a request for help does not matter
After == /\ left > 1 /\ verdict \in {"fail", "help"} /\ left' = left - 1 /\ UNCHANGED <<set, verdict, why>>
         /\ argv' = argv \o RE({ <<"--step=1">>, <<"in.scad">>, <<"--nonsense">>, <<"-o", "x.stl">>, <<"--help">>, <<"--z=x">> })
Input == /\ verdict = "run" /\ set["in"] = <<>> /\ left > 1 /\ left' = left /\ Good("in")
Last == /\ left = 1 /\ left' = 0
        /\ \/ verdict # "run" /\ UNCHANGED <<argv, set, verdict, why>>
           \/ /\ verdict = "run" /\ UNCHANGED <<argv, set>>
              /\ CASE set["in"] = <<>> -> verdict' = "fail" /\ why' = "no input"
                   [] set["dump"] = <<>> /\ set["out"] \in {<<"noext">>, <<"a.b">>} -> verdict' = "fail" /\ why' = "file ending"
                   [] OTHER -> UNCHANGED <<verdict, why>>
           \/ /\ verdict = "run" /\ RE(1..100) <= BAD     \* an option that lacks its argument
              /\ Fail(Flag(RE({"step", "min", "max", "z", "o", "grid", "empty", "outside-3d", "max-fn", "max-simultaneous", "js-group", "ps-color-tri", "ps-scale"})), "argument")

Init == argv = <<>> /\ set = Start /\ verdict = "run" /\ left \in 2..NARGS /\ why = ""
Next == Step \/ After \/ Input \/ Last
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------- canonical form *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o Sorted(S \ {m})
Val(f) == IF f = "grid" THEN <<"--grid=" \o set[f][1]>> ELSE <<"--" \o f \o "=" \o set[f][1]>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
One(f) ==
  IF set[f] = <<>> THEN <<>>
  ELSE CASE f \in {"min", "max", "step", "layer-gap", "grid", "max-simultaneous", "max-fn"} \cup Sevs \cup Rgbs -> Val(f)
         [] f = "line" -> <<"--ps-line-width=" \o set[f][1]>>
         [] f \in {"auto", "fit"} -> <<"--" \o set[f][1]>>
         [] f = "group" -> [i \in 1..Len(set[f]) |-> "--js-group=" \o set[f][i]]
         [] f = "rot" -> [i \in 1..Len(set[f]) |-> "--" \o set[f][i][1] \o "=" \o set[f][i][2]]
         [] f \in {b[2] : b \in Bools} ->
              LET b == CHOOSE x \in Bools : x[2] = f IN IF set[f] = <<"yes">> THEN <<"--" \o f>> ELSE <<"--" \o b[1]>>
         [] f = "in" -> <<"in.scad">>
         [] OTHER -> <<>>
(* the format: the last --dump-..., else by the file ending (.stl: text, or binary with --stl-bin), else nothing is written *)
Format ==
  LET o == IF set["out"] = <<>> THEN "" ELSE set["out"][1]
      stl == IF set["bin"] = <<"stl-bin">> THEN "dump-stlb" ELSE "dump-stl"
  IN IF set["dump"] # <<>> THEN set["dump"][1]
     ELSE CASE o = "" -> ""
            [] o \in {"x.stl", "y.stl"} -> stl
            [] o \in {"x.stb", "x.stlb"} -> "dump-stlb"
            [] o = "x.js" -> "dump-js"
            [] o \in {"x.scad", "x.csg"} -> "dump-csg2"
            [] o = "x.ps" -> "dump-ps"
            [] OTHER -> "?"
Canonical == Cat([i \in 1..Cardinality(Fields) |-> One(Sorted(Fields)[i])]) \o (IF Format = "" THEN <<>> ELSE <<"--" \o Format>>)

TypeOk == verdict \in {"run", "fail", "help"} /\ (verdict = "fail" <=> why # "")
Emit == (left = 0) =>
  PrintT(ToJson([argv |-> argv, verdict |-> verdict, why |-> why, out |-> IF set["out"] = <<>> THEN "" ELSE set["out"][1],
                 fmt |-> IF verdict = "run" THEN Format ELSE "",
                 canon |-> IF verdict = "run" THEN Canonical ELSE <<>>]))
=============================================================================
