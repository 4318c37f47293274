------------------------------ MODULE StlText ------------------------------
(***************************************************************************)
(* The two STL formats as recognisers, and every single edit of a small    *)
(* file: TLC enumerates the edits and gives the verdict of the recogniser  *)
(*   "ok"   the same facets as before: must be read, same solid            *)
(*   "bad"  not in the format: must be rejected                            *)
(*   "open" another mesh, possibly no solid: any orderly outcome           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANT DOUBLE      \* also edit a second time (thorough)
VARIABLES st, e1, e2
vars == <<st, e1, e2>>

Pts == << <<"-3", "-2", "-2">>, <<"3", "-2", "-2">>, <<"0", "3", "-2">>, <<"0", "0", "3">> >>
\* counter-clockwise seen from outside
Tri == << <<1, 3, 2>>, <<1, 2, 4>>, <<2, 3, 4>>, <<3, 1, 4>> >>
Nrm == << <<"0", "0", "-1">>, <<"0", "-1", "0.4">>, <<"1", "0.6", "0.6">>, <<"-1", "0.6", "0.6">> >>

NL == "\n"
VertexT(i) == <<"vertex">> \o Pts[i] \o <<NL>>
FacetT(k) == <<"facet", "normal">> \o Nrm[k] \o <<NL, "outer", "loop", NL>> \o VertexT(Tri[k][1]) \o VertexT(Tri[k][2]) \o VertexT(Tri[k][3])
             \o <<"endloop", NL, "endfacet", NL>>
Base == <<"solid", "name", NL>> \o FacetT(1) \o FacetT(2) \o FacetT(3) \o FacetT(4) \o <<"endsolid", "name", NL>>

Keywords == {"solid", "endsolid", "facet", "endfacet", "outer", "loop", "endloop", "vertex", "normal"}
Good == {"0", "-3", "3", "-2", "-1", "1", "0.4", "0.6", "7", "+3", "3.", "3.0e0", "-.2e1", "00"}
BadNum == {"1e", "-", "+", ".", "e5", "0x1", "1,5", "nan", "inf", "--1", "1.2.3", "1e+", "+-1", "1_0", "\"1\"", "1e999", "-1e999", "3f", "3..", "1e1.5"}
Other == {"name", "Facet", "facets", "#", "//", ";", "{", "vertex3", "endfacetendsolid"}
IsNum(t) == t \in Good

(* ------------------------------------------------- recogniser of the text *)
Body == <<"facet", "normal", "NUMBER", "NUMBER", "NUMBER", "outer", "loop", "vertex", "NUMBER", "NUMBER", "NUMBER", "vertex", "NUMBER", "NUMBER", "NUMBER", "vertex", "NUMBER", "NUMBER", "NUMBER", "endloop", "endfacet">>
(* state: [q: state, k: position in Body, f: facets so far, v: numbers of the facet] *)
Start == [q |-> "start", k |-> 0, f |-> <<>>, v |-> <<>>]
StepT(s, t) ==
  CASE s.q = "bad" -> s
    [] s.q = "start" -> IF t = "solid" THEN [s EXCEPT !.q = "head"] ELSE [s EXCEPT !.q = "bad"]
    [] s.q = "head" -> IF t = NL THEN [s EXCEPT !.q = "body"] ELSE s
    [] s.q = "body" /\ t = NL -> s
    [] s.q = "body" /\ s.k = 0 /\ t = "endsolid" -> [s EXCEPT !.q = "end"]
    [] s.q = "body" ->
         LET w == Body[s.k + 1] IN
         IF (w = "NUMBER" /\ IsNum(t)) \/ w = t
         THEN IF s.k + 1 = Len(Body) THEN [s EXCEPT !.k = 0, !.f = Append(@, s.v), !.v = <<>>]
              ELSE [s EXCEPT !.k = @ + 1, !.v = IF w = "NUMBER" THEN Append(@, t) ELSE @]
         ELSE [s EXCEPT !.q = "bad"]
    [] s.q = "end" -> IF t = NL THEN [s EXCEPT !.q = "fin"] ELSE s
    [] s.q = "fin" -> IF t = NL THEN s ELSE [s EXCEPT !.q = "bad"]
RECURSIVE Scan(_, _, _)
Scan(toks, i, s) == IF i > Len(toks) THEN s ELSE LET u == TLCEval(StepT(s, toks[i])) IN IF u.q = "bad" THEN u ELSE Scan(toks, i + 1, u)
\* the value a spelling denotes, times ten
Val(t) == CASE t \in {"0", "00"} -> 0 [] t \in {"3", "+3", "3.", "3.0e0"} -> 30 [] t = "-3" -> -30 [] t \in {"-2", "-.2e1"} -> -20
            [] t = "-1" -> -10 [] t = "1" -> 10 [] t = "0.4" -> 4 [] t = "0.6" -> 6 [] t = "7" -> 70
Coords(f) == [i \in 1..Len(f) |-> [j \in 4..12 |-> Val(f[i][j])]]
Verdict(toks) ==
  LET s == TLCEval(Scan(TLCEval(toks), 1, Start)) IN
  IF s.q \notin {"end", "fin"} THEN "bad"
  ELSE IF Coords(s.f) = Coords(Scan(Base, 1, Start).f) THEN "ok" ELSE "open"

(* ------------------------------------------------------------------ edits *)
Tokens == Keywords \cup BadNum \cup Other \cup {NL, "7", "+3", "3.", "3.0e0", "-.2e1", "00"}
EditsOf(toks) ==
  {[o |-> "del", i |-> i, t |-> ""] : i \in 1..Len(toks)}
  \cup {[o |-> "dup", i |-> i, t |-> ""] : i \in 1..Len(toks)}
  \cup {[o |-> "swap", i |-> i, t |-> ""] : i \in 1..(Len(toks) - 1)}
  \cup {[o |-> "cut", i |-> i, t |-> ""] : i \in 1..Len(toks)}
  \cup {[o |-> "rep", i |-> i, t |-> t] : i \in 1..Len(toks), t \in Tokens}
  \cup {[o |-> "ins", i |-> i, t |-> t] : i \in 2..Len(toks), t \in Keywords \cup {"7", "#", NL, "name", "-"}}
Do(toks, e) ==
  CASE e.o = "del" -> SubSeq(toks, 1, e.i - 1) \o SubSeq(toks, e.i + 1, Len(toks))
    [] e.o = "dup" -> SubSeq(toks, 1, e.i) \o SubSeq(toks, e.i, Len(toks))
    [] e.o = "swap" -> SubSeq(toks, 1, e.i - 1) \o <<toks[e.i + 1], toks[e.i]>> \o SubSeq(toks, e.i + 2, Len(toks))
    [] e.o = "cut" -> SubSeq(toks, 1, e.i - 1)
    [] e.o = "rep" -> SubSeq(toks, 1, e.i - 1) \o <<e.t>> \o SubSeq(toks, e.i + 1, Len(toks))
    [] e.o = "ins" -> SubSeq(toks, 1, e.i - 1) \o <<e.t>> \o SubSeq(toks, e.i, Len(toks))

RECURSIVE Show(_, _)
Show(toks, i) == IF i > Len(toks) THEN "" ELSE (IF i = 1 \/ toks[i] = NL \/ toks[i - 1] = NL THEN "" ELSE " ") \o toks[i] \o Show(toks, i + 1)

(* ------------------------------------------------------------ binary form *)
(* header of 80 bytes, a count, and 50 bytes per facet; the file is cut or
   continued to len bytes and announces cnt facets.  Files that begin with the
   word solid are text.                                                      *)
Full == 84 + 50 * Len(Tri)
BinVerdict(len, cnt) == IF len < 84 \/ len < 84 + 50 * cnt THEN "bad"
                        ELSE IF len = Full /\ cnt = Len(Tri) THEN "ok" ELSE "open"
Bins == {[len |-> l, cnt |-> Len(Tri)] : l \in 0..(Full + 60)} \cup {[len |-> Full, cnt |-> c] : c \in 0..9}
        \cup {[len |-> 84 + 50 * a, cnt |-> b] : a \in 0..6, b \in 0..6}
(* one of the numbers of a facet is not finite *)
Specials == {[k |-> k, i |-> i, x |-> x] : k \in 1..Len(Tri), i \in 1..12, x \in {"nan", "inf", "-inf", "-nan"}}
SpecVerdict(s) == IF s.i > 3 THEN "bad" ELSE "any"    \* normals of such kind occur in practice: open

None == [o |-> "none", i |-> 0, t |-> ""]
Init == st = "new" /\ e1 = None /\ e2 = None
Text == st = "new" /\ st' = "text" /\ (\E e \in EditsOf(Base) \cup {None} : e1' = e) /\ e2' = None
Text2 == DOUBLE /\ st = "text" /\ st' = "text2" /\ e1' = e1 /\ e1.o # "none"
         /\ \E e \in {x \in EditsOf(Do(Base, e1)) : x.i \in (e1.i - 1)..(e1.i + 1) /\ x.t \in {"", "endfacet", "facet", "#", "7", NL}} : e2' = e
Bin == st = "new" /\ st' = "bin" /\ (\E b \in Bins : e1' = b) /\ e2' = None
Spec1 == st = "new" /\ st' = "special" /\ (\E b \in Specials : e1' = b) /\ e2' = None
Next == Text \/ Text2 \/ Bin \/ Spec1
Spec == Init /\ [][Next]_vars

Toks == IF e1.o = "none" THEN Base ELSE IF st = "text" THEN Do(Base, e1) ELSE Do(Do(Base, e1), e2)
(* the recogniser accepts the file itself, and nothing that is cut short *)
Sane == /\ Verdict(Base) = "ok"
        /\ (st = "text" /\ e1.o = "cut" /\ e1.i < Len(Base) - 1) => Verdict(Toks) = "bad"
Emit ==
  CASE st = "new" -> TRUE
    [] st \in {"text", "text2"} -> PrintT(ToJson([k |-> "text", s |-> Show(Toks, 1), v |-> Verdict(Toks), e |-> <<e1, e2>>]))
    [] st = "bin" -> PrintT(ToJson([k |-> "bin", len |-> e1.len, cnt |-> e1.cnt, v |-> BinVerdict(e1.len, e1.cnt)]))
    [] st = "special" -> PrintT(ToJson([k |-> "special", b |-> e1, v |-> SpecVerdict(e1)]))
=============================================================================
