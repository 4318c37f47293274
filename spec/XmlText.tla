------------------------------ MODULE XmlText ------------------------------
(***************************************************************************)
(* XML as a pushdown recogniser over characters, and every single edit of  *)
(* small SVG documents: TLC enumerates the edits and gives the verdict     *)
(*   "same"  well-formed, with the same elements and attributes as before  *)
(*   "ok"    well-formed, but another document, which may not be SVG       *)
(*   "bad"   not well-formed: must be rejected                             *)
(*   "open"  left open: what hob3l accepts beyond XML (attributes without  *)
(*           a value or without space between them, attributes given       *)
(*           twice), and what it does not know (CDATA sections, processing *)
(*           instructions)                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS DOCS,       \* which documents
          PART, PARTS,\* of the positions, those congruent to PART modulo PARTS
          DOUBLE      \* also edit a second time, nearby
VARIABLES st, doc, e1, e2
vars == <<st, doc, e1, e2>>

Docs == <<
 "<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox='0 0 8 8'><!-- c-d --><g id=\"a\"><rect x=\"1\" y='2' width=\"3\" height=\"3\"/>t &amp; u</g ><path d=\"M5 1h2v&#52;z\"></path></svg>",
 "<!-- <a --><s:svg xmlns:s=\"http://www.w3.org/2000/svg\"><s:g b:c=\"1\" xmlns:b='u' xml:space = 'preserve'><s:circle r=\"2\" cx='&#x33;'/><b:e/></s:g><s:desc\n> a > b\n<s:b>&lt;&#xe4;</s:b></s:desc>\n</s:svg>\n<!---->\n" >>

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Bases == [k \in 1..Len(Docs) |-> Chars(Docs[k])]

Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
NameStart == Lower \cup Upper \cup {"_"}
NameChar == NameStart \cup Digit \cup {"-", "."}
Ws == {" ", "\n", "\t"}
HexDigit == Digit \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}

(* m: mode; stk: open elements; nm: name being read; pf: its prefix; at: the
   attributes of the element; an, av: name and value being read; q: the quote;
   ns: for each open element (and below), the prefixes bound; out: what the
   document says; root: whether there was a root; ret: where an entity returns
   to; en: its text; op: something left open was seen                          *)
Start == [m |-> "misc", stk |-> <<>>, nm |-> "", at |-> <<>>, an |-> "", av |-> "", q |-> "", ns |-> <<{"xml"}>>, out |-> <<>>, root |-> FALSE,
          ret |-> "", en |-> "", op |-> FALSE]
Bad(s) == [s EXCEPT !.m = "bad"]
Body(s) == IF s.stk = <<>> THEN "misc" ELSE "content"
(* names may have one colon, between two parts *)
Colons(nm) == Cardinality({i \in 1..Len(nm) : SubSeq(nm, i, i) = ":"})
Prefix(nm) == IF Colons(nm) = 0 THEN "" ELSE LET i == CHOOSE i \in 1..Len(nm) : SubSeq(nm, i, i) = ":" IN SubSeq(nm, 1, i - 1)
QName(nm) == /\ Len(nm) > 0 /\ Colons(nm) <= 1
             /\ Colons(nm) = 1 => LET i == CHOOSE i \in 1..Len(nm) : SubSeq(nm, i, i) = ":" IN
                                  i > 1 /\ i < Len(nm) /\ SubSeq(nm, i + 1, i + 1) \in NameStart
Bound(at) == {SubSeq(at[i][1], 7, Len(at[i][1])) : i \in {j \in 1..Len(at) : Len(at[j][1]) > 6 /\ SubSeq(at[j][1], 1, 6) = "xmlns:"}}
IsNs(n) == n = "xmlns" \/ (Len(n) > 6 /\ SubSeq(n, 1, 6) = "xmlns:")
Twice(at) == \E i, j \in 1..Len(at) : i < j /\ at[i][1] = at[j][1]
(* the start tag is complete *)
OpenE(s, empty) ==
  LET b == Last(s.ns) \cup Bound(s.at)
      px == {Prefix(s.nm)} \cup {Prefix(s.at[i][1]) : i \in {j \in 1..Len(s.at) : ~IsNs(s.at[j][1])}}
      \* binding a prefix to nothing, or rebinding xml
      odd == \E i \in 1..Len(s.at) : IsNs(s.at[i][1]) /\ s.at[i][1] # "xmlns" /\ (s.at[i][2] = "" \/ s.at[i][1] = "xmlns:xml" \/ s.at[i][1] = "xmlns:xmlns")
      u == [s EXCEPT !.out = Append(@, <<"<", s.nm, s.at>>), !.at = <<>>, !.op = @ \/ Twice(s.at) \/ odd \/ "xmlns" \in px]
  IN IF ~QName(s.nm) \/ ~(px \subseteq (b \cup {"", "xmlns"})) THEN Bad(s)
     ELSE IF s.stk = <<>> /\ s.root THEN Bad(s)
     ELSE IF empty THEN [u EXCEPT !.out = Append(@, <<">">>), !.m = Body(s), !.root = TRUE]
     ELSE [u EXCEPT !.stk = Append(@, s.nm), !.ns = Append(@, b), !.m = "content", !.root = TRUE]
CloseE(s) ==
  IF s.stk = <<>> \/ Last(s.stk) # s.nm THEN Bad(s)
  ELSE LET u == [s EXCEPT !.stk = Front(@), !.ns = Front(@), !.out = Append(@, <<">">>)] IN [u EXCEPT !.m = Body(u)]
AddAttr(s) == IF QName(s.an) THEN [s EXCEPT !.at = Append(@, <<s.an, s.av>>), !.an = "", !.av = "", !.m = "aend"] ELSE Bad(s)
AllIn(t, S) == \A i \in 1..Len(t) : SubSeq(t, i, i) \in S
DigitVal(c) == CHOOSE v \in 0..15 : c \in {SubSeq("0123456789abcdef", v + 1, v + 1), SubSeq("0123456789ABCDEF", v + 1, v + 1)}
NumOf(t, base) == FoldLeft(LAMBDA a, c : IF a > 1200000 THEN a ELSE a * base + DigitVal(c), 0, Chars(t))
(* a reference, without & and ; : <<good, open>> *)
RefOf(t) ==
  IF t \in {"amp", "lt", "gt", "quot", "apos"} THEN <<TRUE, FALSE>>
  ELSE LET hex == Len(t) > 2 /\ SubSeq(t, 1, 2) = "#x" /\ AllIn(SubSeq(t, 3, Len(t)), HexDigit)
           dec == Len(t) > 1 /\ SubSeq(t, 1, 1) = "#" /\ AllIn(SubSeq(t, 2, Len(t)), Digit)
           n == IF hex THEN NumOf(SubSeq(t, 3, Len(t)), 16) ELSE NumOf(SubSeq(t, 2, Len(t)), 10)
           hex2 == Len(t) > 2 /\ SubSeq(t, 1, 2) = "#X" /\ AllIn(SubSeq(t, 3, Len(t)), HexDigit)
       IN IF hex2 THEN <<TRUE, TRUE>>
          ELSE IF ~hex /\ ~dec THEN <<FALSE, FALSE>>
          ELSE IF n = 0 \/ n > 1114111 \/ n \in 55296..57343 THEN <<FALSE, FALSE>>
          ELSE <<TRUE, n < 32 \/ n \in 65534..65535>>

StepX(s, c) ==
  CASE s.m = "bad" -> s
    [] c = "@ff@" -> Bad(s)
    [] s.m = "misc" -> IF c \in Ws THEN s ELSE IF c = "<" THEN [s EXCEPT !.m = "lt"] ELSE Bad(s)
    [] s.m = "content" -> IF c = "<" THEN [s EXCEPT !.m = "lt"] ELSE IF c = "&" THEN [s EXCEPT !.m = "ent", !.ret = "content", !.en = ""] ELSE s
    [] s.m = "lt" -> IF c = "/" THEN [s EXCEPT !.m = "endname", !.nm = ""]
                     ELSE IF c = "!" THEN [s EXCEPT !.m = "bang"]
                     ELSE IF c = "?" THEN [s EXCEPT !.op = TRUE, !.m = "free"]
                     ELSE IF c \in NameStart THEN [s EXCEPT !.m = "name", !.nm = c] ELSE Bad(s)
    [] s.m = "free" -> s
    [] s.m = "bang" -> IF c = "-" THEN [s EXCEPT !.m = "bang2"] ELSE IF c \in {"[", "D"} THEN [s EXCEPT !.op = TRUE, !.m = "free"] ELSE Bad(s)
    [] s.m = "bang2" -> IF c = "-" THEN [s EXCEPT !.m = "comment"] ELSE Bad(s)
    [] s.m = "comment" -> IF c = "-" THEN [s EXCEPT !.m = "com1"] ELSE s
    [] s.m = "com1" -> IF c = "-" THEN [s EXCEPT !.m = "com2"] ELSE [s EXCEPT !.m = "comment"]
    [] s.m = "com2" -> IF c = ">" THEN [s EXCEPT !.m = Body(s)] ELSE Bad(s)
    [] s.m = "name" -> IF c \in NameChar \cup {":"} THEN [s EXCEPT !.nm = @ \o c]
                       ELSE IF c \in Ws THEN [s EXCEPT !.m = "attrs"]
                       ELSE IF c = "/" THEN [s EXCEPT !.m = "empty"]
                       ELSE IF c = ">" THEN OpenE(s, FALSE) ELSE Bad(s)
    [] s.m = "attrs" -> IF c \in Ws THEN s
                        ELSE IF c = "/" THEN [s EXCEPT !.m = "empty"]
                        ELSE IF c = ">" THEN OpenE(s, FALSE)
                        ELSE IF c \in NameStart THEN [s EXCEPT !.m = "aname", !.an = c] ELSE Bad(s)
    [] s.m = "aname" -> IF c \in NameChar \cup {":"} THEN [s EXCEPT !.an = @ \o c]
                        ELSE IF c = "=" THEN [s EXCEPT !.m = "aeq"]
                        ELSE IF c \in Ws THEN [s EXCEPT !.m = "aname_ws"]
                        ELSE IF c \in {">", "/"} THEN [s EXCEPT !.op = TRUE, !.m = "free"] ELSE Bad(s)
    [] s.m = "aname_ws" -> IF c = "=" THEN [s EXCEPT !.m = "aeq"] ELSE IF c \in Ws THEN s
                           ELSE IF c \in NameStart \cup {">", "/"} THEN [s EXCEPT !.op = TRUE, !.m = "free"] ELSE Bad(s)
    [] s.m = "aeq" -> IF c \in Ws THEN s ELSE IF c \in {"\"", "'"} THEN [s EXCEPT !.m = "aval", !.q = c] ELSE Bad(s)
    [] s.m = "aval" -> IF c = s.q THEN AddAttr(s)
                       ELSE IF c = "<" THEN Bad(s)
                       ELSE IF c = "&" THEN [s EXCEPT !.m = "ent", !.ret = "aval", !.en = ""]
                       ELSE [s EXCEPT !.av = @ \o c]
    [] s.m = "aend" -> IF c \in Ws THEN [s EXCEPT !.m = "attrs"]
                       ELSE IF c = "/" THEN [s EXCEPT !.m = "empty"]
                       ELSE IF c = ">" THEN OpenE(s, FALSE)
                       ELSE IF c \in NameStart THEN [s EXCEPT !.op = TRUE, !.m = "free"] ELSE Bad(s)
    [] s.m = "empty" -> IF c = ">" THEN OpenE(s, TRUE) ELSE Bad(s)
    [] s.m = "endname" -> IF c \in NameChar \cup {":"} /\ (s.nm # "" \/ c \in NameStart) THEN [s EXCEPT !.nm = @ \o c]
                          ELSE IF s.nm = "" THEN Bad(s)
                          ELSE IF c \in Ws THEN [s EXCEPT !.m = "endws"]
                          ELSE IF c = ">" THEN CloseE(s) ELSE Bad(s)
    [] s.m = "endws" -> IF c \in Ws THEN s ELSE IF c = ">" THEN CloseE(s) ELSE Bad(s)
    [] s.m = "ent" -> IF c = ";"
                      THEN LET r == RefOf(s.en) IN
                           IF ~r[1] THEN Bad(s)
                           ELSE [s EXCEPT !.m = s.ret, !.op = @ \/ r[2], !.av = IF s.ret = "aval" THEN @ \o "&" \o s.en \o ";" ELSE @]
                      ELSE IF c \in NameChar \cup {"#"} THEN [s EXCEPT !.en = @ \o c] ELSE Bad(s)
(* once something open was seen the rest is not judged, except that it has to end *)
Scan(cs) == FoldLeft(StepX, Start, cs)
Accepts(s) == s.m = "misc" /\ s.root
(* which documents are told to be SVG by their first characters *)
Sniffed(cs) ==
  /\ Len(cs) > 4 /\ cs[1] = "<"
  /\ cs[2] = "!" \/ (cs[2] = "s" /\ cs[3] = "v" /\ cs[4] = "g")
Verdict(cs, k) ==
  LET s == TLCEval(Scan(cs)) IN
  IF s.op THEN "open"
  ELSE IF ~Accepts(s) THEN "bad"
  ELSE IF ~Sniffed(cs) THEN "open"
  ELSE IF s.out = Scan(Bases[k]).out THEN "same" ELSE "ok"

(* ------------------------------------------------------------------ edits *)
Ins == {"<", ">", "/", "\"", "'", "&", ";", "=", " ", "a", "s", "-", "!", "?", ":", "#", "x", "1", "\n", ".", "@ff@", "]", "["}
EditsOf(cs, near) ==
  {[o |-> "del", i |-> i, c |-> ""] : i \in near} \cup {[o |-> "dup", i |-> i, c |-> ""] : i \in near}
  \cup {[o |-> "swap", i |-> i, c |-> ""] : i \in {j \in near : j < Len(cs)}} \cup {[o |-> "cut", i |-> i, c |-> ""] : i \in near}
  \cup {[o |-> "rep", i |-> i, c |-> c] : i \in near, c \in Ins} \cup {[o |-> "ins", i |-> i, c |-> c] : i \in near, c \in Ins}
Do(cs, e) ==
  CASE e.o = "none" -> cs
    [] e.o = "del" -> SubSeq(cs, 1, e.i - 1) \o SubSeq(cs, e.i + 1, Len(cs))
    [] e.o = "dup" -> SubSeq(cs, 1, e.i) \o SubSeq(cs, e.i, Len(cs))
    [] e.o = "swap" -> SubSeq(cs, 1, e.i - 1) \o <<cs[e.i + 1], cs[e.i]>> \o SubSeq(cs, e.i + 2, Len(cs))
    [] e.o = "cut" -> SubSeq(cs, 1, e.i - 1)
    [] e.o = "rep" -> SubSeq(cs, 1, e.i - 1) \o <<e.c>> \o SubSeq(cs, e.i + 1, Len(cs))
    [] e.o = "ins" -> SubSeq(cs, 1, e.i - 1) \o <<e.c>> \o SubSeq(cs, e.i, Len(cs))

None == [o |-> "none", i |-> 0, c |-> ""]
Init == st = "new" /\ doc = 1 /\ e1 = None /\ e2 = None
Edit1 == st = "new" /\ st' = "one" /\ e2' = None
         /\ \E k \in DOCS : doc' = k /\ \E e \in EditsOf(Bases[k], {i \in 1..Len(Bases[k]) : i % PARTS = PART}) \cup {None} : e1' = e
Edit2 == DOUBLE /\ st = "one" /\ st' = "two" /\ e1' = e1 /\ doc' = doc /\ e1.o # "none" /\ e1.c \in {"", "<", "/", "\"", "&", "-", ">", "="}
         /\ LET cs == Do(Bases[doc], e1) IN
            \E e \in {x \in EditsOf(cs, {e1.i, e1.i + 2} \cap (1..Len(cs))) : x.c \in {"", ">", "/", "\"", "'", ";", "-", " ", "="}} : e2' = e
Next == Edit1 \/ Edit2
Spec == Init /\ [][Next]_vars
Cs == Do(Do(Bases[doc], e1), e2)
Join(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)
(* the recogniser accepts the documents themselves, and none that is cut short *)
Sane == st = "one" =>
  /\ e1.o = "none" => Verdict(Bases[doc], doc) = "same"
  /\ e1.o = "cut" /\ e1.i < Len(Bases[doc]) - 20 => Verdict(Cs, doc) = "bad"
Emit == st # "new" => PrintT(ToJson([k |-> doc, s |-> Join(Cs), v |-> Verdict(Cs, doc), e |-> <<e1, e2>>]))
=============================================================================
