------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The syntax of SCAD files as documented in doc/scadformat.md             *)
(* ("Morphosyntax"), as a recogniser over bytes.                           *)
(*                                                                         *)
(* Every parser p(s, i) returns [ok, v, i, lvl, at, lex]: v is the          *)
(* structure as a flat sequence (markers are > 1000), i the next position, *)
(* at the token where a failed parse cannot go on, lex whether it failed   *)
(* inside a token.  lvl: 0 derivable; 1 only by an extension the tool       *)
(* tolerates (empty statements, several modifiers, a comma at the end);     *)
(* 2 the documentation does not decide (keywords as functors, numbers       *)
(* beyond the exact range, escapes of control characters).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Alpha(c) == c \in 65..90 \/ c \in 97..122
Digit(c) == c \in 48..57
IdStart(c) == c = 36 \/ c = 95 \/ Alpha(c)
IdCont(c) == c = 95 \/ Alpha(c) \/ Digit(c)
White(c) == c \in {32, 10, 13, 9}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Larger(a, b) == IF a > b THEN a ELSE b

RECURSIVE SkipId(_, _), SkipDig(_, _), SkipLine(_, _), SkipCom(_, _), SkipStr(_, _), SkipPath(_, _), Gap(_, _)
SkipId(s, i) == IF i <= Len(s) /\ IdCont(s[i]) THEN SkipId(s, i + 1) ELSE i
SkipDig(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN SkipDig(s, i + 1) ELSE i
SkipLine(s, i) == IF i <= Len(s) /\ s[i] # 10 THEN SkipLine(s, i + 1) ELSE i
(* the position behind the end of a comment, a string, a path; 0: none *)
SkipCom(s, i) == IF i + 1 > Len(s) THEN 0 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 2 ELSE SkipCom(s, i + 1)
SkipStr(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 34 THEN i + 1
                 ELSE IF s[i] = 92 THEN (IF i + 1 > Len(s) \/ s[i + 1] > 127 THEN 0 ELSE SkipStr(s, i + 2))
                 ELSE SkipStr(s, i + 1)
SkipPath(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 62 THEN i + 1 ELSE SkipPath(s, i + 1)
(* behind white space and comments; minus the start of a comment without end *)
Gap(s, i) == IF i > Len(s) THEN i
             ELSE IF White(s[i]) THEN Gap(s, i + 1)
             ELSE IF s[i] = 47 /\ At(s, i + 1) = 47 THEN Gap(s, SkipLine(s, i))
             ELSE IF s[i] = 47 /\ At(s, i + 1) = 42 THEN (LET e == SkipCom(s, i + 2) IN IF e = 0 THEN -i ELSE Gap(s, e))
             ELSE i

(* a number: where its parts end *)
NumParts(s, i) ==
  LET a == IF s[i] \in {43, 45} THEN i + 1 ELSE i
      b == SkipDig(s, a)
      dot == At(s, b) = 46
      c == IF dot THEN SkipDig(s, b + 1) ELSE b
      hasE == At(s, c) \in {101, 69}
      d == IF hasE THEN (IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      e == IF hasE THEN SkipDig(s, d) ELSE c
  IN [neg |-> s[i] = 45, a |-> a, b |-> b, c |-> c, d |-> d, e |-> e, dot |-> dot, hasE |-> hasE, eneg |-> hasE /\ At(s, c + 1) = 45]

HasNul(v) == \E k \in 1..Len(v) : v[k] = 0

Tok(s, i0) ==
  LET i == Gap(s, i0) IN
  IF i < 0 THEN [t |-> "err", c |-> 0, at |-> -i, to |-> -i, v |-> <<>>]
  ELSE IF i > Len(s) THEN [t |-> "eof", c |-> 0, at |-> i, to |-> i, v |-> <<>>]
  ELSE LET c == s[i] IN
    IF IdStart(c) THEN (LET e == SkipId(s, i + 1) IN [t |-> "id", c |-> 0, at |-> i, to |-> e, v |-> SubSeq(s, i, e - 1)])
    ELSE IF c \in {43, 45, 46} \/ Digit(c) THEN (LET p == NumParts(s, i) IN [t |-> IF p.dot \/ p.hasE THEN "flt" ELSE "int", c |-> 0, at |-> i, to |-> p.e, v |-> <<>>])
    ELSE IF c = 34 THEN (LET e == SkipStr(s, i + 1) IN IF e = 0 THEN [t |-> "err", c |-> 0, at |-> i, to |-> i, v |-> <<>>]
                         \* whether a string may contain NUL is left open
                         ELSE IF HasNul(SubSeq(s, i, e - 1)) THEN [t |-> "err", c |-> 1, at |-> i, to |-> i, v |-> <<>>]
                         ELSE [t |-> "str", c |-> 0, at |-> i, to |-> e, v |-> SubSeq(s, i + 1, e - 2)])
    ELSE [t |-> "sym", c |-> c, at |-> i, to |-> i + 1, v |-> <<>>]
Sym(t, c) == t.t = "sym" /\ t.c = c

(* -------------------------------------------------------- numeric values *)
RECURSIVE Strip0(_), StripEnd0(_), Dec(_, _), RoundUp(_)
Strip0(d) == IF d # <<>> /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
StripEnd0(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN StripEnd0(SubSeq(d, 1, Len(d) - 1)) ELSE d
Dec(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 9999 THEN acc ELSE Dec(Tail(d), acc * 10 + (d[1] - 48))
(* add one to the last place; may give one digit more *)
RoundUp(d) == IF d = <<>> THEN <<49>> ELSE IF d[Len(d)] = 57 THEN RoundUp(SubSeq(d, 1, Len(d) - 1)) \o <<48>> ELSE [d EXCEPT ![Len(d)] = @ + 1]
DIG == 13
(* the value as sign, decimal digits (at most DIG significant ones) and exponent; integers are kept exactly *)
Value(s, i, int) ==
  LET p == NumParts(s, i)
      whole == SubSeq(s, p.a, p.b - 1)
      frac == IF p.dot THEN SubSeq(s, p.b + 1, p.c - 1) ELSE <<>>
      ex == IF p.hasE THEN Dec(SubSeq(s, p.d, p.e - 1), 0) * (IF p.eneg THEN -1 ELSE 1) ELSE 0
      all == whole \o frac
      lead == Strip0(all)
      pt == Len(whole) - (Len(all) - Len(lead)) + ex          \* 0.lead * 10^pt
      cut == ~int /\ Len(lead) > DIG
      r0 == IF ~cut THEN lead ELSE IF lead[DIG + 1] >= 53 THEN RoundUp(SubSeq(lead, 1, DIG)) ELSE SubSeq(lead, 1, DIG)
      pt2 == IF cut /\ Len(r0) > DIG THEN pt + 1 ELSE pt
      dig == StripEnd0(r0)
  IN IF lead = <<>> THEN [v |-> <<1020, 0, 0>>, big |-> FALSE]
     ELSE [v |-> <<1020, IF p.neg THEN 1 ELSE 0, 2000 + pt2>> \o dig,
           big |-> (int /\ Len(lead) > 18) \/ pt > 290 \/ pt < -290]

(* ----------------------------------------------------------------- parsers *)
Fail(t) == [ok |-> FALSE, v |-> <<>>, i |-> t.at, lvl |-> IF t.t = "err" /\ t.c = 1 THEN 2 ELSE 0, at |-> t.at, lex |-> t.t = "err"]
Good(v, i, lvl) == [ok |-> TRUE, v |-> v, i |-> i, lvl |-> lvl, at |-> 0, lex |-> FALSE]
Lvl(r, l) == [r EXCEPT !.lvl = Larger(@, l)]

Use == <<117, 115, 101>>
Include == <<105, 110, 99, 108, 117, 100, 101>>
Module == <<109, 111, 100, 117, 108, 101>>
Function == <<102, 117, 110, 99, 116, 105, 111, 110>>
Keyword(v) == v \in {Use, Include, Module, Function}

(* escapes of bytes that are not printable are undecided *)
OddEscape(v) == \E k \in 1..Len(v) - 1 : v[k] = 92 /\ v[k + 1] \notin 32..126

RECURSIVE ValueP(_, _), Elems(_, _, _, _), ArgsP(_, _, _, _, _), ItemP(_, _), ItemsP(_, _, _, _, _), ModsP(_, _, _, _)
(* elements of an array, behind the first one: v are those so far *)
Elems(s, i, v, lvl) ==
  LET t == Tok(s, i) IN
  IF Sym(t, 93) THEN Good(<<1021>> \o v \o <<1022>>, t.to, lvl)
  ELSE IF ~Sym(t, 44) THEN Fail(t)
  ELSE LET u == Tok(s, t.to) IN
       IF Sym(u, 93) THEN Good(<<1021>> \o v \o <<1022>>, u.to, Larger(lvl, 1))
       ELSE LET x == ValueP(s, t.to) IN IF ~x.ok THEN Lvl(x, lvl) ELSE Elems(s, x.i, v \o x.v, Larger(lvl, x.lvl))
ValueP(s, i) ==
  LET t == Tok(s, i) IN
  CASE t.t = "id" -> Good(<<1023>> \o t.v, t.to, 0)
    [] t.t = "str" -> Good(<<1024>> \o t.v, t.to, IF OddEscape(t.v) THEN 2 ELSE 0)
    [] t.t \in {"int", "flt"} -> (LET x == Value(s, t.at, t.t = "int") IN Good(x.v, t.to, IF x.big THEN 2 ELSE 0))
    [] Sym(t, 91) ->
       (LET u == Tok(s, t.to) IN
        IF Sym(u, 93) THEN Good(<<1021, 1022>>, u.to, 0)
        ELSE LET a == ValueP(s, t.to) IN
             IF ~a.ok THEN a
             ELSE LET c == Tok(s, a.i) IN
                  IF ~Sym(c, 58) THEN Elems(s, a.i, a.v, a.lvl)
                  ELSE LET b == ValueP(s, c.to) IN
                       IF ~b.ok THEN Lvl(b, a.lvl)
                       ELSE LET e == Tok(s, b.i) IN
                            IF Sym(e, 93) THEN Good(<<1025>> \o a.v \o b.v \o <<1026>>, e.to, Larger(a.lvl, b.lvl))
                            ELSE IF ~Sym(e, 58) THEN Fail(e)
                            ELSE LET d == ValueP(s, e.to) IN
                                 IF ~d.ok THEN Lvl(d, Larger(a.lvl, b.lvl))
                                 ELSE LET g == Tok(s, d.i) IN
                                      IF Sym(g, 93) THEN Good(<<1025>> \o a.v \o b.v \o d.v \o <<1026>>, g.to, Larger(d.lvl, Larger(a.lvl, b.lvl))) ELSE Fail(g))
    [] OTHER -> Fail(t)
ArgP(s, i) ==
  LET t == Tok(s, i) u == Tok(s, t.to) IN
  IF t.t = "id" /\ Sym(u, 61)
  THEN (LET x == ValueP(s, u.to) IN IF x.ok THEN Good(<<1027>> \o t.v \o <<1028>> \o x.v, x.i, x.lvl) ELSE x)
  ELSE LET x == ValueP(s, i) IN IF x.ok THEN Good(<<1028>> \o x.v, x.i, x.lvl) ELSE x
(* behind "(" or behind a comma *)
ArgsP(s, i, v, lvl, first) ==
  LET t == Tok(s, i) IN
  IF Sym(t, 41) THEN Good(v, t.to, IF first THEN lvl ELSE Larger(lvl, 1))
  ELSE LET x == ArgP(s, i) IN
       IF ~x.ok THEN Lvl(x, lvl)
       ELSE LET u == Tok(s, x.i) l == Larger(lvl, x.lvl) IN
            IF Sym(u, 41) THEN Good(v \o x.v, u.to, l)
            ELSE IF Sym(u, 44) THEN ArgsP(s, u.to, v \o x.v, l, FALSE)
            ELSE Lvl(Fail(u), l)
Mods == {42, 33, 35, 37}
Flag(m, c) == IF c \in m THEN <<c>> ELSE <<>>
(* modifiers: <<set, count>> in v, the next position *)
ModsP(s, i, m, k) == LET t == Tok(s, i) IN IF t.t = "sym" /\ t.c \in Mods THEN ModsP(s, t.to, m \cup {t.c}, k + 1) ELSE [m |-> m, k |-> k, i |-> i]
(* a list of items up to "}" (brace) or the end of the file (top) *)
ItemsP(s, i, v, lvl, top) ==
  LET t == Tok(s, i) IN
  IF (top /\ t.t = "eof") \/ (~top /\ Sym(t, 125)) THEN Good(v, t.to, lvl)
  ELSE IF Sym(t, 59) THEN ItemsP(s, t.to, v, Larger(lvl, 1), top)
  ELSE IF top /\ t.t = "id" /\ t.v = Use /\ Sym(Tok(s, t.to), 60)
       THEN (LET a == Tok(s, t.to) e == SkipPath(s, a.to) IN
             IF e = 0 THEN [Fail(a) EXCEPT !.lex = TRUE, !.lvl = lvl]
             ELSE ItemsP(s, e, v \o <<1030>> \o SubSeq(s, a.to, e - 2), IF HasNul(SubSeq(s, a.to, e - 2)) THEN 2 ELSE lvl, top))
  ELSE LET x == ItemP(s, i) IN IF ~x.ok THEN Lvl(x, lvl) ELSE ItemsP(s, x.i, v \o x.v, Larger(lvl, x.lvl), top)
ItemP(s, i) ==
  LET b == Tok(s, i) IN
  IF Sym(b, 123) THEN (LET x == ItemsP(s, b.to, <<>>, 0, FALSE) IN IF x.ok THEN Good(<<1031>> \o x.v \o <<1032>>, x.i, x.lvl) ELSE x)
  ELSE
  LET m == ModsP(s, i, {}, 0)
      f == Tok(s, m.i)
      p == Tok(s, f.to)
      l == IF f.t = "id" /\ Keyword(f.v) THEN 2 ELSE IF m.k > 1 THEN 1 ELSE 0 IN
  IF f.t # "id" THEN Lvl(Fail(f), l)
  ELSE IF ~Sym(p, 40) THEN Lvl(Fail(p), l)
  ELSE LET a == ArgsP(s, p.to, <<>>, 0, TRUE) IN
       IF ~a.ok THEN Lvl(a, l)
       ELSE LET head == <<1033>> \o Flag(m.m, 42) \o Flag(m.m, 33) \o Flag(m.m, 35) \o Flag(m.m, 37) \o <<1034>> \o f.v \o a.v \o <<1035>>
                t == Tok(s, a.i) la == Larger(l, a.lvl) IN
            IF Sym(t, 59) THEN Good(head \o <<1036>>, t.to, la)
            ELSE IF Sym(t, 123) THEN (LET x == ItemsP(s, t.to, <<>>, 0, FALSE) IN IF x.ok THEN Good(head \o x.v \o <<1036>>, x.i, Larger(la, x.lvl)) ELSE Lvl(x, la))
            ELSE LET x == ItemP(s, a.i) IN IF x.ok THEN Good(head \o x.v \o <<1036>>, x.i, Larger(la, x.lvl)) ELSE Lvl(x, la)
File(s) == ItemsP(s, 1, <<>>, 0, TRUE)

(* the number of the line a position is in *)
RECURSIVE LinesTo(_, _, _)
LinesTo(s, i, k) == IF i <= 1 \/ i > Len(s) + 1 THEN k ELSE LinesTo(s, i - 1, IF s[i - 1] = 10 THEN k + 1 ELSE k)
LineOf(s, i) == LinesTo(s, i, 1)
=============================================================================
