------------------------------- MODULE SynGen -------------------------------
(***************************************************************************)
(* Builds SCAD files by the rules of the grammar, statement by statement,  *)
(* in all spellings, then damages some of them byte by byte.  Invariant:   *)
(* what was built by the rules is recognised (and at most by an extension  *)
(* if one was used); Syntax and this generator check each other.           *)
(***************************************************************************)
EXTENDS Syntax, Json, FiniteSets

CONSTANTS ITEMS,    \* statements at most
          FUEL,     \* depth of values
          EDITS     \* damages at most
VARIABLES txt, open, need, todo, edits, phase, ext
vars == <<txt, open, need, todo, edits, phase, ext>>

R(S) == RandomElement(S)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
Many(k, F(_)) == Cat([j \in 1..k |-> F(j)])

Starts == (65..90) \cup (97..122) \cup {36, 95}
Conts == (65..90) \cup (97..122) \cup (48..57) \cup {95}
Names == {<<99, 117, 98, 101>>, <<117, 110, 105, 111, 110>>, <<36, 102, 110>>, <<117, 115, 101, 102, 117, 108>>, <<117, 115>>, <<105, 110, 99, 108, 117, 100, 101, 95>>, <<101>>, <<69, 53>>,
          <<36>>, <<95>>, <<36, 36>>, <<109, 111, 100, 117, 108, 101, 115>>, <<116, 114, 117, 101>>, <<117, 110, 100, 101, 102>>, <<80, 73>>} \ {<<36, 36>>}
NameOf(k) == IF k <= 2 THEN R(Names) ELSE <<R(Starts)>> \o Many(R(0..k), LAMBDA j : <<R(Conts)>>)
Any8 == (1..255)
NoEol == Any8 \ {10}
ComChar == Any8 \ {42, 47}
Sep1(k) ==
  CASE k = 1 -> <<32>> [] k = 2 -> <<10>> [] k = 3 -> <<9>> [] k = 4 -> <<13, 10>>
    [] k = 5 -> <<47, 47>> \o Many(R(0..4), LAMBDA j : <<R(NoEol)>>) \o <<10>>
    [] k = 6 -> <<47, 42>> \o Many(R(0..4), LAMBDA j : <<R(ComChar)>>) \o <<42, 47>>
    [] k = 7 -> <<47, 42, 47, 42, 47>>
    [] k = 8 -> <<47, 42, 42, 42, 47>>
    [] k = 9 -> <<47, 42, 10, 34, 10, 42, 47>>
    [] k = 10 -> <<47, 47, 47, 42, 10>>
    [] k = 11 -> <<47, 42, 32, 47, 42, 42, 32, 47, 47, 42, 47>>
    [] OTHER -> <<47, 47, 0, 34, 92, 10>>
Sep(z) == IF R(1..5) < 4 THEN <<>> ELSE Many(R(1..2), LAMBDA j : Sep1(R(1..12)))

Digits(lo, hi) == Many(R(lo..hi), LAMBDA j : <<R(48..57)>>)
Sign(z) == R({<<>>, <<>>, <<43>>, <<45>>})
Num(k) ==
  CASE k = 1 -> Sign(0) \o Digits(1, 3)
    [] k = 2 -> Sign(0) \o Digits(1, 16)
    [] k = 3 -> Sign(0) \o Digits(1, 5) \o <<46>> \o Digits(0, 6)
    [] k = 4 -> Sign(0) \o <<46>> \o Digits(1, 6)
    [] k = 5 -> Sign(0) \o Digits(1, 4) \o <<46>> \o Digits(0, 4) \o <<R({101, 69})>> \o Sign(0) \o Digits(1, 2)
    [] k = 6 -> Sign(0) \o Digits(1, 4) \o <<R({101, 69})>> \o Sign(0) \o Digits(1, 2)
    [] k = 7 -> Sign(0) \o <<46>> \o Digits(1, 3) \o <<R({101, 69})>> \o Sign(0) \o Digits(1, 2)
    [] k = 8 -> R({<<43>>, <<45>>, <<46>>, <<45, 46>>, <<48, 48, 49>>, <<49, 101>>, <<49, 46, 69, 45>>, <<43, 46, 101, 49>>})
    [] OTHER -> Digits(1, 2)
StrChar(k) == CASE k = 1 -> <<92, R({34, 92, 110, 116, 39, 120, 42, 47, 32})>> [] k = 2 -> <<R({10, 9, 47, 42, 60, 62, 39, 123, 125, 59})>> [] k = 3 -> <<R(128..255)>>
                [] OTHER -> <<R((32..126) \ {34, 92})>>
Str(z) == <<34>> \o Many(R(0..5), LAMBDA j : StrChar(R(1..6))) \o <<34>>

RECURSIVE Val(_), ValList(_, _)
ValList(k, f) == IF k = 0 THEN <<>> ELSE Sep(0) \o Val(f) \o Sep(0) \o (IF k = 1 THEN <<>> ELSE <<44>> \o ValList(k - 1, f))
Val(f) ==
  \* drawn once: a CASE would draw again in every guard
  LET pick == R(1..(IF f = 0 THEN 8 ELSE 12)) IN
  IF pick <= 3 THEN Num(R(1..9)) ELSE IF pick <= 5 THEN NameOf(R(1..5)) ELSE IF pick <= 6 THEN Str(0) ELSE IF pick <= 8 THEN Num(R(1..20))
  ELSE IF pick <= 10 THEN <<91>> \o ValList(R(0..3), f - 1) \o Sep(0) \o <<93>>
  ELSE IF pick = 11 THEN <<91>> \o Sep(0) \o Val(f - 1) \o Sep(0) \o <<58>> \o Sep(0) \o Val(f - 1) \o Sep(0) \o <<93>>
  ELSE <<91>> \o Sep(0) \o Val(f - 1) \o Sep(0) \o <<58>> \o Sep(0) \o Val(f - 1) \o Sep(0) \o <<58>> \o Sep(0) \o Val(f - 1) \o Sep(0) \o <<93>>
Arg1(z) == IF R(1..2) = 1 THEN Val(FUEL) ELSE NameOf(R(1..6)) \o Sep(0) \o <<61>> \o Sep(0) \o Val(FUEL)
RECURSIVE ArgList(_)
ArgList(k) == IF k = 0 THEN Sep(0) ELSE Sep(0) \o Arg1(0) \o Sep(0) \o (IF k = 1 THEN <<>> ELSE <<44>> \o ArgList(k - 1))
Func(z) == (IF R(1..4) = 1 THEN <<R(Mods)>> \o Sep(0) ELSE <<>>) \o NameOf(R(1..6)) \o Sep(0) \o <<40>> \o ArgList(R(0..3)) \o <<41>>

Init == /\ txt = <<>> /\ open = 0 /\ need = FALSE /\ todo \in 1..ITEMS /\ edits \in 0..EDITS /\ phase = "build" /\ ext = FALSE
Add(x) == txt' = txt \o Sep(0) \o x
Same == UNCHANGED <<edits, phase>>
(* one step of the derivation, chosen by a random number to keep one successor per state *)
Step(c) ==
  \/ /\ c <= 5 /\ Add(Func(0) \o Sep(0) \o <<59>>) /\ need' = FALSE /\ UNCHANGED <<open, ext>>
  \/ /\ c \in {6, 7} /\ Add(Func(0)) /\ need' = TRUE /\ UNCHANGED <<open, ext>>
  \/ /\ c \in {8, 9} /\ Add(Func(0) \o Sep(0) \o <<123>>) /\ need' = FALSE /\ open' = open + 1 /\ UNCHANGED ext
  \/ /\ c = 10 /\ Add(<<123>>) /\ need' = FALSE /\ open' = open + 1 /\ UNCHANGED ext
  \/ /\ c \in {11, 12} /\ (IF open > 0 /\ ~need THEN Add(<<125>>) /\ open' = open - 1 ELSE txt' = txt /\ open' = open) /\ UNCHANGED <<need, ext>>
  \/ /\ c = 13 /\ (IF open = 0 /\ ~need THEN Add(Use \o Sep(0) \o <<60>> \o Many(R(0..4), LAMBDA j : <<R(Any8 \ {62})>>) \o <<62>>) ELSE txt' = txt) /\ UNCHANGED <<need, ext, open>>
  \/ /\ c = 14 /\ (IF ~need THEN Add(<<59>>) /\ ext' = TRUE ELSE txt' = txt /\ ext' = ext) /\ UNCHANGED <<need, open>>
Build == /\ phase = "build" /\ todo > 0 /\ todo' = todo - 1 /\ Same
         /\ \E c \in {R(1..14)} : Step(c)
Finish == /\ phase = "build" /\ todo = 0
          /\ txt' = txt \o (IF need THEN Func(0) \o <<59>> ELSE <<>>) \o Many(open, LAMBDA j : Sep(0) \o <<125>>) \o Sep(0) \o (IF R(1..6) = 1 THEN <<47, 47, 104>> ELSE <<>>)
          /\ phase' = IF edits > 0 THEN "damage" ELSE "done"
          /\ open' = 0 /\ need' = FALSE /\ UNCHANGED <<todo, edits, ext>>
(* damages: bytes that matter to the grammar *)
Bytes == {0, 9, 10, 32, 33, 34, 36, 37, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 57, 58, 59, 60, 61, 62, 64, 65, 91, 92, 93, 95, 97, 101, 117, 123, 125, 126, 127, 128, 200, 255}
Del(s, i, k) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + k, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, i, Len(s))
Damaged(s, c, i, j) ==
  CASE c <= 3 -> Del(s, i, 1)
    [] c <= 6 -> Ins(s, i, <<R(Bytes)>>)
    [] c <= 8 -> [s EXCEPT ![i] = R(Bytes)]
    [] c = 9 -> Ins(Del(s, i, 1), j, <<s[i]>>)
    [] c = 10 -> SubSeq(s, 1, i)
    [] c = 11 -> Ins(s, j, SubSeq(s, i, IF i + 3 < Len(s) THEN i + 3 ELSE Len(s)))
    [] OTHER -> Del(s, i, R(1..6))
Damage == /\ phase = "damage"
          /\ \E c \in {R(1..12)}, i \in {R(1..(IF Len(txt) = 0 THEN 1 ELSE Len(txt)))}, j \in {R(1..(IF Len(txt) = 0 THEN 1 ELSE Len(txt)))} :
               txt' = IF Len(txt) < 2 THEN <<R(Bytes)>> \o txt ELSE Damaged(txt, c, i, IF j >= Len(txt) THEN Len(txt) - 1 ELSE j)
          /\ edits' = edits - 1 /\ phase' = IF edits = 1 THEN "done" ELSE "damage"
          /\ ext' = TRUE /\ UNCHANGED <<open, need, todo>>
Next == Build \/ Finish \/ Damage
Spec == Init /\ [][Next]_vars

Emit == phase = "done" => PrintT(ToJson([s |-> txt]))
(* the generator derives what the recogniser accepts *)
Agree == phase = "done" /\ edits = 0 /\ ~ext => LET p == File(txt) IN p.ok /\ p.lvl \in {0, 2}
=============================================================================
