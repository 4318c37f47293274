-------------------------------- MODULE Dict --------------------------------
(***************************************************************************)
(* The ordered dictionary as two sorted sequences of <<id, key>>.          *)
(*                                                                         *)
(* One action per public operation of dict.h.  The history variable h      *)
(* records each call with the results the specification permits; the       *)
(* driver replays the calls into the library (harness/cont.c) and compares *)
(* the result, both sequences, the sums of the keys (augmented data) and   *)
(* the height bound after every call.                                      *)
(*                                                                         *)
(* Keys of tree 1 never exceed those of tree 2, so joining is always       *)
(* permitted.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS KMAX,    \* largest key
          LEN,     \* length of a history
          RAND,    \* TRUE: draw one operation per step, FALSE: all of them
          HIST,    \* record the history
          OPS,     \* the operations to use
          NODES    \* at most so many nodes
VARIABLES t,       \* <<tree 1, tree 2>>
          nn,      \* ids 1..nn are in use or free
          free,    \* ids of removed nodes
          mode, n, h
vars == <<t, nn, free, mode, n, h>>

Pick(S) == IF S = {} THEN {} ELSE IF RAND THEN {RandomElement(S)} ELSE S

Ids(s) == [i \in 1..Len(s) |-> s[i][1]]
IdSet(s) == {s[i][1] : i \in 1..Len(s)}
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i][2] + Sum(s, i + 1)
Less(s, k) == Cardinality({i \in 1..Len(s) : s[i][2] < k})
Leq(s, k) == Cardinality({i \in 1..Len(s) : s[i][2] <= k})
EqIds(s, k) == {s[i][1] : i \in {j \in 1..Len(s) : s[j][2] = k}}
InsAt(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
Without(s, x) == SelectSeq(s, LAMBDA e : e[1] # x)
KeysFor(i) == IF i = 1 THEN 0 .. (IF t[2] = <<>> THEN KMAX ELSE t[2][1][2])
              ELSE (IF t[1] = <<>> THEN 0 ELSE t[1][Len(t[1])][2]) .. KMAX
Set(i, s) == [t EXCEPT ![i] = s]
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
(* a red-black tree of s nodes (a red root is permitted) *)
Bound(s) == IF s = 0 THEN 0 ELSE 2 * Log2(s + 1) + 1

New == IF free # {} THEN Pick(free) ELSE {nn + 1}
Room == Cardinality(IdSet(t[1])) + Cardinality(IdSet(t[2])) < NODES

(* r: set of permitted results *)
Log(o, a, r, tt) ==
  IF HIST THEN h' = Append(h, [o |-> o, a |-> a, r |-> r, t |-> <<Ids(tt[1]), Ids(tt[2])>>,
                               s |-> <<Sum(tt[1], 1), Sum(tt[2], 1)>>, b |-> <<Bound(Len(tt[1])), Bound(Len(tt[2]))>>])
  ELSE h' = h
Use(x) == /\ nn' = (IF x > nn THEN x ELSE nn) /\ free' = free \ {x}
Keep == UNCHANGED <<nn, free>>

(* insert by key; d = 0: no duplicates, -1/+1: in front of/behind the equal ones;
   v: 0 plain, 1 by key, 2 with minimum and maximum *)
Ins == Room /\ \E i \in Pick({1, 2}), d \in Pick({-1, 0, 1}), v \in Pick(0..2), x \in New : \E k \in Pick(KeysFor(i)) :
  LET s == t[i] dup == d = 0 /\ EqIds(s, k) # {}
      s1 == IF dup THEN s ELSE InsAt(s, IF d < 0 THEN Less(s, k) ELSE Leq(s, k), <<x, k>>)
  IN /\ t' = Set(i, s1)
     /\ IF dup THEN nn' = (IF x > nn THEN x ELSE nn) /\ free' = free \cup {x} ELSE Use(x)
     /\ Log("ins", <<i, x, k, d, v>>, IF dup THEN EqIds(s, k) ELSE {0}, Set(i, s1))
(* insert next to a node, with the same key *)
InsPos == Room /\ \E i \in Pick({j \in {1, 2} : t[j] # <<>>}), d \in Pick({0, 1}), v \in Pick({0, 1}), x \in New :
  \E p \in Pick(1..Len(t[i])) :
  LET s1 == InsAt(t[i], p - 1 + d, <<x, t[i][p][2]>>) IN
  /\ t' = Set(i, s1) /\ Use(x) /\ Log("iat", <<i, x, t[i][p][2], t[i][p][1], d, v>>, {0}, Set(i, s1))
(* insert at an end: c = 1 the new minimum, c = 0 the new maximum *)
InsEnd == Room /\ \E i \in Pick({1, 2}), c \in Pick({0, 1}), x \in New :
  LET s == t[i]
      ks == IF s = <<>> THEN KeysFor(i) ELSE IF c = 1 THEN {k \in KeysFor(i) : k <= s[1][2]} ELSE {k \in KeysFor(i) : k >= s[Len(s)][2]}
  IN \E k \in Pick(ks) :
     LET s1 == IF c = 1 THEN <<<<x, k>>>> \o s ELSE Append(s, <<x, k>>) IN
     /\ t' = Set(i, s1) /\ Use(x) /\ Log("iend", <<i, x, k, c>>, {0}, Set(i, s1))
(* find a reference, then insert there *)
InsRef == Room /\ \E i \in Pick({1, 2}), d \in Pick({-2, -1, 1, 2}), x \in New : \E k \in Pick(KeysFor(i)) :
  LET s == t[i]
      s1 == InsAt(s, IF d < 0 THEN Less(s, k) ELSE Leq(s, k), <<x, k>>)
      r == IF d \in {-1, 1} THEN {-1}     \* not specified clearly: any result
           ELSE IF EqIds(s, k) = {} THEN {0} ELSE {s[IF d < 0 THEN Less(s, k) + 1 ELSE Leq(s, k)][1]}
  IN /\ t' = Set(i, s1) /\ Use(x) /\ Log("iref", <<i, x, k, d>>, r, Set(i, s1))
Rem == \E i \in Pick({j \in {1, 2} : t[j] # <<>>}) : \E p \in Pick(1..Len(t[i])) :
  LET x == t[i][p][1] s1 == Without(t[i], x) IN
  /\ t' = Set(i, s1) /\ free' = free \cup {x} /\ nn' = nn /\ Log("rem", <<i, x>>, {0}, Set(i, s1))
(* extract the minimum (e = 0) or maximum (e = 1); v = 1: with a cached extremum *)
Ext == \E i \in Pick({1, 2}), e \in Pick({0, 1}), v \in Pick({0, 1}) :
  LET s == t[i]
      x == IF s = <<>> THEN 0 ELSE IF e = 0 THEN s[1][1] ELSE s[Len(s)][1]
      s1 == Without(s, x)
  IN /\ t' = Set(i, s1) /\ free' = (IF x = 0 THEN free ELSE free \cup {x}) /\ nn' = nn
     /\ Log("ext", <<i, e, v>>, {x}, Set(i, s1))
Find == \E i \in Pick({1, 2}), d \in Pick({-2, 0, 2}) : \E k \in Pick(0..KMAX) :
  LET s == t[i]
      r == IF EqIds(s, k) = {} THEN {0} ELSE IF d = 0 THEN EqIds(s, k)
           ELSE {s[IF d < 0 THEN Less(s, k) + 1 ELSE Leq(s, k)][1]}
  IN t' = t /\ Keep /\ Log("find", <<i, k, d>>, r, t)
(* exchange the places of two nodes; the driver exchanges the keys as well *)
Swap == \E x \in Pick(IdSet(t[1]) \cup IdSet(t[2])) : \E y \in Pick((IdSet(t[1]) \cup IdSet(t[2])) \ {x}) :
  LET sw(s) == [i \in 1..Len(s) |-> <<IF s[i][1] = x THEN y ELSE IF s[i][1] = y THEN x ELSE s[i][1], s[i][2]>>]
      tt == <<sw(t[1]), sw(t[2])>>
  IN t' = tt /\ Keep /\ Log("swap", <<x, y>>, {0}, tt)
(* replace a node by a fresh one *)
Subst == \E x \in Pick(IdSet(t[1]) \cup IdSet(t[2])) : \E y \in New :
  LET sw(s) == [i \in 1..Len(s) |-> <<IF s[i][1] = x THEN y ELSE s[i][1], s[i][2]>>]
      tt == <<sw(t[1]), sw(t[2])>>
  IN t' = tt /\ nn' = (IF y > nn THEN y ELSE nn) /\ free' = (free \ {y}) \cup {x} /\ Log("subst", <<x, y>>, {0}, tt)
(* split tree i; the equal ones go right if b = 1 *)
Split == \E i \in {j \in {1, 2} : t[j] # <<>> /\ t[3 - j] = <<>>}, b \in Pick({0, 1}) : \E k \in Pick(0..KMAX) :
  LET s == t[i] c == IF b = 1 THEN Less(s, k) ELSE Leq(s, k)
      tt == <<SubSeq(s, 1, c), SubSeq(s, c + 1, Len(s))>>
  IN t' = tt /\ Keep /\ Log("split", <<i, k, b>>, {0}, tt)
Join2 == LET tt == <<t[1] \o t[2], <<>>>> IN t' = tt /\ Keep /\ Log("join2", <<1>>, {0}, tt)
Join3 == Room /\ \E x \in New : \E k \in Pick(KeysFor(1) \cap KeysFor(2)) :
  LET tt == <<Append(t[1], <<x, k>>) \o t[2], <<>>>> IN t' = tt /\ Use(x) /\ Log("join3", <<x, k>>, {0}, tt)
(* the ends, the neighbours and the tree of a node *)
Look == \E i \in Pick({j \in {1, 2} : t[j] # <<>>}) : \E p \in Pick(1..Len(t[i])) :
  LET s == t[i] IN
  /\ t' = t /\ Keep
  /\ Log("look", <<i, s[p][1]>>, {<<IF p < Len(s) THEN s[p + 1][1] ELSE 0, IF p > 1 THEN s[p - 1][1] ELSE 0, s[1][1], s[Len(s)][1]>>}, t)

Op(o) ==
  CASE o = "ins" -> Ins [] o = "iat" -> InsPos [] o = "iend" -> InsEnd [] o = "iref" -> InsRef
    [] o = "rem" -> Rem [] o = "ext" -> Ext [] o = "find" -> Find [] o = "swap" -> Swap [] o = "subst" -> Subst
    [] o = "split" -> Split [] o = "join2" -> Join2 [] o = "join3" -> Join3 [] o = "look" -> Look
Wt == [ grow   |-> <<"ins", "ins", "ins", "iend", "iend", "iref", "iat", "join3", "rem", "find">>,
        mix    |-> <<"ins", "ins", "iat", "iend", "iref", "rem", "rem", "ext", "find", "swap", "subst", "split", "split", "join2", "join3", "look">>,
        shrink |-> <<"rem", "rem", "rem", "ext", "ext", "subst", "ins", "split", "join2", "find">>,
        cut    |-> <<"split", "join2", "split", "join3", "ins", "rem">> ]
Choice == IF RAND THEN LET w == SelectSeq(Wt[mode], LAMBDA o : o \in OPS) IN {w[RandomElement(1..Len(w))]} ELSE OPS

Init == /\ t = <<<<>>, <<>>>> /\ nn = 0 /\ free = {} /\ n = 0 /\ h = <<>>
        /\ mode \in (IF RAND THEN {"grow", "mix", "cut"} ELSE {"mix"})
Busy == n < LEN /\ n' = n + 1
        /\ mode' \in (IF RAND /\ RandomElement(1..12) = 1 THEN {RandomElement({"grow", "mix", "shrink", "cut"})} ELSE {mode})
Step == Busy /\ \E o \in Choice : (Op(o) \/ (RAND /\ ~ENABLED Op(o) /\ UNCHANGED <<t, nn, free, h>>))
Emit == (n = LEN /\ HIST) => PrintT(ToJson([h |-> h]))
Next == Step
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- design *)
Sorted == \A i \in {1, 2} : \A p \in 1..(Len(t[i]) - 1) : t[i][p][2] <= t[i][p + 1][2]
Apart == t[1] = <<>> \/ t[2] = <<>> \/ t[1][Len(t[1])][2] <= t[2][1][2]
Conserved == /\ IdSet(t[1]) \cap IdSet(t[2]) = {} /\ (IdSet(t[1]) \cup IdSet(t[2])) \cap free = {}
             /\ Cardinality(IdSet(t[1])) = Len(t[1]) /\ Cardinality(IdSet(t[2])) = Len(t[2])
             /\ IdSet(t[1]) \cup IdSet(t[2]) \cup free = 1..nn
=============================================================================
