-------------------------------- MODULE Seqs --------------------------------
(***************************************************************************)
(* Vectors, strings, bit vectors and rings of the base library as finite   *)
(* sequences.  Positions in calls are zero-based, as in the library.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS VMAX, LEN, RAND, HIST, SIZE, KINDS
VARIABLES kind,     \* "vec", "str", "bit", "ring"
          v,        \* two vectors / two strings / a bit vector
          rg,       \* the rings: a partition of the nodes into cyclic sequences
          n, h
vars == <<kind, v, rg, n, h>>

Pick(S) == IF S = {} THEN {} ELSE IF RAND THEN {RandomElement(S)} ELSE S
Zero(k) == [i \in 1..k |-> 0]
Log(o, a, r, x) == IF HIST THEN h' = Append(h, [o |-> o, a |-> a, r |-> {r}, x |-> x]) ELSE h' = h
NilI == -1
Vals == 0..VMAX
RndSeq(k) == IF RAND THEN {[i \in 1..k |-> RandomElement(Vals)]} ELSE [1..k -> Vals]

(* ------------------------------------------------------------ the vector *)
Fit(s) == Len(s) <= SIZE
Put(s, p, e) == SubSeq(s, 1, p) \o e \o SubSeq(s, p + 1, Len(s))            \* insert e at p
Del(s, p, k) == SubSeq(s, 1, p) \o SubSeq(s, p + k + 1, Len(s))
Over(s, p, e) ==   \* overwrite from p, growing if necessary
  [i \in 1..(IF p + Len(e) > Len(s) THEN p + Len(e) ELSE Len(s)) |->
     IF i > p /\ i <= p + Len(e) THEN e[i - p] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
Resize(s, k) == IF k <= Len(s) THEN SubSeq(s, 1, k) ELSE s \o Zero(k - Len(s))
Rev(s, p, k) == [i \in 1..Len(s) |-> IF i > p /\ i <= p + k THEN s[2 * p + k + 1 - i] ELSE s[i]]
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Srt(s, p, k) == SubSeq(s, 1, p) \o Sorted(SubSeq(s, p + 1, p + k)) \o SubSeq(s, p + k + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b

Do(o, a, r, s1, s2) == v' = <<s1, s2>> /\ Fit(s1) /\ Fit(s2) /\ Log(o, a, r, <<s1, s2>>)
RngOf(s) == IF RAND THEN {<<p, RandomElement(0..(Len(s) - p))>> : p \in {RandomElement(0..Len(s))}}
            ELSE {<<p, k>> \in (0..Len(s)) \X (0..Len(s)) : p + k <= Len(s)}
(* where a count may exceed what there is; -1: the largest number *)
Big(s) == IF RAND THEN {<<RandomElement(0..Len(s)), RandomElement(-1..(Len(s) + 2))>>}
          ELSE (0..Len(s)) \X (-1..(Len(s) + 2))
Eff(s, q) == IF q[2] < 0 \/ q[1] + q[2] > Len(s) THEN Len(s) - q[1] ELSE q[2]
Part(s, p, k) == SubSeq(s, p + 1, p + k)
VecDo(o) ==
  LET A == v[1] B == v[2] IN
  CASE o = "push" -> \E x \in Pick(Vals) : Do(o, <<x>>, 0, Append(A, x), B)
    [] o = "push0" -> Do(o, <<0>>, 0, Append(A, 0), B)
    [] o = "pop" -> A # <<>> /\ Do(o, <<0>>, A[Len(A)], SubSeq(A, 1, Len(A) - 1), B)
    [] o = "insert1" -> \E x \in Pick(Vals), p \in Pick(0..Len(A)) : Do(o, <<p, x>>, 0, Put(A, p, <<x>>), B)
    [] o = "insertarr" -> \E k \in Pick(0..4), p \in Pick(0..Len(A)) : \E e \in RndSeq(k) : Do(o, <<p>> \o e, 0, Put(A, p, e), B)
    [] o = "insertvec" -> \E p \in Pick(0..Len(A)) : Do(o, <<p>>, 0, Put(A, p, B), B)
    (* a part of the vector inserted into the vector itself *)
    [] o = "insertself" -> A # <<>> /\ \E p \in Pick(0..Len(A)), q \in Pick(RngOf(A)) :
                             Do(o, <<p>> \o q, 0, Put(A, p, Part(A, q[1], q[2])), B)
    [] o = "inflate" -> \E p \in Pick(0..Len(A)), k \in Pick(0..4) : Do(o, <<p, k>>, 0, Put(A, p, Zero(k)), B)
    [] o = "remove" -> \E q \in Pick(Big(A)) : Do(o, q, 0, Del(A, q[1], Eff(A, q)), B)
    [] o = "extract" -> A # <<>> /\ \E p \in Pick(0..(Len(A) - 1)) : Do(o, <<p>>, A[p + 1], Del(A, p, 1), B)
    [] o = "reverse" -> \E q \in Pick(Big(A)) : Do(o, q, 0, Rev(A, q[1], Eff(A, q)), B)
    [] o = "qsort" -> \E q \in Pick(Big(A)) : Do(o, q, 0, Srt(A, q[1], Eff(A, q)), B)
    [] o = "setsize" -> \E k \in Pick(0..SIZE) : Do(o, <<k>>, 0, Resize(A, k), B)
    [] o = "ensuresize" -> \E k \in Pick(0..SIZE) : Do(o, <<k>>, 0, IF k > Len(A) THEN Resize(A, k) ELSE A, B)
    [] o = "shrink" -> \E k \in Pick(0..SIZE) : Do(o, <<k>>, 0, A, B)
    [] o = "copy" -> \E q \in Pick(Big(B)), p \in Pick(0..Len(A)) : Do(o, <<p>> \o q, 0, Over(A, p, Part(B, q[1], Eff(B, q))), B)
    [] o = "copyself" -> A # <<>> /\ \E q \in Pick(Big(A)), p \in Pick(0..Len(A)) : Do(o, <<p>> \o q, 0, Over(A, p, Part(A, q[1], Eff(A, q))), B)
    [] o = "copyarr" -> \E q \in Pick(RngOf(B)), p \in Pick(0..Len(A)) : p + q[2] <= Len(A) /\ Do(o, <<p>> \o q, 0, Over(A, p, Part(B, q[1], q[2])), B)
    [] o = "copy1" -> \E x \in Pick(Vals), p \in Pick(0..Len(A)) : Do(o, <<p, x>>, 0, Over(A, p, <<x>>), B)
    [] o = "append" -> Do(o, <<0>>, 0, A \o B, B)
    [] o = "appendself" -> Do(o, <<0>>, 0, A \o A, B)
    [] o = "clear" -> \E k \in Pick(0..SIZE) : Do(o, <<k>>, 0, <<>>, B)
    [] o = "init0" -> \E k \in Pick(0..4) : Do(o, <<k>>, 0, Zero(k), B)
    [] o = "initwith" -> \E k \in Pick(1..4) : \E e \in RndSeq(k) : Do(o, e, 0, e, B)
    [] o = "exchange" -> Do(o, <<0>>, 0, B, A)
    [] o = "bsearch" -> \E x \in Pick(0..(VMAX + 1)) :      \* in the sorted vector: -1, or the place of an equal one
          LET S == Sorted(A) hit == {i - 1 : i \in {j \in 1..Len(S) : S[j] = x}} IN
          /\ v' = <<S, B>> /\ (IF HIST THEN h' = Append(h, [o |-> o, a |-> <<x>>, r |-> IF hit = {} THEN {-1} ELSE hit, x |-> <<S, B>>]) ELSE h' = h)
    [] o = "nth" -> A # <<>> /\ \E i \in Pick(0..(Len(A) - 1)) : Do(o, <<i>>, A[i + 1], A, B)
    [] o = "lastbut" -> A # <<>> /\ \E i \in Pick(0..(Len(A) - 1)) : Do(o, <<i>>, A[Len(A) - i], A, B)
VecOps == <<"push", "push", "push", "push0", "pop", "insert1", "insert1", "insertarr", "insertvec", "insertself", "insertself", "inflate", "remove", "extract",
  "reverse", "qsort", "setsize", "ensuresize", "shrink", "copy", "copyself", "copyarr", "copy1", "append", "appendself",
  "clear", "init0", "initwith", "exchange", "exchange", "bsearch", "nth", "lastbut">>
VecOp == kind = "vec" /\ UNCHANGED <<kind, rg>>
         /\ \E o \in (IF RAND THEN {VecOps[RandomElement(1..Len(VecOps))]} ELSE {VecOps[i] : i \in 1..Len(VecOps)}) :
              (VecDo(o) \/ (RAND /\ ~ENABLED VecDo(o) /\ UNCHANGED <<v, h>>))

(* ------------------------------------------------------------ the string *)
Chars == {97, 98, 99, 37, 32, 10, 255}
Str(k) == IF RAND THEN {[i \in 1..k |-> RandomElement(Chars)]} ELSE [1..k -> {97, 98}]
StrOp ==
  /\ kind = "str" /\ UNCHANGED <<kind, rg>>
  /\ LET A == v[1] B == v[2]
         Sd(o, a, r, s1, s2) == v' = <<s1, s2>> /\ Len(s1) <= 8 * SIZE /\ Len(s2) <= 8 * SIZE /\ Log(o, a, r, <<s1, s2>>)
     IN
     \/ \E c \in Pick(Chars) : Sd("cpush", <<c>>, 0, Append(A, c), B)
     \/ A # <<>> /\ Sd("cpop", <<0>>, A[Len(A)], SubSeq(A, 1, Len(A) - 1), B)
     \/ \E k \in Pick(0..9) : \E e \in Str(k) : Sd("cstr", e, 0, A \o e, B)
     \/ \E k \in Pick(0..9) : \E e \in Str(k) : Sd("carr", e, 0, A \o e, B)
     \/ Sd("cappend", <<0>>, 0, A \o B, B)
     \/ \E k \in Pick(0..40), i \in Pick(0..9) : \E e \in Str(k) : Sd("cprintf", <<i>> \o e, 0, A \o e \o <<45, 48 + i>>, B)
     \/ Sd("cclear", <<0>>, 0, <<>>, B)
     \/ Sd("cswap", <<0>>, 0, B, A)
     \/ Sd("cfini", <<0>>, 0, <<>>, B)
     \/ \E k \in Pick(0..40), i \in Pick(0..9) : \E e \in Str(k) : Sd("cstream", <<i>> \o e, 0, A \o e \o <<45, 48 + i>>, B)
     \/ \E k \in Pick(0..9) : \E e \in Str(k) : Sd("cwrite", e, 0, A \o e, B)
     \/ Sd("cself", <<0>>, 0, A, B)

(* ------------------------------------------------------- the bit vector *)
BitOp ==
  /\ kind = "bit" /\ UNCHANGED <<kind, rg>>
  /\ LET A == v[1] IN
     \/ \E i \in Pick(0..(8 * SIZE - 1)), b \in Pick({0, 1}) :
          LET s == [A EXCEPT ![i + 1] = b] IN v' = <<s, v[2]>> /\ Log("bset", <<i, b>>, 0, <<s, <<>>>>)
     \/ \E i \in Pick(0..(8 * SIZE - 1)) : v' = v /\ Log("bget", <<i>>, A[i + 1], <<A, <<>>>>)

(* ------------------------------------------------------------- the rings *)
(* rg: node -> next node (a permutation).  chain(p, q): p is followed by q;
   what followed p follows what preceded q *)
Nodes == 1..SIZE
PrevOf(q) == CHOOSE p \in Nodes : rg[p] = q
RECURSIVE Walk(_, _, _)
Walk(f, i, to) == IF i = to THEN <<>> ELSE <<i>> \o Walk(f, f[i], to)
Ring(f, i) == Walk(f, f[i], i)
Rings(f) == [i \in Nodes |-> Ring(f, i)]
RingOp ==
  /\ kind = "ring" /\ UNCHANGED <<kind, v>>
  /\ \/ \E p \in Pick(Nodes), q \in Pick(Nodes) :
          LET f == [rg EXCEPT ![p] = q, ![PrevOf(q)] = rg[p]]
              g == IF PrevOf(q) = p THEN rg ELSE f
          IN rg' = g /\ Log("lchain", <<p, q>>, 0, Rings(g))
     \/ \E q \in Pick(Nodes) :
          LET f == IF rg[q] = q THEN rg ELSE [rg EXCEPT ![PrevOf(q)] = rg[q], ![q] = q]
          IN rg' = f /\ Log("lremove", <<q>>, 0, Rings(f))
     \/ \E q \in Pick(Nodes) : rg' = rg /\ Log("lmember", <<q>>, IF rg[q] # q THEN 1 ELSE 0, Rings(rg))

Init == /\ kind \in KINDS /\ v = <<IF kind = "bit" THEN Zero(8 * SIZE) ELSE <<>>, <<>>>> /\ rg = [i \in Nodes |-> i] /\ n = 0 /\ h = <<>>
Step == n < LEN /\ n' = n + 1 /\ (VecOp \/ StrOp \/ BitOp \/ RingOp)
Spec == Init /\ [][Step]_vars
Emit == (n = LEN /\ HIST) => PrintT(ToJson([k |-> kind, h |-> h]))
Perm == {rg[i] : i \in Nodes} = Nodes
=============================================================================
