-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The heaps of the base library as a partial map from elements to         *)
(* priorities.  Least: smallest priority, then smallest id.                *)
(* kind "ptr": cp_heap_t (elements know their index); kind "vec": the      *)
(* cp_v_heap_... macros over a vector of priorities (duplicates allowed).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS PMAX, LEN, RAND, HIST, NODES, KINDS
VARIABLES kind,
          w,      \* ptr: id -> priority, 0 = not a member
          bag,    \* vec: sorted sequence of priorities
          n, mode, h
vars == <<kind, w, bag, n, mode, h>>

Pick(S) == IF S = {} THEN {} ELSE IF RAND THEN {RandomElement(S)} ELSE S
In(f) == {i \in 1..NODES : f[i] # 0}
Least(f) == IF In(f) = {} THEN 0
            ELSE CHOOSE i \in In(f) : \A j \in In(f) : f[i] < f[j] \/ (f[i] = f[j] /\ i <= j)
Log(o, a, r, w1, b1) ==
  IF HIST THEN h' = Append(h, [o |-> o, a |-> a, r |-> {r}, m |-> IF kind = "ptr" THEN Least(w1) ELSE IF b1 = <<>> THEN 0 ELSE b1[1],
                               c |-> IF kind = "ptr" THEN Cardinality(In(w1)) ELSE Len(b1)])
  ELSE h' = h
Ptr == kind = "ptr" /\ UNCHANGED bag
Vec == kind = "vec" /\ UNCHANGED w
Prio == 1..PMAX

PIns == Ptr /\ \E i \in Pick((1..NODES) \ In(w)), p \in Pick(Prio) : w' = [w EXCEPT ![i] = p] /\ Log("hins", <<i, p>>, 0, w', bag)
PExt == Ptr /\ LET i == Least(w) IN w' = (IF i = 0 THEN w ELSE [w EXCEPT ![i] = 0]) /\ Log("hext", <<0>>, i, w', bag)
PRem == Ptr /\ \E i \in Pick(In(w)) : w' = [w EXCEPT ![i] = 0] /\ Log("hrem", <<i>>, i, w', bag)
PUpd == Ptr /\ \E i \in Pick(In(w)), p \in Pick(Prio) : w' = [w EXCEPT ![i] = p] /\ Log("hupd", <<i, p>>, 0, w', bag)
(* replace element i (0: none) by j (0: none) with priority p *)
PRep == Ptr /\ \E i \in Pick({0} \cup In(w)), p \in Pick(Prio) :
          \E j \in Pick((IF i = 0 THEN {} ELSE {0, i}) \cup ((1..NODES) \ In(w))) :
        LET w1 == IF i = 0 THEN w ELSE [w EXCEPT ![i] = 0]
            w2 == IF j = 0 THEN w1 ELSE [w1 EXCEPT ![j] = p]
        IN w' = w2 /\ Log("hrep", <<i, j, p>>, IF i = 0 \/ i = j THEN 0 ELSE i, w', bag)
(* fill an empty heap with several elements at once *)
PMake == Ptr /\ In(w) = {} /\ \E k \in Pick(0..NODES) : \E f \in Pick({1, 2, 3}) :
        LET q(i) == IF f = 1 THEN PMAX - (i % PMAX) ELSE IF f = 2 THEN 1 + (i % PMAX) ELSE 1 + ((i * 7) % PMAX)
            w1 == [i \in 1..NODES |-> IF i <= k THEN q(i) ELSE 0]
        IN w' = w1 /\ Log("hmake", [i \in 1..k |-> w1[i]], 0, w', bag)

RECURSIVE Put(_, _)
Put(b, p) == IF b = <<>> THEN <<p>> ELSE IF p < b[1] THEN <<p>> \o b ELSE <<b[1]>> \o Put(Tail(b), p)
Del(b, p) == LET i == CHOOSE i \in 1..Len(b) : b[i] = p IN SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
VIns == Vec /\ Len(bag) < NODES /\ \E p \in Pick(Prio) : bag' = Put(bag, p) /\ Log("vins", <<p>>, 0, w, bag')
VExt == Vec /\ bag # <<>> /\ bag' = Tail(bag) /\ Log("vext", <<0>>, bag[1], w, bag')
(* the driver changes the first entry with priority p *)
VUpd == Vec /\ bag # <<>> /\ \E i \in Pick(1..Len(bag)), p \in Pick(Prio) :
        bag' = Put(Del(bag, bag[i]), p) /\ Log("vupd", <<bag[i], p>>, 0, w, bag')
VMake == Vec /\ bag = <<>> /\ \E k \in Pick(0..NODES) : \E s \in Pick(IF RAND THEN {[i \in 1..k |-> RandomElement(Prio)]} ELSE [1..k -> Prio]) :
        bag' = SortSeq(s, LAMBDA a, b : a < b) /\ Log("vmake", s, 0, w, bag')

Init == /\ kind \in KINDS /\ w = [i \in 1..NODES |-> 0] /\ bag = <<>> /\ n = 0 /\ mode \in {"grow", "mix"} /\ h = <<>>
AnyOp == PIns \/ PExt \/ PRem \/ PUpd \/ PRep \/ PMake \/ VIns \/ VExt \/ VUpd \/ VMake
Op(o) == CASE o = "ins" -> PIns \/ VIns [] o = "ext" -> PExt \/ VExt [] o = "upd" -> PUpd \/ VUpd
           [] o = "rem" -> PRem \/ VUpd [] o = "rep" -> PRep \/ VUpd [] o = "make" -> PMake \/ VMake
Wt == [grow |-> <<"ins", "ins", "ins", "rep", "upd", "ext", "make">>, mix |-> <<"ins", "ext", "rem", "upd", "rep", "make">>,
       shrink |-> <<"ext", "rem", "ext", "rem", "ins">>]
Step == n < LEN /\ n' = n + 1 /\ kind' = kind
        /\ mode' \in (IF RAND /\ RandomElement(1..10) = 1 THEN {RandomElement(DOMAIN Wt)} ELSE {mode})
        /\ IF RAND THEN \E o \in {Wt[mode][RandomElement(1..Len(Wt[mode]))]} :
                          (Op(o) \/ (~ENABLED Op(o) /\ UNCHANGED <<w, bag, h>>))
           ELSE AnyOp
Spec == Init /\ [][Step]_vars
Emit == (n = LEN /\ HIST) => PrintT(ToJson([h |-> h]))
SortedBag == \A i \in 1..(Len(bag) - 1) : bag[i] <= bag[i + 1]
=============================================================================
