------------------------------ MODULE SynEnum -------------------------------
(***************************************************************************)
(* All sequences of at most LEN tokens (of the set TOKS) in a context.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN, CTX
VARIABLES seq
Toks == {<<97>>, <<49>>, <<46, 53>>, <<34, 120, 34>>, <<91>>, <<93>>, <<40>>, <<41>>, <<44>>, <<58>>, <<61>>, <<59>>, <<123>>, <<125>>, <<42>>}
Pre == CASE CTX = 1 -> <<>> [] CTX = 2 -> <<102, 40>> [] CTX = 3 -> <<102, 40, 91>> [] CTX = 4 -> <<102, 40, 41>> [] CTX = 5 -> <<102, 40, 97, 61>> [] CTX = 6 -> <<102, 40, 41, 123>> [] CTX = 7 -> <<102, 40, 91, 49, 58>> [] OTHER -> <<97, 40, 41>>
Post == CASE CTX = 1 -> <<>> [] CTX \in {2, 5} -> <<41, 59>> [] CTX \in {3, 7} -> <<93, 41, 59>> [] CTX = 4 -> <<59>> [] CTX = 6 -> <<125>> [] OTHER -> <<>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o <<32>> \o Cat(Tail(s))
Init == seq = <<>>
Next == Len(seq) < LEN /\ \E t \in Toks : seq' = Append(seq, t)
Spec == Init /\ [][Next]_seq
Emit == PrintT(ToJson([s |-> Pre \o <<32>> \o Cat(seq) \o Post]))
=============================================================================
