------------------------------ MODULE JsTrace ------------------------------
(***************************************************************************)
(* Judges recorded scenes by JsScene.  A record: b: the batches the tool   *)
(* wrote (as evaluated by a JavaScript engine), t: the triangles of the    *)
(* text STL file of the same run, in the scene's integer unit              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS FILE, SHARDS
Trace == ndJsonDeserialize(FILE)
N == Len(Trace)
VARIABLES sh, pos, verdict, out, cur, done
vars == <<sh, pos, verdict, out, cur, done>>
J == INSTANCE JsScene WITH CAP <- 65535, POINTS <- 1, MAXT <- 0, SHIFT <- {0}

(* triangles up to the choice of the first corner *)
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Turn(t) == IF ~Lt(t[2], t[1]) /\ ~Lt(t[3], t[1]) THEN t
           ELSE IF ~Lt(t[1], t[2]) /\ ~Lt(t[3], t[2]) THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Count(s, t) == Cardinality({k \in 1..Len(s) : s[k] = t})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \/ a = b
                    \/ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
Verdict(r) ==
  LET bad == {i \in 1..Len(r.b) : J!WellFormed(r.b[i], 65535) # ""} IN
  IF bad # {} THEN J!WellFormed(r.b[CHOOSE i \in bad : TRUE], 65535)
  ELSE LET js == TLCEval(LET a == J!All(r.b, 1) IN [k \in 1..Len(a) |-> Turn(a[k])])
           st == TLCEval([k \in 1..Len(r.t) |-> Turn(r.t[k])])
       IN IF SameBag(js, st) THEN "" ELSE "the triangles of the scene are not those of the STL file"

Init == /\ sh \in 1..SHARDS /\ pos = sh /\ out = <<>> /\ cur = <<>> /\ done = <<>>
        /\ verdict = IF pos <= N THEN Verdict(Trace[pos]) ELSE ""
Next == /\ pos + SHARDS <= N
        /\ pos' = pos + SHARDS /\ sh' = sh
        /\ verdict' = Verdict(Trace[pos'])
        /\ UNCHANGED <<out, cur, done>>
Spec == Init /\ [][Next]_vars
Report == verdict # "" => PrintT(ToJson([at |-> pos, what |-> verdict]))
=============================================================================
