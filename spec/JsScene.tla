------------------------------ MODULE JsScene ------------------------------
(***************************************************************************)
(* The JavaScript scene of doc/jsformat.md: triangles are written in       *)
(* batches.  A batch has flat arrays of vertices, normals and colours and  *)
(* indices that are stored relative to the previous one.                   *)
(* What a reader makes of a batch is Triangles(b); what makes a batch      *)
(* acceptable is WellFormed(b, cap).                                       *)
(* The transitions are those of a writer that shares vertices or not; the  *)
(* model checker visits every sequence of triangles over a few points and  *)
(* every choice of the writer and confirms that reading gives back what    *)
(* was written.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* ------------------------------------------------------------ the reader *)
RECURSIVE Abs2(_, _, _, _, _)
Abs2(ix, i, last, shift, acc) ==
  IF i > Len(ix) THEN acc
  ELSE LET u == TLCEval((ix[i] + last) - shift) IN Abs2(ix, i + 1, u, shift, Append(acc, u))
Absolute(ix, shift) == Abs2(ix, 1, 0, shift, <<>>)
Third(a, k) == <<a[3 * k + 1], a[3 * k + 2], a[3 * k + 3]>>          \* entry k (from 0) of a flat array
WellFormed(b, cap) ==
  LET n == Len(b.v) \div 3 IN
  IF Len(b.v) % 3 # 0 THEN "the length of the vertex array is not a multiple of 3"
  ELSE IF n > cap THEN "more vertices than the format allows"
  ELSE IF Len(b.n) # Len(b.v) THEN "the arrays of vertices and normals differ in length"
  ELSE IF Len(b.c) # 4 * n THEN "the arrays of vertices and colours do not match"
  ELSE IF Len(b.i) % 3 # 0 THEN "the length of the index array is not a multiple of 3"
  ELSE IF \E k \in 1..Len(b.c) : b.c[k] < 0 \/ b.c[k] > b.sc THEN "a colour is out of range"
  ELSE LET a == TLCEval(Absolute(b.i, b.s)) IN
       IF \E k \in 1..Len(a) : a[k] < 0 \/ a[k] >= n THEN "an index is out of range" ELSE ""
Triangles(b) ==
  LET a == TLCEval(Absolute(b.i, b.s)) IN
  [t \in 1..(Len(a) \div 3) |-> <<Third(b.v, a[3 * t - 2]), Third(b.v, a[3 * t - 1]), Third(b.v, a[3 * t])>>]

(* ------------------------------------------------------------ the writer *)
CONSTANTS CAP,        \* vertices a batch can hold
          POINTS,     \* number of points a triangle is made of
          MAXT,       \* triangles written
          SHIFT       \* the values of shiftI
VARIABLES out,        \* finished batches
          cur,        \* the batch being filled
          done        \* triangles written so far
vars == <<out, cur, done>>
Pt(p) == <<p, 2 * p, -p>>
Empty(s) == [v |-> <<>>, n |-> <<>>, c |-> <<>>, i |-> <<>>, s |-> s, sc |-> 1]
LastOf(b) == LET a == Absolute(b.i, b.s) IN IF a = <<>> THEN 0 ELSE a[Len(a)]
Put(b, pos) == [b EXCEPT !.i = Append(@, (pos - LastOf(b)) + b.s)]
(* vertex p is added, or one that is there is used again *)
NV(b) == Len(b.v) \div 3
Have(b, p) == {k \in 0..(NV(b) - 1) : Third(b.v, k) = Pt(p)}
Fresh(b, p) == Put([b EXCEPT !.v = @ \o Pt(p), !.n = @ \o <<0, 0, 1>>, !.c = @ \o <<1, 1, 0, 1>>], NV(b))
Ways(b, p) == {Fresh(b, p)} \cup {Put(b, k) : k \in Have(b, p)}
AddTri(b, t) == UNION {UNION {Ways(b2, t[3]) : b2 \in Ways(b1, t[2])} : b1 \in Ways(b, t[1])}
Init == /\ out = <<>> /\ done = <<>> /\ \E s \in SHIFT : cur = Empty(s)
Write ==
  /\ Len(done) < MAXT
  /\ \E t \in (1..POINTS) \X (1..POINTS) \X (1..POINTS) :
       /\ done' = Append(done, <<Pt(t[1]), Pt(t[2]), Pt(t[3])>>)
       /\ \/ /\ \E b \in AddTri(cur, t) : NV(b) <= CAP /\ cur' = b
             /\ out' = out
          \/ /\ cur.i # <<>> /\ NV(cur) + 3 > CAP
             /\ out' = Append(out, cur)
             /\ cur' \in AddTri(Empty(cur.s), t)
Next == Write
Spec == Init /\ [][Next]_vars

RECURSIVE All(_, _)
All(bs, i) == IF i > Len(bs) THEN <<>> ELSE Triangles(bs[i]) \o All(bs, i + 1)
Batches == Append(out, cur)
ReadBack == /\ \A i \in 1..Len(Batches) : WellFormed(Batches[i], CAP) = ""
            /\ All(Batches, 1) = done
=============================================================================
