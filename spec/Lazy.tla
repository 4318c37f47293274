-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* Batched ("lazy") evaluation of boolean formulas over solids.            *)
(*                                                                         *)
(* Part 1 (this state machine): formulas over K variables are built on a   *)
(* stack.  Every entry carries                                             *)
(*   src   the formula as a program of the dialect,                        *)
(*   tab   its truth table, computed pointwise (the specification),        *)
(*   lz    the implementation's view: a batch of at most MAXSIM atoms with *)
(*         a bitmap over the atoms' membership combinations, combined by   *)
(*         spread/repeat; when the limit would be exceeded the batches are *)
(*         first collapsed into a single new atom.                         *)
(* Invariant BatchOk: whatever the limit and whatever the grouping, the    *)
(* batch denotes the truth table.                                          *)
(*                                                                         *)
(* Variable i is realised by a striped solid, such that every cell of a    *)
(* 2^(K/2) x 2^(K/2) board lies in a different combination of the solids:  *)
(* slicing the program shows its complete truth table.                     *)
(***************************************************************************)
EXTENDS Shapes, Json, Bitwise

CONSTANTS K, NLO, NHI, MAXSIMS, EMIT, LAZY
VARIABLES stk, n, ph, lim
vars == <<stk, n, ph, lim>>

H == K \div 2
Cells == 0..(2^K - 1)
Bit(c, i) == (c \div (2^i)) % 2

(* ------------------------------------------------------ striped solids *)
Stripes(i) ==      \* rectangles, in the x direction for i < H, else in y
  LET w == 2^(i % H)
      m == 2^(H - 1 - (i % H))
      hi == 2^H
      a(j) == (2 * j + 1) * w
      rect(j) == IF i < H THEN << <<a(j),0>>, <<a(j)+w,0>>, <<a(j)+w,hi>>, <<a(j),hi>> >>
                 ELSE << <<0,a(j)>>, <<hi,a(j)>>, <<hi,a(j)+w>>, <<0,a(j)+w>> >>
  IN [m |-> m, pts |-> [k \in 1..(4 * m) |-> rect((k - 1) \div 4)[((k - 1) % 4) + 1]],
      paths |-> [j \in 1..m |-> [k \in 1..4 |-> 4 * (j - 1) + k - 1]]]
Solid(i) == LET s == Stripes(i) IN Ext(<<Pgn(s.pts, s.paths)>>, 2, TRUE)

(* ---------------------------------------------------------- truth tables *)
TabVar(i) == [c \in Cells |-> Bit(c, i)]
OpB(op, a, b) == CASE op = "uni" -> IF a + b > 0 THEN 1 ELSE 0
                   [] op = "int" -> a * b
                   [] op = "dif" -> a * (1 - b)
TabOp(op, s, t) == [c \in Cells |-> OpB(op, s[c], t[c])]
RECURSIVE TabFold(_, _, _, _)
TabFold(op, es, i, acc) == IF i > Len(es) THEN acc ELSE TabFold(op, es, i + 1, TLCEval(TabOp(op, acc, es[i].tab)))

(* --------------------------------------------------------------- batches *)
(* a batch: atoms (each a truth table over the cells) and a bitmap over the
   2^size membership combinations; bit j of the index is atom j *)
LzVar(t) == [at |-> <<t>>, bm |-> <<0, 1>>]
LzTab(l) ==      \* what the batch denotes
  LET idx(c) == LET f[j \in 0..Len(l.at)] == IF j = 0 THEN 0 ELSE f[j - 1] + l.at[j][c] * 2^(j - 1)
                IN f[Len(l.at)]
  IN [c \in Cells |-> l.bm[idx(c) + 1]]
Collapse(l) == IF Len(l.at) <= 1 THEN l ELSE LzVar(TLCEval(LzTab(l)))
LzJoin(op, l, r) ==
  LET a == Len(l.at) b == Len(r.at)
      \* left bitmap repeated 2^b times, right bitmap spread by 2^a
      bm == [q \in 1..(2^(a + b)) |-> OpB(op, l.bm[((q - 1) % (2^a)) + 1], r.bm[((q - 1) \div (2^a)) + 1])]
  IN [at |-> l.at \o r.at, bm |-> TLCEval(bm)]
LzOp(op, l, r, max) ==
  IF Len(l.at) + Len(r.at) <= max THEN LzJoin(op, l, r)
  ELSE IF Len(l.at) >= Len(r.at)
       THEN LET l1 == Collapse(l) IN
            IF Len(l1.at) + Len(r.at) <= max THEN LzJoin(op, l1, r) ELSE LzJoin(op, l1, Collapse(r))
       ELSE LET r1 == Collapse(r) IN
            IF Len(l.at) + Len(r1.at) <= max THEN LzJoin(op, l, r1) ELSE LzJoin(op, Collapse(l), r1)
RECURSIVE LzFold(_, _, _, _, _)
LzFold(op, es, i, acc, max) == IF i > Len(es) THEN acc ELSE LzFold(op, es, i + 1, LzOp(op, acc, es[i].lz, max), max)

(* --------------------------------------------------------------- actions *)
MkOp(op, c) == CASE op = "uni" -> Uni(c) [] op = "int" -> Isc(c) [] op = "dif" -> Dif(c)
Push == /\ ph = "run" /\ n > 0 /\ n' = n - 1
        /\ \E i \in Pick(0..(K - 1)) :
             stk' = Append(stk, [src |-> Solid(i), tab |-> TLCEval(TabVar(i)),
                                 lz |-> IF LAZY THEN LzVar(TLCEval(TabVar(i))) ELSE <<>>])
        /\ UNCHANGED <<ph, lim>>
Reduce(op, m) ==
  LET es == SubSeq(stk, Len(stk) - m + 1, Len(stk))
  IN stk' = Append(SubSeq(stk, 1, Len(stk) - m),
        [src |-> MkOp(op, [i \in 1..m |-> es[i].src]),
         tab |-> TabFold(op, es, 2, es[1].tab),
         lz |-> IF LAZY THEN LzFold(op, es, 2, es[1].lz, lim) ELSE <<>>])
Comb == /\ ph = "run" /\ Len(stk) > 1
        /\ \E oo \in Pick(IF RAND THEN {"uni", "uni2", "int", "dif"} ELSE {"uni", "int", "dif"}), m \in Pick(2..Min2(5, Len(stk))) : Reduce(IF oo = "uni2" THEN "uni" ELSE oo, m)
        /\ UNCHANGED <<n, ph, lim>>
Finish == /\ ph = "run" /\ n = 0 /\ Len(stk) = 1 /\ ph' = "done" /\ UNCHANGED <<stk, n, lim>>
Init == stk = <<>> /\ n = 0 /\ ph = "new" /\ lim = 0
Begin == ph = "new" /\ ph' = "run" /\ n' \in Pick(NLO..NHI) /\ lim' \in Pick(MAXSIMS) /\ UNCHANGED stk
Next == Begin \/ Push \/ Comb \/ Finish
Spec == Init /\ [][Next]_vars

BatchOk == LAZY => \A i \in 1..Len(stk) : LzTab(stk[i].lz) = stk[i].tab /\ Len(stk[i].lz.at) <= lim
(* the geometric semantics agrees with the truth table *)
Pt(c) == <<14 * (c % (2^H)) + 4, 14 * (c \div (2^H)) + 6, 0, 14>>
GeoOk == ph = "done" => \A c \in {k \in Cells : k % 37 = 5 \/ 2^K < 64} :
            InProg(<<stk[1].src>>, Pt(c)) = stk[1].tab[c]
Emit == (ph = "done" /\ EMIT) =>
   PrintT(ToJson([prog |-> SrcProg(<<stk[1].src>>), k |-> K, tab |-> [c \in 1..(2^K) |-> stk[1].tab[c - 1]]]))
=============================================================================
