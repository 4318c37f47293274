-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrarily large integers and rationals for specifications (TLC itself *)
(* computes with 32 bits only).  A natural number is a little-endian       *)
(* sequence of digits of base B without trailing zeros; an integer is a    *)
(* pair <<sign, natural>> with sign in {-1, 0, 1}; a rational is a pair of *)
(* integers whose second one is positive (not reduced).                    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

B == 10000

RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE NOf(_)
NOf(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o NOf(i \div B)        \* i >= 0
Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

(* the carry after the sums d[1..] have been brought into range *)
RECURSIVE NCarry(_, _, _)
NCarry(d, i, c) ==
  IF i > Len(d) THEN (IF c = 0 THEN <<>> ELSE NOf(c))
  ELSE LET x == d[i] + c IN <<x % B>> \o NCarry(d, i + 1, x \div B)   \* floors also for x < 0
NMaxL(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
NAdd(a, b) == NCarry([i \in 1..NMaxL(a, b) |-> Dig(a, i) + Dig(b, i)], 1, 0)
NSub(a, b) == Trim(NCarry([i \in 1..Len(a) |-> Dig(a, i) - Dig(b, i)], 1, 0))      \* a >= b
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))
NMulD(a, d) == Trim(NCarry([i \in 1..Len(a) |-> a[i] * d], 1, 0))                  \* 0 <= d <= B
RECURSIVE NMul(_, _)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE LET u == TLCEval(NMul(a, Tail(b)))
                       lo == TLCEval(NMulD(a, b[1]))
                   IN Trim(NAdd(lo, IF u = <<>> THEN <<>> ELSE <<0>> \o u))
(* the largest digit q with q * b <= r, between lo and hi *)
RECURSIVE NQ(_, _, _, _)
NQ(r, b, lo, hi) == IF lo = hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2
                         IN IF NCmp(NMulD(b, m), r) <= 0 THEN NQ(r, b, m, hi) ELSE NQ(r, b, lo, m - 1)
RECURSIVE NDivAt(_, _, _, _, _)
NDivAt(a, b, i, q, r) ==       \* digits of a from i downwards remain
  IF i = 0 THEN <<Trim(q), r>>
  ELSE LET r1 == TLCEval(Trim(<<a[i]>> \o r))
           d  == TLCEval(IF NCmp(r1, b) < 0 THEN 0 ELSE NQ(r1, b, 1, B - 1))
           r2 == TLCEval(IF d = 0 THEN r1 ELSE NSub(r1, NMulD(b, d)))
       IN NDivAt(a, b, i - 1, <<d>> \o q, r2)
NDivMod(a, b) == NDivAt(a, b, Len(a), <<>>, <<>>)                                  \* b > 0

(* ---------------------------------------------------------------- integers *)
Z(i) == IF i = 0 THEN <<0, <<>>>> ELSE IF i > 0 THEN <<1, NOf(i)>> ELSE <<-1, NOf(-i)>>
ZN(s, n) == IF n = <<>> THEN <<0, <<>>>> ELSE <<s, n>>
ZNeg(a) == <<-a[1], a[2]>>
ZAbs(a) == ZN(1, a[2])
ZAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN <<a[1], NAdd(a[2], b[2])>>
              ELSE LET c == NCmp(a[2], b[2])
                   IN IF c = 0 THEN Z(0) ELSE IF c > 0 THEN ZN(a[1], NSub(a[2], b[2])) ELSE ZN(b[1], NSub(b[2], a[2]))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == ZN(a[1] * b[1], NMul(a[2], b[2]))
ZCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN 0 ELSE a[1] * NCmp(a[2], b[2])
ZLe(a, b) == ZCmp(a, b) <= 0
ZLt(a, b) == ZCmp(a, b) < 0
ZEq(a, b) == a = b
(* division rounding down: <<quotient, remainder>> with 0 <= remainder < b; b > 0 *)
ZDivMod(a, b) ==
  LET dm == TLCEval(NDivMod(a[2], b[2])) IN
  IF a[1] >= 0 THEN <<ZN(1, dm[1]), ZN(1, dm[2])>>
  ELSE IF dm[2] = <<>> THEN <<ZN(-1, dm[1]), Z(0)>>
  ELSE <<ZSub(ZN(-1, dm[1]), Z(1)), ZSub(b, ZN(1, dm[2]))>>
RECURSIVE ZPow(_, _)
ZPow(b, k) == IF k = 0 THEN Z(1)
              ELSE IF k % 2 = 1 THEN LET u == TLCEval(ZPow(b, k - 1)) IN ZMul(u, Z(b))
              ELSE LET u == TLCEval(ZPow(b, k \div 2)) IN ZMul(u, u)
ZMin(a, b) == IF ZLe(a, b) THEN a ELSE b
ZMax(a, b) == IF ZLe(a, b) THEN b ELSE a

(* --------------------------------------------------------------- rationals *)
Q(n, d) == <<n, d>>                         \* d > 0
QZ(i) == <<Z(i), Z(1)>>
QAdd(a, b) == IF a[2] = b[2] THEN <<ZAdd(a[1], b[1]), a[2]>>
              ELSE <<ZAdd(ZMul(a[1], b[2]), ZMul(b[1], a[2])), ZMul(a[2], b[2])>>
QNeg(a) == <<ZNeg(a[1]), a[2]>>
QAbs(a) == <<ZAbs(a[1]), a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == <<ZMul(a[1], b[1]), ZMul(a[2], b[2])>>
QDiv(a, b) == IF b[1][1] > 0 THEN <<ZMul(a[1], b[2]), ZMul(a[2], b[1])>>
              ELSE <<ZNeg(ZMul(a[1], b[2])), ZMul(a[2], ZAbs(b[1]))>>
QCmp(a, b) == ZCmp(ZMul(a[1], b[2]), ZMul(b[1], a[2]))
QLe(a, b) == QCmp(a, b) <= 0
QLt(a, b) == QCmp(a, b) < 0
QPow2(k) == IF k >= 0 THEN <<ZPow(2, k), Z(1)>> ELSE <<Z(1), ZPow(2, -k)>>
QPow10(k) == IF k >= 0 THEN <<ZPow(10, k), Z(1)>> ELSE <<Z(1), ZPow(10, -k)>>
QFloor(a) == ZDivMod(a[1], a[2])[1]
QHalf == <<Z(1), Z(2)>>
=============================================================================
