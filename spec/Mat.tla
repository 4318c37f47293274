------------------------------- MODULE Mat -------------------------------
(* The matrix library as a register machine over rational numbers.  Registers hold matrices of the library's
   ten types (plain, with translation, with inverse), vectors and boxes; an operation may use the same register as operand
   and as result.  A matrix is [d, e]: the integer matrix e divided by d > 0, reduced; a type with
   translation vector is the affine matrix of one more row; a type with inverse is its matrix alone,
   the inverse and the determinant are functions of it.  d = 0: the contents is not specified. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NOPS, MODE
VARIABLES fam, m, v, bx, hist, k
vars == <<fam, m, v, bx, hist, k>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Gcd(_, _), GcdSeq(_, _), SumF(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
GcdSeq(s, g) == IF s = <<>> \/ g = 1 THEN g ELSE GcdSeq(Tail(s), Gcd(g, Head(s)))
SumF(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumF(s, i - 1)
Sum(s) == SumF(s, Len(s))
Quo(a, b) == Sgn(a) * (Abs(a) \div b)
(* a rational number *)
Q(n, d) == LET g == Gcd(n, d) s == Sgn(d) IN <<s * Quo(n, g), s * Quo(d, g)>>
QAdd(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QMul(a, b) == Q(a[1] * b[1], a[2] * b[2])
(* a vector [d, e] *)
VNorm(d, e) == LET g == GcdSeq(e, d) IN [d |-> Quo(d, g), e |-> [i \in 1..Len(e) |-> Quo(e[i], g)]]
VFits(x) == x.d > 0 /\ x.d <= 12 /\ \A i \in 1..Len(x.e) : Abs(x.e[i]) <= 120
(* a matrix [d, e] *)
Nil == [d |-> 0, e |-> <<>>]
RECURSIVE Flat(_)
Flat(e) == IF e = <<>> THEN <<>> ELSE Head(e) \o Flat(Tail(e))
Norm(d, e) == LET g == GcdSeq(Flat(e), d) IN [d |-> Quo(d, g), e |-> [i \in 1..Len(e) |-> [j \in 1..Len(e) |-> Quo(e[i][j], g)]]]
Unit(n) == [d |-> 1, e |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]]
Affine(M) == LET n == Len(M.e) IN \A j \in 1..n : M.e[n][j] = (IF j = n THEN M.d ELSE 0)
Fits(M) == /\ M.d > 0
           /\ LET L == IF Len(M.e) = 4 /\ ~Affine(M) THEN 40 ELSE 250 IN
              M.d <= L /\ \A i, j \in 1..Len(M.e) : Abs(M.e[i][j]) <= L
MMul(A, B) == LET n == Len(A.e) IN
  Norm(A.d * B.d, [i \in 1..n |-> [j \in 1..n |-> Sum([l \in 1..n |-> A.e[i][l] * B.e[l][j]])]])
Minor(e, r, c) == [i \in 1..(Len(e) - 1) |-> [j \in 1..(Len(e) - 1) |-> e[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE DetE(_)
DetE(e) == IF Len(e) = 1 THEN e[1][1]
           ELSE Sum([j \in 1..Len(e) |-> IF e[1][j] = 0 THEN 0 ELSE (IF (j % 2) = 1 THEN 1 ELSE -1) * e[1][j] * DetE(Minor(e, 1, j))])
Block(M) == LET n == Len(M.e) - 1 IN [i \in 1..n |-> [j \in 1..n |-> M.e[i][j]]]
DetM(M) == IF Affine(M) THEN LET b == Block(M) IN Q(DetE(b), M.d ^ Len(b)) ELSE Q(DetE(M.e), M.d ^ Len(M.e))
Inv0(d, e) == LET n == Len(e) det == DetE(e) IN
  Norm(Abs(det), [i \in 1..n |-> [j \in 1..n |-> Sgn(det) * d * (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetE(Minor(e, j, i))]])
Regular(M) == DetM(M)[1] # 0
(* Nil if it is out of bounds *)
MInv(M) ==
  IF ~Affine(M) \/ Len(M.e) = 2 THEN LET X == Inv0(M.d, M.e) IN IF Fits(X) THEN X ELSE Nil
  ELSE LET n == Len(M.e) - 1 B == Inv0(M.d, Block(M)) IN
       IF ~Fits([d |-> B.d, e |-> [i \in 1..n+1 |-> [j \in 1..n+1 |-> IF i <= n /\ j <= n THEN B.e[i][j] ELSE IF i = j THEN B.d ELSE 0]]]) THEN Nil
       ELSE LET X == Norm(B.d * M.d, [i \in 1..n+1 |-> [j \in 1..n+1 |->
              IF i <= n /\ j <= n THEN B.e[i][j] * M.d
              ELSE IF i <= n THEN -Sum([l \in 1..n |-> B.e[i][l] * M.e[l][n+1]])
              ELSE IF j = n + 1 THEN B.d * M.d ELSE 0]]) IN IF Fits(X) THEN X ELSE Nil
Transp(M) == [d |-> M.d, e |-> [i \in 1..Len(M.e) |-> [j \in 1..Len(M.e) |-> M.e[j][i]]]]

(* ---- the types ---- *)
WithW == {"mat2w", "mat2wi", "mat3w", "mat3wi"}
WithI == {"mat2i", "mat2wi", "mat3i", "mat3wi", "mat4i"}
Size(t) == CASE t \in {"mat2", "mat2i"} -> 2 [] t \in {"mat2w", "mat2wi", "mat3", "mat3i"} -> 3 [] OTHER -> 4
Dim(t) == IF t \in {"mat2", "mat2i", "mat2w", "mat2wi"} THEN 2 ELSE 3
(* the dimension of the vectors it is applied to *)
VDim(t) == IF t \in WithW THEN Dim(t) ELSE Size(t)
Ok(t, M) == /\ Fits(M)
            /\ t \in WithW => Affine(M)
            /\ t \in WithI => Regular(M) /\ MInv(M).d > 0
           /\ LET q == DetM(M) IN q[1] = 0 \/ (Abs(q[1]) > q[2] \div 4000 /\ Abs(q[1]) \div q[2] < 4000)
(* a determinant of exactly zero is recognised *)
Small(M) == \A i, j \in 1..Len(M.e) : Abs(M.e[i][j]) <= 10 * M.d
Fams == << <<"mat4i", "mat3wi", "mat2wi", "mat3i">>, <<"mat4", "mat3w", "mat2w", "mat3">>, <<"mat2", "mat2i">>, <<"mat3", "mat3i">>,
           <<"mat4", "mat4i">>, <<"mat2w", "mat2wi">>, <<"mat3w", "mat3wi">> >>
Convs == << <<"mat4", "mat3w">>, <<"mat3", "mat2w">>, <<"mat3w", "mat2w">>, <<"mat3w", "mat4">>, <<"mat2w", "mat3">>, <<"mat2w", "mat3w">>,
            <<"mat4i", "mat3wi">>, <<"mat3i", "mat2wi">>, <<"mat3wi", "mat2wi">>, <<"mat3wi", "mat4i">>, <<"mat2wi", "mat3i">>, <<"mat2wi", "mat3wi">>,
            <<"mat2", "mat2i">>, <<"mat3", "mat3i">>, <<"mat4", "mat4i">>, <<"mat2w", "mat2wi">>, <<"mat3w", "mat3wi">> >>
(* a matrix of Dim(t) rows, as one of type t *)
Pad(t, d, e) == LET n == Size(t) c == Len(e) IN
  Norm(d, [i \in 1..n |-> [j \in 1..n |-> IF i <= c /\ j <= c THEN e[i][j] ELSE IF i = j THEN d ELSE 0]])
PlainOf(t) == CASE t \in {"mat2i"} -> "mat2" [] t = "mat3i" -> "mat3" [] t = "mat4i" -> "mat4" [] t = "mat2wi" -> "mat2w" [] t = "mat3wi" -> "mat3w" [] OTHER -> t
UnitRowCol(M, i) == \A j \in 1..Len(M.e) : M.e[i][j] = (IF j = i THEN M.d ELSE 0) /\ M.e[j][i] = (IF j = i THEN M.d ELSE 0)
(* <<value, returned flag>> *)
Conv(s, t, M) ==
  LET p == PlainOf(s) q == PlainOf(t) IN
  IF p = q THEN <<IF Regular(M) THEN M ELSE Nil, IF Regular(M) THEN 1 ELSE 0>>
  ELSE IF <<p, q>> \in { <<"mat4", "mat3w">>, <<"mat3", "mat2w">> } THEN
    LET n == Len(M.e) a == Affine(M) IN
    <<IF a THEN M ELSE IF t \in WithI THEN Nil ELSE Norm(M.d, [i \in 1..n |-> [j \in 1..n |-> IF i < n THEN M.e[i][j] ELSE IF j = n THEN M.d ELSE 0]]),
      IF a THEN 1 ELSE 0>>
  ELSE IF <<p, q>> = <<"mat3w", "mat2w">> THEN
    LET a == UnitRowCol(M, 3) x == <<1, 2, 4>>
        X == Norm(M.d, [i \in 1..3 |-> [j \in 1..3 |-> M.e[x[i]][x[j]]]]) IN
    <<IF a \/ t \notin WithI THEN X ELSE Nil, IF a THEN 1 ELSE 0>>
  ELSE IF <<p, q>> = <<"mat2w", "mat3w">> THEN
    LET x == <<1, 2, 0, 3>> IN
    <<[d |-> M.d, e |-> [i \in 1..4 |-> [j \in 1..4 |-> IF i = 3 \/ j = 3 THEN (IF i = j THEN M.d ELSE 0) ELSE M.e[x[i]][x[j]]]]], -1>>
  ELSE <<M, -1>>   \* mat3w to mat4, mat2w to mat3

(* ---- values to choose from ---- *)
SC == << <<0, 1, 1>>, <<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<-4, -3, 5>>, <<5, 12, 13>> >>
U3 == << <<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>, <<-1, 0, 0, 1>>, <<0, -1, 0, 1>>, <<0, 0, -1, 1>>, <<1, 2, 2, 3>>, <<2, -1, 2, 3>>,
         <<-2, 2, 1, 3>>, <<2, 3, 6, 7>>, <<3, 0, 4, 5>>, <<0, -3, 4, 5>>, <<3, 4, 0, 5>> >>
U2 == << <<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>> >>
Factors == << <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-2, 1>>, <<3, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 2>>, <<1, 3>>, <<5, 4>> >>
Lambdas == << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<7, 1>> >>
RotE(u, sc) == LET U == u[4] S == sc[3] C == sc[2] s == sc[1]
                   A(i, j) == u[i] * u[j] * (S - C) IN
  [d |-> U * U * S,
   e |-> << <<A(1,1) + C * U * U, A(1,2) - u[3] * s * U, A(1,3) + u[2] * s * U>>,
            <<A(2,1) + u[3] * s * U, A(2,2) + C * U * U, A(2,3) - u[1] * s * U>>,
            <<A(3,1) - u[2] * s * U, A(3,2) + u[1] * s * U, A(3,3) + C * U * U>> >>]
MirE(u) == LET n == Len(u) - 1 U == u[n + 1] IN
  [d |-> U * U, e |-> [i \in 1..n |-> [j \in 1..n |-> (IF i = j THEN U * U ELSE 0) - 2 * u[i] * u[j]]]]
PlaneE(n, i, j, sc) == [d |-> sc[3], e |-> [a \in 1..n |-> [b \in 1..n |->
  IF a = b THEN (IF a \in {i, j} THEN sc[2] ELSE sc[3]) ELSE IF a = i /\ b = j THEN -sc[1] ELSE IF a = j /\ b = i THEN sc[1] ELSE 0]]]
Rats(u, n) == [i \in 1..n |-> <<u[i], u[n + 1]>>]

(* ---- the operations: a record of what to call, and the new contents of the result ---- *)
None == [ok |-> FALSE]
(* kind "m", "v", "b": a matrix, vector, box register is set; "n": no register; x: new contents; f: returned value; c: a constraint instead *)
Rec(op, t, r, a, b, n, x, f) == [ok |-> TRUE, kind |-> "m", op |-> op, t |-> t, s |-> t, r |-> r, a |-> a, b |-> b, n |-> n, x |-> x, f |-> f]
NoF == <<>>
Flag(x) == IF x < 0 THEN NoF ELSE << <<x, 1>> >>

MatOp(rs) ==
  LET Elt(i, s) == s[1 + (rs[i] % Len(s))]
      t == Elt(1, fam) n == Size(t) dm == Dim(t)
      r == 1 + (rs[2] % 2) a == 1 + (rs[3] % 2) b == 1 + (rs[4] % 2)
      w == (rs[5] % 40)
      A == m[t][a] B == m[t][b]
      Set(op, X, args) == IF Ok(t, X) THEN Rec(op, t, r, r, r, args, X, NoF) ELSE None
      fac(i) == Elt(i, Factors)
      Scale(x) == LET c == Len(x) D == x[1][2] * x[2][2] * (IF c = 3 THEN x[3][2] ELSE 1) IN
        Pad(t, D, [i \in 1..c |-> [j \in 1..c |-> IF i = j THEN x[i][1] * (D \div x[i][2]) ELSE 0]])
      sc == Elt(6, SC) u == IF dm = 2 THEN Elt(7, U2) ELSE Elt(7, U3) lam == Elt(8, Lambdas)
      uq == Rats(u, dm) sq == Rats(sc, 2)
      lu == [i \in 1..dm |-> QMul(uq[i], lam)]
      sgnd(i) == (rs[i] % 5) - 2
  IN CASE t = "mat3" /\ (rs[24] % 4) = 0 /\ (rs[23] % 2) = 0 ->
          (* a matrix with one entry per row and column, or with one more *)
          LET pm == Elt(22, << <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>> >>)
              xi == 1 + (rs[21] % 3) xj == 1 + (rs[20] % 3)
              E == [i \in 1..3 |-> [j \in 1..3 |-> IF pm[i] = j THEN Elt(16 + i, <<1, -1, 2, -3>>)
                                    ELSE IF i = xi /\ j = xj /\ (rs[25] % 4) # 0 THEN Elt(26, <<1, -1, 2>>) ELSE 0]] IN
          Set("set", Norm(1 + (rs[27] % 2), E), <<>>)
     [] t = "mat3" /\ (rs[24] % 4) = 0 /\ A.d # 0 /\ Regular(A) ->
          [Rec("is_rect_rot", t, r, a, a, <<>>, Nil, Flag(IF \A i \in 1..3 : Cardinality({j \in 1..3 : A.e[i][j] # 0}) = 1 THEN 1 ELSE 0)) EXCEPT !.kind = "n"]
     [] w = 0 -> Set("unit", Unit(n), <<>>)
     [] w \in 1..2 -> LET x == [i \in 1..dm |-> fac(8 + i)] IN Set(IF w = 1 THEN "scale" ELSE "scale_v", Scale(x), x)
     [] w = 3 -> LET x == fac(9) IN Set("scale1", Scale([i \in 1..dm |-> x]), <<x>>)
     [] w \in 4..6 /\ (t \in WithW \/ n = 4 \/ t \in {"mat3", "mat3i"}) ->
          LET c == IF n = 3 THEN 2 ELSE 3 x == [i \in 1..c |-> <<(rs[8 + i] % 9) - 4, 1 + (rs[11 + i] % 2)>>] D == 4 IN
          Set(IF w = 4 THEN "xlat_v" ELSE "xlat",
              Norm(D, [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN D ELSE IF j = n THEN x[i][1] * (D \div x[i][2]) ELSE 0]]), [i \in 1..c |-> Q(x[i][1], x[i][2])])
     [] w \in 7..8 -> LET c == IF t \in {"mat4", "mat4i"} THEN 4 ELSE dm i == 1 + (rs[9] % c) j == 1 + (rs[10] % c) IN
          IF i = j THEN None ELSE LET E == PlaneE(c, i, j, sc) IN Set("rot_ij", Pad(t, E.d, E.e), << <<i - 1, 1>>, <<j - 1, 1>> >> \o sq)
     [] w = 9 /\ dm = 2 -> LET E == PlaneE(2, 1, 2, sc) IN Set("rot", Pad(t, E.d, E.e), sq)
     [] w \in 9..10 /\ dm = 3 -> LET q == 1 + (rs[9] % 3) E == PlaneE(3, 1 + (q % 3), 1 + ((q + 1) % 3), sc) IN Set(<<"rot_x", "rot_y", "rot_z">>[q], Pad(t, E.d, E.e), sq)
     [] w = 11 /\ dm = 3 -> LET E == RotE(u, sc) IN Set("rot_unit", Pad(t, E.d, E.e), uq \o sq)
     [] w = 12 /\ dm = 3 -> LET E == RotE(u, sc) IN Set("rot_v", Pad(t, E.d, E.e), lu \o sq)
     [] w = 13 -> LET E == MirE(u) IN Set("mirror_unit", Pad(t, E.d, E.e), uq)
     [] w = 14 -> LET E == MirE(u) IN Set("mirror_v", Pad(t, E.d, E.e), lu)
     [] w = 15 /\ dm = 3 -> Rec("rot_unit_into_z", t, r, r, r, uq, Nil, NoF)
     [] w = 16 /\ dm = 3 -> Rec("rot_into_z", t, r, r, r, lu, Nil, Flag(1))
     [] w \in 17..21 -> IF A.d = 0 \/ B.d = 0 THEN None ELSE LET X == MMul(A, B) IN IF Ok(t, X) THEN Rec("mul", t, r, a, b, <<>>, X, NoF) ELSE None
     [] w \in 22..24 -> IF A.d = 0 THEN None ELSE
          IF t \in WithW THEN
            LET X == Norm(A.d, [i \in 1..n |-> [j \in 1..n |-> IF i < n /\ j < n THEN A.e[j][i] ELSE IF i = j THEN A.d ELSE 0]]) IN
            IF Ok(t, X) THEN Rec("trans", t, r, a, a, <<>>, X, Flag(IF \A i \in 1..n-1 : A.e[i][n] = 0 THEN 1 ELSE 0)) ELSE None
          ELSE LET X == Transp(A) IN IF Ok(t, X) THEN Rec("trans", t, r, a, a, <<>>, X, NoF) ELSE None
     [] w \in 25..28 -> IF A.d = 0 THEN None ELSE
          IF t \in WithI THEN LET X == MInv(A) IN IF Ok(t, X) THEN Rec("inv", t, r, a, a, <<>>, X, NoF) ELSE None
          ELSE IF ~Regular(A) THEN IF ~Small(A) THEN None ELSE Rec("inv", t, r, a, a, <<>>, [d |-> 1, e |-> [i \in 1..n |-> [j \in 1..n |-> IF t \in WithW /\ i = n /\ j = n THEN 1 ELSE 0]]], Flag(0))
          ELSE LET X == MInv(A) IN IF X.d > 0 /\ Ok(t, X) THEN Rec("inv", t, r, a, a, <<>>, X, <<DetM(A)>>) ELSE None
     [] w \in 29..30 -> IF A.d = 0 THEN None ELSE [Rec("det", t, r, a, a, <<>>, Nil, <<DetM(A)>>) EXCEPT !.kind = "n"]
     [] w \in 31..32 -> IF A.d = 0 \/ B.d = 0 THEN None ELSE
          LET c == IF t \in WithW THEN n - 1 ELSE n
              ord == Flat([i \in 1..c |-> [j \in 1..c |-> <<i, j>>]]) \o (IF t \in WithW THEN [i \in 1..c |-> <<i, n>>] ELSE <<>>)
              df(q) == A.e[q[1]][q[2]] * B.d - B.e[q[1]][q[2]] * A.d
              S == {i \in 1..Len(ord) : df(ord[i]) # 0}
              R == IF S = {} THEN 0 ELSE Sgn(df(ord[CHOOSE i \in S : \A j \in S : i <= j])) IN
          IF \E i \in S : Abs(df(ord[i])) * 8000 < A.d * B.d THEN None
          ELSE [Rec("lex_cmp", t, r, a, b, <<>>, Nil, << <<R, 1>> >>) EXCEPT !.kind = "n"]
     [] w \in 33..35 ->
          LET (* half of them: one of fewer dimensions, but for one entry *)
              fl == (rs[26] % 2) = 0 /\ n > 2 c == IF n = 4 /\ (rs[27] % 3) = 0 THEN 3 ELSE 2 fi == 1 + (rs[28] % n) fj == 1 + (rs[29] % n)
              hi == IF t \in WithW /\ c = 2 THEN n - 1 ELSE n
              one == IF (rs[25] % 3) = 0 THEN 0 ELSE 1
              E == [i \in 1..n |-> [j \in 1..n |-> IF t \in WithW /\ i = n THEN (IF j = n THEN 1 ELSE 0)
                                    ELSE IF fl /\ ~(i = fi /\ j = fj) /\ (i \in c+1..hi \/ j \in c+1..hi)
                                    THEN (IF i = j THEN one ELSE 0) ELSE sgnd(8 + 4 * (i - 1) + j)]] X == Norm(1 + (rs[25] % 2), E) IN
          IF t \in WithW THEN Set("set", Norm(1, E), <<>>) ELSE Set("set", X, <<>>)
     [] w = 36 /\ t = "mat3" -> IF A.d = 0 \/ ~Regular(A) THEN None ELSE
          [Rec("is_rect_rot", t, r, a, a, <<>>, Nil, Flag(IF \A i \in 1..3 : Cardinality({j \in 1..3 : A.e[i][j] # 0}) = 1 THEN 1 ELSE 0)) EXCEPT !.kind = "n"]
     [] OTHER ->
          LET cs == SelectSeq(Convs, LAMBDA c : c[1] \in {fam[i] : i \in 1..Len(fam)} /\ c[2] \in {fam[i] : i \in 1..Len(fam)}) c == Elt(9, cs) M == m[c[1]][a] IN
          IF M.d = 0 \/ (c[2] \in WithI /\ ~Regular(M) /\ ~Small(M)) THEN None ELSE LET z == Conv(c[1], c[2], M) IN
          IF z[1].d > 0 /\ ~Ok(c[2], z[1]) THEN None ELSE [Rec("conv", c[2], r, a, a, <<>>, z[1], Flag(z[2])) EXCEPT !.s = c[1]]

(* ---- vectors ---- *)
VSub(x, y) == VNorm(x.d * y.d, [i \in 1..Len(x.e) |-> x.e[i] * y.d - y.e[i] * x.d])
VAdd(x, y) == VNorm(x.d * y.d, [i \in 1..Len(x.e) |-> x.e[i] * y.d + y.e[i] * x.d])
VScal(x, q) == VNorm(x.d * q[2], [i \in 1..Len(x.e) |-> x.e[i] * q[1]])
Dot(x, y) == Q(Sum([i \in 1..Len(x.e) |-> x.e[i] * y.e[i]]), x.d * y.d)
Cross2(x, y) == Q(x.e[1] * y.e[2] - x.e[2] * y.e[1], x.d * y.d)
Cross3(x, y) == VNorm(x.d * y.d, [i \in 1..3 |-> LET j == 1 + (i % 3) l == 1 + ((i + 1) % 3) IN x.e[j] * y.e[l] - x.e[l] * y.e[j]])
Cmp(x, y, i) == Sgn(x.e[i] * y.d - y.e[i] * x.d)
Comp(x, i) == Q(x.e[i], x.d)
OfComps(q) == LET D == q[1][2] * q[2][2] * (IF Len(q) > 2 THEN q[3][2] ELSE 1) * (IF Len(q) > 3 THEN q[4][2] ELSE 1) IN
  VNorm(D, [i \in 1..Len(q) |-> q[i][1] * (D \div q[i][2])])
VecNames == <<"", "vec2", "vec3", "vec4">>
InLine(x, y, z) == LET p == VSub(y, x) q == VSub(z, y) IN \A i, j \in 1..Len(p.e) : p.e[i] * q.e[j] = p.e[j] * q.e[i]
VecOp(rs) ==
  LET Elt(i, s) == s[1 + (rs[i] % Len(s))]
      dm == 2 + (rs[1] % 3)
      r == 1 + (rs[2] % 3) a == 1 + (rs[3] % 3) b == 1 + (rs[4] % 3) o == 1 + (rs[8] % 3)
      A == v[dm][a] B == v[dm][b] O == v[dm][o]
      w == (rs[5] % 44)
      T == VecNames[dm]
      Set(op, X, args) == IF VFits(X) THEN [Rec(op, T, r, a, b, args, X, NoF) EXCEPT !.kind = "v"] ELSE None
      Ret(op, q) == [Rec(op, T, r, a, b, <<>>, Nil, << q >>) EXCEPT !.kind = "n"]
      With(rc) == IF rc.ok THEN [rc EXCEPT !.n = << <<o - 1, 1>> >>] ELSE None
      f == Elt(6, Factors)
  IN CASE w \in 0..4 -> Set("set", VNorm(1 + (rs[9] % 4), [i \in 1..dm |-> (rs[9 + i] % 17) - 8]), <<>>)
     [] w = 5 -> Set("add", VAdd(A, B), <<>>)
     [] w = 6 -> Set("sub", VSub(A, B), <<>>)
     [] w = 7 -> Set("neg", VScal(A, <<-1, 1>>), <<>>)
     [] w = 8 -> Set("mul", VScal(A, f), <<f>>)
     [] w = 9 -> LET z == (rs[7] % 4) = 0 IN Set("div", IF z THEN VNorm(1, [i \in 1..dm |-> 0]) ELSE VScal(A, Q(f[2], f[1])), <<IF z THEN <<0, 1>> ELSE f>>)
     [] w = 10 -> Set("mulc", OfComps([i \in 1..dm |-> QMul(Comp(A, i), Comp(B, i))]), <<>>)
     [] w = 11 -> IF \E i \in 1..dm : B.e[i] # 0 /\ (Abs(B.e[i]) > 6 \/ Abs(A.e[i]) > 40) THEN None
                  ELSE Set("divc", OfComps([i \in 1..dm |-> IF B.e[i] = 0 THEN <<0, 1>> ELSE QMul(Comp(A, i), Q(B.d, B.e[i]))]), <<>>)
     [] w = 12 -> Set("min", OfComps([i \in 1..dm |-> IF Cmp(A, B, i) <= 0 THEN Comp(A, i) ELSE Comp(B, i)]), <<>>)
     [] w = 13 -> Set("max", OfComps([i \in 1..dm |-> IF Cmp(A, B, i) >= 0 THEN Comp(A, i) ELSE Comp(B, i)]), <<>>)
     [] w \in 14..15 -> Set("rev", VNorm(A.d, [i \in 1..dm |-> A.e[dm + 1 - i]]), <<>>)
     [] w = 16 -> Set("lerp", VAdd(A, VScal(VSub(B, A), f)), <<f>>)
     [] w = 17 -> Ret("dot", Dot(A, B))
     [] w = 18 -> Ret("sqr_len", Dot(A, A))
     [] w = 19 -> LET x == VSub(A, B) IN Ret("sqr_dist", Dot(x, x))
     [] w = 20 -> LET S == {i \in 1..dm : Cmp(A, B, i) # 0} IN
                  Ret("lex_cmp", <<IF S = {} THEN 0 ELSE Cmp(A, B, CHOOSE i \in S : \A j \in S : i <= j), 1>>)
     [] w = 21 -> LET y == [i \in 1..dm |-> Q(Abs(A.e[i]), A.d)] IN
                  Ret("max_abs_coord", y[CHOOSE i \in 1..dm : \A j \in 1..dm : Abs(A.e[i]) >= Abs(A.e[j])])
     [] w = 22 -> Ret("has_len0", <<IF \A i \in 1..dm : A.e[i] = 0 THEN 1 ELSE 0, 1>>)
     [] w = 23 /\ dm < 4 -> LET u == IF dm = 2 THEN Elt(7, U2) ELSE Elt(7, U3) lam == Elt(9, Lambdas)
                                X == [d |-> u[dm + 1], e |-> [i \in 1..dm |-> u[i]]] IN
                            [Set("unit", X, [i \in 1..dm |-> QMul(Rats(u, dm)[i], lam)]) EXCEPT !.f = Flag(1)]
     [] w \in 24..25 /\ dm = 3 -> Set("cross", Cross3(A, B), <<>>)
     [] w = 26 /\ dm = 3 -> With(Set("right_cross3", Cross3(VSub(A, O), VSub(B, O)), <<>>))
     [] w = 27 /\ dm = 3 -> With(Set("left_cross3", Cross3(VSub(B, O), VSub(A, O)), <<>>))
     [] w = 24 /\ dm = 2 -> Ret("cross_z", Cross2(A, B))
     [] w = 25 /\ dm = 2 -> Ret("normal_z", <<Sgn(Cross2(A, B)[1]), 1>>)
     [] w = 26 /\ dm = 2 -> With(Ret("right_cross3_z", Cross2(VSub(A, O), VSub(B, O))))
     [] w = 27 /\ dm = 2 -> With(Ret("left_cross3_z", Cross2(VSub(B, O), VSub(A, O))))
     [] w = 28 /\ dm = 2 -> With(Ret("right_normal3_z", <<Sgn(Cross2(VSub(A, O), VSub(B, O))[1]), 1>>))
     [] w = 29 /\ dm = 2 -> With(Ret("left_normal3_z", <<Sgn(Cross2(VSub(B, O), VSub(A, O))[1]), 1>>))
     [] w = 30 /\ dm = 2 -> Set("port", LET x == VSub(B, A) IN VNorm(x.d, <<x.e[2], -x.e[1]>>), <<>>)
     [] w \in 31..32 /\ dm < 4 -> With(Ret("in_line", <<IF InLine(A, O, B) THEN 1 ELSE 0, 1>>))
     [] w = 33 /\ dm = 2 -> LET u == Elt(7, U2) U == [d |-> u[3], e |-> <<u[1], u[2]>>] q == Dot(VSub(B, A), U) IN
                            IF q[2] > 2000 THEN None ELSE Set("nearest", VAdd(A, VScal(U, q)), Rats(u, 2))
     [] w \in 34..35 /\ dm = 2 -> IF Dot(A, A)[1] = 0 \/ Dot(B, B)[1] = 0 THEN None
                           ELSE [Ret("angle", Cross2(A, B)) EXCEPT !.f = <<Cross2(A, B), Dot(A, B)>>]
     [] w = 36 /\ dm = 2 -> LET P == VSub(A, O) R == VSub(B, O) IN IF Dot(P, P)[1] = 0 \/ Dot(R, R)[1] = 0 THEN None
                           ELSE [With(Ret("angle3", <<0, 1>>)) EXCEPT !.f = <<Cross2(P, R), Dot(P, R)>>]
     [] w = 37 -> LET g == (rs[9] % 49) - 24 h == (rs[10] % 5) al == 30 * g + 360 * (IF h < 3 THEN 0 ELSE (rs[11] % 1000))
                      sn(q) == LET y == (q % 12) IN IF y \in {0, 6} THEN <<0, 1>> ELSE IF y \in {1, 5} THEN <<1, 2>> ELSE IF y \in {7, 11} THEN <<-1, 2>>
                                                  ELSE IF y = 3 THEN <<1, 1>> ELSE IF y = 9 THEN <<-1, 1>> ELSE <<0, 0>> IN
                  [Ret("sincos", <<0, 1>>) EXCEPT !.n = << <<al, 1>> >>, !.f = <<sn(g), sn(g + 3)>>]
     [] w = 38 -> LET z == 1 + (rs[9] % 4) x == Q((rs[10] % 2000) - 1000, z) IN
                  [Ret("get_int", <<0, 1>>) EXCEPT !.n = <<x>>, !.f = IF x[2] = 1 THEN << <<1, 1>>, x>> ELSE << <<0, 1>> >>]
     [] w = 39 -> [Ret("circle", <<0, 1>>) EXCEPT !.n = << <<1 + (rs[9] % 40), 1>> >>]
     [] w = 40 /\ dm = 3 -> (* into the Z axis and the ZX plane: a by B, o by O, b by a fresh point *)
                  LET X == VNorm(1, [i \in 1..3 |-> (rs[9 + i] % 9) - 4]) p == VSub(A, O) q == VSub(X, O) c == Cross3(p, q) IN
                  IF Dot(p, p)[1] = 0 \/ (q.e[1] = 0 /\ q.e[2] = 0) \/ Dot(c, c)[1] = 0 THEN None
                  ELSE [Ret("into_zx", <<1, 1>>) EXCEPT !.n = << <<o - 1, 1>> >> \o [i \in 1..3 |-> Comp(X, i)]]
     [] OTHER -> (* a matrix applied *)
          LET t == Elt(10, fam) M == m[t][1 + (rs[11] % 2)] d == VDim(t) X == v[d][a] IN
          IF t \in WithI \/ M.d = 0 THEN None ELSE
          LET n == Size(t) full == IF t \in WithW THEN X.e \o <<X.d>> ELSE X.e
              Y == VNorm(M.d * X.d, [i \in 1..d |-> Sum([j \in 1..n |-> M.e[i][j] * full[j]])]) IN
          IF ~VFits(Y) THEN None ELSE [Rec("xform", VecNames[d], r, a, a, << <<(rs[11] % 2), 1>> >>, Y, NoF) EXCEPT !.kind = "v", !.s = t]

(* ---- boxes: <<min, max>> per coordinate; 999 and -999 are the infinities ---- *)
INF == 999
BoxOp(rs) ==
  LET dm == 2 + (rs[1] % 3) r == 1 + (rs[2] % 2) a == 1 + (rs[3] % 2) b == 1 + (rs[4] % 2) w == (rs[5] % 16)
      A == bx[dm][a] B == bx[dm][b] C == bx[dm][r]
      Mn(x, y) == IF x < y THEN x ELSE y
      Mx(x, y) == IF x > y THEN x ELSE y
      Valid(x) == \A i \in 1..dm : x[i][1] <= x[i][2]
      T == VecNames[dm]
      Set(op, X, args) == [Rec(op, T, r, a, b, args, X, NoF) EXCEPT !.kind = "b"]
  IN CASE w = 0 -> Set("box_empty", [i \in 1..dm |-> <<INF, -INF>>], <<>>)
     [] w = 1 -> Set("box_full", [i \in 1..dm |-> <<-INF, INF>>], <<>>)
     [] w \in 2..6 -> LET p == [i \in 1..dm |-> (rs[7 + i] % 21) - 10] IN
          Set("box_add", [i \in 1..dm |-> <<Mn(C[i][1], p[i]), Mx(C[i][2], p[i])>>], [i \in 1..dm |-> <<p[i], 1>>])
     [] w \in 7..9 -> Set("box_or", IF ~Valid(A) THEN B ELSE IF ~Valid(B) THEN A ELSE [i \in 1..dm |-> <<Mn(A[i][1], B[i][1]), Mx(A[i][2], B[i][2])>>], <<>>)
     [] w \in 10..12 -> Set("box_and", [i \in 1..dm |-> <<Mx(A[i][1], B[i][1]), Mn(A[i][2], B[i][2])>>], <<>>)
     [] OTHER -> [Rec("box_valid", T, r, a, a, <<>>, Nil, Flag(IF Valid(A) THEN 1 ELSE 0)) EXCEPT !.kind = "n"]

(* ---- histories ---- *)
AllTypes == {"mat2", "mat2w", "mat2i", "mat2wi", "mat3", "mat3w", "mat3i", "mat3wi", "mat4", "mat4i"}
Init == /\ fam = Fams[RandomElement(1..Len(Fams))]
        /\ m = [t \in AllTypes |-> [i \in 1..2 |-> Unit(Size(t))]]
        /\ v = [d \in 2..4 |-> [i \in 1..3 |-> [d |-> 1, e |-> [j \in 1..d |-> 0]]]]
        /\ bx = [d \in 2..4 |-> [i \in 1..2 |-> [j \in 1..d |-> <<INF, -INF>>]]]
        /\ hist = <<>> /\ k = 0
(* what the record shows: for a type with inverse also the inverse and the determinant *)
Show(c) == [kind |-> c.kind, op |-> c.op, t |-> c.t, s |-> c.s, r |-> c.r - 1, a |-> c.a - 1, b |-> c.b - 1, n |-> c.n, x |-> c.x, f |-> c.f,
            i |-> IF c.kind = "m" /\ c.t \in WithI /\ c.x.d > 0 THEN MInv(c.x) ELSE Nil,
            d |-> IF c.kind = "m" /\ c.t \in WithI /\ c.x.d > 0 THEN DetM(c.x) ELSE <<0, 0>>]
Next == /\ k < NOPS /\ k' = k + 1 /\ UNCHANGED fam
        /\ \E rs \in {TLCEval([i \in 1..30 |-> RandomElement(0..(99999 + k))])} :
           \E c \in {TLCEval(LET g == (rs[30] % 10) IN
                     IF MODE = "mat" THEN (IF g < 8 THEN MatOp(rs) ELSE VecOp(rs)) ELSE IF g < 7 THEN VecOp(rs) ELSE IF g < 9 THEN BoxOp(rs) ELSE MatOp(rs))} :
             IF ~c.ok THEN UNCHANGED <<m, v, bx, hist>>
             ELSE /\ hist' = Append(hist, Show(c))
                  /\ m' = IF c.kind = "m" THEN [m EXCEPT ![c.t][c.r] = c.x] ELSE m
                  /\ v' = IF c.kind = "v" THEN [v EXCEPT ![Len(c.x.e)][c.r] = c.x] ELSE v
                  /\ bx' = IF c.kind = "b" THEN [bx EXCEPT ![Len(c.x)][c.r] = c.x] ELSE bx
Spec == Init /\ [][Next]_vars

(* laws of the specification: the inverse is one; rotations keep lengths and orientation, mirrors reverse it *)
Law == Len(hist) > 0 =>
  LET c == hist[Len(hist)] IN
  /\ c.i.d > 0 => MMul(c.x, c.i) = Unit(Size(c.t)) /\ MMul(c.i, c.x) = Unit(Size(c.t)) /\ DetM(c.i) = Q(c.d[2], c.d[1])
  /\ c.kind = "m" /\ c.op \in {"rot_unit", "rot_v", "rot_ij", "rot", "rot_x", "rot_y", "rot_z"} => MMul(c.x, Transp(c.x)) = Unit(Size(c.t)) /\ DetM(c.x) = <<1, 1>>
  /\ c.kind = "m" /\ c.op \in {"mirror_unit", "mirror_v"} => MMul(c.x, c.x) = Unit(Size(c.t)) /\ DetM(c.x) = <<-1, 1>>
Emit == k = NOPS => PrintT(ToJson([h |-> hist]))
=============================================================================
