-------------------------------- MODULE Svg --------------------------------
(***************************************************************************)
(* SVG import.  A state machine writes an SVG document element by element  *)
(* and path command by path command; along with the text it keeps what the *)
(* document means: the matrices of the open elements, the pen of the path  *)
(* interpreter, and the shapes drawn so far, each as a boundary of exact   *)
(* pieces (segments, elliptic arcs, Bezier curves).  The region of a shape *)
(* is decided by parity (even-odd), that of the document by union.         *)
(*                                                                         *)
(* Lengths are drawn in halves of a user unit ("h"); region arithmetic is  *)
(* in 64ths of a user unit ("q" = 32 h).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NLO, NHI,     \* number of shapes
          PATHW,        \* of ten shapes, how many are paths
          BAD           \* whether path data may end in an error

VARIABLES st, top, stack, txt, shp, pen, cnt
vars == <<st, top, stack, txt, shp, pen, cnt>>

YES == 1
NO == 0
UNK == 2
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
DivR(a, b) == (2 * a + b) \div (2 * b)
Xor3(a, b) == IF a = UNK \/ b = UNK THEN UNK ELSE (a + b) % 2
Or3(a, b)  == IF a = YES \/ b = YES THEN YES ELSE IF a = UNK \/ b = UNK THEN UNK ELSE NO
And3(a, b) == IF a = NO \/ b = NO THEN NO ELSE IF a = UNK \/ b = UNK THEN UNK ELSE YES
Pick(S) == {RandomElement(S)}
OneIn(k, salt) == RandomElement(1..k) = 1

(* -------------------------------------------------------------- matrices *)
(* [a, b, c, d, e, f, D]: (x, y) -> ((a x + c y + e) / D, (b x + d y + f) / D) *)
Mat(a, b, c, d, e, f, D) == [a |-> a, b |-> b, c |-> c, d |-> d, e |-> e, f |-> f, D |-> D]
IdM == Mat(1, 0, 0, 1, 0, 0, 1)
QuoT(x, g) == IF x >= 0 THEN x \div g ELSE -((-x) \div g)
Norm(M) ==
  LET g == Gcd(Gcd(Gcd(Gcd(Gcd(Gcd(M.D, Abs(M.a)), Abs(M.b)), Abs(M.c)), Abs(M.d)), Abs(M.e)), Abs(M.f))
  IN IF g <= 1 THEN M ELSE Mat(QuoT(M.a, g), QuoT(M.b, g), QuoT(M.c, g), QuoT(M.d, g), QuoT(M.e, g), QuoT(M.f, g), M.D \div g)
MulM(A, B) ==   \* first B, then A
  Norm(Mat(A.a * B.a + A.c * B.b, A.b * B.a + A.d * B.b, A.a * B.c + A.c * B.d, A.b * B.c + A.d * B.d,
           A.a * B.e + A.c * B.f + A.e * B.D, A.b * B.e + A.d * B.f + A.f * B.D, A.D * B.D))
DetM(M) == M.a * M.d - M.b * M.c
Fits(M) == /\ \A v \in {M.a, M.b, M.c, M.d, M.D} : Abs(v) <= 200
           /\ Abs(M.e) <= 100 * M.D /\ Abs(M.f) <= 100 * M.D
           \* not scaled down or up too much, not too flat
           /\ LET dt == Abs(DetM(M)) IN 16 * dt >= M.D * M.D /\ dt <= 36 * M.D * M.D
           /\ \A v \in {M.a, M.b, M.c, M.d} : Abs(v) <= 8 * M.D
(* page point (64ths) to local point (64ths) *)
Back(M, p) ==
  LET X == M.D * p[1] - 64 * M.e
      Y == M.D * p[2] - 64 * M.f
      dt == DetM(M)
      s == Sgn(dt)
  IN <<DivR(s * (M.d * X - M.c * Y), s * dt), DivR(s * (M.a * Y - M.b * X), s * dt)>>
(* local point (64ths) to page point (64ths) *)
Forth(M, p) == <<DivR(M.a * p[1] + M.c * p[2] + 64 * M.e, M.D), DivR(M.b * p[1] + M.d * p[2] + 64 * M.f, M.D)>>

(* ---------------------------------------------------------------- regions *)
MG == 3      \* closer than MG/64 user units is undecided
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
L1(a, b) == Abs(b[1] - a[1]) + Abs(b[2] - a[2])
InBox(a, b, p, m) ==
  /\ p[1] >= Min2(a[1], b[1]) - m /\ p[1] <= Max2(a[1], b[1]) + m
  /\ p[2] >= Min2(a[2], b[2]) - m /\ p[2] <= Max2(a[2], b[2]) + m
Edge(a, b, p, m) ==
  IF InBox(a, b, p, m) /\ Abs(Cross(a, b, p)) <= m * L1(a, b) THEN UNK
  ELSE IF (a[2] <= p[2]) = (b[2] <= p[2]) THEN NO
  ELSE LET c == Cross(a, b, p) IN IF (c > 0) = (b[2] > a[2]) THEN YES ELSE NO
(* full ellipse: centre c, axis direction (ds/dc) with length h2 = dc^2 + ds^2,
   half axes A, B times the length of the direction *)
InEll(e, p) ==
  LET x == p[1] - e.c[1]   y == p[2] - e.c[2]
      u == e.dc * x + e.ds * y   v == e.dc * y - e.ds * x
      lim(t) == IF t > 3000 THEN 3000 ELSE IF t < -3000 THEN -3000 ELSE t
      U == lim((u * 1024) \div e.A)   V == lim((v * 1024) \div e.B)
      mg == (1024 * MG * 7) \div Min2(e.A, e.B) + 3
      r == U * U + V * V
  IN IF mg > 500 THEN (IF r > 1500 * 1500 THEN NO ELSE UNK)
     ELSE IF r < (1024 - mg) * (1024 - mg) THEN YES ELSE IF r > (1024 + mg) * (1024 + mg) THEN NO ELSE UNK
SideOf(a, b, p, s) ==
  LET c == s * Cross(a, b, p) IN IF Abs(c) <= MG * L1(a, b) THEN UNK ELSE IF c > 0 THEN YES ELSE NO
InQuad(a, b, c, p) ==      \* between the parabola and its chord
  LET d0 == Cross(a, b, c)
      s == Sgn(d0)
      D == Abs(d0)
      U == s * Cross(b, c, p)   V == s * Cross(c, a, p)   W == s * Cross(a, b, p)
      L == Max2(L1(a, b), Max2(L1(b, c), L1(a, c)))
      near == MG * L
      k == Max2(1, D \div 2048)
      u == U \div k  v == V \div k  w == W \div k  d == D \div k
      G == v * v - 4 * u * w
      gm == 4 * d * (near \div k + 2)
  IN IF D < 16384 THEN (IF InBox(a, c, p, L) THEN UNK ELSE NO)
     ELSE IF U < -near \/ V < -near \/ W < -near THEN NO
     ELSE IF V <= near \/ Abs(G) <= gm THEN UNK
     ELSE IF G < 0 THEN YES ELSE NO
NF == 12
Bez(a, b, c, d, i) ==
  LET j == NF - i
      f(k) == DivR(j * j * j * a[k] + 3 * j * j * i * b[k] + 3 * j * i * i * c[k] + i * i * i * d[k], NF * NF * NF)
  IN <<f(1), f(2)>>
CubM(a, b, c, d) ==
  MG + Max2(Max2(Abs(a[1] - 2 * b[1] + c[1]), Abs(a[2] - 2 * b[2] + c[2])),
            Max2(Abs(b[1] - 2 * c[1] + d[1]), Abs(b[2] - 2 * c[2] + d[2]))) \div 100
RECURSIVE CubPar(_, _, _, _, _)
CubPar(fl, i, p, m, acc) ==
  IF acc = UNK \/ i >= Len(fl) THEN acc
  ELSE LET r == TLCEval(Xor3(acc, Edge(fl[i], fl[i + 1], p, m))) IN CubPar(fl, i + 1, p, m, r)
Piece(g, p) ==
  CASE g.k = "line" -> Edge(g.a, g.b, p, MG)
    [] g.k = "ell" -> InEll(g, p)
    [] g.k = "arc" -> Xor3(Edge(g.a, g.b, p, MG), And3(InEll(g, p), SideOf(g.a, g.b, p, g.s)))
    [] g.k = "quad" -> Xor3(Edge(g.a, g.c, p, MG), InQuad(g.a, g.b, g.c, p))
    [] g.k = "cub" -> CubPar(g.fl, 1, p, g.m, NO)
RECURSIVE Parity(_, _, _, _)
Parity(gs, i, p, acc) ==
  IF acc = UNK \/ i > Len(gs) THEN acc
  ELSE LET r == TLCEval(Xor3(acc, Piece(gs[i], p))) IN Parity(gs, i + 1, p, r)
Inside(s, p) == LET l == TLCEval(Back(s.M, p)) IN
                IF Abs(l[1]) > 12000 \/ Abs(l[2]) > 12000 THEN NO ELSE Parity(s.g, 1, l, NO)
RECURSIVE DocIn(_, _, _, _)
DocIn(ss, i, p, acc) ==
  IF acc = YES \/ i > Len(ss) THEN acc
  ELSE LET r == TLCEval(Or3(acc, Inside(ss[i], p))) IN DocIn(ss, i + 1, p, r)

Q(h) == 32 * h
QP(h) == <<32 * h[1], 32 * h[2]>>
LineG(a, b) == [k |-> "line", a |-> QP(a), b |-> QP(b)]
EllG(c, rx, ry) == [k |-> "ell", c |-> QP(c), dc |-> 1, ds |-> 0, A |-> Q(rx), B |-> Q(ry)]

(* --------------------------------------------------------- numbers as text *)
DigStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Pad5(n) == LET d(k) == DigStr[((n \div k) % 10) + 1] IN d(10000) \o d(1000) \o d(100) \o d(10) \o d(1)
(* a / b with five decimals *)
Dec(a, b) == LET s == IF (a < 0) # (b < 0) /\ a # 0 THEN "-" ELSE ""
                 x == Abs(a)  y == Abs(b)
                 r == x % y
                 f == (r * 10000) \div y          \* four digits, then one more
                 g == (((r * 10000) % y) * 10) \div y
             IN s \o ToString(x \div y) \o (IF r = 0 THEN "" ELSE "." \o Pad5(f * 10 + g))
(* spellings of v / 2: [t: text, f: first character class, dot: contains a dot or exponent at its end] *)
NumForms(v) ==
  LET n == Abs(v) \div 2
      odd == v % 2 = 1
      sg == IF v < 0 THEN "-" ELSE ""
      i == ToString(n)
  IN (IF odd
      THEN {[t |-> sg \o i \o ".5", dot |-> TRUE], [t |-> sg \o i \o ".50", dot |-> TRUE], [t |-> sg \o ToString(10 * n + 5) \o "e-1", dot |-> TRUE],
            [t |-> sg \o "0" \o i \o ".5", dot |-> TRUE]}
           \cup (IF n = 0 THEN {[t |-> sg \o ".5", dot |-> TRUE], [t |-> sg \o ".05e1", dot |-> TRUE]} ELSE {})
      ELSE {[t |-> sg \o i, dot |-> FALSE], [t |-> sg \o i, dot |-> FALSE], [t |-> sg \o i \o ".0", dot |-> TRUE], [t |-> sg \o i \o "e0", dot |-> TRUE],
            [t |-> sg \o i \o "0e-1", dot |-> TRUE], [t |-> sg \o i \o "0E-01", dot |-> TRUE], [t |-> sg \o "0" \o i, dot |-> FALSE]}
           \cup (IF n < 10 THEN {[t |-> sg \o "." \o i \o "e+1", dot |-> TRUE], [t |-> sg \o "0.0" \o i \o "E2", dot |-> TRUE]} ELSE {})
           \cup (IF n % 10 = 0 THEN {[t |-> sg \o ToString(n \div 10) \o "e1", dot |-> TRUE]} ELSE {}))
     \cup (IF v > 0 THEN {[t |-> "+" \o i \o (IF odd THEN ".5" ELSE ""), dot |-> odd]} ELSE {})
     \cup (IF v = 0 THEN {[t |-> "-0", dot |-> FALSE]} ELSE {})
PlainNum(v) == [t |-> (IF v < 0 THEN "-" ELSE "") \o ToString(Abs(v) \div 2) \o (IF v % 2 = 1 THEN ".5" ELSE ""), dot |-> v % 2 = 1]
Spell(v) == IF OneIn(2, v) THEN PlainNum(v) ELSE RandomElement(NumForms(v))
First(t) == SubSeq(t, 1, 1)
(* what may stand between a number and the next one *)
Seps(prev, next) ==
  {" ", ",", ", ", " ,", "  ", "\n", " , ", "\t"}
  \cup (IF First(next.t) \in {"-", "+"} THEN {""} ELSE {})
  \cup (IF First(next.t) = "." /\ prev.dot THEN {""} ELSE {})
RECURSIVE Nums(_, _, _, _)
(* the numbers vs in order, as text; prev: the number written before *)
Nums(vs, i, prev, acc) ==
  IF i > Len(vs) THEN acc
  ELSE LET w == TLCEval(Spell(vs[i]))
           sep == TLCEval(IF prev.t = "" THEN RandomElement({"", "", " ", "\n"}) ELSE RandomElement(Seps(prev, w)))
           a2 == TLCEval([t |-> acc.t \o sep \o w.t, dot |-> w.dot])
       IN Nums(vs, i + 1, w, a2)
NoNum == [t |-> "", dot |-> FALSE]
NumList(vs, prev) == Nums(vs, 1, prev, NoNum)

(* lengths with units: v halves of a user unit, ref: length of 100% in units (0: unknown) *)
Len1(v, ref) ==
  CASE RandomElement(1..12) = 1 -> Dec(v, 192) \o "in"
    [] RandomElement(1..12) = 1 -> Dec(3 * v, 8) \o "pt"
    [] RandomElement(1..12) = 1 -> Dec(v, 32) \o "pc"
    [] RandomElement(1..12) = 1 -> Dec(127 * v, 960) \o "mm"
    [] RandomElement(1..12) = 1 -> Dec(127 * v, 9600) \o "cm"
    [] RandomElement(1..12) = 1 -> PlainNum(v).t \o "px"
    [] ref > 0 /\ RandomElement(1..8) = 1 -> Dec(50 * v, ref) \o "%"
    [] OTHER -> Spell(v).t
Space(t) == LET k == TLCEval(RandomElement(1..12)) IN IF k = 1 THEN " " \o t ELSE IF k = 2 THEN t \o " " ELSE IF k = 3 THEN "\n\t" \o t \o "\n" ELSE t
Ln(v, ref) == Space(Len1(v, ref))

(* sizes of view boxes, many with a rational diagonal: 100% of a radius is
   sqrt((w^2 + h^2) / 2)                                                     *)
Boxes1 == {<<20, 20>>, <<25, 16>>, <<40, 30>>, <<28, 4>>, <<34, 14>>, <<14, 34>>, <<35, 5>>, <<17, 7>>}
Boxes2 == {<<10, 10>>, <<20, 20>>, <<10, 20>>, <<20, 10>>, <<14, 2>>, <<7, 17>>, <<34, 14>>}
Dim(v) == LET ds == {d \in 1..50 : 2 * d * d = v[1] * v[1] + v[2] * v[2]}
          IN IF ds = {} THEN 0 ELSE CHOOSE d \in ds : TRUE

(* -------------------------------------------------------------------- XML *)
Wsp(salt) == RandomElement({" ", " ", " ", "\n", "  ", "\t"})
Attr(at) == LET q == TLCEval(RandomElement({"\"", "'"})) IN Wsp(at) \o at[1] \o "=" \o q \o at[2] \o q
RECURSIVE Attrs(_, _)
Attrs(as, i) == IF i > Len(as) THEN "" ELSE LET t == TLCEval(Attr(as[i])) IN t \o Attrs(as, i + 1)
Rotate(as, k) == [i \in 1..Len(as) |-> as[((i + k) % Len(as)) + 1]]
Shuffle(as) == IF Len(as) < 2 THEN as ELSE LET k == TLCEval(RandomElement(0..(Len(as) - 1))) IN Rotate(as, k)
Noise(as) == LET k == TLCEval(RandomElement(1..10)) IN
  IF k = 1 THEN Append(as, <<"fill", "none">>) ELSE IF k = 2 THEN <<(<<"class", "a>b &lt; c">>)>> \o as
  ELSE IF k = 3 THEN Append(as, <<"style", "fill:&quot;x&apos;">>) ELSE as
Top == stack[Len(stack)]
Tag(t) == Top.px \o t
OpenT(t, as) == LET b == TLCEval(Attrs(TLCEval(Shuffle(TLCEval(Noise(as)))), 1)) IN "<" \o Tag(t) \o b
BetweenP(px, salt) == LET k == TLCEval(RandomElement(1..14)) IN
  CASE k \in 1..5 -> "\n"
    [] k = 6 -> "<!-- <" \o px \o "rect" \o " width='9' height='9'/> - -->"
    [] k = 7 -> "<" \o px \o "title" \o ">t &amp; u<" \o "/" \o px \o "title" \o " >"
    [] k = 8 -> "<o:rect xmlns:o=\"urn:other\" x=\"1\" y=\"1\" width=\"9\" height=\"9\"/>"
    [] k = 9 -> "<rect xmlns='urn:other' x=\"1\" y=\"1\" width=\"9\" height=\"9\"/>"
    [] k = 10 -> " some text &#x41; &gt; "
    [] OTHER -> ""
Between(salt) == BetweenP(Top.px, salt)
(* an element without children, and what follows *)
Leaf(t, as) ==
  LET h == TLCEval(OpenT(t, as))
      k == TLCEval(RandomElement(1..6))
      b == TLCEval(Between(t))
  IN h \o (IF k = 1 THEN " />" ELSE IF k = 2 THEN "></" \o Tag(t) \o ">" ELSE IF k = 3 THEN ">\n</" \o Tag(t) \o "\n>" ELSE "/>") \o b

Ids == {[x |-> "a", s |-> "a"], [x |-> "b", s |-> "b"], [x |-> "Layer 1", s |-> "Layer 1"], [x |-> "p&amp;q", s |-> "p&q"], [x |-> "&lt;l&#x3e;", s |-> "<l>"],
        [x |-> "@ae@", s |-> "@ae@"], [x |-> "&#x20ac;&#65;", s |-> "@euro@A"], [x |-> "ab", s |-> "ab"], [x |-> "&#48;", s |-> "0"], [x |-> "@big@", s |-> "&#x1d11e;"]}
IdSets == {i \in Ids : i.s # "&#x1d11e;"}

Act(id) == Top.act \/ (id # "" /\ id = top.layer)
IdAttr(id) == IF id.x = "" THEN <<>> ELSE << <<"id", id.x>> >>
NoId == [x |-> "", s |-> ""]
PickId(salt) == LET k == TLCEval(RandomElement(1..4)) IN IF k = 1 THEN RandomElement(IdSets) ELSE NoId

(* ------------------------------------------------------------- transforms *)
(* one transform function: its text and its matrix *)
RotCS(a) == CASE a % 360 = 0 -> <<1, 0>> [] a % 360 = 90 -> <<0, 1>> [] a % 360 = 180 -> <<-1, 0>> [] a % 360 = 270 -> <<0, -1>>
Args(vs) == LET t == TLCEval(NumList(vs, NoNum).t)
                s == TLCEval(RandomElement({"", "", " "}))
                u == TLCEval(RandomElement({"", "", " "})) IN s \o "(" \o t \o u \o ")"
Fun(salt) ==
  LET k == TLCEval(RandomElement(1..12))
      x == TLCEval(RandomElement(-16..16))
      y == TLCEval(RandomElement(-16..16))
      a == TLCEval(RandomElement({0, 90, 180, 270, -90, 450}))
      z == TLCEval(RandomElement({1, 2, 3, 4, -2, -4}))
      w == TLCEval(RandomElement({1, 2, 3, 4, -2}))
      m == TLCEval(RandomElement({<<2, 0, 0, 4>>, <<2, 2, -2, 2>>, <<0, 2, 2, 0>>, <<1, 0, 2, 2>>, <<3, 1, -1, 2>>, <<2, -1, 0, 2>>}))
      cs == RotCS(a % 360)
      rot(c, s, d, cx, cy) == \* about (cx, cy) halves
        MulM(Norm(Mat(2, 0, 0, 2, cx, cy, 2)), MulM(Mat(c, s, -s, c, 0, 0, d), Norm(Mat(2, 0, 0, 2, -cx, -cy, 2))))
  IN CASE k \in 1..2 -> [t |-> "translate" \o Args(<<x, y>>), M |-> Norm(Mat(2, 0, 0, 2, x, y, 2))]
       [] k = 3 -> [t |-> "translate" \o Args(<<x>>), M |-> Norm(Mat(2, 0, 0, 2, x, 0, 2))]
       [] k = 4 -> [t |-> "scale" \o Args(<<z, w>>), M |-> Norm(Mat(z, 0, 0, w, 0, 0, 2))]
       [] k = 5 -> [t |-> "scale" \o Args(<<z>>), M |-> Norm(Mat(z, 0, 0, z, 0, 0, 2))]
       [] k \in 6..7 -> [t |-> "rotate" \o Args(<<2 * a>>), M |-> rot(cs[1], cs[2], 1, 0, 0)]
       [] k = 8 -> [t |-> "rotate" \o Args(<<2 * a, x, y>>), M |-> rot(cs[1], cs[2], 1, x, y)]
       [] k = 9 -> [t |-> "rotate(36.869897646)", M |-> rot(4, 3, 5, 0, 0)]
       [] k = 10 -> [t |-> "skewX" \o Args(<<90>>), M |-> Mat(1, 0, 1, 1, 0, 0, 1)]
       [] k = 11 -> [t |-> "skewY" \o Args(<<-90>>), M |-> Mat(1, -1, 0, 1, 0, 0, 1)]
       [] k = 12 -> [t |-> "matrix" \o Args(<<m[1], m[2], m[3], m[4], x, y>>), M |-> Norm(Mat(m[1], m[2], m[3], m[4], x, y, 2))]
NoXf == [t |-> "", M |-> IdM]
(* none, one or two functions *)
PickXf(salt) ==
  LET k == TLCEval(RandomElement(1..5))
      f == TLCEval(Fun(k))
      g == TLCEval(Fun(-k))
      s == TLCEval(RandomElement({" ", ",", " , ", "", "\n"})) IN
  IF k <= 2 THEN NoXf ELSE IF k <= 4 THEN f
  ELSE [t |-> f.t \o s \o g.t, M |-> MulM(f.M, g.M)]
XfAttr(f) == IF f.t = "" THEN <<>> ELSE LET s == TLCEval(Space(f.t)) IN << <<"transform", s>> >>

(* the view box (vx, vy, vw, vh), in units, fitted into a box of ew x eh halves *)
FitM(ew, eh, vx, vy, vw, vh, how, ax, ay) ==
  LET \* scale of x and y as fractions
      sx == <<ew, 2 * vw>>   sy == <<eh, 2 * vh>>
      less == sx[1] * sy[2] < sy[1] * sx[2]
      uni == IF how = "slice" THEN (IF less THEN sy ELSE sx) ELSE (IF less THEN sx ELSE sy)
      fx == IF how = "none" THEN sx ELSE uni
      fy == IF how = "none" THEN sy ELSE uni
      al == IF how = "" THEN <<"xMid", "YMid">> ELSE <<ax, ay>>
      part(b) == IF b \in {"xMin", "YMin"} THEN 0 ELSE IF b \in {"xMid", "YMid"} THEN 1 ELSE 2   \* halves of the slack
      \* slack left over, in halves of a unit, as fraction: e - v * f
      ox == <<(ew * fx[2] - 2 * vw * fx[1]) * part(al[1]), 2 * fx[2]>>
      oy == <<(eh * fy[2] - 2 * vh * fy[1]) * part(al[2]), 2 * fy[2]>>
      SC == Mat(fx[1] * fy[2], 0, 0, fy[1] * fx[2], 0, 0, fx[2] * fy[2])
      OFF == IF how = "none" THEN IdM ELSE Norm(Mat(2 * ox[2] * oy[2], 0, 0, 2 * ox[2] * oy[2], ox[1] * oy[2], oy[1] * ox[2], 2 * ox[2] * oy[2]))
  IN MulM(OFF, MulM(Norm(SC), Mat(1, 0, 0, 1, -vx, -vy, 1)))
ParAttr(how, ax, ay) ==
  CASE how = "" -> <<>> [] how = "none" -> << <<"preserveAspectRatio", "none">> >>
    [] how = "bare" -> << <<"preserveAspectRatio", ax \o ay>> >>
    [] how = "defer" -> << <<"preserveAspectRatio", " defer " \o ax \o ay>> >>
    [] OTHER -> << <<"preserveAspectRatio", ax \o ay \o " " \o how>> >>

(* ------------------------------------------------------------------ start *)
(* the page: how user units of the top-level svg map to mm.
   vw, vh, vx, vy: view box in units; pw/ph: size of the page in mm, times pd *)
Outer == {[t |-> "", M |-> IdM], [t |-> "translate([3,-4])", M |-> Mat(1, 0, 0, 1, 3, -4, 1)], [t |-> "rotate(90)", M |-> Mat(0, 1, -1, 0, 0, 0, 1)],
          [t |-> "mirror([1,0,0])", M |-> Mat(-1, 0, 0, 1, 0, 0, 1)], [t |-> "scale([2,1,1])", M |-> Mat(2, 0, 0, 1, 0, 0, 1)]}
Dpis == {[t |-> "", n |-> 127, d |-> 360], [t |-> "", n |-> 127, d |-> 360], [t |-> "25.4", n |-> 1, d |-> 1], [t |-> "96", n |-> 127, d |-> 480],
         [t |-> "50.8", n |-> 1, d |-> 2], [t |-> "12.7", n |-> 2, d |-> 1]}
None == [st |-> "none"]
Start ==
  /\ st = "new"
  /\ \E dpi \in Pick(Dpis), kind \in Pick({"plain", "plain", "box", "box", "size", "size", "size"}), pfx \in Pick({"", "", "", "svg:"}),
        layer \in Pick({NoId, NoId, NoId} \cup IdSets), center \in Pick({0, 0, 1, 2}), outer \in Pick(Outer),
        vx \in Pick({0, 0, -5, 8}), vy \in Pick({0, 0, 7, -4}), bxs \in Pick(Boxes1), slk \in Pick({<<0, 0>>, <<0, 0>>, <<4, 0>>, <<0, 6>>, <<-2, 0>>, <<0, -1>>}),
        unit \in Pick({"mm", "cm", "in", "px", "pt", "pc", "dpi", "mm"}), sc \in Pick({<<1, 2>>, <<1, 1>>, <<2, 1>>, <<3, 2>>}),
        head \in Pick(1..6), tx \in Pick({NoXf, NoXf, [t |-> "translate(2 5)", M |-> Mat(1, 0, 0, 1, 2, 5, 1)], [t |-> "scale(2)", M |-> Mat(2, 0, 0, 2, 0, 0, 1)], [t |-> "rotate(90)", M |-> Mat(0, 1, -1, 0, 0, 0, 1)]}),
        ax \in Pick({"xMin", "xMid", "xMax"}), ay \in Pick({"YMin", "YMid", "YMax"}), how \in Pick({"", "", "", "none", "meet", "slice", "bare", "defer"}), wh \in Pick(1..3), lay3 \in Pick(1..3) :
     LET vw == bxs[1]  vh == bxs[2]
         \* size in mm of a user unit of the top-level svg
         us == IF kind = "plain" THEN <<1, 1>> ELSE IF kind = "box" THEN <<dpi.n, dpi.d>>
               ELSE CASE unit \in {"mm", "cm", "in"} -> sc
                      [] unit = "px" -> <<127 * sc[1], 480 * sc[2]>>
                      [] unit = "pt" -> <<127 * sc[1], 360 * sc[2]>>
                      [] unit = "pc" -> <<127 * sc[1], 30 * sc[2] >>
                      [] unit = "dpi" -> <<dpi.n * sc[1], dpi.d * sc[2]>>
         size(v) == CASE unit = "mm" -> Dec(v * sc[1], sc[2]) \o "mm"
                      [] unit = "cm" -> Dec(v * sc[1], 10 * sc[2]) \o "cm"
                      [] unit = "in" -> Dec(v * sc[1] * 10, 254 * sc[2]) \o "in"
                      [] unit = "px" -> Dec(v * sc[1], sc[2]) \o "px"
                      [] unit = "pt" -> Dec(v * sc[1], sc[2]) \o "pt"
                      [] unit = "pc" -> Dec(v * sc[1], sc[2]) \o "pc"
                      [] unit = "dpi" -> Dec(v * sc[1], sc[2])
         bx == kind # "plain"
         U == Mat(us[1], 0, 0, us[1], 0, 0, us[2])
         ctr == center = 1 /\ bx
         \* the page, in user units before fitting
         ew == IF kind = "size" THEN vw + slk[1] ELSE vw
         eh == IF kind = "size" THEN vh + slk[2] ELSE vh
         VB == IF ~bx THEN IdM ELSE FitM(2 * ew, 2 * eh, vx, vy, vw, vh, how, ax, ay)
         Sh == IF ~bx THEN IdM
               ELSE MulM(U, MulM(IF ctr THEN Norm(Mat(2, 0, 0, 2, -ew, -eh, 2)) ELSE Mat(1, 0, 0, 1, 0, -eh, 1), VB))
         G == MulM(outer.M, MulM(Mat(1, 0, 0, -1, 0, 0, 1), MulM(tx.M, Sh)))
         vb == LET t == TLCEval(NumList(<<2 * vx, 2 * vy, 2 * vw, 2 * vh>>, NoNum).t) IN t
         ns == IF pfx = "" THEN (IF head = 1 THEN <<>> ELSE << <<"xmlns", "http://www.w3.org/2000/svg">> >>) ELSE << <<"xmlns:svg", "http:/&#x2f;www.w3.org/2000/svg">> >>
         as == ns \o (IF bx THEN << <<"viewBox", vb>> >> ELSE <<>>)
                  \o (IF kind = "size" THEN << <<"width", size(ew)>>, <<"height", size(eh)>> >>
                      ELSE IF kind = "plain" /\ wh = 1 THEN << <<"height", "30mm">> >> ELSE <<>>)
                  \o XfAttr(tx) \o ParAttr(how, ax, ay)
         pre == CASE head = 1 -> "" [] head = 2 -> "<?xml version=\"1.0\" encoding='UTF-8'?>\n" [] head = 3 -> "<?xml version='1.0'?><!DOCTYPE svg>\n<!-- c -->"
                  [] head = 4 -> "@bom@" [] head = 5 -> "<!-- first -->\n" [] head = 6 -> "<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://x/svg11.dtd\">"
         t0 == [pfx |-> pfx, layer |-> (IF lay3 = 1 THEN layer.s ELSE ""), lx |-> layer.x, dpi |-> dpi.t, center |-> center, outer |-> outer.t, G |-> G, kind |-> kind,
                refs |-> IF bx THEN <<vw, vh, Dim(bxs)>> ELSE <<0, 0, 0>>, ctr |-> (IF bx THEN <<2 * vx + vw, 2 * vy + vh>> ELSE <<20, 20>>)]
         open == TLCEval(Attrs(TLCEval(Shuffle(as)), 1))
     IN /\ top' = t0
        /\ txt' = pre \o "<" \o pfx \o "svg" \o open \o ">"
        /\ stack' = << [M |-> IdM, ref |-> t0.refs, act |-> (t0.layer = ""), tag |-> pfx \o "svg", px |-> pfx, dead |-> FALSE] >>
  /\ st' = "elem" /\ shp' = <<>> /\ pen' = None /\ cnt' = 0

(* --------------------------------------------------------------- elements *)
More == cnt < NHI
Room == Len(stack) < 4 /\ More
OpenG ==
  /\ st = "elem" /\ Room
  /\ \E f \in {PickXf(cnt)}, id \in {PickId(cnt)}, tag \in Pick({"g", "g", "g", "a", "bogus"}) :
       LET M == MulM(Top.M, f.M)
           h == TLCEval(OpenT(tag, IdAttr(id) \o XfAttr(f)))
           b == TLCEval(Between(tag))
       IN /\ Fits(M)
          /\ txt' = txt \o h \o ">" \o b
          /\ stack' = Append(stack, [Top EXCEPT !.M = M, !.act = Act(id.s), !.tag = Tag(tag)])
  /\ UNCHANGED <<st, top, shp, pen, cnt>>
OpenDead ==
  /\ st = "elem" /\ Room
  /\ \E tag \in Pick({"defs", "symbol", "marker", "metadata", "desc"}) :
       /\ txt' = txt \o "<" \o Tag(tag) \o ">"
       /\ stack' = Append(stack, [Top EXCEPT !.dead = TRUE, !.tag = Tag(tag)])
  /\ UNCHANGED <<st, top, shp, pen, cnt>>
(* a group that changes what prefixes mean: the one in use may get bound to
   something else, or another one takes over                                  *)
SvgNs == "http://www.w3.org/2000/svg"
OpenNs ==
  /\ st = "elem" /\ Room
  /\ \E k \in Pick(1..4), q \in Pick({"p", "q", "svg"}) :
       LET old == Top.px
           bind(px, uri) == <<(IF px = "" THEN "xmlns" ELSE "xmlns:" \o SubSeq(px, 1, Len(px) - 1)), uri>>
           new == IF k \in 2..3 THEN q \o ":" ELSE ""
           as == IF k = 1 THEN << bind(old, "urn:other") >>
                 ELSE IF old = new THEN << bind(new, SvgNs) >>
                 ELSE IF k = 2 THEN << bind(new, SvgNs), bind(old, "urn:other") >> ELSE << bind(new, SvgNs) >>
           px == IF k = 1 THEN old ELSE new
           at == TLCEval(Attrs(TLCEval(Shuffle(as)), 1))
           ghost == IF k = 2 /\ old # new THEN "<" \o old \o "rect width='30' height='9'/>" ELSE ""
       IN /\ txt' = txt \o "<" \o px \o "g" \o at \o ">" \o ghost
          /\ stack' = Append(stack, [Top EXCEPT !.px = px, !.tag = px \o "g", !.dead = @ \/ k = 1])
  /\ UNCHANGED <<st, top, shp, pen, cnt>>
(* a nested svg: its box is (x, y, w, h), its view box (vx, vy, vw, vh) is
   fitted into it as preserveAspectRatio says *)
OpenSvg ==
  /\ st = "elem" /\ Room
  /\ \E x \in Pick(-6..10), y \in Pick(-6..10), vx \in Pick({0, 0, 3, -2}), vy \in Pick({0, 0, -5, 4}), bxs \in Pick(Boxes2),
        k \in Pick({<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>}), slack \in Pick({<<0, 0>>, <<0, 0>>, <<4, 0>>, <<0, 6>>, <<-4, 0>>}), bx \in Pick({0, 1, 1, 1}),
        ax \in Pick({"xMin", "xMid", "xMax"}), ay \in Pick({"YMin", "YMid", "YMax"}), how \in Pick({"", "", "none", "meet", "slice", "bare", "defer"}),
        f \in {PickXf(cnt)}, id \in {PickId(cnt)}, givew \in Pick(1..4) :
       LET vw == bxs[1]  vh == bxs[2]
           \* the box in halves
           ew == (2 * vw * k[1]) \div k[2] + slack[1]
           eh == (2 * vh * k[1]) \div k[2] + slack[2]
           VB == IF bx = 0 THEN IdM ELSE FitM(ew, eh, vx, vy, vw, vh, how, ax, ay)
           M == MulM(Top.M, MulM(f.M, MulM(Norm(Mat(2, 0, 0, 2, x, y, 2)), VB)))
           tw == TLCEval(Ln(ew, Top.ref[1]))   th == TLCEval(Ln(eh, Top.ref[2]))
           tx == TLCEval(Ln(x, Top.ref[1]))    ty == TLCEval(Ln(y, Top.ref[2]))
           vb == TLCEval(NumList(<<2 * vx, 2 * vy, 2 * vw, 2 * vh>>, NoNum).t)
           as == (IF x = 0 THEN <<>> ELSE << <<"x", tx>> >>) \o (IF y = 0 THEN <<>> ELSE << <<"y", ty>> >>)
                 \o << <<"width", tw>>, <<"height", th>> >> \o (IF bx = 0 THEN <<>> ELSE << <<"viewBox", vb>> >>) \o ParAttr(how, ax, ay) \o IdAttr(id) \o XfAttr(f)
           h == TLCEval(OpenT("svg", as))
       IN /\ ew > 0 /\ eh > 0 /\ ew % 1 = 0 /\ (2 * vw * k[1]) % k[2] = 0 /\ (2 * vh * k[1]) % k[2] = 0
          /\ Fits(M)
          /\ txt' = txt \o h \o ">"
          /\ stack' = Append(stack, [Top EXCEPT !.M = M, !.act = Act(id.s), !.tag = Tag("svg"), !.ref = IF bx = 0 THEN <<0, 0, 0>> ELSE <<vw, vh, Dim(bxs)>>])
  /\ UNCHANGED <<st, top, shp, pen, cnt>>
CloseTop(t, tag) == t \o "</" \o tag \o ">"
CloseE ==
  /\ st = "elem" /\ Len(stack) > 1
  /\ \E b \in {BetweenP(stack[Len(stack) - 1].px, cnt)} : txt' = CloseTop(txt, Top.tag) \o b
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<st, top, shp, pen, cnt>>

(* shapes: text attributes and boundary; id and transform are added here *)
Draw(tag, as, g) ==
  \E f \in {PickXf(cnt)}, id \in {PickId(cnt)} :
    LET M == MulM(Top.M, f.M)
        t == TLCEval(Leaf(tag, as \o IdAttr(id) \o XfAttr(f)))
    IN /\ Fits(M)
       /\ txt' = txt \o t
       /\ shp' = IF Act(id.s) /\ ~Top.dead /\ g # <<>> THEN Append(shp, [M |-> M, g |-> g]) ELSE shp
       /\ cnt' = cnt + 1
       /\ UNCHANGED <<st, top, stack, pen>>
C0 == -8..36
Rect ==
  /\ st = "elem" /\ More
  /\ \E x \in Pick(C0), y \in Pick(C0), w \in Pick(0..30), h \in Pick(0..24), r \in Pick({"no", "no", "rx", "ry", "both", "zero"}), rx \in Pick(1..20), ry \in Pick(1..16) :
       LET rr == CASE r = "rx" -> <<rx, rx>> [] r = "ry" -> <<ry, ry>> [] r = "both" -> <<rx, ry>> [] OTHER -> <<0, 0>>
           \* radii in quarters, at most half the size
           ax == Min2(2 * rr[1], w)   ay == Min2(2 * rr[2], h)
           rnd == rr[1] > 0
           X == Q(x)  Y == Q(y)  W == Q(w)  H == Q(h)  A == 16 * ax  B == 16 * ay
           ln(a, b) == [k |-> "line", a |-> a, b |-> b]
           arc(a, b, c) == [k |-> "arc", a |-> a, b |-> b, c |-> c, dc |-> 1, ds |-> 0, A |-> A, B |-> B, s |-> -1]
           g == IF w = 0 \/ h = 0 THEN <<>>
                ELSE IF ~rnd THEN <<ln(<<X, Y>>, <<X + W, Y>>), ln(<<X + W, Y>>, <<X + W, Y + H>>), ln(<<X + W, Y + H>>, <<X, Y + H>>), ln(<<X, Y + H>>, <<X, Y>>)>>
                ELSE <<ln(<<X + A, Y>>, <<X + W - A, Y>>), arc(<<X + W - A, Y>>, <<X + W, Y + B>>, <<X + W - A, Y + B>>),
                       ln(<<X + W, Y + B>>, <<X + W, Y + H - B>>), arc(<<X + W, Y + H - B>>, <<X + W - A, Y + H>>, <<X + W - A, Y + H - B>>),
                       ln(<<X + W - A, Y + H>>, <<X + A, Y + H>>), arc(<<X + A, Y + H>>, <<X, Y + H - B>>, <<X + A, Y + H - B>>),
                       ln(<<X, Y + H - B>>, <<X, Y + B>>), arc(<<X, Y + B>>, <<X + A, Y>>, <<X + A, Y + B>>)>>
           t(v, i) == TLCEval(Ln(v, Top.ref[i]))
           as == (IF x = 0 THEN <<>> ELSE << <<"x", t(x, 1)>> >>) \o (IF y = 0 THEN <<>> ELSE << <<"y", t(y, 2)>> >>)
                 \o << <<"width", t(w, 1)>>, <<"height", t(h, 2)>> >>
                 \o (IF r \in {"rx", "both"} THEN << <<"rx", t(rx, 1)>> >> ELSE <<>>)
                 \o (IF r \in {"ry", "both"} THEN << <<"ry", t(ry, 2)>> >> ELSE IF r = "rx" /\ rx % 2 = 0 THEN << <<"ry", "auto">> >> ELSE <<>>)
                 \o (IF r = "zero" THEN << <<"rx", "0">>, <<"ry", t(ry, 2)>> >> ELSE <<>>)
       IN \E as2 \in {as} : Draw("rect", as2, g)
Round ==
  /\ st = "elem" /\ More
  /\ \E x \in Pick(C0), y \in Pick(C0), rx \in Pick(1..20), ry \in Pick(1..16), el \in Pick({"circle", "ellipse", "ellipse", "auto"}) :
       LET t(v, i) == TLCEval(Ln(v, Top.ref[i]))
           ctr == (IF x = 0 THEN <<>> ELSE << <<"cx", t(x, 1)>> >>) \o (IF y = 0 THEN <<>> ELSE << <<"cy", t(y, 2)>> >>)
           as == CASE el = "circle" -> ctr \o << <<"r", t(rx, 3)>> >>
                   [] el = "auto" -> ctr \o (IF rx % 2 = 0 THEN << <<"rx", t(rx, 1)>> >> ELSE << <<"ry", t(rx, 2)>>, <<"rx", "auto">> >>)
                   [] OTHER -> ctr \o << <<"rx", t(rx, 1)>>, <<"ry", t(ry, 2)>> >>
           g == << EllG(<<x, y>>, rx, IF el = "ellipse" THEN ry ELSE rx) >>
       IN \E as2 \in {as} : Draw(IF el = "auto" THEN "ellipse" ELSE el, as2, g)
Flat(ps) == [i \in 1..(2 * Len(ps)) |-> ps[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
Closed(ps) == [i \in 1..Len(ps) |-> LineG(ps[i], ps[IF i = Len(ps) THEN 1 ELSE i + 1])]
Poly ==
  /\ st = "elem" /\ More
  /\ \E m \in Pick(3..7), tag \in Pick({"polygon", "polyline", "polygon", "line"}) :
     \E ps \in {[i \in 1..m |-> <<RandomElement(C0), RandomElement(C0)>>]} :
       LET nt == TLCEval(NumList(Flat(ps), NoNum).t)
           as == IF tag = "line" THEN << <<"x1", PlainNum(ps[1][1]).t>>, <<"y1", PlainNum(ps[1][2]).t>>, <<"x2", PlainNum(ps[2][1]).t>>, <<"y2", PlainNum(ps[2][2]).t>> >>
                 ELSE << <<"points", nt>> >>
       IN \E as2 \in {as} : Draw(tag, as2, IF tag = "line" THEN <<>> ELSE Closed(ps))

(* ------------------------------------------------------------------ paths *)
(* pen: c current point, s start of the subpath, k control point of the last
   curve, pk its kind ("q", "c" or ""), g pieces so far, on: a subpath is open
   with at least one segment, t text, last: last command letter, prev: last
   number written                                                           *)
StartPath ==
  /\ st = "elem" /\ More
  /\ st' = "path"
  /\ \E x \in Pick(C0), y \in Pick(C0), m \in Pick({"M", "m"}) : \E nt \in {NumList(<<x, y>>, NoNum)} :
       pen' = [c |-> <<x, y>>, s |-> <<x, y>>, k |-> <<0, 0>>, pk |-> "", g |-> <<>>, on |-> FALSE, t |-> m \o nt.t, last |-> m,
               prev |-> nt, num |-> 0, err |-> FALSE]
  /\ UNCHANGED <<top, stack, txt, shp, cnt>>
Shut(p) == IF p.on /\ p.c # p.s THEN Append(p.g, LineG(p.c, p.s)) ELSE p.g
Lim(pt) == \A i \in 1..2 : pt[i] >= -40 /\ pt[i] <= 70
(* write command letter l with numbers vs; the letter may be left out if it
   repeats the last one (after a moveto, a lineto is implied) *)
Write(p, l, vs) ==
  LET same == (p.last = l /\ l \notin {"M", "m", "Z", "z"}) \/ (p.last = "M" /\ l = "L") \/ (p.last = "m" /\ l = "l")
      omit == TLCEval(same /\ RandomElement(1..3) > 1)
      sp == TLCEval(RandomElement({"", "", " ", "\n"}))
      nt == TLCEval(NumList(vs, IF omit THEN p.prev ELSE NoNum))
  IN [t |-> p.t \o (IF omit THEN "" ELSE sp \o l) \o nt.t, prev |-> nt, last |-> IF omit /\ p.last \in {"M", "m"} THEN p.last ELSE l]
Rel(p, pt, rel) == IF rel THEN <<pt[1] - p.c[1], pt[2] - p.c[2]>> ELSE pt
Step(p, w, np, piece, kc, pk) ==
  [p EXCEPT !.c = np, !.k = kc, !.pk = pk, !.g = p.g \o piece, !.on = TRUE,
            !.t = w.t, !.prev = w.prev, !.last = w.last, !.num = @ + 1]
Pt(salt) == LET x == TLCEval(RandomElement(C0)) y == TLCEval(RandomElement(C0)) IN <<x, y>>
InPath == st = "path" /\ ~pen.err /\ pen.num < 9
Keep == UNCHANGED <<st, top, stack, txt, shp, cnt>>
PMove ==
  /\ InPath /\ pen.num > 0
  /\ \E q \in {Pt(1)}, rel \in Pick(BOOLEAN) :
     \E w \in {Write(pen, IF rel THEN "m" ELSE "M", Rel(pen, q, rel))} :
       pen' = [pen EXCEPT !.g = Shut(pen), !.on = FALSE, !.s = q, !.c = q, !.pk = "", !.t = w.t, !.prev = w.prev, !.last = w.last, !.num = @ + 1]
  /\ Keep
PClose ==
  /\ InPath
  /\ \E l \in Pick({"Z", "z"}) :
     \E w \in {Write(pen, l, <<>>)} :
       pen' = [pen EXCEPT !.g = Shut(pen), !.on = FALSE, !.c = pen.s, !.pk = "", !.t = w.t, !.prev = NoNum, !.last = l, !.num = @ + 1]
  /\ Keep
PLine ==
  /\ InPath
  /\ \E q \in {Pt(1)}, rel \in Pick(BOOLEAN), k \in Pick({"L", "L", "H", "V"}) :
     LET np == CASE k = "L" -> q [] k = "H" -> <<q[1], pen.c[2]>> [] k = "V" -> <<pen.c[1], q[2]>>
         r == Rel(pen, np, rel)
         vs == CASE k = "L" -> r [] k = "H" -> <<r[1]>> [] k = "V" -> <<r[2]>>
         l == IF ~rel THEN k ELSE CASE k = "L" -> "l" [] k = "H" -> "h" [] k = "V" -> "v"
     IN \E w \in {Write(pen, l, vs)} : pen' = Step(pen, w, np, <<LineG(pen.c, np)>>, <<0, 0>>, "")
  /\ Keep
QuadG(a, b, c) == [k |-> "quad", a |-> QP(a), b |-> QP(b), c |-> QP(c)]
PQuad ==
  /\ InPath
  /\ \E q \in {Pt(1)}, c1 \in {Pt(2)}, rel \in Pick(BOOLEAN), sm \in Pick(BOOLEAN) :
     LET ctl == IF ~sm THEN c1 ELSE IF pen.pk = "q" THEN <<2 * pen.c[1] - pen.k[1], 2 * pen.c[2] - pen.k[2]>> ELSE pen.c
         l == IF sm THEN (IF rel THEN "t" ELSE "T") ELSE (IF rel THEN "q" ELSE "Q")
         vs == (IF sm THEN <<>> ELSE Rel(pen, ctl, rel)) \o Rel(pen, q, rel)
         \* a smooth curve without a curve before it is a straight line
         g == IF sm /\ pen.pk # "q" THEN LineG(pen.c, q) ELSE QuadG(pen.c, ctl, q)
     IN /\ Lim(ctl)
        /\ \E w \in {Write(pen, l, vs)} : pen' = Step(pen, w, q, <<g>>, ctl, "q")
  /\ Keep
CubG(a, b, c, d) ==
  LET A == QP(a) B == QP(b) C == QP(c) E == QP(d) IN
  [k |-> "cub", fl |-> [i \in 1..(NF + 1) |-> Bez(A, B, C, E, i - 1)], m |-> CubM(A, B, C, E)]
PCub ==
  /\ InPath
  /\ \E q \in {Pt(1)}, c1 \in {Pt(2)}, c2 \in {Pt(3)}, rel \in Pick(BOOLEAN), sm \in Pick(BOOLEAN) :
     LET ctl == IF ~sm THEN c1 ELSE IF pen.pk = "c" THEN <<2 * pen.c[1] - pen.k[1], 2 * pen.c[2] - pen.k[2]>> ELSE pen.c
         l == IF sm THEN (IF rel THEN "s" ELSE "S") ELSE (IF rel THEN "c" ELSE "C")
         vs == (IF sm THEN <<>> ELSE Rel(pen, ctl, rel)) \o Rel(pen, c2, rel) \o Rel(pen, q, rel)
     IN /\ Lim(ctl)
        /\ \E w \in {Write(pen, l, vs)} : \E g \in {CubG(pen.c, ctl, c2, q)} : pen' = Step(pen, w, q, <<g>>, c2, "c")
  /\ Keep
(* arcs: the current point is at angle u1 of an ellipse with half axes rx, ry
   (halves), the end at angle u2; directions with rational sine and cosine *)
Unit5 == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<-3, 4>>, <<3, -4>>, <<-3, -4>>, <<4, 3>>, <<-4, 3>>, <<4, -3>>, <<-4, -3>>}
Axis5 == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>}
Dirs == {[c |-> 1, s |-> 0, h |-> 1, t |-> {"0", "180", "-360", "0.0", "540"}], [c |-> 0, s |-> 1, h |-> 1, t |-> {"90", "270", "-90"}]}
Dirs2 == {[c |-> 4, s |-> 3, h |-> 5, t |-> {"36.869897646", "-143.13010235"}], [c |-> -3, s |-> 4, h |-> 5, t |-> {"126.86989765"}], [c |-> 3, s |-> -4, h |-> 5, t |-> {"-53.130102354"}]}
Flag(b) == IF b THEN "1" ELSE "0"
PArc ==
  /\ InPath
  /\ \E kx \in Pick(1..3), ky \in Pick(1..3), gen \in Pick(1..3), rel \in Pick(BOOLEAN), sw \in Pick(BOOLEAN), small \in Pick(1..3), neg \in Pick(1..4), circ \in Pick(1..3) :
     \E dir \in Pick(IF gen = 1 THEN Dirs2 ELSE Dirs) :
     \E u1 \in Pick(IF gen = 1 THEN Axis5 ELSE Unit5) :
     \E u2 \in Pick((IF gen = 1 THEN Axis5 ELSE Unit5) \ {u1}) :
     LET ky2 == IF circ = 1 THEN kx ELSE ky
         rx == 5 * kx   ry == 5 * ky2
         \* offset of the point at u from the centre, in halves
         off(u) == LET X == kx * u[1]  Y == ky2 * u[2]
                   IN <<(dir.c * X - dir.s * Y) \div dir.h, (dir.s * X + dir.c * Y) \div dir.h>>
         ctr == <<pen.c[1] - off(u1)[1], pen.c[2] - off(u1)[2]>>
         np == <<ctr[1] + off(u2)[1], ctr[2] + off(u2)[2]>>
         cr == u1[1] * u2[2] - u1[2] * u2[1]
         large == IF cr = 0 THEN RandomElement(BOOLEAN) ELSE (cr > 0) # sw
         half == cr = 0 /\ small = 1          \* radii too small: scaled up until the ellipse just reaches
         sx == IF half THEN 2 * kx ELSE 2 * rx   sy == IF half THEN 2 * ky2 ELSE 2 * ry      \* in quarters
         rt == (IF neg = 1 THEN "-" ELSE "") \o Dec(sx, 4)
         ry1 == Dec(sy, 4)
         r == Rel(pen, np, rel)
         same == pen.last = (IF rel THEN "a" ELSE "A")
         g == [k |-> "arc", a |-> QP(pen.c), b |-> QP(np), c |-> QP(ctr), dc |-> dir.c, ds |-> dir.s, A |-> Q(rx) * dir.h, B |-> Q(ry) * dir.h, s |-> IF sw THEN -1 ELSE 1]
     IN /\ Lim(np)
        /\ \E nx \in {Spell(r[1])} : \E nt \in {NumList(<<r[2]>>, nx)} :
           \E ph \in Pick(dir.t), lf \in {large}, s1 \in Pick({" ", ",", "\n", " , "}), s2 \in Pick({" ", ",", ""}), s3 \in Pick({" ", ",", ""}), omit \in {same /\ OneIn(2, r)} :
           \E w \in {[t |-> pen.t \o (IF omit THEN " " ELSE IF rel THEN "a" ELSE "A") \o rt \o s1 \o ry1 \o s1 \o ph \o s1
                          \o Flag(lf) \o s2 \o Flag(sw) \o s3 \o nx.t \o nt.t,
                     prev |-> nt, last |-> IF rel THEN "a" ELSE "A"]} :
             pen' = Step(pen, w, np, <<g>>, <<0, 0>>, "")
  /\ Keep
(* degenerate segments: nothing is added but the pen's memory of curves is lost *)
PNull ==
  /\ InPath /\ pen.num > 0
  /\ \E k \in Pick({"l", "h", "L", "A", "rx0"}), q \in {Pt(1)} :
     LET w == CASE k = "l" -> Write(pen, "l", <<0, 0>>) [] k = "h" -> Write(pen, "h", <<0>>) [] k = "L" -> Write(pen, "L", pen.c)
                [] k = "A" -> [t |-> pen.t \o "A5 3 0 1 0 " \o PlainNum(pen.c[1]).t \o " " \o PlainNum(pen.c[2]).t, prev |-> NoNum, last |-> "-"]
                [] k = "rx0" -> [t |-> pen.t \o "A0 3 20 1 0 " \o PlainNum(q[1]).t \o " " \o PlainNum(q[2]).t, prev |-> NoNum, last |-> "-"]
     IN \E v \in {w} : pen' = Step(pen, v, IF k = "rx0" THEN q ELSE pen.c, IF k = "rx0" THEN <<LineG(pen.c, q)>> ELSE <<>>, <<0, 0>>, "")
  /\ Keep
(* an error in the path data: what precedes it is drawn *)
PErr ==
  /\ BAD /\ InPath /\ pen.num > 1
  /\ \E e \in Pick({" L 5", " Q 1 2 3", "#", " x 3 4", " L 5,", " C 1 2 3 4 5", " A 5 5 0 2 1 9 9", " A 5 5 0 1 9 9", " l e5 3", " M,4 5", " L .. 4", " L 1 - 2", " A 5 5 0 1", " H", " y", " L 3 &#x20ac;", " V z"}),
        tail \in Pick({"", " L 30 30 L 3 30 z", " M 2 2 H 18 V 18 z"}) :
       pen' = [pen EXCEPT !.t = @ \o e \o tail, !.err = TRUE]
  /\ Keep
EndPath ==
  /\ st = "path" /\ pen.num > 1
  /\ \E f \in {PickXf(cnt)}, id \in {PickId(cnt)}, sp \in Pick({"", "", " "}) :
    LET M == MulM(Top.M, f.M)
        t == TLCEval(Leaf("path", << <<"d", sp \o pen.t \o sp>> >> \o IdAttr(id) \o XfAttr(f)))
    IN /\ Fits(M)
       /\ txt' = txt \o t
       /\ shp' = IF Act(id.s) /\ ~Top.dead THEN Append(shp, [M |-> M, g |-> Shut(pen)]) ELSE shp
  /\ cnt' = cnt + 1 /\ st' = "elem" /\ pen' = None
  /\ UNCHANGED <<top, stack>>
(* elements that draw nothing *)
Empty ==
  /\ st = "elem" /\ More
  /\ \E e \in Pick({<<"path", << <<"d", "">> >>>>, <<"path", << <<"d", "M 3 4">> >>>>, <<"path", << <<"d", "M 3 4 z">> >>>>, <<"path", <<>>>>, <<"rect", << <<"width", "4">> >>>>,
                    <<"circle", << <<"r", "0">> >>>>, <<"circle", <<>>>>, <<"ellipse", << <<"rx", "0">>, <<"ry", "4">> >>>>, <<"polygon", << <<"points", "">> >>>>,
                    <<"polygon", << <<"points", "3 4">> >>>>, <<"polyline", << <<"points", "3 4 8 4">> >>>>, <<"line", <<>>>>, <<"text", << <<"x", "3">> >>>>,
                    <<"use", << <<"href", "#a">> >>>>, <<"image", << <<"width", "9">>, <<"height", "9">> >>>>, <<"rect", << <<"width", "4">>, <<"height", "-4">> >>>>,
                    <<"line", << <<"x1", "3">>, <<"x2", "3">>, <<"y1", "4">>, <<"y2", "4">> >>>>, <<"line", << <<"x2", "3">>, <<"y2", "4">> >>>>,
                    <<"path", << <<"d", "M3 4 L3 4 L 3 4z">> >>>>, <<"g", <<>>>>, <<"svg", <<>>>>}) :
       \E t \in {Leaf(e[1], e[2])} : txt' = txt \o t
  /\ cnt' = cnt + 1
  /\ UNCHANGED <<st, top, stack, shp, pen>>

RECURSIVE CloseAll(_, _)
CloseAll(t, s) == IF s = <<>> THEN t ELSE LET u == TLCEval(CloseTop(t, s[Len(s)].tag)) IN CloseAll(u, SubSeq(s, 1, Len(s) - 1))
Finish ==
  /\ st = "elem" /\ cnt >= NLO /\ (cnt >= NHI \/ OneIn(3, cnt))
  /\ \E tail \in Pick({"", "\n", "<!-- end -->\n"}) : txt' = CloseAll(txt, stack) \o tail
  /\ st' = "done"
  /\ UNCHANGED <<top, stack, shp, pen, cnt>>

Init == st = "new" /\ top = None /\ stack = <<>> /\ txt = "" /\ shp = <<>> /\ pen = None /\ cnt = 0
(* one random choice per step, weighted *)
Elem ==
  /\ st = "elem"
  /\ \E k \in Pick(1..20) :
       CASE k <= 2 -> OpenG
         [] k = 3 -> OpenSvg
         [] k = 4 -> (\E j \in Pick(1..4) : IF j = 1 THEN OpenDead ELSE IF j = 2 THEN OpenNs ELSE OpenG)
         [] k \in 5..6 -> CloseE
         [] k = 7 -> IF OneIn(2, k) THEN Empty ELSE CloseE
         [] k = 8 -> Finish
         [] OTHER -> IF RandomElement(1..10) <= PATHW THEN StartPath ELSE \E j \in Pick(1..3) : IF j = 1 THEN Rect ELSE IF j = 2 THEN Round ELSE Poly
Path ==
  /\ st = "path"
  /\ \E k \in Pick(1..24) :
       CASE k <= 5 -> PLine
         [] k \in 6..8 -> PQuad
         [] k \in 9..11 -> PCub
         [] k \in 12..15 -> PArc
         [] k = 16 -> PMove
         [] k \in 17..18 -> PClose
         [] k = 19 -> PNull
         [] k = 20 -> (IF OneIn(2, k) THEN PErr ELSE PLine)
         [] OTHER -> EndPath
Idle == st # "done" /\ UNCHANGED vars
Next == Start \/ Elem \/ Path \/ Idle
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ result *)
(* sample points: near random shapes, in page coordinates (64ths), with the
   answer; and where they are in mm: (x, y) / den                           *)
NPT == 40
Anchor(g) == IF g.k = "cub" THEN g.fl[RandomElement(1..(NF + 1))] ELSE IF g.k = "ell" THEN g.c ELSE IF RandomElement(1..2) = 1 THEN g.a ELSE g.b
RandPt(k) ==
  IF shp = <<>> \/ k % 8 = 0
  THEN LET x == TLCEval(RandomElement(-300..1500)) y == TLCEval(RandomElement(-300..1500)) IN <<x, y>>
  ELSE LET s == TLCEval(shp[RandomElement(1..Len(shp))])
           a == TLCEval(IF s.g = <<>> THEN <<0, 0>> ELSE Anchor(s.g[RandomElement(1..Len(s.g))]))
           b == TLCEval(IF s.g = <<>> THEN <<0, 0>> ELSE Anchor(s.g[RandomElement(1..Len(s.g))]))
           t == TLCEval(RandomElement(0..8))
           rx == TLCEval(RandomElement(-200..200)) ry == TLCEval(RandomElement(-200..200))
       IN Forth(s.M, <<(a[1] * t + b[1] * (8 - t)) \div 8 + rx, (a[2] * t + b[2] * (8 - t)) \div 8 + ry>>)
OnPage(p) == Abs(p[1]) <= 12000 /\ Abs(p[2]) <= 12000
Mm(p) == LET G == top.G IN <<G.a * p[1] + G.c * p[2] + 64 * G.e, G.b * p[1] + G.d * p[2] + 64 * G.f>>
Points == LET ps == TLCEval([k \in 1..NPT |-> RandPt(k)])
          IN [k \in 1..NPT |-> IF OnPage(ps[k]) THEN Mm(ps[k]) \o <<DocIn(shp, 1, ps[k], NO)>> ELSE <<0, 0, UNK>>]
Emit == st = "done" =>
  PrintT(ToJson([svg |-> txt, layer |-> top.layer, dpi |-> top.dpi, center |-> top.center, outer |-> top.outer, den |-> 64 * top.G.D, pts |-> Points, n |-> Len(shp), kind |-> top.kind]))

(* ------------------------------------------------- laws of the specification *)
(* matrices: going to a shape and back is the identity up to rounding *)
MatLaw == st = "elem" => \A i \in 1..Len(stack) :
  LET M == stack[i].M  p == Forth(M, <<640, -320>>)  q == Back(M, p) IN Abs(q[1] - 640) <= 20 /\ Abs(q[2] + 320) <= 20
=============================================================================
