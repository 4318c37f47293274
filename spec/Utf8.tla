-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* The encoding of text: code points as sequences of bytes (RFC 3629) and  *)
(* the escapes of string literals.                                         *)
(*                                                                         *)
(* Enc is the definition.  Decoding is its inverse: a byte sequence starts *)
(* with a character iff Enc of some code point is a prefix of it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS LEN,       \* calls of a history
          ITEMS      \* pieces of a text at most
VARIABLES n, h
vars == <<n, h>>

Ok(c) == c > 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* the only code points a text of at least k bytes may start with *)
Cand(s) ==
  LET b(i) == IF i <= Len(s) THEN s[i] ELSE 0 IN
  {s[1], (b(1) % 32) * 64 + (b(2) % 64), (b(1) % 16) * 4096 + (b(2) % 64) * 64 + (b(3) % 64),
   (b(1) % 8) * 262144 + (b(2) % 64) * 4096 + (b(3) % 64) * 64 + (b(4) % 64)}
(* <<code point, length>>; <<0, 0>>: no character *)
Dec1(s) == LET hit == {c \in Cand(s) : Ok(c) /\ IsPrefix(Enc(c), s)} IN
           IF hit = {} THEN <<0, 0>> ELSE LET c == CHOOSE c \in hit : TRUE IN <<c, Len(Enc(c))>>
RECURSIVE Dec(_)
(* the code points, then 0 at the end or -1 at an error; a NUL byte ends the text *)
Dec(s) == IF s = <<>> \/ s[1] = 0 THEN <<0>>
          ELSE LET d == Dec1(s) IN IF d[2] = 0 THEN <<-1>> ELSE <<d[1]>> \o Dec(SubSeq(s, d[2] + 1, Len(s)))

(* ------------------------------------------------------- string escapes *)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
RECURSIVE Hex(_, _, _)
Hex(s, i, k) == IF k = 0 THEN 0
                ELSE IF i > Len(s) \/ HexVal(s[i]) = 99 THEN -1
                ELSE LET r == Hex(s, i + 1, k - 1) w == CASE k = 1 -> 1 [] k = 2 -> 16 [] k = 3 -> 256 [] k = 4 -> 4096 [] k = 5 -> 65536 [] OTHER -> 1048576
                     IN IF r < 0 THEN -1 ELSE HexVal(s[i]) * w + r
RECURSIVE Esc(_)
Esc(s) ==
  IF s = <<>> \/ s[1] = 0 THEN <<0>>
  ELSE IF s[1] # 92 THEN (LET d == Dec1(s) IN IF d[2] = 0 THEN <<-1>> ELSE <<d[1]>> \o Esc(SubSeq(s, d[2] + 1, Len(s))))
  ELSE LET c == s[2] rest(k) == SubSeq(s, 3 + k, Len(s))
           num(k, mx) == LET x == Hex(s, 3, k) IN IF x < 0 \/ x > mx THEN <<-1>> ELSE <<x>> \o Esc(rest(k))
       IN CASE c \in {92, 39, 34} -> <<c>> \o Esc(rest(0))
            [] c = 116 -> <<9>> \o Esc(rest(0)) [] c = 110 -> <<10>> \o Esc(rest(0)) [] c = 114 -> <<13>> \o Esc(rest(0))
            [] c = 120 -> num(2, 127) [] c = 117 -> num(4, 1114111) [] c = 85 -> num(6, 1114111)
            [] OTHER -> <<-1>>

(* ------------------------------------------------------------ generation *)
R(S) == {RandomElement(S)}
Edge == {1, 9, 65, 126, 127, 128, 129, 169, 191, 192, 255, 256, 383, 384, 2047, 2048, 2049, 4095, 4096, 8364, 55295, 57344, 65533, 65535,
         65536, 65537, 131071, 262143, 262144, 1048575, 1048576, 1114110, 1114111}
Code(z) == IF RandomElement(1..3) = 1 THEN RandomElement(Edge)
        ELSE LET k == RandomElement(1..4) IN
             IF k = 1 THEN RandomElement(32..126) ELSE IF k = 2 THEN RandomElement(128..2047)
             ELSE IF k = 3 THEN (LET c == RandomElement(2048..65535) IN IF Ok(c) THEN c ELSE 8364) ELSE RandomElement(65536..1114111)
Bad == {128, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 247, 248, 252, 254, 255}
(* one piece of a text: a character, a damaged one, an overlong one, a surrogate, too large, any byte *)
Piece(k) ==
  CASE k = 1 -> LET e == Enc(Code(0)) i == RandomElement(1..Len(e)) IN SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))
    [] k = 2 -> LET e == Enc(Code(0)) IN [e EXCEPT ![RandomElement(1..Len(e))] = RandomElement(1..255)]
    [] k = 3 -> LET c == RandomElement(1..127) IN <<192 + (c \div 64), 128 + (c % 64)>>
    [] k = 4 -> LET c == RandomElement(1..2047) IN <<224, 128 + (c \div 64), 128 + (c % 64)>>
    [] k = 5 -> LET c == RandomElement(1..65535) IN <<240, 128 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] k = 6 -> LET c == RandomElement(55296..57343) IN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] k = 7 -> LET c == RandomElement(1114112..2097151) IN <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] k = 8 -> <<RandomElement(Bad)>>
    [] k = 9 -> <<RandomElement(0..255)>>
    [] OTHER -> Enc(Code(0))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
Text(z) == Cat([i \in 1..RandomElement(0..ITEMS) |-> Piece(RandomElement(1..40))])
HexDigits == {48, 49, 50, 55, 56, 57, 65, 70, 97, 98, 102}
(* code points of \u and \U escapes are not surrogates and not 0, where the library promises nothing *)
Digits(k) == CASE k = 2 -> <<RandomElement(48..56), RandomElement(HexDigits \ {48})>>
               [] k = 4 -> <<RandomElement(HexDigits \ {48}), RandomElement(HexDigits), RandomElement(HexDigits), RandomElement(HexDigits)>>
               [] OTHER -> <<RandomElement({48, 49}), RandomElement({48, 49}), RandomElement(HexDigits \ {48}), RandomElement(HexDigits), RandomElement(HexDigits), RandomElement(HexDigits)>>
EPiece(k) ==
  CASE k = 1 -> <<92, RandomElement({92, 39, 34, 116, 110, 114})>>
    [] k = 2 -> <<92, 120>> \o Digits(2)
    [] k = 3 -> <<92, 117>> \o Digits(4)
    [] k = 4 -> <<92, 85>> \o Digits(6)
    [] k = 5 -> LET c == RandomElement({2, 4, 6}) d == <<92, CASE c = 2 -> 120 [] c = 4 -> 117 [] OTHER -> 85>> \o Digits(c) IN SubSeq(d, 1, RandomElement(2..Len(d)))
    [] k = 6 -> <<92, RandomElement((33..126) \ {92, 39, 34, 116, 110, 114, 120, 117, 85})>>
    [] OTHER -> Piece(RandomElement(1..60))
EText(z) == Cat([i \in 1..RandomElement(0..ITEMS) |-> EPiece(RandomElement(1..12))])
(* a backslash may not be the last byte *)
Proper(s) == s = <<>> \/ s[Len(s)] # 92
NoSurr(r) == \A i \in 1..Len(r) : ~(r[i] >= 55296 /\ r[i] <= 57343)

Log(o, a, r, x) == h' = Append(h, [o |-> o, a |-> a, r |-> {r}, x |-> x])
Decode == \E s \in {Text(n)} : Log("udec", s, 0, Dec(s))
Escape == \E s \in {EText(n)} : IF Proper(s) /\ 0 \notin {s[i] : i \in 1..Len(s)} /\ NoSurr(Esc(s)) THEN Log("uesc", s, 0, Esc(s)) ELSE h' = h
(* encode c into a buffer of k bytes *)
Encode == \E c \in {Code(0)}, k \in R(0..5) : Log("uenc", <<c, k>>, IF Len(Enc(c)) <= k THEN Len(Enc(c)) ELSE 0, IF Len(Enc(c)) <= k THEN Enc(c) ELSE <<>>)
Valid == \E c \in R({0, 1, 55295, 55296, 56000, 57343, 57344, 1114111, 1114112, 2000000} \cup (1..40) \cup Edge) : Log("uok", <<c>>, IF Ok(c) THEN 1 ELSE 0, <<>>)

Init == n = 0 /\ h = <<>>
Next == n < LEN /\ n' = n + 1 /\ \E o \in R(1..9) : CASE o <= 4 -> Decode [] o <= 7 -> Escape [] o = 8 -> Encode [] OTHER -> Valid
Spec == Init /\ [][Next]_vars
Emit == n = LEN => PrintT(ToJson([h |-> h]))
(* the definition is invertible, and every candidate is considered *)
RoundTrip == \A c \in Edge : Dec1(Enc(c) \o <<65>>) = <<c, Len(Enc(c))>>
=============================================================================
