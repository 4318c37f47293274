------------------------------ MODULE SynTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the reader by Syntax.  A record:                *)
(*   s: the bytes of the file, rc: the exit status, d: the bytes of the    *)
(*   dump of the parsed program, l: the line an error message names (0:    *)
(*   none), big: whether the structure is to be compared                    *)
(***************************************************************************)
EXTENDS Syntax, Json

CONSTANTS FILE, SHARDS,
          LINES         \* TRUE: judge the line of error messages, too
Trace == ndJsonDeserialize(FILE)
N == Len(Trace)

VARIABLES sh, pos, verdict
vars == <<sh, pos, verdict>>

(* the lines a message may name: the one of the wrong token; the one behind the last, if the file ends there; the one of the
   token after the wrong one if that is none at all *)
WrongLines(s, at) ==
  LET t == Tok(s, at)  u == IF t.t = "eof" THEN t ELSE Tok(s, t.to) IN
  {LineOf(s, at)} \cup (IF at > Len(s) THEN {LineOf(s, at) + 1} ELSE {}) \cup (IF u.t = "err" THEN {LineOf(s, u.at)} ELSE {})

Verdict(r) ==
  LET p == File(r.s) IN
  IF r.rc \notin {0, 1} THEN "the reader crashed"
  ELSE IF p.lvl = 2 THEN ""
  ELSE IF ~p.ok THEN
    (IF r.rc = 0 THEN "accepted a file that is not derivable from the grammar"
     ELSE IF r.l = 0 THEN "rejected without naming a line"
     ELSE IF LINES /\ ~p.lex /\ r.l \notin WrongLines(r.s, p.at) THEN "the error message names another line than the one of the wrong token"
     ELSE "")
  ELSE IF r.rc # 0 THEN (IF p.lvl = 0 THEN "rejected a file that is derivable from the grammar" ELSE "")
  ELSE LET q == File(r.d) IN
       IF ~q.ok THEN "the dump of the program is not readable"
       ELSE IF q.v # p.v THEN "the program read differs from the structure the grammar gives"
       ELSE ""

Init == /\ sh \in 1..SHARDS /\ pos = sh
        /\ verdict = IF pos <= N THEN Verdict(Trace[pos]) ELSE ""
Next == /\ pos + SHARDS <= N
        /\ pos' = pos + SHARDS /\ sh' = sh
        /\ verdict' = Verdict(Trace[pos'])
Spec == Init /\ [][Next]_vars
Report == verdict # "" => PrintT(ToJson([at |-> pos, what |-> verdict]))
=============================================================================
