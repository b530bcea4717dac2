------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Which programs are rejected when they are loaded, for programs as the   *)
(* traces give them (as read from JSON).  Rejected(p): "yes", "no", "und". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
G == INSTANCE Grammar
RECURSIVE TreeOf(_)
TreeOf(q) ==
  IF q[1] = "true" THEN <<"b", TRUE>>
  ELSE IF q[1] = "false" THEN <<"b", FALSE>>
  ELSE IF q[1] = "term" THEN q[2]
  ELSE IF q[1] = "eq" THEN <<"e", "=", q[2], q[3]>>
  ELSE IF q[1] = "and" THEN <<"e", "&", TreeOf(q[2]), TreeOf(q[3])>>
  ELSE IF q[1] = "or" THEN <<"e", "|", TreeOf(q[2]), TreeOf(q[3])>>
  ELSE IF q[1] = "not" THEN <<"u", "not", TreeOf(q[2])>>
  ELSE <<"f", q[2], q[3], <<>>>>
\* conditions without variables are folded: true | true has one answer, not two
Folded(q) == LET f == G!Fold("L", TreeOf(q)) IN
             IF f[1] = "ok" /\ f[2][1] = "b" THEN <<IF f[2][2] THEN "true" ELSE "false">> ELSE q
RECURSIVE SStmt(_), SBody(_)
SStmt(x) ==      \* a set of "ok" / "err" / "und"
  LET k == x[1]
      T(t) == {G!Fold("T", t)[1]}
      L(q) == {G!Fold("L", TreeOf(q))[1]}
  IN IF k \in {"add", "del", "ach", "later", "test"} THEN
       (IF x[2][1] \in {"f", "v", "w"} THEN T(x[2]) ELSE {"err"})
     ELSE IF k = "abolish" THEN T(x[2])
     ELSE IF k = "q" THEN L(x[2])
     ELSE IF k = "if" THEN L(x[2]) \cup SBody(x[3]) \cup SBody(x[4])
     ELSE IF k \in {"while", "for"} THEN L(x[2]) \cup SBody(x[3])
     ELSE IF k = "send" THEN T(x[2]) \cup T(x[3]) \cup T(x[4])
     ELSE IF k = "bcast" THEN T(x[2]) \cup T(x[3])
     ELSE IF k = "wait" THEN UNION {T(x[3][i]) : i \in 1..Len(x[3])}
     ELSE {}
SBody(b) == UNION {SStmt(b[i]) : i \in 1..Len(b)}
Rejected(p) ==
  LET R == UNION {{G!HeadT(p.rules[i].head)[1], G!Fold("L", TreeOf(p.rules[i].q))[1]} : i \in 1..Len(p.rules)}
           \cup UNION {{G!HeadT(p.plans[i].head)[1], G!Fold("L", TreeOf(p.plans[i].ctx))[1]} \cup SBody(p.plans[i].body)
                       : i \in 1..Len(p.plans)}
           \cup {G!HeadT(p.beliefs[i])[1] : i \in 1..Len(p.beliefs)}
           \cup {G!Fold("T", p.goals[i])[1] : i \in 1..Len(p.goals)}
  IN IF "err" \in R THEN "yes" ELSE IF "und" \in R THEN "und" ELSE "no"
=============================================================================
