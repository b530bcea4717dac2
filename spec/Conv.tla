------------------------------- MODULE Conv --------------------------------
(* Terms, queries, statements and programs as read from JSON: the same     *)
(* tuples, except that annotation sets arrive as sequences.                *)
EXTENDS Integers, Sequences, TLC
ST == INSTANCE Static
RECURSIVE CT(_), CQ(_), CQ2(_), CB(_)
CTs(q) == TLCEval([i \in 1..Len(q) |-> CT(q[i])])
CT(t) ==
  IF t[1] = "f" THEN <<"f", t[2], CTs(t[3]), {CT(t[4][i]) : i \in 1..Len(t[4])}>>
  ELSE IF t[1] = "l" THEN <<"l", CTs(t[2])>>
  ELSE IF t[1] = "c" THEN <<"c", CT(t[2]), CT(t[3])>>
  ELSE IF t[1] = "u" THEN <<"u", t[2], CT(t[3])>>
  ELSE IF t[1] = "e" THEN <<"e", t[2], CT(t[3]), CT(t[4])>>
  ELSE t
CTset(q) == {CT(q[i]) : i \in 1..Len(q)}
CQ(q) == IF q[1] \in {"and", "or", "not"} THEN CQ2(ST!Folded(q)) ELSE CQ2(q)
CQ2(q) ==
  IF q[1] \in {"true", "false"} THEN q
  ELSE IF q[1] = "term" THEN <<"term", CT(q[2])>>
  ELSE IF q[1] = "eq" THEN <<"eq", CT(q[2]), CT(q[3])>>
  ELSE IF q[1] \in {"and", "or"} THEN <<q[1], CQ(q[2]), CQ(q[3])>>
  ELSE IF q[1] = "not" THEN <<"not", CQ(q[2])>>
  ELSE <<"act", q[2], CTs(q[3])>>
CStmt(x) ==
  LET k == x[1] IN
  IF k \in {"add", "del", "ach", "later", "test", "abolish"} THEN <<k, CT(x[2])>>
  ELSE IF k = "q" THEN <<"q", CQ(x[2])>>
  ELSE IF k = "if" THEN <<"if", CQ(x[2]), CB(x[3]), CB(x[4])>>
  ELSE IF k \in {"while", "for"} THEN <<k, CQ(x[2]), CB(x[3])>>
  ELSE IF k = "send" THEN <<"send", CT(x[2]), CT(x[3]), CT(x[4])>>
  ELSE IF k = "bcast" THEN <<"bcast", CT(x[2]), CT(x[3])>>
  ELSE IF k = "wait" THEN <<"wait", IF x[2] = <<>> THEN <<>> ELSE <<x[2][1], CT(x[2][2])>>, CTs(x[3])>>
  ELSE x
CB(b) == TLCEval([i \in 1..Len(b) |-> CStmt(b[i])])
CRule(r) == [head |-> CT(r.head), q |-> CQ(r.q), nv |-> r.nv]
CPlan(p) == [trig |-> p.trig, head |-> CT(p.head), ctx |-> CQ(p.ctx), body |-> CB(p.body),
             nv |-> p.nv, label |-> p.label]
CProg(p) ==
  [rules |-> TLCEval([i \in 1..Len(p.rules) |-> CRule(p.rules[i])]),
   plans |-> TLCEval([i \in 1..Len(p.plans) |-> CPlan(p.plans[i])]),
   beliefs |-> CTs(p.beliefs), goals |-> CTs(p.goals)]
=============================================================================
