------------------------------ MODULE ActTable ------------------------------
(***************************************************************************)
(* Rows about the built-in actions:                                        *)
(*  act  prior: unifications made before; facts, rules; name, args; nv     *)
(*       st    "ok", or "err" when the action raised an error              *)
(*       sols  the values of the variables 1..nv at every answer, in order *)
(*       after their values when no more answers were found                *)
(*       out   the texts printed;  clock  two readings of date and time,   *)
(*             before and after                                            *)
(***************************************************************************)
EXTENDS TableBase, Solver, Conv

RECURSIVE Prior(_, _)
Prior(s, q) ==
  IF q = <<>> THEN URes("yes", s)
  ELSE LET r == Uni(s, CT(Head(q)[1]), CT(Head(q)[2])) IN
       IF r.st = "yes" THEN Prior(r.s, Tail(q)) ELSE r

Values(s, n) ==
  LET v == FrzSeq(s, [j \in 1..n |-> <<"v", j>>], <<>>) IN
  IF v[1] = "ok" THEN OK(CanonSeq(v[2])) ELSE v
Obs(vals) == CanonSeq(CTs(vals))

RECURSIVE QR(_)
QR(q) == IF q[1] = "term" THEN <<"term", CT(q[2])>>
         ELSE IF q[1] = "eq" THEN <<"eq", CT(q[2]), CT(q[3])>>
         ELSE IF q[1] \in {"and", "or"} THEN <<q[1], QR(q[2]), QR(q[3])>>
         ELSE IF q[1] = "not" THEN <<"not", QR(q[2])>> ELSE q

\* date and time: the reading before or the one after
Clock(r, args, s, c) ==
  {LET w == TLCEval([j \in 1..3 |-> N(t[j])])
       u1 == Uni(s, args[1], w[1])
       u2 == IF u1.st = "yes" THEN Uni(u1.s, args[2], w[2]) ELSE u1
       u3 == IF u2.st = "yes" THEN Uni(u2.s, args[3], w[3]) ELSE u2
   IN IF u3.st = "yes" THEN ARes("ok", <<u3.s>>, c) ELSE IF u3.st = "no" THEN ARes("ok", <<>>, c) ELSE ARes(u3.st, <<>>, c)
   : t \in {r.clock[i] : i \in 1..Len(r.clock)}}

Fits(a, r) ==      \* an outcome of the specification and the observed one
  /\ Len(a.sols) = Len(r.sols)
  /\ (IF a.st = "ok" THEN r.st = "ok" ELSE r.st = "err")
  /\ \A i \in 1..Len(a.sols) : LET v == Values(a.sols[i], r.nv) IN v[1] = "ok" /\ SameUpTo(v[2], Obs(r.sols[i]))

\* expressions that cannot have a value are refused when the program is loaded
RECURSIVE Ex(_)
Ex(t) ==
  \/ t[1] \in {"u", "e"}
  \/ t[1] = "f" /\ ((\E j \in 1..Len(t[3]) : Ex(t[3][j])) \/ \E a \in t[4] : Ex(a))
  \/ t[1] = "l" /\ \E j \in 1..Len(t[2]) : Ex(t[2][j])
  \/ t[1] = "c" /\ (Ex(t[2]) \/ Ex(t[3]))
HasExpr(q) == \E i \in 1..Len(q) : Ex(q[i])

Expected(a) == (IF a.st = "ok" THEN "" ELSE "an error after ") \o ToString(Len(a.sols)) \o " answers"

JudgeAct(r) ==
  LET p == Prior(EmptySub, r.prior) IN
  IF p.st # "yes" THEN "und"
  ELSE LET args == CTs(r.args)
           ag == [name |-> "a", bel |-> CTset(r.facts),
                  rules |-> TLCEval([i \in 1..Len(r.rules) |->
                              [head |-> CT(r.rules[i].head), q |-> QR(r.rules[i].q), nv |-> r.rules[i].nv]])]
           A == TLCEval(IF r.name \in {".date", ".time"} THEN Clock(r, args, p.s, r.nv)
                        ELSE ActOut(r.name, args, p.s, r.nv, ag))
           before == Values(p.s, r.nv)
       IN IF \E a \in A : a.st = "und" THEN "und"
          ELSE IF \E a \in A : \E i \in 1..Len(a.sols) : Values(a.sols[i], r.nv)[1] # "ok" THEN "und"
          ELSE IF before[1] # "ok" THEN "und"
          ELSE IF r.st = "not loaded" /\ HasExpr(args \o CTs([i \in 1..Len(r.prior) |-> r.prior[i][2]])) THEN "und"
          ELSE IF r.st \notin {"ok", "err"} THEN r.st
          ELSE IF \A a \in A : ~Fits(a, r) THEN
            "expected " \o Expected(CHOOSE a \in A : TRUE) \o ", got " \o (IF r.st = "ok" THEN "" ELSE "an error after ")
               \o ToString(Len(r.sols)) \o " (or other values)"
          ELSE IF r.st = "ok" /\ ~SameUpTo(before[2], Obs(r.after)) THEN "bindings left behind"
          ELSE IF r.name # ".print" \/ r.st # "ok" THEN "ok"
          ELSE LET x == FrzSeq(p.s, args, <<>>)  y == StrSeq(x[2], <<>>) IN
               IF y[1] # "ok" THEN "und"
               ELSE IF r.out = <<JoinStr(y[2], " ")>> THEN "ok" ELSE "wrong text printed"
JudgeRow(r) == IF r.k = "x" THEN r.what ELSE JudgeAct(r)
=============================================================================
