----------------------------- MODULE ExprTable ------------------------------
(***************************************************************************)
(* Rows about expressions, given as tokens:                                *)
(*  expr  toks, env, bel, use, nv, st, vals                                *)
(*        env: the values <<name, term>> of some of the variables           *)
(*        use: where the expression stands                                 *)
(*          arg    argument of an action         vals = <<its value>>      *)
(*          goal   argument of a subgoal         vals = <<its value>>      *)
(*          unify  R = expression                vals = <<the value of R>> *)
(*          fact   an initial belief v(expr)     vals = <<its argument>>   *)
(*          cond   the condition of an if        vals = values of vars     *)
(*          ctx    the context of a plan         vals = values of vars     *)
(*          rule   the body of a rule            vals = <<>>               *)
(*          while  a loop left after one round   vals = <<>>               *)
(*        st: load (rejected), err (rejected or failed when evaluated),    *)
(*            yes (has a value; holds), no (does not hold), or a crash     *)
(***************************************************************************)
EXTENDS TableBase, Grammar, Solver, Conv

\* named variables; _ is the wildcard
RECURSIVE Wild(_)
Wild(t) ==
  IF t = <<"v", "_">> THEN <<"w">>
  ELSE IF t[1] = "f" THEN <<"f", t[2], TLCEval([i \in 1..Len(t[3]) |-> Wild(t[3][i])]),
                            TLCEval([i \in 1..Len(t[4]) |-> Wild(t[4][i])])>>
  ELSE IF t[1] = "l" THEN <<"l", TLCEval([i \in 1..Len(t[2]) |-> Wild(t[2][i])])>>
  ELSE IF t[1] = "c" THEN <<"c", Wild(t[2]), Wild(t[3])>>
  ELSE IF t[1] = "u" THEN <<"u", t[2], Wild(t[3])>>
  ELSE IF t[1] = "e" THEN <<"e", t[2], Wild(t[3]), Wild(t[4])>>
  ELSE t
ToTerm(t) == CT(Wild(t))

\* a folded condition as a query; <<"bad">> where it is none
RECURSIVE ToQuery(_)
ToQuery(t) ==
  IF t[1] = "b" THEN (IF t[2] THEN <<"true">> ELSE <<"false">>)
  ELSE IF t[1] = "u" /\ t[2] = "not" THEN <<"not", ToQuery(t[3])>>
  ELSE IF t[1] = "e" /\ t[2] = "&" THEN <<"and", ToQuery(t[3]), ToQuery(t[4])>>
  ELSE IF t[1] = "e" /\ t[2] = "|" THEN <<"or", ToQuery(t[3]), ToQuery(t[4])>>
  ELSE IF t[1] = "e" /\ t[2] = "=" THEN <<"eq", ToTerm(t[3]), ToTerm(t[4])>>
  ELSE IF t[1] = "e" /\ t[2] = "=.." THEN <<"bad">>
  ELSE IF t[1] = "f" /\ t[2] \in PureActions THEN <<"act", t[2], ToTerm(t)[3]>>
  ELSE <<"term", ToTerm(t)>>
RECURSIVE Bad(_)
Bad(q) == q[1] = "bad" \/ (q[1] \in {"and", "or", "not"} /\ \E i \in 2..Len(q) : Bad(q[i]))

RECURSIVE SubOf(_, _)
SubOf(env, i) == IF i > Len(env) THEN EmptySub ELSE (env[i][1] :> CT(env[i][2])) @@ SubOf(env, i + 1)

AgentOf(r) == [name |-> "a", bel |-> CTset(r.bel), rules |-> <<>>]
Vals(s, names) ==
  LET f == TLCEval([j \in 1..Len(names) |-> Frz(s, <<"v", names[j]>>)]) IN
  IF \E j \in 1..Len(names) : f[j] = UND THEN UND
  ELSE IF \E j \in 1..Len(names) : f[j] = ERR THEN ERR
  ELSE OK(CanonSeq([j \in 1..Len(names) |-> f[j][2]]))
Obs(vals) == CanonSeq(TLCEval([j \in 1..Len(vals) |-> CT(vals[j])]))

Value(r, e, s) ==       \* e: the value expected
  IF e[1] = "und" THEN "und"
  ELSE IF e[1] = "err" THEN (IF r.st = "err" THEN "ok" ELSE "expected an error, got " \o r.st)
  ELSE IF r.st # "yes" THEN "expected a value, got " \o r.st
  ELSE IF SameUpTo(CanonSeq(<<e[2]>>), Obs(r.vals)) THEN "ok" ELSE "wrong value"

\* a query: any of the ways in which it can turn out
Holds(r, q, s) ==
  LET R == Run(Machine(q, s), 0, <<>>, AgentOf(r))
      Agrees(x) ==
        IF x.st = "err" THEN r.st = "err"
        ELSE IF x.st = "fail" THEN r.st = "no"
        ELSE IF r.st # "yes" THEN FALSE
        ELSE IF r.use \notin {"cond", "ctx"} THEN TRUE
        ELSE LET v == Vals(x.s, r.names) IN
             IF v[1] = "err" THEN FALSE ELSE IF v[1] = "und" THEN TRUE ELSE SameUpTo(v[2], Obs(r.vals))
  IN IF \E x \in R : x.st = "und" \/ (x.st = "sol" /\ Vals(x.s, r.names)[1] # "ok") THEN "und"
     ELSE IF \E x \in R : Agrees(x) THEN "ok"
     ELSE "expected " \o (CHOOSE x \in R : TRUE).st \o ", got " \o r.st

Judge(r) ==
  LET x == Term(r.toks, 1)
      whole == x.ok /\ x.i = Len(r.toks) + 1
      cond == r.use \in {"cond", "ctx", "rule", "while"}
      f == IF ~whole THEN ERR
           ELSE IF cond THEN Fold("L", x.t)
           ELSE IF r.use = "fact" THEN HeadT(<<"f", "v", <<x.t>>, <<>> >>)
           ELSE Fold("T", x.t)
      s == SubOf(r.env, 1)
  IN
  IF r.st \notin {"load", "err", "yes", "no"} THEN r.st
  ELSE IF Dangling(r.toks) THEN "und"
  ELSE IF f[1] = "und" THEN "und"
  ELSE IF f[1] = "err" \/ (cond /\ Bad(ToQuery(f[2]))) THEN
    (IF r.st = "load" THEN "ok" ELSE "expected to be rejected, got " \o r.st)
  ELSE IF r.use = "fact" /\ VarsOf(CT(f[2])) # {} THEN     \* no fact
    (IF r.st \in {"load", "err"} THEN "ok" ELSE "expected to be rejected, got " \o r.st)
  ELSE IF r.st = "load" THEN "rejected"
  ELSE IF cond THEN Holds(r, ToQuery(f[2]), s)
  ELSE IF r.use = "fact" THEN Value(r, Frz(EmptySub, CT(f[2])[3][1]), s)
  ELSE LET v == Frz(s, ToTerm(f[2])) IN
       \* a wildcard is no value
       IF v = OK(<<"w">>) /\ r.use \in {"goal", "unify"} THEN "und" ELSE Value(r, v, s)

JudgeRow(r) == IF r.k = "x" THEN r.what ELSE Judge(r)
=============================================================================
