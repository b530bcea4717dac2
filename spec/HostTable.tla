----------------------------- MODULE HostTable ------------------------------
(***************************************************************************)
(* Rows about host actions:                                                *)
(*  host  adds: registrations in order, each with its level and whether it *)
(*        was accepted; depth: number of levels; facts, rules; ctx, body,  *)
(*        nv: a plan for the only goal; st: what became of the goal        *)
(*          sol    the plan was carried out, vals: its variables           *)
(*          other  another plan was chosen, the context being false        *)
(*          stop   the agent failed                                        *)
(*        log: the calls <<id, kinds, values>>                             *)
(*        runs: that for agents built after the first cut registrations,   *)
(*        and again for agents built after all of them                     *)
(***************************************************************************)
EXTENDS TableBase, Registry, Conv

CReg(g) == [g EXCEPT !.res = IF g.res[1] \in {"val"} THEN <<"val", CT(g.res[2])>>
                             ELSE IF g.res[1] = "eq" THEN <<"eq", g.res[2], CT(g.res[3])>>
                             ELSE IF g.res[1] = "vals" THEN <<"vals", CTs(g.res[2])>> ELSE g.res]
RECURSIVE HQ(_)
HQ(q) == IF q[1] = "term" THEN <<"term", CT(q[2])>>
         ELSE IF q[1] = "eq" THEN <<"eq", CT(q[2]), CT(q[3])>>
         ELSE IF q[1] \in {"and", "or"} THEN <<q[1], HQ(q[2]), HQ(q[3])>>
         ELSE <<"not", HQ(q[2])>>

RECURSIVE Registered(_, _, _)
Registered(adds, i, chain) ==       \* <<whether the answers were right, the chain>>
  IF i > Len(adds) THEN <<TRUE, chain>>
  ELSE LET a == adds[i]  g == CReg(a.reg)  refused == RefusedIn(chain[a.level], g) IN
       IF a.ok = refused THEN <<FALSE, chain>>
       ELSE Registered(adds, i + 1, IF refused THEN chain ELSE Add(chain, a.level, g))

SameKinds(k, m) == Len(k) = Len(m) /\ \A i \in 1..Len(k) : k[i] \in {"*", m[i]}
SameEntry(e, o) == e[1] = o[1] /\ SameKinds(e[2], o[2]) /\ SameUpTo(e[3], CanonSeq(CTs(o[3])))
SameLog(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : SameEntry(e[i], o[i])

JudgeRun(r, chain, o) ==
  LET W == [chain |-> chain, facts |-> CTs(r.facts), linked |-> r.linked,
            rules |-> TLCEval([i \in 1..Len(r.rules) |->
                         [head |-> CT(r.rules[i].head), q |-> HQ(r.rules[i].q), nv |-> r.rules[i].nv]])]
      e == Goal(W, IF r.ctx = <<>> THEN <<"not", <<"eq", N(1), N(2)>> >> ELSE HQ(r.ctx),
                TLCEval([i \in 1..Len(r.body) |-> HQ(r.body[i])]), r.nv)
      st == IF e.st = "err" THEN "stop" ELSE e.st
  IN IF st = "und" THEN "und"
     ELSE IF o.st \notin {"sol", "other", "stop"} THEN o.st
     ELSE IF st # o.st THEN "expected " \o st \o ", got " \o o.st
     ELSE IF ~SameLog(e.log, o.log) THEN "wrong calls"
     ELSE IF st # "sol" THEN "ok"
     ELSE LET v == FrzSeq(e.s, [i \in 1..r.nv |-> <<"v", i>>], <<>>) IN
          IF v[1] = "und" THEN "und"
          ELSE IF v[1] = "err" THEN "expected no values"
          ELSE IF SameUpTo(CanonSeq(v[2]), CanonSeq(CTs(o.vals))) THEN "ok" ELSE "wrong bindings"

\* the agents built after the first cut registrations, and those built after all of them
JudgeHost(r) ==
  LET R == Registered(r.adds, 1, [i \in 1..r.depth |-> <<>>])
      R1 == Registered(SubSeq(r.adds, 1, r.cut), 1, [i \in 1..r.depth |-> <<>>])
  IN
  IF ~R[1] THEN "a registration was wrongly accepted or refused"
  ELSE LET a == JudgeRun(r, R1[2], r.runs[1]) IN
       IF a \notin {"ok", "und"} THEN a
       ELSE IF Len(r.runs) = 1 THEN a
       ELSE LET b == JudgeRun(r, R[2], r.runs[2]) IN
            IF b = "ok" \/ b = "und" THEN (IF a = "und" THEN b ELSE a) ELSE "after more registrations: " \o b
JudgeRow(r) == IF r.k = "x" THEN r.what ELSE JudgeHost(r)
=============================================================================
