------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: recorded executions of the real interpreter are behaviours *)
(* of AgentSpeak.tla.  A file holds many traces; t selects one.            *)
(*                                                                         *)
(* Events                                                                  *)
(*   N name prog     an agent was built         NE prog   building failed  *)
(*   S a n           a's step was called n times (the next actions are a's)*)
(*   R a args bel    a called the recording action with these arguments,   *)
(*                   having these beliefs                                  *)
(*   Z a             a's step reported that there was nothing to do        *)
(*   T t             the clock shows t                                     *)
(*   P t             the environment went to sleep until t                 *)
(*   C a trig term   the host posted an event; CE: that raised an error    *)
(*   E               the current agent's step raised an error              *)
(*   F a bel         beliefs of a now                                      *)
(*   Q               run returned                                          *)
(* One step call performs at most one statement of the specification       *)
(* (implementations may need several calls per statement).                 *)
(***************************************************************************)
EXTENDS AgentSpeak, Conv, Json, IOUtils

File == TLCEval(JsonDeserialize(IOEnv.TRACE))
Traces == TLCEval(File.traces)
ProgsC == TLCEval([i \in 1..Len(File.progs) |-> CProg(File.progs[i])])
NT == Len(Traces)
Cell(i) == i
ACCEPT == 1000000

CEv(e) ==
  IF e[1] = "R" THEN
    LET B == CTset(e[4]) IN
    IF Cardinality(B) # Len(e[4]) THEN <<"D", e[2]>>      \* a fact stored twice
    ELSE <<"R", e[2], CTs(e[3]), B>>
  ELSE IF e[1] \in {"C", "CE"} THEN <<e[1], e[2], e[3], CT(e[4])>>
  ELSE IF e[1] = "F" THEN <<"F", e[2], CTset(e[3])>>
  ELSE e
EventsC == TLCEval([i \in 1..NT |-> TLCEval([j \in 1..Len(Traces[i]) |-> CEv(Traces[i][j])])])

\* converted once, kept in registers (definitions through recursive operators
\* are not cached)
StaticC == TLCEval([i \in 1..Len(File.progs) |-> ST!Rejected(File.progs[i])])
\* the texts in the traces and what they stand for
MeansOf(kind, bad, V(_)) ==
  LET I == {i \in 1..Len(File.means) : File.means[i].kind \in {kind, bad}} IN
  TLCEval([x \in {File.means[i].x : i \in I} |->
    LET m == File.means[CHOOSE i \in I : File.means[i].x = x] IN
    IF m.kind = bad THEN ERR ELSE V(m)])
PlanVal(m) ==
  LET r == ST!Rejected([rules |-> <<>>, plans |-> <<m.plan>>, beliefs |-> <<>>, goals |-> <<>>]) IN
  IF r = "yes" THEN ERR ELSE IF r = "und" THEN UND ELSE OK(CPlan(m.plan))
EventVal(m) == OK(m.ev)
ASSUME TLCSet(NT + 1, ProgsC) /\ TLCSet(NT + 2, EventsC) /\ TLCSet(NT + 3, StaticC)
ASSUME TLCSet(NT + 4, MeansOf("plan", "noplan", PlanVal)) /\ TLCSet(NT + 5, MeansOf("event", "noevent", EventVal))
TextPlan(x) == LET M == TLCGet(NT + 4) IN IF x \in DOMAIN M THEN M[x] ELSE UND
TextEvent(x) == LET M == TLCGet(NT + 5) IN IF x \in DOMAIN M THEN M[x] ELSE UND
Progs == TLCGet(NT + 1)
Events == TLCGet(NT + 2)
Static == TLCGet(NT + 3)

VARIABLES t, l, cur, bud, st, flag
vars == <<t, l, cur, bud, st, flag>>

ASSUME \A i \in 1..NT : TLCSet(Cell(i), 0)

Init == /\ t \in 1..NT
        /\ l = 1 /\ cur = "" /\ bud = 0 /\ st = InitState /\ flag = ""

Ev1 == Events[t][l]
Is(k) == l <= Len(Events[t]) /\ Ev1[1] = k /\ flag # "und"
Quiet == st.pend = <<>> /\ flag = ""

\* the outcome of an event of kind k that must succeed / fail
Take(X, want) ==
  \E x \in X : \/ x.r = want /\ st' = x.st /\ l' = l + 1 /\ flag' = "" /\ cur' = "" /\ bud' = 0
               \/ x.r = "und" /\ st' = st /\ l' = l /\ flag' = "und" /\ UNCHANGED <<cur, bud>>

Build == /\ Is("N") /\ Quiet
         /\ Ev1[2] \notin AgentNames(st)
         /\ IF Static[Ev1[3]] = "no" THEN Take(BuildAgent(st, Ev1[2], Progs[Ev1[3]]), "ok")
            ELSE Static[Ev1[3]] = "und" /\ Take({Out(st, "und")}, "ok")
BuildErr == /\ Is("NE") /\ Quiet
            /\ \E x \in (IF Static[Ev1[2]] = "no" THEN BuildAgent(st, "?", Progs[Ev1[2]])
                        ELSE {Out(st, IF Static[Ev1[2]] = "yes" THEN "err" ELSE "und")}) :
                 \/ x.r = "err" /\ st' = [st EXCEPT !.c = x.st.c] /\ l' = l + 1 /\ flag' = ""
                 \/ x.r = "und" /\ st' = st /\ l' = l /\ flag' = "und"
            /\ cur' = "" /\ bud' = 0
HostCall == Is("C") /\ Quiet /\ Take(CallOut(st, Ev1[2], Ev1[3], Ev1[4]), "ok")
HostCallErr == Is("CE") /\ Quiet /\ Take(CallOut(st, Ev1[2], Ev1[3], Ev1[4]), "err")

Marker == /\ Is("S") /\ Quiet
          /\ cur' = Ev1[2] /\ bud' = Ev1[3] /\ l' = l + 1 /\ UNCHANGED <<t, st, flag>>
Silent == /\ Quiet /\ cur # "" /\ bud > 0 /\ l <= Len(Events[t])
          /\ \E x \in StepAgent(st, cur) :
               \/ x.r = "ok" /\ st' = x.st /\ flag' = "" /\ bud' = bud - 1
               \/ x.r = "err" /\ st' = x.st /\ flag' = "err" /\ bud' = 0
               \/ x.r = "und" /\ st' = st /\ flag' = "und" /\ bud' = 0
          /\ UNCHANGED <<t, l, cur>>
Observe == /\ Is("R") /\ st.pend # <<>>
           /\ LET p == Head(st.pend) IN p[1] = Ev1[2] /\ p[3] = Ev1[4] /\ SameUpTo(p[2], Ev1[3])
           /\ st' = [st EXCEPT !.pend = Tail(@)] /\ l' = l + 1 /\ UNCHANGED <<t, cur, bud, flag>>
Raised == /\ Is("E") /\ st.pend = <<>> /\ flag = "err"
          /\ flag' = "" /\ l' = l + 1 /\ cur' = "" /\ bud' = 0 /\ UNCHANGED <<t, st>>
Idle == /\ Is("Z") /\ Quiet /\ ~MustRun(st, Ev1[2])
        /\ l' = l + 1 /\ UNCHANGED <<t, cur, bud, st, flag>>
Clock == /\ Is("T") /\ Quiet /\ Ev1[2] >= st.clk
         /\ st' = [st EXCEPT !.clk = Ev1[2]] /\ l' = l + 1 /\ UNCHANGED <<t, cur, bud, flag>>
AllDeadlines == UNION {Deadlines(st, a) : a \in AgentNames(st)}
\* the clock may pass a deadline between the last look at the intentions and here
Sleep == /\ Is("P") /\ Quiet
         /\ \A a \in AgentNames(st) : ~AnyReady(st, a)
         /\ AllDeadlines # {}
         /\ \A d \in AllDeadlines : Ev1[2] <= d \/ Ev1[2] <= st.clk
         /\ l' = l + 1 /\ UNCHANGED <<t, cur, bud, st, flag>>
Beliefs == /\ Is("F") /\ Quiet /\ st.ag[Ev1[2]].bel = Ev1[3]
           /\ l' = l + 1 /\ UNCHANGED <<t, cur, bud, st, flag>>
Done == /\ Is("Q") /\ Quiet
        /\ \A a \in AgentNames(st) : ~MustRun(st, a)
        /\ AllDeadlines = {}
        /\ l' = l + 1 /\ UNCHANGED <<t, cur, bud, st, flag>>

Next == \/ (Build /\ UNCHANGED t) \/ (BuildErr /\ UNCHANGED t)
        \/ (HostCall /\ UNCHANGED t) \/ (HostCallErr /\ UNCHANGED t)
        \/ Marker \/ Silent \/ Observe \/ Raised \/ Idle \/ Clock \/ Sleep \/ Beliefs \/ Done
Spec == Init /\ [][Next]_vars

Level == IF flag = "und" THEN ACCEPT
         ELSE IF l > Len(Events[t]) THEN ACCEPT + 1 ELSE l
\* remembers how far each trace got, and stops exploring a trace that is done
Track == /\ TLCSet(Cell(t), IF TLCGet(Cell(t)) < Level THEN Level ELSE TLCGet(Cell(t)))
         /\ TLCGet(Cell(t)) < ACCEPT \/ Level >= ACCEPT
Report == PrintT(<<"RESULT", TLCEval([i \in 1..NT |-> TLCGet(Cell(i))])>>)
=============================================================================
