------------------------------ MODULE AgentMC -------------------------------
(***************************************************************************)
(* Model checking of AgentSpeak.tla: small programs, every order of steps  *)
(* of the agents, host calls and ticks of the clock, against statements of *)
(* the properties that speak about states before and after an action, not  *)
(* about how the machine gets there.                                       *)
(*                                                                         *)
(* The file read holds cases [names, progs, host, ticks, want].            *)
(*   host  events <<agent, trigger, term>> the host posts, in this order   *)
(*   ticks how often the clock may advance                                 *)
(*   want  what each agent has recorded (first arguments) and which agents *)
(*         have failed when all has come to rest, over all behaviours:     *)
(*         exactly these (none given: not compared)                        *)
(* Every state prints a schedule that leads there (agents that got on, #   *)
(* for host calls, + for ticks); the schedules are replayed on the         *)
(* implementation, and the traces recorded there go through Trace.tla.     *)
(***************************************************************************)
EXTENDS AgentSpeak, Conv, Json, IOUtils

File == TLCEval(JsonDeserialize(IOEnv.TRACE))
Cases == TLCEval(File.cases)
NC == Len(Cases)
CaseProgs == TLCEval([i \in 1..NC |-> TLCEval([j \in 1..Len(Cases[i].progs) |-> CProg(Cases[i].progs[j])])])
CaseHost == TLCEval([i \in 1..NC |-> TLCEval([j \in 1..Len(Cases[i].host) |->
              <<Cases[i].host[j][1], Cases[i].host[j][2], CT(Cases[i].host[j][3])>>])])
ASSUME \A i \in 1..NC : \A j \in 1..Len(Cases[i].progs) : ST!Rejected(Cases[i].progs[j]) = "no"
\* converted once (see Trace.tla)
ASSUME TLCSet(1, CaseProgs) /\ TLCSet(2, CaseHost)
ASSUME \A i \in 1..NC : TLCSet(2 + i, {})
Progs == TLCGet(1)
Host == TLCGet(2)
NoText(x) == UND

VARIABLES k,      \* the case
          st,     \* the state of the machine
          dead,   \* agents that failed
          nh,     \* host calls made
          log,    \* what was recorded: <<agent, arguments>>
          act,    \* the last action
          path    \* the schedule so far
vars == <<k, st, dead, nh, log, act, path>>

Tag(e) == IF e[2] = <<>> THEN <<"none">> ELSE e[2][1]
RECURSIVE Of(_, _)
Of(q, a) == IF q = <<>> THEN <<>> ELSE (IF Head(q)[1] = a THEN <<Tag(Head(q))>> ELSE <<>>) \o Of(Tail(q), a)
Seen == [j \in 1..Len(Cases[k].names) |-> Of(log, Cases[k].names[j])]
\* what each agent saw, and the state, make a difference; how they came about does not
View == <<k, st, dead, nh, Seen>>

RECURSIVE BuildAll(_, _, _)
BuildAll(s, names, progs) ==
  IF names = <<>> THEN {s}
  ELSE UNION { BuildAll([x.st EXCEPT !.pend = <<>>], Tail(names), Tail(progs))
             : x \in {x \in BuildAgent(s, Head(names), Head(progs)) : x.r = "ok"} }

Init == /\ k \in 1..NC
        /\ st \in BuildAll(InitState, Cases[k].names, Progs[k])
        /\ dead = {} /\ nh = 0 /\ log = <<>> /\ act = <<"init">> /\ path = ""

Recorded(a, x) == [j \in 1..Len(x.pend) |-> <<x.pend[j][1], x.pend[j][2]>>]
Alive == AgentNames(st) \ dead
Taken(s, a, i) == IF Top(s, a, i).k = <<>> THEN <<"return">> ELSE Head(Top(s, a, i).k)
Step == \E a \in Alive : \E i \in Candidates(st, a) : \E x \in StepAt(st, a, i) :
          /\ x.r \in {"ok", "err"}
          /\ st' = [x.st EXCEPT !.pend = <<>>]
          /\ log' = log \o Recorded(a, x.st)
          /\ dead' = IF x.r = "err" THEN dead \cup {a} ELSE dead
          /\ act' = <<"step", a, i, Taken(st, a, i), x.r>>
          /\ path' = IF x.st.pend # <<>> \/ x.r = "err" \/ Taken(st, a, i)[1] = "wait"
                     THEN path \o " " \o a ELSE path
          /\ UNCHANGED <<k, nh>>
HostCall == /\ nh < Len(Host[k])
            /\ LET h == Host[k][nh + 1] IN
               /\ \E x \in CallOut(st, h[1], h[2], h[3]) :
                    /\ x.r \in {"ok", "err"}
                    /\ st' = [x.st EXCEPT !.pend = <<>>]
                    /\ log' = log \o Recorded(h[1], x.st)
                    /\ act' = <<"host", h[1], h[2], h[3], x.r>>
               /\ path' = path \o " #"
            /\ nh' = nh + 1 /\ UNCHANGED <<k, dead>>
Tick == /\ st.clk < Cases[k].ticks
        /\ st' = [st EXCEPT !.clk = @ + 1]
        /\ act' = <<"tick">> /\ path' = path \o " +"
        /\ UNCHANGED <<k, dead, nh, log>>
Next == Step \/ HostCall \/ Tick
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties of one action: before st, after st'                           *)
IsStep == act'[1] = "step"
Who == act'[2]
At == act'[3]
Doing == act'[4]
Went == act'[5]
Bel(a) == st.ag[a].bel
Bel2(a) == st'.ag[a].bel
Ints(a) == st.ag[a].ints
Ints2(a) == st'.ag[a].ints
Before == Top(st, Who, At)

\* nothing is undefined in these programs
Defined == \A a \in Alive : \A i \in Candidates(st, a) : \A x \in StepAt(st, a, i) : x.r # "und"

\* C08: the oldest intention that is not waiting runs
Oldest == IsStep => \A j \in 1..(At - 1) :
            Ints(Who)[j] = <<>> \/ (Last(Ints(Who)[j]).w # <<>> /\
               (Last(Ints(Who)[j]).w[2] = <<>> \/ Last(Ints(Who)[j]).w[2][1] >= st.clk))
\* ... and an agent that could do something gets to do it (no step is ever refused)
Going == \A a \in Alive : MustRun(st, a) => Candidates(st, a) # {}

\* C08: the other intentions of an agent are as they were (apart from waking up), in the
\* same order, new ones behind them, none lost
Awake(q) == [j \in 1..Len(q) |-> IF j = Len(q) THEN [q[j] EXCEPT !.w = NoWait] ELSE q[j]]
SameStack(p, q) == p = q \/ (p # <<>> /\ q = Awake(p))
Unachieving(b) ==
  \/ IsStep /\ Doing[1] = "send" /\ Went = "ok" /\ Grd(Before.s, Doing[3])[2][2] = "unachieve"
  \/ act'[1] = "host" /\ act'[3] = "-!" /\ act'[2] = b
Kept(b) ==
  IF IsStep /\ Who = b THEN
    IF Doing[1] = "return" /\ Len(Ints(b)[At]) = 1 THEN
      /\ Len(Ints2(b)) = Len(Ints(b)) - 1
      /\ \A j \in 1..Len(Ints(b)) : j # At => SameStack(Ints(b)[j], Ints2(b)[IF j < At THEN j ELSE j - 1])
    ELSE /\ Len(Ints2(b)) >= Len(Ints(b))
         /\ \A j \in 1..Len(Ints(b)) : j # At => SameStack(Ints(b)[j], Ints2(b)[j])
  ELSE /\ Len(Ints2(b)) >= Len(Ints(b))
       /\ \A j \in 1..Len(Ints(b)) : SameStack(Ints(b)[j], Ints2(b)[j])
NoneLost == act'[1] # "tick" => \A b \in AgentNames(st) : Unachieving(b) \/ Kept(b)

\* C06: below the current frame of the intention that runs nothing changes but the bindings of
\* the caller, and these when the goal has returned
Calling == IsStep /\ Doing[1] \in {"ach", "test", "add", "del"} /\ Went = "ok" =>
  LET p == Ints(Who)[At]  q == Ints2(Who)[At] IN
  /\ Len(q) \in {Len(p), Len(p) + 1}
  /\ \A j \in 1..(Len(p) - 1) : q[j] = p[j]
  /\ q[Len(p)].k = Tail(Last(p).k)
  /\ Len(q) > Len(p) => Last(q).w = NoWait /\ Last(q).call = Doing[2]
Returning == IsStep /\ Doing[1] = "return" /\ Went = "ok" /\ Len(Ints(Who)[At]) > 1 =>
  LET p == Ints(Who)[At]  q == Ints2(Who)[At] IN
  /\ Len(q) = Len(p) - 1
  /\ \A j \in 1..(Len(p) - 2) : q[j] = p[j]
  /\ Last(q).k = p[Len(p) - 1].k
  \* the caller's bindings only grow, and the goal as called has become the goal as achieved
  /\ LET s == p[Len(p) - 1].s  s2 == Last(q).s IN
     /\ DOMAIN s \subseteq DOMAIN s2 /\ \A v \in DOMAIN s : s2[v] = s[v]
     /\ Last(p).call # NoCall =>
          Frz(s2, Last(p).call) = Frz(s2, Frz(Last(p).s, Last(p).head)[2])

\* C05: the plan that was started is the first one that could be
Triggers(kind) == IF kind = "ach" THEN "+!" ELSE IF kind = "later" THEN "+!" ELSE IF kind = "add" THEN "+"
                  ELSE IF kind = "del" THEN "-" ELSE "+?"
Shape(b) == [j \in 1..Len(b) |-> b[j][1]]
Applicable(ag, p, trig, t) ==
  \E x \in Select([ag EXCEPT !.plans = <<p>>], 1, st'.c, <<>>, trig, t) : x.r = "plan"
First == IsStep /\ Doing[1] \in {"ach", "later", "add", "del"} /\ Went = "ok" =>
  LET new == IF Doing[1] = "later"
             THEN (IF Len(Ints2(Who)) > Len(Ints(Who)) THEN <<Last(Last(Ints2(Who)))>> ELSE <<>>)
             ELSE IF Len(Ints2(Who)[At]) > Len(Ints(Who)[At]) THEN <<Last(Ints2(Who)[At])>> ELSE <<>>
      ag == st'.ag[Who]
      trig == Triggers(Doing[1])
      t == IF new = <<>> THEN Frz(Before.s, Doing[2])[2] ELSE new[1].head
      A == {j \in 1..Len(ag.plans) : ag.plans[j].trig = trig /\ Applicable(ag, ag.plans[j], trig, t)}
  IN IF new = <<>> THEN Doing[1] = "del" \/ A = {}
     ELSE /\ A # {}
          /\ Shape(new[1].k) = Shape(ag.plans[CHOOSE j \in A : \A m \in A : j <= m].body)

\* C04: beliefs are ground, change only by updates, and as these say
Facts == \A a \in AgentNames(st) : \A b \in Bel(a) : b[1] = "f" /\ VarsOf(b) = {}
Grows(a, t, s) ==     \* the fact t stands for was added
  LET g == Grd(s, t) IN Bel2(a) = Bel(a) \cup {g[2]}
Shrinks(a, t, s) ==   \* one fact matching t was removed, if there is one
  LET p == Ev(s, t)[2]
      M == {b \in Bel(a) : SameGroup(p, b) /\ UniAnn(s, p, b) # {}}
  IN IF M = {} THEN Bel2(a) = Bel(a) ELSE \E b \in M : Bel2(a) = Bel(a) \ {b}
Updates ==
  IF IsStep /\ Doing[1] = "add" /\ Went = "ok" THEN Grows(Who, Doing[2], Before.s)
  ELSE IF IsStep /\ Doing[1] = "del" /\ Went = "ok" THEN Shrinks(Who, Doing[2], Before.s)
  ELSE IF IsStep /\ Doing[1] = "abolish" /\ Went = "ok" THEN
    LET p == Frz(Before.s, Doing[2])[2] IN
    Bel2(Who) = {b \in Bel(Who) : ~(SameGroup(p, b) /\ UniAnn(EmptySub, p, b) # {})}
  ELSE IF act'[1] = "host" THEN
    \A a \in AgentNames(st) :
      IF a = Who /\ act'[3] = "+" THEN Bel2(a) = Bel(a) \cup {act'[4]}
      ELSE IF a = Who /\ act'[3] = "-" THEN Shrinks(a, act'[4], EmptySub)
      ELSE Bel2(a) = Bel(a)
  ELSE IF IsStep /\ Doing[1] \in {"add", "del", "send", "bcast"} THEN TRUE
  ELSE \A a \in AgentNames(st) : Bel2(a) = Bel(a)

\* C13: what an agent does changes no other agent, except by messages, and these only the addressed ones
Receivers == IF Doing[1] = "bcast" THEN {b \in AgentNames(st) : b # Who}
             ELSE LET g == Grd(Before.s, Doing[2])[2] IN
                  IF g[1] = "l" THEN {NameOf(g[2][j]) : j \in 1..Len(g[2])} ELSE {NameOf(g)}
Isolated == IsStep => \A b \in AgentNames(st) \ {Who} :
              st'.ag[b] = st.ag[b] \/ (Doing[1] \in {"send", "bcast"} /\ b \in Receivers)
Clocked == act'[1] = "tick" => st'.ag = st.ag

\* C10: a message reaches each of its receivers once, with its sender
Force == Grd(Before.s, Doing[Len(Doing) - 1])[2][2]
Content == Frz(Before.s, Doing[Len(Doing)])[2]
Times(b) == IF Doing[1] = "bcast" THEN (IF b = Who THEN 0 ELSE 1)
            ELSE LET g == Grd(Before.s, Doing[2])[2] IN
                 IF g[1] = "l" THEN Cardinality({j \in 1..Len(g[2]) : NameOf(g[2][j]) = b})
                 ELSE IF NameOf(g) = b THEN 1 ELSE 0
NewStacks(b) == SubSeq(Ints2(b), Len(Ints(b)) + 1, Len(Ints2(b)))
Delivered == IsStep /\ Doing[1] \in {"send", "bcast"} /\ Went = "ok" =>
  \A b \in AgentNames(st) :
    IF Force = "tell" THEN
      IF Times(b) = 0 THEN Bel2(b) = Bel(b)
      ELSE \E f \in Bel2(b) : /\ Bel2(b) = Bel(b) \cup {f}
                              /\ f[2] = Content[2] /\ f[3] = Content[3] /\ f[4] = Content[4] \cup {Src(Who)}
    ELSE IF Force = "untell" THEN
      /\ Cardinality(Bel(b)) - Cardinality(Bel2(b)) \in 0..Times(b)
      /\ \A f \in Bel(b) \ Bel2(b) : Src(Who) \in f[4] /\ f[2] = Content[2]
      /\ Bel2(b) \subseteq Bel(b)
    ELSE IF Force = "achieve" THEN
      /\ Bel2(b) = Bel(b) /\ Len(NewStacks(b)) = Times(b)
      /\ \A j \in 1..Len(NewStacks(b)) : LET h == NewStacks(b)[j][1].head IN
           Src(Who) \in h[4] /\ h[2] = Content[2] /\ Len(h[3]) = Len(Content[3])
    ELSE Bel2(b) = Bel(b)

\* C11: unachieve takes one frame from the stacks whose current goal matches, nothing else
Stopped == \A b \in AgentNames(st) : act'[1] # "tick" /\ Unachieving(b) =>
  IF IsStep /\ Times(b) = 0 THEN (Who = b \/ st'.ag[b] = st.ag[b])
  ELSE LET t == IF IsStep THEN Content ELSE act'[4] IN
    /\ Bel2(b) = Bel(b) /\ Len(Ints2(b)) = Len(Ints(b))
    /\ (~IsStep \/ Times(b) = 1) =>
       \A j \in 1..Len(Ints(b)) :
         LET p == Ints(b)[j]  q == Ints2(b)[j]
             hit == p # <<>> /\ Last(p).head[2] = t[2] /\ Len(Last(p).head[3]) = Len(t[3])
                    /\ UniSeq(EmptySub, t[3], Last(p).head[3]).st = "yes"
         IN IF IsStep /\ Who = b /\ j = At THEN hit \/ Len(q) = Len(p)
            ELSE IF hit THEN q = Front(p) ELSE SameStack(p, q)

\* C09: a waiting intention does nothing before its deadline or its event
EventOfAct ==   \* trigger and functor of what the action posts (or tries to)
  IF act'[1] = "host" THEN {<<act'[3], act'[4][2]>>}
  ELSE IF ~IsStep THEN {}
  ELSE IF Doing[1] \in {"ach", "later", "add", "del", "test"} THEN {<<Triggers(Doing[1]), Doing[2][2]>>}
  ELSE IF Doing[1] \in {"send", "bcast"} /\ Grd(Before.s, Doing[Len(Doing) - 1])[1] = "ok" /\ Content[1] = "f" THEN
    {<<CASE Force = "tell" -> "+" [] Force = "untell" -> "-" [] Force = "achieve" -> "+!" [] OTHER -> "-!", Content[2]>>}
  ELSE {}
Waits == \A a \in AgentNames(st) : \A j \in 1..Len(Ints(a)) :
  LET p == Ints(a)[j] IN
  p # <<>> /\ Last(p).w # NoWait =>
    \/ IsStep /\ Who = a /\ At = j /\ Last(p).w[2] # <<>> /\ Last(p).w[2][1] <= st.clk
    \/ \E m \in {j, j - 1} : m \in 1..Len(Ints2(a)) /\ Ints2(a)[m] = p
    \/ Unachieving(a)
    \/ Last(p).w[1] # <<>> /\ <<Last(p).w[1][1], Last(p).w[1][2][2]>> \in EventOfAct
\* ... and does not wait on once its event has come
Wakes == act'[1] # "tick" =>
  \A a \in AgentNames(st) : \A j \in 1..Len(Ints(a)) :
  LET p == Ints(a)[j]  t == Before IN
  (p # <<>> /\ Last(p).w # NoWait /\ Last(p).w[1] # <<>> /\ IsStep /\ Who = a /\ At # j /\ Went = "ok"
   /\ Doing[1] = "add" /\ Last(p).w[1][1] = "+" /\ UniAnn(EmptySub, Last(p).w[1][2], Grd(t.s, Doing[2])[2]) # {})
  => \E m \in 1..Len(Ints2(a)) : Ints2(a)[m] = Awake(p)

\* C20: an error of one agent leaves the others alone, and ends only this agent
Failing == IsStep /\ Went = "err" =>
  /\ dead' = dead \cup {Who}
  /\ Doing[1] \notin {"send", "bcast"} => \A b \in AgentNames(st) \ {Who} : st'.ag[b] = st.ag[b]
  /\ Doing[1] \notin {"add", "del", "send", "bcast"} => Bel2(Who) = Bel(Who)

Action == /\ Oldest /\ NoneLost /\ Calling /\ Returning /\ First /\ Updates /\ Isolated
          /\ Clocked /\ Delivered /\ Stopped /\ Waits /\ Wakes /\ Failing
Obeys == [][Action]_vars

---------------------------------------------------------------------------
(* What was seen when all has come to rest                                  *)
Rest == /\ \A a \in Alive : Candidates(st, a) = {}
        /\ nh = Len(Host[k]) /\ st.clk = Cases[k].ticks
Finals == /\ PrintT("PATH " \o ToString(k) \o path)
          /\ Rest => TLCSet(2 + k, TLCGet(2 + k) \cup {<<Seen, dead>>})
\* JSON: want[j] is a sequence of [seen |-> one sequence of numbers for each agent, dead |-> names]
WantOf(i) == {<<[j \in 1..Len(w.seen) |-> [m \in 1..Len(w.seen[j]) |-> N(w.seen[j][m])]],
                {w.dead[j] : j \in 1..Len(w.dead)}>> : w \in {Cases[i].want[j] : j \in 1..Len(Cases[i].want)}}
AsWanted == \A i \in 1..NC :
              LET W == WantOf(i)  S == TLCGet(2 + i) IN
              Cases[i].want = <<>> \/ W = S \/ ~PrintT("UNEXPECTED " \o ToJson(<<i, W \ S, S \ W>>))
=============================================================================
