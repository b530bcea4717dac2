----------------------------- MODULE AgentSpeak ----------------------------
(***************************************************************************)
(* The AgentSpeak abstract machine: agents with belief bases, rules, plan  *)
(* libraries and intention stacks; plan selection, body statements,        *)
(* events, messages, waiting.                                              *)
(*                                                                         *)
(* State (a record, so that the same operators serve trace validation and  *)
(* model checking):                                                        *)
(*   ag    [agent name -> [name, bel, rules, plans, ints]]                 *)
(*         ints: queue of intention stacks, a stack is a sequence of       *)
(*         frames (last = current), a frame is                             *)
(*         [s bindings, k statements to do, head event served,             *)
(*          call calling term or NoCall, w waiter]                         *)
(*   ord   agent names in the order of creation                            *)
(*   clk   clock (integer ticks)                                           *)
(*   c     fresh-variable counter                                          *)
(*   pend  host actions called and not yet observed                        *)
(* Operators yield sets of outcomes [st |-> state, r |-> "ok"|"err"|"und"] *)
(***************************************************************************)
EXTENDS Solver

\* what a text stands for: OK(plan), OK(<<trigger, functor, number of arguments>>),
\* ERR if it is neither, UND if that is not known here (Grammar.tla defines it)
CONSTANTS PlanOf(_), EventOf(_)

NoCall == <<"none">>
NoWait == <<>>
MillisPerTick == 125

Src(name) == <<"f", "source", << <<"f", name, <<>>, {}>> >>, {}>>

---------------------------------------------------------------------------
(* Renaming of plan bodies                                                 *)
RECURSIVE RenB(_, _), RenStmt(_, _)
RenTerms(q, off) == TLCEval([i \in 1..Len(q) |-> Ren(q[i], off)])
RenStmt(x, off) ==
  LET k == x[1] IN
  IF k \in {"add", "del", "ach", "later", "test", "abolish"} THEN <<k, Ren(x[2], off)>>
  ELSE IF k = "q" THEN <<"q", RenQ(x[2], off)>>
  ELSE IF k = "if" THEN <<"if", RenQ(x[2], off), RenB(x[3], off), RenB(x[4], off)>>
  ELSE IF k \in {"while", "for"} THEN <<k, RenQ(x[2], off), RenB(x[3], off)>>
  ELSE IF k = "send" THEN <<"send", Ren(x[2], off), Ren(x[3], off), Ren(x[4], off)>>
  ELSE IF k = "bcast" THEN <<"bcast", Ren(x[2], off), Ren(x[3], off)>>
  ELSE IF k = "wait" THEN <<"wait", x[2], RenTerms(x[3], off)>>
  ELSE x
RenB(b, off) == TLCEval([i \in 1..Len(b) |-> RenStmt(b[i], off)])

---------------------------------------------------------------------------
Out(st, r) == [st |-> st, r |-> r]

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Top(st, a, i) == Last(st.ag[a].ints[i])
SetTop(st, a, i, f) ==
  [st EXCEPT !.ag[a].ints[i] = [st.ag[a].ints[i] EXCEPT ![Len(st.ag[a].ints[i])] = f]]
AddPend(st, o) == IF o = <<>> THEN st ELSE [st EXCEPT !.pend = st.pend \o o]

Frame(s, k, head, call) == [s |-> s, k |-> k, head |-> head, call |-> call, w |-> NoWait]

(* waiting ------------------------------------------------------------- *)
\* a waiter is <<event, until>>; event <<>> or <<trigger, head>>; until <<>> or <<tick>>
Woken(f, trig, frozen) ==
  /\ f.w # NoWait
  /\ f.w[1] # <<>>
  /\ f.w[1][1] = trig
  /\ \E r \in UniAnn(EmptySub, f.w[1][2], frozen) : r.st = "yes"
Wake(ints, trig, frozen) ==
  TLCEval([i \in 1..Len(ints) |->
     IF ints[i] # <<>> /\ Woken(Last(ints[i]), trig, frozen)
     THEN [ints[i] EXCEPT ![Len(ints[i])] = [Last(ints[i]) EXCEPT !.w = NoWait]]
     ELSE ints[i]])

(* plan selection ------------------------------------------------------- *)
\* trig is the trigger with the goal type: "+", "-", "+!", "+?"
Relevant(p, trig, t) == p.trig = trig /\ SameGroup(t, p.head)
RECURSIVE Select(_, _, _, _, _, _)
Select(ag, j, c, o, trig, frozen) ==
  IF j > Len(ag.plans) THEN {[r |-> "none", f |-> <<>>, c |-> c, o |-> o]}
  ELSE LET p == ag.plans[j] IN
  IF ~Relevant(p, trig, frozen) THEN Select(ag, j + 1, c, o, trig, frozen)
  ELSE LET U == UniAnn(EmptySub, Ren(p.head, c), frozen) IN
    IF U = {} THEN Select(ag, j + 1, c, o, trig, frozen)
    ELSE UNION { IF u.st # "yes" THEN {[r |-> u.st, f |-> <<>>, c |-> c, o |-> o]}
                 ELSE UNION {
                   IF x.st = "sol" THEN
                     {[r |-> "plan", f |-> Frame(x.s, RenB(p.body, c), frozen, NoCall), c |-> x.c, o |-> x.o]}
                   ELSE IF x.st = "fail" THEN Select(ag, j + 1, x.c, x.o, trig, frozen)
                   ELSE {[r |-> x.st, f |-> <<>>, c |-> x.c, o |-> x.o]}
                   : x \in Run(Machine(RenQ(p.ctx, c), u.s), c + p.nv, o, ag) }
               : u \in U }

(* An event of agent a: wake waiting intentions, then start the first      *)
(* applicable plan: on top of stack i (the caller's), or as a new stack    *)
(* when i = 0.  r = "none" if no plan is applicable.                       *)
Post(st, a, trig, frozen, call, i) ==
  LET st1 == [st EXCEPT !.ag[a].ints = Wake(@, trig, frozen)] IN
  { LET st2 == [AddPend(st1, x.o) EXCEPT !.c = x.c] IN
    IF x.r # "plan" THEN Out(st2, x.r)
    ELSE LET f == [x.f EXCEPT !.call = call] IN
      IF i > 0 THEN Out([st2 EXCEPT !.ag[a].ints[i] = Append(@, f)], "ok")
      ELSE Out([st2 EXCEPT !.ag[a].ints = Append(@, <<f>>)], "ok")
  : x \in Select(st1.ag[a], 1, st1.c, <<>>, trig, frozen) }
PostBelief(st, a, trig, frozen, call, i) ==     \* no plan needed
  { IF x.r = "none" THEN Out(x.st, "ok") ELSE x : x \in Post(st, a, trig, frozen, call, i) }
PostGoal(st, a, trig, frozen, call, i) ==       \* a plan is needed
  { IF x.r = "none" THEN Out(x.st, "err") ELSE x : x \in Post(st, a, trig, frozen, call, i) }

(* belief updates -------------------------------------------------------- *)
\* +term, bindings s, caller stack i
AddBelief(st, a, term, s, i) ==
  LET g == Grd(s, term) IN
  IF g[1] # "ok" THEN {Out(st, g[1])}
  ELSE IF g[2][1] # "f" THEN {Out(st, "err")}
  ELSE PostBelief([st EXCEPT !.ag[a].bel = @ \cup {g[2]}], a, "+", g[2], term, i)

\* the possible removals: set of [r, b, s]
Removals(st, a, term, s) ==
  LET e == Ev(s, term) IN
  IF e[1] # "ok" THEN {[r |-> e[1], b |-> <<>>, s |-> s]}
  ELSE IF e[2][1] # "f" THEN {[r |-> "err", b |-> <<>>, s |-> s]}
  ELSE LET R == UNION { { [r |-> u.st, b |-> b, s |-> u.s] : u \in UniAnn(s, e[2], b) }
                        : b \in {b \in st.ag[a].bel : SameGroup(e[2], b)} }
       IN IF R = {} THEN {[r |-> "none", b |-> <<>>, s |-> s]} ELSE R

\* -term by the frame on top of stack i (i > 0), or by a message (i = 0)
DelBelief(st, a, term, s, i) ==
  UNION {
    IF x.r \in {"err", "und"} THEN {Out(st, x.r)}
    ELSE IF x.r = "none" THEN {Out(st, "ok")}
    ELSE LET st1 == [st EXCEPT !.ag[a].bel = @ \ {x.b}]
             st2 == IF i > 0 THEN SetTop(st1, a, i, [Top(st1, a, i) EXCEPT !.s = x.s]) ELSE st1
             fz == Frz(x.s, term)
         IN IF fz[1] # "ok" THEN {Out(st2, fz[1])}
            ELSE PostBelief(st2, a, "-", fz[2], term, i)
  : x \in Removals(st, a, term, s) }

Abolish(st, a, term, s) ==
  LET fz == Frz(s, term) IN
  IF fz[1] # "ok" THEN {Out(st, fz[1])}
  ELSE IF fz[2][1] # "f" THEN {Out(st, "err")}
  ELSE {Out([st EXCEPT !.ag[a].bel =
               {b \in @ : ~(SameGroup(fz[2], b) /\ UniAnn(EmptySub, fz[2], b) # {})}], "ok")}

(* goals ------------------------------------------------------------------ *)
Achieve(st, a, term, s, i) ==
  LET fz == Frz(s, term) IN
  IF fz[1] # "ok" THEN {Out(st, fz[1])}
  ELSE IF fz[2][1] # "f" THEN {Out(st, "err")}
  ELSE PostGoal(st, a, "+!", fz[2], term, i)

TestGoal(st, a, term, s, i) ==
  LET fz == Frz(s, term) IN
  IF fz[1] # "ok" THEN {Out(st, fz[1])}
  ELSE IF fz[2][1] # "f" THEN {Out(st, "err")}
  ELSE UNION {
    IF x.r # "none" THEN {x}
    ELSE { LET st1 == [AddPend(x.st, y.o) EXCEPT !.c = y.c] IN
           IF y.st = "sol" THEN
             Out(IF i > 0 THEN SetTop(st1, a, i, [Top(st1, a, i) EXCEPT !.s = y.s]) ELSE st1, "ok")
           ELSE Out(st1, IF y.st = "fail" THEN "err" ELSE y.st)
         : y \in Run(Machine(<<"term", term>>, s), x.st.c, <<>>, x.st.ag[a]) }
  : x \in Post(st, a, "+?", fz[2], term, i) }

(* unachieve: every intention whose current goal matches loses its current *)
(* activity                                                                *)
Hit(f, t) == /\ f.head[2] = t[2]
             /\ Len(f.head[3]) = Len(t[3])
             /\ UniSeq(EmptySub, t[3], f.head[3]).st = "yes"
HitUnd(f, t) == /\ f.head[2] = t[2]
                /\ Len(f.head[3]) = Len(t[3])
                /\ UniSeq(EmptySub, t[3], f.head[3]).st = "und"
Unachieve(st, a, t) ==
  LET st1 == [st EXCEPT !.ag[a].ints = Wake(@, "-!", t)]
      ints == st1.ag[a].ints
  IN IF \E i \in 1..Len(ints) : ints[i] # <<>> /\ HitUnd(Last(ints[i]), t)
     THEN {Out(st1, "und")}
     ELSE {Out([st1 EXCEPT !.ag[a].ints =
            TLCEval([i \in 1..Len(ints) |->
              IF ints[i] # <<>> /\ Hit(Last(ints[i]), t) THEN Front(ints[i]) ELSE ints[i]])], "ok")}

(* messages ---------------------------------------------------------------- *)
Forces == {"tell", "untell", "achieve", "unachieve"}
Deliver(st, b, force, msg) ==
  IF force = "tell" THEN AddBelief(st, b, msg, EmptySub, 0)
  ELSE IF force = "untell" THEN DelBelief(st, b, msg, EmptySub, 0)
  ELSE IF force = "achieve" THEN Achieve(st, b, msg, EmptySub, 0)
  ELSE Unachieve(st, b, msg)
RECURSIVE DeliverAll(_, _, _, _), DeliverHow(_, _, _, _, _)
DeliverAll(st, rs, force, msg) ==
  IF rs = <<>> THEN {Out(st, "ok")}
  ELSE UNION { IF x.r # "ok" THEN {x} ELSE DeliverAll(x.st, Tail(rs), force, msg)
             : x \in Deliver(st, Head(rs), force, msg) }

(* plans as text: x the content of the message, a its sender *)
HowForces == {"tellHow", "untellHow", "askHow"}
Wanted(plans, e) ==        \* an event without arguments stands for any number of them
  SelectSeq(plans, LAMBDA p : p.trig = e[1] /\ p.head[2] = e[2] /\ e[3] \in {0, Len(p.head[3])})
DeliverHow(st, a, rs, force, x) ==
  IF rs = <<>> THEN {Out(st, "ok")}
  ELSE LET b == Head(rs) IN
    IF force = "untellHow" THEN
      DeliverHow([st EXCEPT !.ag[b].plans =
                    IF x[1] # "s" THEN @
                    ELSE SelectSeq(@, LAMBDA p : p.label = "" \/ "@" \o p.label # x[2])],
                 a, Tail(rs), force, x)
    ELSE IF x[1] # "s" THEN {Out(st, "err")}
    ELSE IF force = "tellHow" THEN
      LET p == PlanOf(x[2]) IN
      IF p[1] # "ok" THEN {Out(st, p[1])}
      ELSE DeliverHow([st EXCEPT !.ag[b].plans = Append(@, p[2])], a, Tail(rs), force, x)
    ELSE
      LET e == EventOf(x[2]) IN
      IF e[1] # "ok" THEN {Out(st, e[1])}
      ELSE DeliverHow([st EXCEPT !.ag[a].plans = @ \o Wanted(st.ag[b].plans, e[2])], a, Tail(rs), force, x)

AgentNames(st) == {st.ord[i] : i \in 1..Len(st.ord)}
NameOf(t) == IF IsAtom(t) THEN t[2] ELSE IF t[1] = "s" THEN t[2] ELSE ""
Send(st, a, force, rs, content, s, allowed) ==
  LET g == Grd(s, force) IN
  IF g[1] # "ok" THEN {Out(st, g[1])}
  ELSE IF ~IsAtom(g[2]) THEN {Out(st, "err")}
  ELSE IF g[2][2] \notin allowed THEN {Out(st, "err")}
  ELSE LET fz == Frz(s, content) IN
    IF fz[1] # "ok" THEN {Out(st, fz[1])}
    ELSE IF g[2][2] \in HowForces THEN DeliverHow(st, a, rs, g[2][2], fz[2])
    ELSE IF fz[2][1] # "f" THEN {Out(st, "err")}
    ELSE LET m0 == FreshCopy(fz[2], st.c)
             msg == <<"f", m0[2], m0[3], m0[4] \cup {Src(a)}>>
             st1 == [st EXCEPT !.c = @ + Cardinality(VarsOf(fz[2]))]
         IN DeliverAll(st1, rs, g[2][2], msg)
SendTo(st, a, rcv, force, content, s) ==
  LET g == Grd(s, rcv) IN
  IF g[1] # "ok" THEN {Out(st, g[1])}
  ELSE LET l == IF g[2][1] = "l" THEN g[2][2] ELSE <<g[2]>> IN
    IF \E i \in 1..Len(l) : NameOf(l[i]) \notin AgentNames(st) THEN {Out(st, "err")}
    ELSE Send(st, a, force, TLCEval([i \in 1..Len(l) |-> NameOf(l[i])]), content, s, Forces \cup HowForces)
Broadcast(st, a, force, content, s) ==
  Send(st, a, force, SelectSeq(st.ord, LAMBDA x : x # a), content, s, {"tell", "untell", "achieve"})

\* an event the host posts
CallOut(st, a, trig, term) ==
  IF trig = "+" THEN AddBelief(st, a, term, EmptySub, 0)
  ELSE IF trig = "-" THEN DelBelief(st, a, term, EmptySub, 0)
  ELSE IF trig = "+!" THEN Achieve(st, a, term, EmptySub, 0)
  ELSE IF trig = "-!" THEN Unachieve(st, a, term)
  ELSE TestGoal(st, a, term, EmptySub, 0)

---------------------------------------------------------------------------
(* One statement of the frame on top of stack i of agent a                 *)
Exec(st, a, i) ==
  LET f  == Top(st, a, i)
      x  == Head(f.k)
      rest == Tail(f.k)
      s  == f.s
      k  == x[1]
      st0 == SetTop(st, a, i, [f EXCEPT !.k = rest])      \* statement taken
      \* go on with bindings and statements, after a query
      Go(y, s2, k2) == Out(SetTop([AddPend(st0, y.o) EXCEPT !.c = y.c], a, i,
                             [f EXCEPT !.s = s2, !.k = k2]), "ok")
      Bad(y, r) == Out([AddPend(st0, y.o) EXCEPT !.c = y.c], r)
      Q(m) == Run(m, st.c, <<>>, st.ag[a])
  IN
  CASE k = "add"  -> AddBelief(st0, a, x[2], s, i)
    [] k = "del"  -> DelBelief(st0, a, x[2], s, i)
    [] k = "abolish" -> Abolish(st0, a, x[2], s)
    [] k = "ach"  -> Achieve(st0, a, x[2], s, i)
    [] k = "later" -> Achieve(st0, a, x[2], s, 0)
    [] k = "test" -> TestGoal(st0, a, x[2], s, i)
    [] k = "q"    -> { IF y.st = "sol" THEN Go(y, y.s, rest)
                       ELSE Bad(y, IF y.st = "fail" THEN "err" ELSE y.st)
                     : y \in Q(Machine(x[2], s)) }
    [] k = "if"   -> { IF y.st = "sol" THEN Go(y, y.s, x[3] \o rest)
                       ELSE IF y.st = "fail" THEN Go(y, s, x[4] \o rest)
                       ELSE Bad(y, y.st)
                     : y \in Q(Machine(x[2], s)) }
    [] k \in {"while", "wback"} ->
         LET s0 == IF k = "wback" THEN x[4] ELSE s IN
                     { IF y.st = "sol" THEN Go(y, y.s, x[3] \o << <<"wback", x[2], x[3], s0>> >> \o rest)
                       ELSE IF y.st = "fail" THEN Go(y, s0, rest)
                       ELSE Bad(y, y.st)
                     : y \in Q(Machine(x[2], s0)) }
    [] k \in {"for", "fnext"} ->
         LET s0 == IF k = "fnext" THEN x[4] ELSE s
             m  == IF k = "fnext" THEN x[2] ELSE Machine(x[2], s)
         IN          { IF y.st = "sol" THEN Go(y, y.s, x[3] \o << <<"fnext", y.m, x[3], s0>> >> \o rest)
                       ELSE IF y.st = "fail" THEN Go(y, s0, rest)
                       ELSE Bad(y, y.st)
                     : y \in Q(m) }
    [] k = "send" -> SendTo(st0, a, x[2], x[3], x[4], s)
    [] k = "bcast" -> Broadcast(st0, a, x[2], x[3], s)
    [] k = "wait" ->
         LET g == GrdSeq(s, x[3], <<>>) IN
         IF g[1] # "ok" THEN {Out(st0, g[1])}
         ELSE IF g[2] # <<>> /\ g[2][1][1] # "n" THEN {Out(st0, "err")}
         ELSE IF g[2] # <<>> /\ ~(IsInt(g[2][1]) /\ g[2][1][2] % MillisPerTick = 0) THEN {Out(st0, "und")}
         ELSE LET until == IF g[2] = <<>> THEN <<>> ELSE <<st.clk + (g[2][1][2] \div MillisPerTick)>>
                  nv == IF x[2] = <<>> THEN {} ELSE VarsOf(x[2][2])
                  ev == IF x[2] = <<>> THEN <<>> ELSE <<x[2][1], FreshCopy(x[2][2], st.c)>>
              IN {Out([SetTop(st0, a, i, [f EXCEPT !.k = rest, !.w = <<ev, until>>])
                        EXCEPT !.c = @ + Cardinality(nv)], "ok")}

(* A finished frame returns to the frame below it.                          *)
Return(st, a, i) ==
  LET stack == st.ag[a].ints[i]
      f == Last(stack)
      st1 == [st EXCEPT !.ag[a].ints[i] = Front(stack)]
  IN IF Len(stack) = 1 THEN {Out([st EXCEPT !.ag[a].ints = RemoveAt(@, i)], "ok")}
     ELSE IF f.call = NoCall THEN {Out(st1, "ok")}
     ELSE LET fz == Frz(f.s, f.head)
              g == Last(st1.ag[a].ints[i])
          IN IF fz[1] # "ok" THEN {Out(st1, fz[1])}
             ELSE LET u == Uni(g.s, f.call, fz[2]) IN
               IF u.st = "yes" THEN {Out(SetTop(st1, a, i, [g EXCEPT !.s = u.s]), "ok")}
               ELSE {Out(st1, IF u.st = "no" THEN "err" ELSE u.st)}

---------------------------------------------------------------------------
(* Scheduling                                                               *)

DueMay(w, clk) == w # NoWait /\ w[2] # <<>> /\ w[2][1] <= clk
DueMust(w, clk) == w # NoWait /\ w[2] # <<>> /\ w[2][1] < clk
Ready(f) == f.w = NoWait
\* the intentions that may be the one to run: the first one in the queue that is
\* not waiting (a deadline that is exactly now may count as passed or not)
Candidates(st, a) ==
  LET q == st.ag[a].ints IN
  { i \in 1..Len(q) :
      /\ q[i] # <<>>
      /\ Ready(Last(q[i])) \/ DueMay(Last(q[i]).w, st.clk)
      /\ \A j \in 1..(i - 1) : q[j] # <<>> => ~(Ready(Last(q[j])) \/ DueMust(Last(q[j]).w, st.clk)) }
MustRun(st, a) ==
  \E i \in 1..Len(st.ag[a].ints) :
     LET q == st.ag[a].ints[i] IN q # <<>> /\ (Ready(Last(q)) \/ DueMust(Last(q).w, st.clk))
AnyReady(st, a) ==
  \E i \in 1..Len(st.ag[a].ints) :
     LET q == st.ag[a].ints[i] IN q # <<>> /\ Ready(Last(q))
Deadlines(st, a) ==
  { Last(st.ag[a].ints[i]).w[2][1] : i \in { i \in 1..Len(st.ag[a].ints) :
      /\ st.ag[a].ints[i] # <<>>
      /\ Last(st.ag[a].ints[i]).w # NoWait
      /\ Last(st.ag[a].ints[i]).w[2] # <<>> } }

\* one atomic action of agent a with the intention at queue position i
StepAt(st, a, i) ==
  LET st1 == SetTop(st, a, i, [Top(st, a, i) EXCEPT !.w = NoWait]) IN
  IF Top(st1, a, i).k = <<>> THEN Return(st1, a, i) ELSE Exec(st1, a, i)
StepAgent(st, a) == UNION { StepAt(st, a, i) : i \in Candidates(st, a) }

---------------------------------------------------------------------------
(* Building an agent                                                        *)
\* prog: [rules, plans, beliefs (seq of terms), goals (seq of terms)]
RECURSIVE InitBeliefs(_, _, _), InitGoals(_, _, _)
InitBeliefs(st, a, q) ==
  IF q = <<>> THEN {Out(st, "ok")}
  ELSE UNION { IF x.r # "ok" THEN {x} ELSE InitBeliefs(x.st, a, Tail(q))
             : x \in AddBelief(st, a, Head(q), EmptySub, 0) }
InitGoals(st, a, q) ==
  IF q = <<>> THEN {Out(st, "ok")}
  ELSE UNION { IF x.r # "ok" THEN {x} ELSE InitGoals(x.st, a, Tail(q))
             : x \in Achieve([st EXCEPT !.c = @ + Cardinality(VarsOf(Head(q)))], a,
                             FreshCopy(Head(q), st.c), EmptySub, 0) }
NewAgent(name, prog) ==
  [name |-> name, bel |-> {}, rules |-> prog.rules, plans |-> prog.plans, ints |-> <<>>]
BuildAgent(st, name, prog) ==
  LET st1 == [st EXCEPT !.ag = (name :> NewAgent(name, prog)) @@ @] IN
  UNION { IF x.r # "ok" THEN {x}
          ELSE { IF y.r = "ok" THEN Out([y.st EXCEPT !.ord = Append(@, name)], "ok") ELSE y
               : y \in InitGoals(x.st, name, prog.goals) }
        : x \in InitBeliefs(st1, name, prog.beliefs) }

InitState == [ag |-> [x \in {} |-> <<>>], ord |-> <<>>, clk |-> 0, c |-> 1000, pend |-> <<>>]
=============================================================================
