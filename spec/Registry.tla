------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Host actions: registries of implementations, their resolution and their *)
(* calls within queries.                                                   *)
(*                                                                         *)
(* A registry is a chain of levels, the nearest first; a level is a        *)
(* sequence of registrations                                               *)
(*   [id, name, kind, specs, arity, res]                                   *)
(* kind   "function" "predicate" "procedure", declared with the kinds of   *)
(*        their arguments, or "raw", of the given arity or (-1) of any     *)
(* specs  "any" "int" "float" "str" "tuple" "lit" "bool" "text", and "env" *)
(*        and "agent", which take no argument of the term                  *)
(* res    what it does when called:                                        *)
(*        function   <<"val", t>>  <<"arg", k>>  <<"raise">>               *)
(*        predicate  <<"yes">> <<"no">> <<"none">> <<"eq", k, t>> <<"raise">>*)
(*        procedure  <<"yes">> <<"raise">>                                 *)
(*        raw        <<"vals", ts>>: unifies the first argument with each  *)
(*                   in turn (without arguments: holds once per t)         *)
(***************************************************************************)
EXTENDS Terms

Injected == {"env", "agent"}
Count(specs) == Cardinality({i \in 1..Len(specs) : specs[i] \notin Injected})
Arity(g) == IF g.kind = "raw" THEN g.arity
            ELSE IF g.kind = "function" THEN Count(g.specs) + 1
            ELSE Count(g.specs)

NONE == [kind |-> "none"]

\* registering: one implementation for a name and arity (or a name and any arity) per level
RefusedIn(level, g) == \E i \in 1..Len(level) : level[i].name = g.name /\ Arity(level[i]) = Arity(g)
Add(chain, i, g) == [chain EXCEPT ![i] = Append(@, g)]

InLevel(level, f, n) == {i \in 1..Len(level) : level[i].name = f /\ Arity(level[i]) = n}
RECURSIVE Lookup(_, _, _)
Lookup(chain, f, n) ==
  IF chain = <<>> THEN NONE
  ELSE LET L == Head(chain)
           exact == InLevel(L, f, n)
           any == InLevel(L, f, -1)
       IN IF exact # {} THEN L[CHOOSE i \in exact : TRUE]
          ELSE IF any # {} THEN L[CHOOSE i \in any : TRUE]
          ELSE Lookup(Tail(chain), f, n)

---------------------------------------------------------------------------
(* Conversion of an argument v (its value, variables in it free): what the *)
(* function gets as <<kind of value, term>>                                *)
Convert(spec, v, linked) ==
  IF spec = "any" THEN OK(<<"*", v>>)
  ELSE IF spec = "int" THEN
    (IF v[1] = "n" THEN (IF Big(v) THEN UND ELSE OK(<<"int", N(NTrunc(v))>>))
     ELSE IF v[1] \in {"s", "b"} THEN UND ELSE ERR)
  ELSE IF spec = "float" THEN
    (IF v[1] = "n" THEN OK(<<"float", v>>) ELSE IF v[1] \in {"s", "b"} THEN UND ELSE ERR)
  ELSE IF spec = "str" THEN
    (IF linked /\ v[1] \notin {"n", "s", "b"} THEN UND
     ELSE LET x == StrT(v) IN IF x[1] = "ok" THEN OK(<<"str", <<"s", x[2]>> >>) ELSE UND)
  ELSE IF spec = "tuple" THEN
    (IF v[1] = "l" THEN OK(<<"tuple", v>>) ELSE IF v[1] \in {"s", "c"} THEN (IF v[1] = "s" THEN UND ELSE ERR) ELSE ERR)
  ELSE IF spec = "lit" THEN (IF v[1] = "f" THEN OK(<<"*", v>>) ELSE ERR)
  ELSE IF spec = "bool" THEN (IF v[1] = "b" THEN OK(<<"*", v>>) ELSE ERR)
  ELSE IF spec = "text" THEN (IF v[1] = "s" THEN OK(<<"*", v>>) ELSE ERR)
  ELSE OK(<<spec, <<"b", TRUE>> >>)         \* injected: the environment or the agent itself

RECURSIVE ConvertAll(_, _, _, _, _)
ConvertAll(specs, args, s, linked, acc) ==
  IF specs = <<>> THEN OK(acc)
  ELSE LET sp == Head(specs) IN
    IF sp \in Injected THEN ConvertAll(Tail(specs), args, s, linked, Append(acc, <<sp, <<"b", TRUE>> >>))
    ELSE LET v == Frz(s, Head(args)) IN
         IF v[1] # "ok" THEN v
         ELSE LET c == Convert(sp, v[2], linked) IN
              IF c[1] # "ok" THEN c
              ELSE ConvertAll(Tail(specs), Tail(args), s, linked, Append(acc, c[2]))

(* Log entries: <<id, kinds, values>>, variables numbered in order         *)
Entry(g, conv) == <<g.id, TLCEval([i \in 1..Len(conv) |-> conv[i][1]]), CanonSeq(TLCEval([i \in 1..Len(conv) |-> conv[i][2]]))>>

---------------------------------------------------------------------------
(* Queries over facts, rules and host actions, depth first.  W: the world  *)
(* [chain, facts (sequence of terms), rules (sequence of [head, q, nv]),   *)
(* linked]; log: the calls made so far; c: variables used so far.          *)
Alt(g, s) == [g |-> g, s |-> s]
GRes(st, s, rest, log, c) == [st |-> st, s |-> s, rest |-> rest, log |-> log, c |-> c]

RECURSIVE RenQ(_, _)
RenQ(q, off) ==
  IF q[1] = "term" THEN <<"term", Ren(q[2], off)>>
  ELSE IF q[1] = "eq" THEN <<"eq", Ren(q[2], off), Ren(q[3], off)>>
  ELSE IF q[1] \in {"and", "or"} THEN <<q[1], RenQ(q[2], off), RenQ(q[3], off)>>
  ELSE IF q[1] = "not" THEN <<"not", RenQ(q[2], off)>>
  ELSE q

\* the results of a call: answers as substitutions in order, "err" / "und" after some of them
CRes(st, sols, log) == [st |-> st, sols |-> sols, log |-> log]
Answer(r, log) ==
  IF r.st = "yes" THEN CRes("ok", <<r.s>>, log)
  ELSE IF r.st = "no" THEN CRes("ok", <<>>, log)
  ELSE CRes(r.st, <<>>, log)
RECURSIVE RawAnswers(_, _, _, _, _)
RawAnswers(vals, args, s, acc, log) ==
  IF vals = <<>> THEN CRes("ok", acc, log)
  ELSE LET r == IF args = <<>> THEN URes("yes", s) ELSE Uni(s, args[1], Head(vals)) IN
       IF r.st = "yes" THEN RawAnswers(Tail(vals), args, s, Append(acc, r.s), log)
       ELSE IF r.st = "no" THEN RawAnswers(Tail(vals), args, s, acc, log)
       ELSE CRes(r.st, acc, log)

Invoke(g, args, s, log, linked) ==
  IF g.kind = "raw" THEN
    LET f == FrzSeq(s, args, <<>>) IN
    IF f[1] # "ok" THEN CRes(f[1], <<>>, log)
    ELSE RawAnswers(g.res[2], args, s, <<>>,
                    Append(log, Entry(g, TLCEval([i \in 1..Len(f[2]) |-> <<"*", f[2][i]>>]))))
  ELSE
    LET cv == ConvertAll(g.specs, args, s, linked, <<>>) IN
    IF cv[1] # "ok" THEN CRes(cv[1], <<>>, log)
    ELSE LET conv == cv[2]  L == Append(log, Entry(g, conv)) IN
      IF g.res[1] = "raise" THEN CRes("err", <<>>, L)
      ELSE IF g.kind = "procedure" THEN CRes("ok", <<s>>, L)
      ELSE IF g.kind = "predicate" THEN
        LET holds == g.res[1] = "yes" \/ (g.res[1] = "eq" /\ conv[g.res[2]][2] = g.res[3])
        IN IF g.res[1] = "eq" /\ VarsOf(conv[g.res[2]][2]) # {} THEN CRes("und", <<>>, L)
           ELSE CRes("ok", IF holds THEN <<s>> ELSE <<>>, L)
      ELSE LET v == IF g.res[1] = "val" THEN g.res[2] ELSE conv[g.res[2]][2] IN
           IF VarsOf(v) # {} THEN CRes("und", <<>>, L)
           ELSE Answer(Uni(s, args[Len(args)], v), L)

RECURSIVE Go(_, _, _, _)
Go(W, alts, log, c) ==
  IF alts = <<>> THEN GRes("fail", <<>>, <<>>, log, c)
  ELSE LET a == Head(alts)  rest == Tail(alts)  s == a.s IN
  IF a.g = <<>> THEN GRes("sol", s, rest, log, c)
  ELSE LET q == Head(a.g)  K == Tail(a.g) IN
  IF q[1] = "and" THEN Go(W, <<Alt(<<q[2], q[3]>> \o K, s)>> \o rest, log, c)
  ELSE IF q[1] = "or" THEN Go(W, <<Alt(<<q[2]>> \o K, s), Alt(<<q[3]>> \o K, s)>> \o rest, log, c)
  ELSE IF q[1] \in {"err", "und"} THEN GRes(q[1], s, <<>>, log, c)
  ELSE IF q[1] = "not" THEN
    LET r == Go(W, <<Alt(<<q[2]>>, s)>>, log, c) IN
    IF r.st = "sol" THEN Go(W, rest, r.log, r.c)
    ELSE IF r.st = "fail" THEN Go(W, <<Alt(K, s)>> \o rest, r.log, r.c)
    ELSE r
  ELSE IF q[1] = "eq" THEN
    LET r == Uni(s, q[2], q[3]) IN
    IF r.st = "yes" THEN Go(W, <<Alt(K, r.s)>> \o rest, log, c)
    ELSE IF r.st = "no" THEN Go(W, rest, log, c)
    ELSE GRes(r.st, s, <<>>, log, c)
  ELSE
    LET t == q[2]  g == Lookup(W.chain, t[2], Len(t[3])) IN
    IF g = NONE THEN
      LET same(u) == u[2] = t[2] /\ Len(u[3]) = Len(t[3])
          facts == SelectSeq(W.facts, same)
          fit(i) == Uni(s, t, facts[i])
          ok == SelectSeq([i \in 1..Len(facts) |-> i], LAMBDA i : fit(i).st # "no")
          byfact == [i \in 1..Len(ok) |-> IF fit(ok[i]).st = "yes" THEN Alt(K, fit(ok[i]).s) ELSE Alt(<<<<fit(ok[i]).st>> >>, s)]
          rules == SelectSeq(W.rules, LAMBDA r : same(r.head))
          byrule == [i \in 1..Len(rules) |->
                       Alt(<<<<"eq", t, Ren(rules[i].head, c)>>, RenQ(rules[i].q, c)>> \o K, s)]
          most == IF rules = <<>> THEN 0 ELSE CHOOSE m \in {rules[i].nv : i \in 1..Len(rules)} : \A i \in 1..Len(rules) : rules[i].nv <= m
      IN IF Len(facts) > 1 THEN GRes("und", s, <<>>, log, c)     \* facts have no order
         ELSE Go(W, byfact \o byrule \o rest, log, c + most)
    ELSE
      LET r == Invoke(g, t[3], s, log, W.linked)
          more == TLCEval([i \in 1..Len(r.sols) |-> Alt(K, r.sols[i])])
          last == IF r.st = "ok" THEN <<>> ELSE <<Alt(<<<<r.st>> >>, s)>>
      IN Go(W, more \o last \o rest, r.log, c)

First(W, q, s, log, c) == Go(W, <<Alt(<<q>>, s)>>, log, c)

(* A body: each statement once; and the first plan with a true context     *)
RECURSIVE Body(_, _, _, _, _)
Body(W, b, s, log, c) ==
  IF b = <<>> THEN GRes("sol", s, <<>>, log, c)
  ELSE LET r == First(W, Head(b), s, log, c) IN
       IF r.st # "sol" THEN r ELSE Body(W, Tail(b), r.s, r.log, r.c)

Goal(W, ctx, body, nv) ==
  LET r == First(W, ctx, EmptySub, <<>>, nv) IN
  IF r.st = "fail" THEN GRes("other", EmptySub, <<>>, r.log, r.c)
  ELSE IF r.st # "sol" THEN r
  ELSE LET b == Body(W, body, r.s, r.log, r.c) IN
       IF b.st = "fail" THEN [b EXCEPT !.st = "stop"] ELSE b
=============================================================================
