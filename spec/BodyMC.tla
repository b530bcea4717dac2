------------------------------- MODULE BodyMC -------------------------------
(***************************************************************************)
(* The agent machine (AgentSpeak.tla: frames, suspended loops, stacks)     *)
(* against what the statements of a plan body mean.  The meaning is given  *)
(* by recursion on the body (Does): what a statement makes of the bindings, *)
(* the beliefs and the record, with a goal meaning its plan's body, done   *)
(* at once; no frames, no stacks, no steps.                                *)
(*                                                                         *)
(* All bodies of Length statements from Pool, for all belief bases in      *)
(* Bases: every way the machine can take ends as the meaning says, and     *)
(* every way the meaning allows is taken.  The programs are printed, and   *)
(* run on the implementation.                                              *)
(***************************************************************************)
EXTENDS AgentSpeak, Json

CONSTANTS Length, Wide
NoText(x) == UND
D == {1, 2, 3}
At(f, args) == <<"f", f, args, {}>>
VX == <<"v", 1>>   VY == <<"v", 2>>
T(t) == <<"term", t>>
P(x) == At("p", <<x>>)   Q(x) == At("q", <<x>>)
Rec(x) == <<"q", <<"act", ".rec", <<x>>>>>>
Add(t) == <<"add", t>>   Del(t) == <<"del", t>>   Ach(t) == <<"ach", t>>   Test(t) == <<"test", t>>
G(x) == At("g", <<x>>)   H(x) == At("h", <<x>>)

Plan(trig, head, ctx, body) == [trig |-> trig, head |-> head, ctx |-> ctx, body |-> body, nv |-> 2, label |-> ""]
Plans == <<
  \* h gives a value to its argument, if it can; g calls it; a new q adds p, a lost p is recorded
  Plan("+!", H(VX), T(P(VX)), <<Del(P(VX))>>),
  Plan("+!", H(N(3)), <<"true">>, <<Rec(N(30))>>),
  Plan("+!", G(VX), <<"not", T(Q(VX))>>, <<Ach(H(VX)), Rec(VX)>>),
  Plan("+!", G(VX), T(Q(VY)), <<Add(P(VY)), Rec(VY)>>),
  Plan("+", Q(N(1)), <<"true">>, <<Rec(N(11)), Add(P(N(3)))>>),
  Plan("+", Q(VX), T(P(VX)), <<Rec(N(12)), Del(P(VX))>>),
  Plan("-", P(VX), T(P(VY)), <<Rec(N(20))>>),
  Plan("+?", At("t", <<VX>>), T(Q(VX)), <<Rec(N(40))>>)
>>

Small == {<<Rec(VX)>>, <<Add(Q(VX))>>, <<Del(P(VX)), Rec(N(5))>>, <<Del(P(VY)), Rec(VY)>>,
          <<Ach(H(VY)), Rec(VY)>>, <<Test(P(VY)), Rec(VY)>>}
Conds == {T(P(VX)), <<"and", T(P(VX)), <<"not", T(Q(VX))>>>>, <<"or", T(Q(VX)), <<"eq", VX, N(3)>>>>}
If(c, a, b) == <<"if", c, a, b>>
Pool == {Rec(VX), Rec(VY), Add(P(N(2))), Add(Q(N(1))), Add(Q(VX)), Del(P(VX)), Del(Q(VY)),
         Ach(G(VX)), Ach(H(VY)), Ach(G(N(3))), Test(P(VX)), Test(At("t", <<VY>>)),
         <<"q", <<"eq", VX, VY>>>>, <<"q", <<"eq", VX, N(1)>>>>}
        \cup {If(c, a, <<Rec(N(9))>>) : c \in (IF Wide THEN Conds ELSE {T(P(VX))}), a \in Small}
        \cup {If(<<"not", T(P(N(1)))>>, <<Add(P(N(1)))>>, <<Rec(VX)>>)}
        \cup {<<"for", T(P(VX)), a>> : a \in Small}
        \cup {<<"while", c, <<Del(P(VX))>> \o a>> : c \in {T(P(VX))}, a \in Small}
        \cup (IF Wide THEN {<<"for", T(P(VX)), << <<"for", T(Q(VY)), a>> >> >> : a \in Small}
                           \cup {<<"for", T(P(VX)), <<If(T(Q(VX)), a, b)>> >> : a, b \in Small} ELSE {})
Bases == {{P(N(1)), P(N(2)), Q(N(2))}} \cup (IF Wide THEN {{}, {P(N(1)), Q(N(1)), Q(N(3))}} ELSE {})

VARIABLES body, base
vars == <<body, base>>
Init == body = <<>> /\ base \in Bases
Next == Len(body) < Length /\ (\E x \in Pool : body' = Append(body, x)) /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Bindings of the meaning: a function from the variables to an individual  *)
(* or to the least variable it is the same as (0: unknown itself)           *)
Fuel == 40
\* an environment: groups of variables known to be equal are values too, "u1" ...
V0 == [v \in {1, 2} |-> <<"u", v>>]
Mv(m, t) == IF t[1] = "v" THEN m[t[2]] ELSE t
Known(m, t) == Mv(m, t)[1] = "n"
\* making two of them the same: a set, empty if they differ
Same(m, x, y) ==
  LET a == Mv(m, x)  b == Mv(m, y) IN
  IF a = b THEN {m}
  ELSE IF a[1] = "u" THEN {[v \in DOMAIN m |-> IF m[v] = a THEN b ELSE m[v]]}
  ELSE IF b[1] = "u" THEN {[v \in DOMAIN m |-> IF m[v] = b THEN a ELSE m[v]]}
  ELSE {}
RECURSIVE Mean(_, _, _)
Mean(c, m, B) ==
  CASE c[1] = "true" -> {m}
    [] c[1] = "term" -> UNION {Same(m, c[2][3][1], b[3][1]) : b \in {b \in B : b[2] = c[2][2]}}
    [] c[1] = "and" -> UNION {Mean(c[3], n, B) : n \in Mean(c[2], m, B)}
    [] c[1] = "or" -> Mean(c[2], m, B) \cup Mean(c[3], m, B)
    [] c[1] = "not" -> IF Mean(c[2], m, B) = {} THEN {m} ELSE {}
    [] c[1] = "eq" -> Same(m, c[2], c[3])
\* the first answer: the alternatives of "or" are tried in order
RECURSIVE Best(_, _, _)
Best(c, m, B) ==
  IF c[1] = "or" THEN (LET l == Best(c[2], m, B) IN IF l # {} THEN l ELSE Best(c[3], m, B)) ELSE Mean(c, m, B)

C(m, B, log, r, n) == [m |-> m, B |-> B, log |-> log, r |-> r, n |-> n]
RECURSIVE Does(_, _), BigEach(_, _, _, _), BigGoal(_, _, _, _), BigWhile(_, _, _), BigOne(_, _)
Err(c) == {[c EXCEPT !.r = "err"]}
\* trigger with argument x (a value or unknown): the first plan that applies; nothing if there is none
BigGoal(trig, f, c, must) ==
  LET x == f[3][1]
      xv == Mv(c.m, x)
      start(p) == UNION {Same(V0, p.head[3][1], y) : y \in (IF xv[1] = "n" THEN {xv} ELSE {<<"v", 1>>})}
      \* an unknown argument is the plan's own variable; a plan head with a value gives it to that
      heads(p) == IF xv[1] = "n" THEN start(p)
                  ELSE IF p.head[3][1][1] = "v" THEN {V0} ELSE {V0}
      ways(p) == UNION {Best(p.ctx, m, c.B) : m \in heads(p)}
      J == {j \in 1..Len(Plans) : Plans[j].trig = trig /\ Plans[j].head[2] = f[2] /\ ways(Plans[j]) # {}}
  IN IF J = {} THEN (IF must THEN Err(c) ELSE {c})
     ELSE LET p == Plans[CHOOSE j \in J : \A k \in J : j <= k]
              done == UNION {Does(p.body, C(m, c.B, c.log, "ok", c.n - 1)) : m \in ways(p)}
              \* back in the caller: the argument is what it has become
              back(d) == IF p.head[3][1][1] = "v" THEN Mv(d.m, p.head[3][1]) ELSE p.head[3][1]
          IN UNION { IF d.r # "ok" THEN {d}
                     ELSE IF back(d)[1] = "n"
                     THEN {C(m, d.B, d.log, "ok", d.n) : m \in Same(c.m, x, back(d))}
                     ELSE {C(c.m, d.B, d.log, "ok", d.n)} : d \in done }
BigEach(todo, b, c, m0) ==      \* for: once for every answer, in any order
  IF todo = {} THEN {[c EXCEPT !.m = m0]}
  ELSE UNION { UNION { IF d.r # "ok" THEN {d} ELSE BigEach(todo \ {m}, b, d, m0)
                     : d \in Does(b, [c EXCEPT !.m = m]) } : m \in todo }
BigWhile(x, c, m0) ==
  LET A == Best(x[2], m0, c.B) IN
  IF A = {} THEN {[c EXCEPT !.m = m0]}
  ELSE UNION { UNION { IF d.r # "ok" THEN {d} ELSE BigWhile(x, [d EXCEPT !.n = @ - 1], m0)
                     : d \in Does(x[3], [c EXCEPT !.m = m]) } : m \in A }
BigOne(x, c) ==
  LET k == x[1]  m == c.m IN
  IF c.n <= 0 THEN {[c EXCEPT !.r = "fuel"]}
  ELSE CASE k = "q" /\ x[2][1] = "act" ->
         {[c EXCEPT !.log = Append(@, IF Known(m, x[2][3][1]) THEN Mv(m, x[2][3][1])[2] ELSE 0)]}
    [] k = "q" -> LET A == Best(x[2], m, c.B) IN IF A = {} THEN Err(c) ELSE {[c EXCEPT !.m = n] : n \in A}
    [] k = "add" -> IF ~Known(m, x[2][3][1]) THEN Err(c)
                    ELSE LET f == At(x[2][2], <<Mv(m, x[2][3][1])>>) IN
                         BigGoal("+", f, [c EXCEPT !.B = @ \cup {f}], FALSE)
    [] k = "del" -> LET W == {b \in c.B : b[2] = x[2][2] /\ Same(m, x[2][3][1], b[3][1]) # {}} IN
                    IF W = {} THEN {c}
                    ELSE UNION { UNION { BigGoal("-", b, C(n, c.B \ {b}, c.log, "ok", c.n), FALSE)
                                       : n \in Same(m, x[2][3][1], b[3][1]) } : b \in W }
    [] k = "ach" -> BigGoal("+!", x[2], c, TRUE)
    [] k = "test" -> LET viaPlan == BigGoal("+?", x[2], c, TRUE)
                         A == Mean(T(x[2]), m, c.B)
                     IN IF \E d \in viaPlan : ~(d.r = "err" /\ d.log = c.log /\ d.B = c.B) THEN viaPlan
                        ELSE IF A = {} THEN Err(c) ELSE {[c EXCEPT !.m = n] : n \in A}
    [] k = "if" -> LET A == Best(x[2], m, c.B) IN
                   IF A = {} THEN Does(x[4], c) ELSE UNION {Does(x[3], [c EXCEPT !.m = n]) : n \in A}
    [] k = "for" -> BigEach(Mean(x[2], m, c.B), x[3], c, m)
    [] k = "while" -> BigWhile(x, c, m)
Does(b, c) == IF b = <<>> THEN {c}
             ELSE UNION {IF d.r # "ok" THEN {d} ELSE Does(Tail(b), d) : d \in TLCEval(BigOne(Head(b), c))}
Meaning == {[B |-> d.B, log |-> d.log, r |-> d.r] : d \in Does(body, C(V0, base, <<>>, "ok", Fuel))}

---------------------------------------------------------------------------
(* All ways of the machine                                                  *)
St0 == [InitState EXCEPT
         !.ag = ("a" :> [name |-> "a", bel |-> base, rules |-> <<>>, plans |-> Plans,
                         ints |-> << <<Frame(EmptySub, body, At("go", <<>>), NoCall)>> >>]),
         !.ord = <<"a">>]
LogOf(p) == [i \in 1..Len(p) |-> IF p[i][2][1][1] = "n" THEN p[i][2][1][2] ELSE 0]
RECURSIVE Ways(_, _, _)
Ways(st, log, n) ==
  IF st.ag["a"].ints = <<>> THEN {[B |-> st.ag["a"].bel, log |-> log, r |-> "ok"]}
  ELSE UNION { LET l == log \o LogOf(x.st.pend)  s == [x.st EXCEPT !.pend = <<>>] IN
               IF x.r = "ok" THEN Ways(s, l, n + 1)
               ELSE {[B |-> s.ag["a"].bel, log |-> l, r |-> x.r]}
             : x \in TLCEval(StepAgent(st, "a")) }
Agrees == LET W == TLCEval(Meaning) IN
          (\E d \in W : d.r = "fuel") \/
          LET M == TLCEval(Ways(St0, <<>>, 0)) IN
          W = M \/ ~PrintT(<<"DIFFERS", "meaning only", W \ M, "machine only", M \ W>>)
Shown == Len(body) < Length \/ PrintT("BODY " \o ToJson(<<base, body>>))
ASSUME PrintT("PLANS " \o ToJson(Plans))
=============================================================================
