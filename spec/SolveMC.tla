------------------------------ MODULE SolveMC ------------------------------
(***************************************************************************)
(* The machine for queries (Solver.tla: goals, bindings, alternatives to   *)
(* come back to) against what queries mean.  The meaning of a query is     *)
(* given by recursion on it, without goals, alternatives or unification:   *)
(* the set of the assignments that extend the given one and make it true   *)
(* in a world of two individuals.                                          *)
(*                                                                         *)
(* All belief bases over Facts, all sets of rules in RuleSets, all queries *)
(* of two (Deep: three) literals with and, or, not, with X bound before or *)
(* not:                                                                    *)
(*   Complete, Sound   the answers are exactly the meaning                 *)
(*   Orders            without rules: in every order of visiting the facts *)
(*   Repeats           an answer is given as often as there are ways to    *)
(*                     derive it                                           *)
(*   Keeps             answers bind nothing but the variables asked for    *)
(*                     and those of the rules, and keep what was bound     *)
(***************************************************************************)
EXTENDS Solver

CONSTANT Deep
D == {1, 2}
At(f, args) == <<"f", f, args, {}>>
VX == <<"v", 1>>   VY == <<"v", 2>>   VZ == <<"v", 3>>
Facts == {At("p", <<N(1)>>), At("p", <<N(2)>>), At("q", <<N(1)>>), At("r", <<N(1), N(2)>>)}
         \cup (IF Deep THEN {At("q", <<N(2)>>), At("r", <<N(2), N(2)>>)} ELSE {})
T(t) == <<"term", t>>
P(x) == T(At("p", <<x>>))   Q(x) == T(At("q", <<x>>))   R(x, y) == T(At("r", <<x, y>>))   S(x) == T(At("s", <<x>>))
And(a, b) == <<"and", a, b>>   Or(a, b) == <<"or", a, b>>   Not(a) == <<"not", a>>
Rule(h, q, nv) == [head |-> h, q |-> q, nv |-> nv]
SX == At("s", <<VX>>)
RuleSets == {
  <<>>,
  << Rule(SX, And(P(VX), Not(Q(VX))), 3) >>,
  << Rule(SX, And(R(VY, VX), P(VY)), 3), Rule(At("s", <<N(1)>>), <<"true">>, 3) >>,
  << Rule(SX, Or(Q(VX), And(R(VX, VY), P(VY))), 3) >>,
  << Rule(At("t", <<>>), P(VX), 3), Rule(SX, And(T(At("t", <<>>)), And(P(VX), T(At("t", <<>>)))), 3) >>
}
Leaves == IF ~Deep THEN {P(VX), Q(VX), R(VX, VY), S(VX), S(VY), T(At("t", <<>>)), <<"eq", VY, N(1)>>} ELSE
          {P(VX), P(VY), Q(VX), Q(N(2)), R(VX, VY), R(VY, VX), R(VX, VX), S(VX), S(VY), S(N(1)), T(At("t", <<>>)),
           <<"eq", VX, N(2)>>, <<"eq", VY, N(1)>>, <<"true">>, <<"false">>}
Lits == Leaves \cup {Not(x) : x \in Leaves}
Two == {And(a, b) : a, b \in Lits} \cup {Or(a, b) : a, b \in Lits}
Some == {P(VX), Q(VY), R(VX, VY), S(VX), Not(P(VX)), <<"eq", VY, N(1)>>}
Three == {And(Or(a, b), c) : a, b, c \in Some} \cup {And(a, Or(b, c)) : a, b, c \in Some}
         \cup {Or(And(a, b), c) : a, b, c \in Some} \cup {Not(And(a, b)) : a, b \in Some}
         \cup {And(a, Not(And(b, c))) : a, b, c \in Some} \cup {And(a, Not(Not(b))) : a, b \in Some}

VARIABLES bel, rules, q, s0
vars == <<bel, rules, q, s0>>
Bases == IF Deep THEN SUBSET Facts
         ELSE {{}, Facts, {At("p", <<N(1)>>), At("p", <<N(2)>>), At("q", <<N(1)>>)},
               {At("p", <<N(2)>>), At("q", <<N(1)>>), At("r", <<N(1), N(2)>>)}}
Init == bel \in Bases /\ rules \in RuleSets /\ q = <<>> /\ s0 = EmptySub
Next == /\ q = <<>>
        /\ q' \in (IF Deep THEN Two \cup Three ELSE Two)
        /\ s0' \in (IF Deep THEN {EmptySub, 1 :> N(1)} ELSE {EmptySub})
        /\ UNCHANGED <<bel, rules>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The meaning: Mean(q, m) the sequence of assignments, in some order, one  *)
(* for every derivation; an assignment maps variables to individuals       *)
Val(m, t) == IF t[1] = "v" THEN (IF t[2] \in DOMAIN m THEN {m[t[2]]} ELSE D) ELSE {t[2]}
Ext(m, t, d) == IF t[1] = "v" THEN (t[2] :> d) @@ m ELSE m
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
\* the assignments that make the arguments those of a fact
RECURSIVE Fits(_, _, _)
Fits(args, ds, m) ==
  IF args = <<>> THEN {m}
  ELSE IF ds[1] \in Val(m, args[1]) THEN Fits(Tail(args), Tail(ds), Ext(m, args[1], ds[1])) ELSE {}
RECURSIVE Mean(_, _), FlatMap(_, _), ByRules(_, _, _)
FlatMap(x, a) == IF a = <<>> THEN <<>> ELSE Mean(x, Head(a)) \o FlatMap(x, Tail(a))
Inds(b) == [i \in 1..Len(b[3]) |-> b[3][i][2]]
ByRules(t, m, i) ==
  IF i > Len(rules) THEN <<>>
  ELSE LET h == rules[i].head IN
    (IF h[2] # t[2] \/ Len(h[3]) # Len(t[3]) THEN <<>>
     ELSE IF t[3] = <<>> THEN [j \in 1..Len(Mean(rules[i].q, <<>>)) |-> m]
     ELSE LET x == t[3][1]  hx == h[3][1]
              start == IF Cardinality(Val(m, x)) = 1
                       THEN (IF hx[1] = "v" THEN {hx[2] :> (CHOOSE d \in Val(m, x) : TRUE)}
                             ELSE IF hx[2] \in Val(m, x) THEN {<<>>} ELSE {})
                       ELSE {<<>>}
          IN IF start = {} THEN <<>>
             ELSE LET r == Mean(rules[i].q, CHOOSE z \in start : TRUE) IN
                  [j \in 1..Len(r) |-> Ext(m, x, IF hx[1] = "v" THEN r[j][hx[2]] ELSE hx[2])])
    \o ByRules(t, m, i + 1)
Mean(x, m) ==
  CASE x[1] = "true" -> <<m>>
    [] x[1] = "false" -> <<>>
    [] x[1] = "and" -> FlatMap(x[3], Mean(x[2], m))
    [] x[1] = "or" -> Mean(x[2], m) \o Mean(x[3], m)
    [] x[1] = "not" -> IF Mean(x[2], m) = <<>> THEN <<m>> ELSE <<>>
    [] x[1] = "eq" -> IF x[3][2] \in Val(m, x[2]) THEN <<Ext(m, x[2], x[3][2])>> ELSE <<>>
    [] x[1] = "term" ->
         SeqOf(UNION { Fits(x[2][3], Inds(b), m) : b \in {b \in bel : b[2] = x[2][2] /\ Len(b[3]) = Len(x[2][3])} })
         \o ByRules(x[2], m, 1)

---------------------------------------------------------------------------
Agent == [name |-> "a", bel |-> bel, rules |-> rules]
Start == [v \in DOMAIN s0 |-> s0[v][2]]
\* what X and Y are under the bindings of an answer
Seen(s) == LET K == {v \in {1, 2} : Walk(s, <<"v", v>>)[1] = "n"} IN [v \in K |-> Walk(s, <<"v", v>>)[2]]
Only(m) == LET K == DOMAIN m \cap {1, 2} IN [v \in K |-> m[v]]
Times(x, a) == Cardinality({i \in 1..Len(a) : a[i] = x})
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a[i], a) = Times(a[i], b)
\* every order of the facts, where there are few
Answers == AllSols(Machine(q, s0), 10, <<>>, IF rules = <<>> THEN Agent ELSE Agent @@ [det |-> TRUE])
Agrees ==
  q = <<>> \/ LET M == TLCEval(Mean(q, Start))
      want == [i \in 1..Len(M) |-> Only(M[i])]
  IN \A x \in Answers :
       /\ x.st = "ok"
       /\ Same([i \in 1..Len(x.sols) |-> Seen(x.sols[i])], want)
       /\ \A i \in 1..Len(x.sols) : \A v \in DOMAIN s0 : x.sols[i][v] = s0[v]
       /\ \A i \in 1..Len(x.sols) : DOMAIN x.sols[i] \cap (3..9) = {}
=============================================================================
