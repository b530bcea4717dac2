------------------------------- MODULE UniMC --------------------------------
(***************************************************************************)
(* The unification of Terms.tla against its definition, on every pair of a *)
(* small universe of terms (two variables): it succeeds exactly if some    *)
(* assignment of ground terms makes the two sides equal, and its result is *)
(* a most general unifier.  Annotated matching against its definition by   *)
(* one-to-one pairings.                                                    *)
(***************************************************************************)
EXTENDS Terms
CONSTANT Deep
VARIABLES x, y, k
f(args) == <<"f", "f", args, {}>>
L0 == {N(1), <<"b", TRUE>>, <<"f", "a", <<>>, {}>>, <<"l", <<>>>>, <<"v", 1>>, <<"v", 2>>}
G0 == {t \in L0 : t[1] # "v"}
L1 == L0 \cup {f(<<t>>) : t \in L0} \cup {<<"l", <<t>>>> : t \in L0}
         \cup {f(<<t, u>>) : t \in L0, u \in L0}
         \cup {<<"c", t, u>> : t \in L0, u \in L0}
         \cup {<<"l", <<t, u>>>> : t \in {<<"v", 1>>, N(1)}, u \in L0}
L2 == IF Deep THEN L1 \cup {f(<<t, u>>) : t \in {<<"v", 1>>, f(<<<<"v", 2>>>>), <<"c", <<"v", 1>>, <<"v", 2>>>>},
                                          u \in L1}
              ELSE L1
\* ground terms that variables may stand for
D == G0 \cup {f(<<t>>) : t \in G0} \cup {<<"l", <<t>>>> : t \in G0}
Assign == [{1, 2} -> D]
Inst(sg, t) == LET g == Grd(sg, t) IN g[2]

\* annotated patterns and facts
A0 == {<<"f", "s", <<t>>, {}>> : t \in {N(1), N(2), <<"v", 1>>, <<"v", 2>>}}
        \cup {<<"f", "t", <<>>, {a}>> : a \in {<<"f", "u", <<>>, {}>>, <<"v", 2>>}}
        \cup {<<"f", "t", <<>>, {}>>}
AG == {<<"f", "s", <<t>>, {}>> : t \in {N(1), N(2), N(3)}}
        \cup {<<"f", "t", <<>>, {}>>, <<"f", "t", <<>>, {<<"f", "u", <<>>, {}>>}>>}
Pats == {<<"f", "p", <<t>>, S>> : t \in {<<"v", 1>>, N(1)}, S \in {S \in SUBSET A0 : Cardinality(S) <= 3}}
Facts == {<<"f", "p", <<N(1)>>, S>> : S \in {S \in SUBSET AG : Cardinality(S) <= 4}}

Init == \/ k = "uni0" /\ x \in L2 /\ y = <<>>
        \/ k = "ann0" /\ x \in Pats /\ y = <<>>
Next == \/ k = "uni0" /\ k' = "uni" /\ x' = x /\ y' \in L1
        \/ k = "ann0" /\ k' = "ann" /\ x' = x /\ y' \in Facts
Spec == Init /\ [][Next]_<<x, y, k>>

R == Uni(EmptySub, x, y)
Unifiers == {sg \in Assign : Inst(sg, x) = Inst(sg, y)}
Sound == k = "uni" /\ R.st = "yes" => Frz(R.s, x) = Frz(R.s, y)
Complete == k = "uni" /\ R.st # "yes" => Unifiers = {}
MostGeneral ==
  k = "uni" /\ R.st = "yes" =>
    \A sg \in Unifiers : \A v \in {1, 2} : Inst(sg, Frz(R.s, <<"v", v>>)[2]) = sg[v]
Symmetric == k = "uni" => Uni(EmptySub, y, x).st = R.st
Defined == k = "uni" => R.st \in {"yes", "no", "und"}
Undone == k = "uni" /\ R.st = "und" => Unifiers = {}

RECURSIVE Covers(_, _)
\* ground p matches ground q: same term, annotations paired one-to-one
Covers(p, q) ==
  IF p[1] # "f" \/ q[1] # "f" THEN p = q
  ELSE /\ p[2] = q[2] /\ p[3] = q[3]
       /\ \E h \in [p[4] -> q[4]] : (\A a, b \in p[4] : a # b => h[a] # h[b]) /\ \A a \in p[4] : Covers(a, h[a])
GD == {N(1), N(2), N(3), <<"f", "u", <<>>, {}>>}
InstAll(sg, t) == <<"f", t[2], [i \in 1..Len(t[3]) |-> Inst(sg, t[3][i])], t[4]>>
\* all pairings of annotations with instantiation applied to each
CoversBy(sg, p, q) ==
  /\ [i \in 1..Len(p[3]) |-> Inst(sg, p[3][i])] = q[3]
  /\ \E h \in [p[4] -> q[4]] : (\A a, b \in p[4] : a # b => h[a] # h[b])
                               /\ \A a \in p[4] : Covers(Inst(sg, a), h[a])
AnnExact == k = "ann" => ((UniAnn(EmptySub, x, y) # {}) <=> \E sg \in [{1, 2} -> GD] : CoversBy(sg, x, y))
AnnSound == k = "ann" => \A r \in UniAnn(EmptySub, x, y) :
              r.st = "yes" /\ \E sg \in [{1, 2} -> GD] :
                 CoversBy(sg, x, y) /\ \A v \in DOMAIN r.s : Grd(r.s, <<"v", v>>) = OK(sg[v])
=============================================================================
