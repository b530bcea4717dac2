------------------------------- MODULE Solver ------------------------------
(***************************************************************************)
(* Queries: goals solved depth first, left to right, against a belief base *)
(* and a sequence of rules.                                                *)
(*                                                                         *)
(*   <<"true">> <<"false">> <<"term", t>> <<"eq", x, y>>                   *)
(*   <<"and", q1, q2>> <<"or", q1, q2>> <<"not", q>> <<"act", name, args>> *)
(*                                                                         *)
(* A suspended query is a machine: a sequence of alternatives              *)
(* [g |-> goals still to prove, s |-> bindings].  Next(M, c, ag) yields    *)
(* the set of all possible ways to go on to the next answer, as records    *)
(*   st "sol" | "fail" | "err" | "und"                                     *)
(*   s  the bindings of the answer        m  the machine after the answer  *)
(*   c  the fresh-variable counter        o  host actions called, in order *)
(* The only nondeterminism is the order in which the facts of a belief set *)
(* are visited and the pairing chosen for annotations.                     *)
(* ag is a record with at least  name, bel (set of ground literals) and    *)
(* rules (sequence of [head, q, nv]).                                      *)
(***************************************************************************)
EXTENDS Terms

CONSTANT HostActions       \* names of actions that are recorded and succeed

RECURSIVE RenQ(_, _)
RenQ(q, off) ==
  IF q[1] \in {"true", "false"} THEN q
  ELSE IF q[1] = "term" THEN <<"term", Ren(q[2], off)>>
  ELSE IF q[1] = "eq" THEN <<"eq", Ren(q[2], off), Ren(q[3], off)>>
  ELSE IF q[1] \in {"and", "or"} THEN <<q[1], RenQ(q[2], off), RenQ(q[3], off)>>
  ELSE IF q[1] = "not" THEN <<"not", RenQ(q[2], off)>>
  ELSE <<"act", q[2], TLCEval([i \in 1..Len(q[3]) |-> Ren(q[3][i], off)])>>

Alt(g, s) == [g |-> g, s |-> s]
Machine(q, s) == <<Alt(<<q>>, s)>>

NRes(st, s, m, c, o) == [st |-> st, s |-> s, m |-> m, c |-> c, o |-> o]

SameGroup(t, b) == b[1] = "f" /\ b[2] = t[2] /\ Len(b[3]) = Len(t[3])

---------------------------------------------------------------------------
(* Pure built-in actions: a set of [st, sols, c] where sols is the         *)
(* sequence of bindings it enumerates.                                     *)
ARes(st, sols, c) == [st |-> st, sols |-> sols, c |-> c, o |-> <<>>]
AErr(c) == {ARes("err", <<>>, c)}
AUnd(c) == {ARes("und", <<>>, c)}
AFail(c) == {ARes("ok", <<>>, c)}

\* unify a computed result with the result argument
AUnify(s, c, res, t) ==
  LET r == Uni(s, t, res) IN
  {IF r.st = "yes" THEN ARes("ok", <<r.s>>, c)
   ELSE IF r.st = "no" THEN ARes("ok", <<>>, c) ELSE ARes(r.st, <<>>, c)}

RECURSIVE EnumUni(_, _, _, _)
EnumUni(s, t, vals, acc) ==       \* sequence of bindings from t = vals[1] | t = vals[2] ...
  IF vals = <<>> THEN [st |-> "ok", sols |-> acc]
  ELSE LET r == Uni(s, t, Head(vals)) IN
       IF r.st \in {"err", "und"} THEN [st |-> r.st, sols |-> acc]
       ELSE EnumUni(s, t, Tail(vals), IF r.st = "yes" THEN Append(acc, r.s) ELSE acc)

FoldBest(q, dir) ==       \* first element that no later one beats; "err" if some pair cannot be compared
  LET RECURSIVE F(_, _)
      F(i, b) ==
        IF i > Len(q) THEN OK(b)
        ELSE LET cc == IF b = q[i] THEN "eq" ELSE Cmp(q[i], b) IN
             IF cc = "err" THEN ERR
             ELSE F(i + 1, IF cc = dir THEN q[i] ELSE b)
  IN IF q = <<>> THEN ERR ELSE F(2, q[1])

RECURSIVE InsertSorted(_, _), SortSeq2(_, _)
InsertSorted(x, q) ==     \* after every element that is not greater
  IF q = <<>> THEN <<x>>
  ELSE IF Cmp(x, Head(q)) = "lt" THEN <<x>> \o q
  ELSE <<Head(q)>> \o InsertSorted(x, Tail(q))
SortSeq2(q, acc) == IF q = <<>> THEN acc ELSE SortSeq2(Tail(q), InsertSorted(Head(q), acc))
Sortable(q) == \A i, j \in 1..Len(q) : i < j => (q[i] = q[j] \/ Cmp(q[i], q[j]) # "err")
RECURSIVE ElemsOf(_), EndOf(_)
ElemsOf(t) == IF t[1] = "c" THEN <<t[2]>> \o ElemsOf(t[3]) ELSE <<>>
EndOf(t) == IF t[1] = "c" THEN EndOf(t[3]) ELSE t
RECURSIVE Improper(_)
Improper(t) == t[1] = "c" \/ (t[1] = "f" /\ \E j \in 1..Len(t[3]) : Improper(t[3][j]))
               \/ (t[1] = "l" /\ \E j \in 1..Len(t[2]) : Improper(t[2][j]))
HasBool(q) == \E i \in 1..Len(q) : q[i][1] = "b"

RECURSIVE ConcatSeqs(_)
ConcatSeqs(q) == IF q = <<>> THEN <<>> ELSE Head(q)[2] \o ConcatSeqs(Tail(q))

RECURSIVE Positions(_, _, _)
Positions(needle, hay, i) ==      \* 0-based positions from i on
  IF i + Len(needle) > Len(hay) THEN <<>>
  ELSE (IF SubSeq(hay, i + 1, i + Len(needle)) = needle THEN <<N(i)>> ELSE <<>>)
       \o Positions(needle, hay, i + 1)

\* the elements of a list argument: OK(sequence), or ERR for a partial list or a non-list
\* (a string in its place, or as its end: outside)
RECURSIVE ListElems(_)
ListElems(t) == IF t[1] = "l" THEN OK(t[2]) ELSE IF t[1] = "s" THEN UND
                ELSE IF t[1] = "c" THEN (IF ListElems(t[3]) = UND THEN UND ELSE ERR) ELSE ERR

PureActions == {".fail", ".member", ".range", ".length", ".nth", ".min", ".max", ".sort",
  ".concat", ".substring", ".atom", ".literal", ".list", ".number", ".string", ".structure",
  ".ground", ".my_name", ".floor", ".ceil", ".round", ".tail", ".print"}

TypeTest(name, t) ==
  CASE name = ".atom" -> IsAtom(t)
    [] name = ".literal" -> t[1] = "f"
    [] name = ".list" -> t[1] \in {"l", "c"}
    [] name = ".number" -> t[1] = "n"
    [] name = ".string" -> t[1] = "s"
    [] name = ".structure" -> t[1] \in {"l", "c", "f"}

PureAct(name, args, s, c, ag) ==
  LET n == Len(args) IN
  IF name = ".fail" THEN AFail(c)
  ELSE IF name = ".print" THEN
    LET x == FrzSeq(s, args, <<>>) IN
    IF x[1] # "ok" THEN {ARes(x[1], <<>>, c)} ELSE {ARes("ok", <<s>>, c)}
  ELSE IF name = ".my_name" THEN AUnify(s, c, <<"f", ag.name, <<>>, {}>>, args[1])
  ELSE IF name = ".ground" THEN
    {ARes("ok", IF IsGround(s, args[1]) THEN <<s>> ELSE <<>>, c)}
  ELSE IF name = ".member" THEN
    LET l == Frz(s, args[2])  t == Ev(s, args[2]) IN
    \* (an element without a value may or may not be met)
    IF l[1] # "ok" THEN {ARes(IF l[1] = "err" /\ t[1] = "ok" /\ t[2][1] \in {"l", "c"} THEN "und" ELSE l[1], <<>>, c)}
    ELSE IF l[2][1] = "c" THEN              \* a list without an end: an error after its elements
      LET r == EnumUni(s, args[1], ElemsOf(l[2]), <<>>)
      IN IF EndOf(l[2])[1] = "s" THEN AUnd(c)
         ELSE {ARes(IF r.st = "ok" THEN "err" ELSE r.st, r.sols, c)}
    ELSE LET e == ListElems(l[2]) IN
      IF e[1] # "ok" THEN {ARes(e[1], <<>>, c)}
      ELSE LET r == EnumUni(s, args[1], e[2], <<>>) IN {ARes(r.st, r.sols, c)}
  ELSE IF name = ".range" THEN
    LET k == Grd(s, args[1]) IN
    IF k[1] # "ok" THEN {ARes(k[1], <<>>, c)}
    ELSE IF k[2][1] # "n" THEN (IF k[2][1] = "f" \/ k[2][1] = "l" THEN AErr(c) ELSE AUnd(c))
    ELSE LET r == EnumUni(s, args[2], TLCEval([i \in 1..(IF NTrunc(k[2]) > 0 THEN NTrunc(k[2]) ELSE 0) |-> N(i - 1)]), <<>>)
         IN {ARes(r.st, r.sols, c)}
  ELSE IF name = ".concat" THEN
    LET x == GrdSeq(s, SubSeq(args, 1, n - 1), <<>>) IN
    IF x[1] # "ok" THEN {ARes(x[1], <<>>, c)}
    ELSE IF \A i \in 1..(n - 1) : x[2][i][1] = "l"
      THEN AUnify(s, c, <<"l", ConcatSeqs(x[2])>>, args[n])
    ELSE LET y == StrSeq(x[2], <<>>) IN
      IF y[1] # "ok" THEN {ARes(y[1], <<>>, c)}
      ELSE AUnify(s, c, <<"s", JoinStr(y[2], "")>>, args[n])
  ELSE IF name = ".substring" THEN
    LET x == GrdSeq(s, <<args[1], args[2]>>, <<>>) IN
    IF x[1] # "ok" THEN {ARes(x[1], <<>>, c)}
    ELSE LET y == StrSeq(x[2], <<>>) IN
      IF y[1] # "ok" THEN {ARes(y[1], <<>>, c)}
      ELSE LET r == EnumUni(s, args[3], Positions(y[2][1], y[2][2], 0), <<>>) IN {ARes(r.st, r.sols, c)}
  ELSE
    \* functions and predicates: arguments are resolved first
    LET isPred == name \in {".atom", ".literal", ".list", ".number", ".string", ".structure"}
        ins == IF isPred THEN args ELSE SubSeq(args, 1, n - 1)
        x == FrzSeq(s, ins, <<>>)
    IN IF x[1] # "ok" THEN {ARes(x[1], <<>>, c)}
    ELSE LET a == x[2] IN
      IF isPred THEN {ARes("ok", IF TypeTest(name, a[1]) THEN <<s>> ELSE <<>>, c)}
      ELSE IF name = ".length" THEN
        IF a[1][1] = "l" THEN AUnify(s, c, N(Len(a[1][2])), args[n])
        ELSE IF a[1][1] = "s" THEN AUnify(s, c, N(Len(a[1][2])), args[n])
        ELSE IF a[1][1] = "f" THEN AUnify(s, c, N(Len(a[1][3])), args[n])
        ELSE IF a[1][1] = "c" THEN
          IF EndOf(a[1])[1] \in {"s", "f"} THEN AUnd(c) ELSE AErr(c)   \* (no list)
        ELSE AErr(c)
      \* functions of the host language work on copies of the unbound variables
      ELSE IF name \in {".nth", ".min", ".max", ".sort", ".tail"} /\ UNION {VarsOf(a[j]) : j \in 1..Len(a)} # {} THEN AUnd(c)
      ELSE IF name = ".nth" THEN
        IF a[1][1] \in {"v", "w", "f", "l", "c"} THEN AErr(c)
        ELSE IF a[1][1] # "n" THEN AUnd(c)
        ELSE LET e == ListElems(a[2])  k == NTrunc(a[1]) IN
          IF e[1] # "ok" THEN {ARes(e[1], <<>>, c)}
          ELSE IF k < 0 \/ k >= Len(e[2]) THEN AErr(c)
          ELSE AUnify(s, c, e[2][k + 1], args[n])
      ELSE IF name \in {".min", ".max", ".sort", ".tail"} THEN
        LET e == ListElems(a[1]) IN
        IF e[1] # "ok" THEN {ARes(e[1], <<>>, c)}
        ELSE IF name = ".tail" THEN
          AUnify(s, c, <<"l", IF e[2] = <<>> THEN <<>> ELSE Tail(e[2])>>, args[n])
        ELSE IF HasBool(e[2]) /\ Len(e[2]) > 1 THEN AUnd(c)
        ELSE IF \E j \in 1..Len(e[2]) : Improper(e[2][j]) THEN AUnd(c)
        ELSE IF name = ".sort" THEN
          IF ~Sortable(e[2]) THEN AErr(c)
          ELSE AUnify(s, c, <<"l", SortSeq2(e[2], <<>>)>>, args[n])
        ELSE LET b == FoldBest(e[2], IF name = ".min" THEN "lt" ELSE "gt") IN
          IF b[1] # "ok" THEN AErr(c) ELSE AUnify(s, c, b[2], args[n])
      ELSE IF name \in {".floor", ".ceil", ".round"} THEN
        IF a[1][1] \in {"s", "b"} THEN AUnd(c)
        ELSE IF a[1][1] # "n" THEN AErr(c)
        ELSE AUnify(s, c, N(IF name = ".floor" THEN NFloor(a[1])
                            ELSE IF name = ".ceil" THEN NCeil(a[1]) ELSE NRound(a[1])), args[n])
      ELSE AUnd(c)

---------------------------------------------------------------------------
RECURSIVE Run(_, _, _, _), AllSols(_, _, _, _), ActOut(_, _, _, _, _), SumUp(_, _, _, _)

Run(M, c, o, ag) ==
  IF M = <<>> THEN {NRes("fail", EmptySub, <<>>, c, o)}
  ELSE
  LET alt == Head(M)  more == Tail(M)  s == alt.s IN
  IF alt.g = <<>> THEN {NRes("sol", s, more, c, o)}
  ELSE
  LET g == Head(alt.g)  rest == Tail(alt.g)  k == g[1] IN
  CASE k = "true"  -> Run(<<Alt(rest, s)>> \o more, c, o, ag)
    [] k = "false" -> Run(more, c, o, ag)
    [] k = "and"   -> Run(<<Alt(<<g[2], g[3]>> \o rest, s)>> \o more, c, o, ag)
    [] k = "or"    -> Run(<<Alt(<<g[2]>> \o rest, s), Alt(<<g[3]>> \o rest, s)>> \o more, c, o, ag)
    [] k = "not"   ->
         UNION { IF r[1] = "sol" THEN Run(more, c, r[2], ag)
                 ELSE IF r[1] = "fail" THEN Run(<<Alt(rest, s)>> \o more, c, r[2], ag)
                 ELSE {NRes(r[1], s, <<>>, c, r[2])}
               : r \in TLCEval({<<r.st, r.o>> : r \in Run(<<Alt(<<g[2]>>, s)>>, c, o, ag)}) }
    [] k = "eq"    ->
         LET R == UniAnn(s, g[2], g[3]) IN
         IF R = {} THEN Run(more, c, o, ag)
         ELSE UNION { IF r.st = "yes" THEN Run(<<Alt(rest, r.s)>> \o more, c, o, ag)
                      ELSE {NRes(r.st, s, <<>>, c, o)} : r \in R }
    [] k = "term"  ->
         LET e == Ev(s, g[2]) IN
         IF e[1] # "ok" THEN {NRes(e[1], s, <<>>, c, o)}
         ELSE LET t == e[2] IN
           IF t[1] = "b" THEN (IF t[2] THEN Run(<<Alt(rest, s)>> \o more, c, o, ag)
                               ELSE Run(more, c, o, ag))
           ELSE IF t[1] # "f" THEN {NRes("err", s, <<>>, c, o)}
           ELSE LET cand == {b \in ag.bel : SameGroup(t, b) /\ UniAnn(s, t, b) # {}}
                    alts == (IF cand = {} THEN <<>> ELSE <<Alt(<<<<"pick", t, cand>>>> \o rest, s)>>)
                            \o (IF \E i \in 1..Len(ag.rules) : SameGroup(t, ag.rules[i].head)
                                THEN <<Alt(<<<<"rules", t, 1>>>> \o rest, s)>> ELSE <<>>)
                IN Run(alts \o more, c, o, ag)
    [] k = "pick"  ->      \* the facts in any order; those that lead to no answer do not matter
         LET R == TLCEval([b \in g[3] |->
                    UNION { IF u.st = "yes" THEN Run(<<Alt(rest, u.s)>>, c, o, ag)
                            ELSE {NRes(u.st, s, <<>>, c, o)} : u \in UniAnn(s, g[2], b) }])
             G == TLCEval({b \in g[3] : \E r \in R[b] : r.st # "fail" \/ r.o # o})
         IN IF G = {} THEN Run(more, c, o, ag)
            ELSE UNION { LET left == G \ {b}
                             again == (IF left = {} THEN <<>> ELSE <<Alt(<<<<"pick", g[2], left>>>> \o rest, s)>>) \o more
                         IN UNION { IF r.st = "fail" THEN Run(again, r.c, r.o, ag)
                                    ELSE IF r.st = "sol" THEN {[r EXCEPT !.m = @ \o again]}
                                    ELSE {r} : r \in R[b] }
                       : b \in (IF "det" \in DOMAIN ag THEN {CHOOSE b \in G : TRUE} ELSE G) }
    [] k = "rules" ->
         LET t == g[2]  i == g[3] IN
         IF i > Len(ag.rules) THEN Run(more, c, o, ag)
         ELSE LET ru == ag.rules[i]
                  again == <<Alt(<<<<"rules", t, i + 1>>>> \o rest, s)>>
              IN IF ~SameGroup(t, ru.head) THEN Run(again \o more, c, o, ag)
                 ELSE LET r == Uni(s, t, Ren(ru.head, c)) IN
                   IF r.st = "yes" THEN Run(<<Alt(<<RenQ(ru.q, c)>> \o rest, r.s)>> \o again \o more, c + ru.nv, o, ag)
                   ELSE IF r.st = "no" THEN Run(again \o more, c + ru.nv, o, ag)
                   ELSE {NRes(r.st, s, <<>>, c, o)}
    [] k = "act"   ->
         \* an error comes after the answers found before it
         UNION { IF a.st # "ok" /\ a.sols = <<>> THEN {NRes(a.st, s, <<>>, a.c, o \o a.o)}
                 ELSE Run(TLCEval([i \in 1..Len(a.sols) |-> Alt(rest, a.sols[i])])
                            \o (IF a.st = "ok" THEN more ELSE <<Alt(<<<<a.st>>>>, s)>>), a.c, o \o a.o, ag)
               : a \in ActOut(g[2], g[3], s, c, ag) }
    [] k \in {"err", "und"} -> {NRes(k, s, <<>>, c, o)}

(* all answers of a query, in order: set of [st, sols, c, o] *)
AllSols(M, c, o, ag) ==
  UNION { IF r.st = "sol" THEN
            { [x EXCEPT !.sols = <<r.s>> \o x.sols] : x \in AllSols(r.m, r.c, r.o, ag) }
          ELSE IF r.st = "fail" THEN {[st |-> "ok", sols |-> <<>>, c |-> r.c, o |-> r.o]}
          ELSE {[st |-> r.st, sols |-> <<>>, c |-> r.c, o |-> r.o]}
        : r \in Run(M, c, o, ag) }

\* all answers, where their order makes no difference to what is made of them (unless
\* something is observed on the way)
NoDet(ag) == IF "det" \in DOMAIN ag THEN [x \in DOMAIN ag \ {"det"} |-> ag[x]] ELSE ag
AnyOrder(M, c, ag) ==
  LET X == TLCEval(AllSols(M, c, <<>>, ag @@ [det |-> TRUE])) IN
  IF \A x \in X : x.o = <<>> THEN X ELSE AllSols(M, c, <<>>, NoDet(ag))

\* resolve the pattern under every answer, each with fresh unbound variables
RECURSIVE Collect(_, _, _, _)
Collect(sols, pat, c, acc) ==
  IF sols = <<>> THEN [st |-> "ok", l |-> acc, c |-> c]
  ELSE LET f == Frz(Head(sols), pat) IN
       IF f[1] # "ok" THEN [st |-> f[1], l |-> acc, c |-> c]
       ELSE Collect(Tail(sols), pat, c + Cardinality(VarsOf(f[2])), Append(acc, FreshCopy(f[2], c)))

SumUp(sols, pat, acc, dummy) ==
  IF sols = <<>> THEN OK(acc)
  ELSE LET f == Grd(Head(sols), pat) IN
       IF f[1] # "ok" THEN f
       ELSE IF f[2][1] = "b" THEN UND
       ELSE IF f[2][1] # "n" THEN ERR
       ELSE LET a == NAdd(acc, f[2]) IN
            IF a[1] # "ok" THEN a ELSE SumUp(Tail(sols), pat, a[2], dummy)

ActOut(name, args, s, c, ag) ==
  IF name \in HostActions THEN
    LET x == FrzSeq(s, args, <<>>) IN
    IF x[1] # "ok" THEN {ARes(x[1], <<>>, c)}
    ELSE {[st |-> "ok", sols |-> <<s>>, c |-> c, o |-> << <<ag.name, CanonSeq(x[2]), ag.bel>> >>]}
  ELSE IF name = ".findall" THEN      \* arithmetic in the pattern is evaluated beforehand
    LET p == Ev(s, args[1]) IN
    IF p[1] # "ok" THEN {ARes(p[1], <<>>, c)} ELSE
    UNION { IF r.st # "ok" THEN {[st |-> r.st, sols |-> <<>>, c |-> r.c, o |-> r.o]}
            ELSE LET k == Collect(r.sols, p[2], r.c, <<>>) IN
                 IF k.st # "ok" THEN {[st |-> k.st, sols |-> <<>>, c |-> k.c, o |-> r.o]}
                 ELSE { [a EXCEPT !.o = r.o] : a \in AUnify(s, k.c, <<"l", k.l>>, args[3]) }
          : r \in AllSols(Machine(<<"term", args[2]>>, s), c, <<>>, NoDet(ag)) }
  ELSE IF name = ".count" THEN
    UNION { IF r.st # "ok" THEN {[st |-> r.st, sols |-> <<>>, c |-> r.c, o |-> r.o]}
            ELSE { [a EXCEPT !.o = r.o] : a \in AUnify(s, r.c, N(Len(r.sols)), args[2]) }
          : r \in AnyOrder(Machine(<<"term", args[1]>>, s), c, ag) }
  ELSE IF name = ".sum" THEN
    LET p == Ev(s, args[1]) IN
    IF p[1] # "ok" THEN {ARes(p[1], <<>>, c)} ELSE
    UNION { IF r.st # "ok" THEN {[st |-> r.st, sols |-> <<>>, c |-> r.c, o |-> r.o]}
            ELSE LET k == SumUp(r.sols, p[2], N(0), 0) IN
                 IF k[1] # "ok" THEN {[st |-> k[1], sols |-> <<>>, c |-> r.c, o |-> r.o]}
                 ELSE { [a EXCEPT !.o = r.o] : a \in AUnify(s, r.c, k[2], args[3]) }
          : r \in AnyOrder(Machine(<<"term", args[2]>>, s), c, ag) }
  ELSE PureAct(name, args, s, c, ag)

Next1(M, c, ag) == Run(M, c, <<>>, ag)
=============================================================================
