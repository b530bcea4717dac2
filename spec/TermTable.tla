------------------------------ MODULE TermTable -----------------------------
(***************************************************************************)
(* Rows about the term algebra:                                            *)
(*  uni  prior, x, y, nv, st, vals, st2, vals2, back                       *)
(*       unification of x and y after the unifications prior; st the       *)
(*       verdict, vals the values of variables 1..nv; st2, vals2 with the  *)
(*       arguments exchanged; back: undoing restored the earlier bindings  *)
(*  ann  prior, p, q, nv, st, vals, n, back                                *)
(*       annotated matching: n solutions, vals those of the first          *)
(*  cmp  a, b and the results of all relations                             *)
(*  sort elems, and the sorted sequence, minimum and maximum               *)
(*  set  elems and the facts stored in a belief base given them in order   *)
(***************************************************************************)
EXTENDS TableBase, Terms, Conv

RECURSIVE Prior(_, _)
Prior(s, q) ==
  IF q = <<>> THEN URes("yes", s)
  ELSE LET r == Uni(s, CT(Head(q)[1]), CT(Head(q)[2])) IN
       IF r.st = "yes" THEN Prior(r.s, Tail(q)) ELSE r

\* values of variables 1..n: "und" or the canonical sequence; <<"err">> where a value has none
Values(s, n) ==
  LET f == TLCEval([j \in 1..n |-> Frz(s, <<"v", j>>)]) IN
  IF \E j \in 1..n : f[j] = UND THEN UND
  ELSE OK(CanonSeq([j \in 1..n |-> IF f[j] = ERR THEN <<"err">> ELSE f[j][2]]))
Obs(vals) == CanonSeq(TLCEval([j \in 1..Len(vals) |-> CT(vals[j])]))
Other(q) == \E j \in 1..Len(q) : q[j][1] = "other"

RECURSIVE Has(_, _)
Has(t, K) ==
  \/ t[1] \in K
  \/ t[1] = "f" /\ ((\E j \in 1..Len(t[3]) : Has(t[3][j], K)) \/ \E a \in t[4] : Has(a, K))
  \/ t[1] = "l" /\ \E j \in 1..Len(t[2]) : Has(t[2][j], K)
  \/ t[1] = "c" /\ (Has(t[2], K) \/ Has(t[3], K))
HasWild(t) == Has(t, {"w"})
HasExpr(t) == Has(t, {"u", "e"})
JudgeUni1(s, x, y, n, st, vals, name) ==
  LET r == Uni(s, x, y) IN
  IF r.st = "und" THEN "und"
  \* an expression without a value: an error, unless a mismatch is found first
  ELSE IF r.st = "err" THEN (IF HasWild(x) \/ HasWild(y) THEN "und"
                             ELSE IF st \in {"err", "no"} THEN "ok" ELSE name \o ": expected an error, got " \o st)
  ELSE IF st = "err" /\ r.st = "no" /\ (HasExpr(x) \/ HasExpr(y)) THEN "ok"
  ELSE IF r.st # st THEN name \o ": expected " \o r.st \o ", got " \o st
  ELSE IF st # "yes" THEN "ok"
  ELSE LET e == Values(r.s, n) IN
       IF e[1] = "und" THEN "und"
       ELSE IF ~SameUpTo(e[2], Obs(vals)) THEN name \o ": wrong values"
       ELSE "ok"

JudgeUni(r) ==
  LET p == Prior(EmptySub, r.prior) IN
  IF p.st # "yes" THEN "und"
  ELSE LET x == CT(r.x)  y == CT(r.y)
           a == JudgeUni1(p.s, x, y, r.nv, r.st, r.vals, "unify")
           b == JudgeUni1(p.s, y, x, r.nv, r.st2, r.vals2, "exchanged")
       IN IF a # "ok" THEN a
          ELSE IF b # "ok" THEN b
          ELSE IF ~r.back THEN "undoing does not restore the bindings"
          ELSE "ok"

\* a variable standing for a whole annotation
RECURSIVE VarAnn(_)
VarAnn(t) ==
  \/ t[1] = "f" /\ ((\E j \in 1..Len(t[3]) : VarAnn(t[3][j])) \/ \E a \in t[4] : a[1] = "v" \/ VarAnn(a))
  \/ t[1] = "l" /\ \E j \in 1..Len(t[2]) : VarAnn(t[2][j])
  \/ t[1] = "c" /\ (VarAnn(t[2]) \/ VarAnn(t[3]))

JudgeAnn(r) ==
  LET p == Prior(EmptySub, r.prior) IN
  IF p.st # "yes" THEN "und"
  \* where variables stand for whole annotations on both sides the result
  \* depends on the pairing that is tried first
  ELSE IF VarAnn(CT(r.p)) /\ VarAnn(CT(r.q)) THEN "und"
  ELSE LET R == UniAnn(p.s, CT(r.p), CT(r.q))
           yes == {z \in R : z.st = "yes"}
           vs == {Values(z.s, r.nv) : z \in yes}
       IN IF \E z \in R : z.st = "und" THEN "und"
          ELSE IF UND \in vs THEN "und"
          \* (an expression without a value may or may not be met before a mismatch)
          ELSE IF r.st = "no" THEN (IF yes = {} THEN (IF r.back THEN "ok" ELSE "a failed match left bindings")
                                    ELSE "no match, but there is one")
          ELSE IF r.st = "err" THEN (IF (\E z \in R : z.st = "err") \/ HasExpr(CT(r.p)) \/ HasExpr(CT(r.q))
                                     THEN "ok" ELSE "error")
          \* a pairing that would need an infinite term may be tried first
          ELSE IF r.st # "yes" /\ VarsOf(CT(r.q)) # {} THEN "und"
          ELSE IF yes = {} THEN "match, but there is none"
          ELSE IF r.n # 1 THEN "more than one solution"
          ELSE IF \A z \in vs : ~SameUpTo(z[2], Obs(r.vals)) THEN "wrong bindings"
          ELSE IF ~r.back THEN "an abandoned match left bindings"
          ELSE "ok"

Flip(c) == IF c = "lt" THEN "gt" ELSE IF c = "gt" THEN "lt" ELSE c
OrdOf(op, c) == IF c = "err" THEN "err"
                ELSE IF (op = "<" /\ c = "lt") \/ (op = "<=" /\ c \in {"lt", "eq"})
                        \/ (op = ">" /\ c = "gt") \/ (op = ">=" /\ c \in {"gt", "eq"})
                THEN "true" ELSE "false"
TF(b) == IF b THEN "true" ELSE "false"
\* order is specified for terms without partial lists; annotations play no part
RECURSIVE Plain(_)
Plain(t) == IF t[1] = "f" THEN \A j \in 1..Len(t[3]) : Plain(t[3][j])
            ELSE IF t[1] = "l" THEN \A j \in 1..Len(t[2]) : Plain(t[2][j])
            ELSE t[1] \notin {"c", "other"}
Ordered(a, b) == Plain(a) /\ Plain(b) /\ (a[1] \in {"l", "f"} => ~BoolNum(a, b))

RECURSIVE NoAnn(_)
NoAnn(t) == IF t[1] = "f" THEN t[4] = {} /\ \A j \in 1..Len(t[3]) : NoAnn(t[3][j])
            ELSE IF t[1] = "l" THEN \A j \in 1..Len(t[2]) : NoAnn(t[2][j])
            ELSE IF t[1] = "c" THEN NoAnn(t[2]) /\ NoAnn(t[3]) ELSE TRUE

\* lists in their normal form
GT(t) == Grd(EmptySub, CT(t))[2]

JudgeCmp(r) ==
  LET a == GT(r.a)  b == GT(r.b)  e == a = b
      c == IF e THEN "eq" ELSE Cmp(a, b)
      ops == {"<", "<=", ">", ">="}
  IN IF \E k \in DOMAIN r.eq : r.eq[k] # TF(e) THEN "wrong equality"
     ELSE IF \E k \in DOMAIN r.ne : r.ne[k] # TF(~e) THEN "wrong inequality"
     ELSE IF e /\ ~r.samehash THEN "equal terms, different hashes"
     ELSE IF r.setsize # (IF e THEN 1 ELSE 2) THEN "wrong set size"
     ELSE IF NoAnn(a) /\ NoAnn(b) /\ r.unifies # TF(e) THEN "equality and unifiability differ"
     ELSE IF ~Ordered(a, b) THEN "ok"
     ELSE IF \E op \in ops : r.ord[op] # OrdOf(op, c) THEN "wrong order"
     ELSE IF \E op \in ops : r.rev[op] # OrdOf(op, Flip(c)) THEN "wrong reverse order"
     ELSE "ok"

RECURSIVE InsSort(_, _), Ins(_, _)
Ins(x, q) == IF q = <<>> THEN <<x>>
             ELSE IF x # Head(q) /\ Cmp(x, Head(q)) = "lt" THEN <<x>> \o q
             ELSE <<Head(q)>> \o Ins(x, Tail(q))
InsSort(q, acc) == IF q = <<>> THEN acc ELSE InsSort(Tail(q), TLCEval(Ins(Head(q), acc)))
JudgeSort(r) ==
  LET q == CTs(r.elems) IN
  IF \E j, k \in 1..Len(q) : ~Plain(q[j]) \/ BoolNum(q[j], q[k]) THEN "und"
  ELSE IF \E j, k \in 1..Len(q) : q[j] # q[k] /\ Cmp(q[j], q[k]) = "err"
       THEN (IF r.st # "err" THEN "sorted what cannot be compared" ELSE "ok")
  ELSE LET z == InsSort(q, <<>>) IN
       IF r.st # "ok" THEN "not sorted"
       ELSE IF CTs(r.sorted) # z THEN "wrongly sorted"
       ELSE IF Len(q) > 0 /\ (CT(r.min) # z[1] \/ CT(r.max) # z[Len(z)]) THEN "wrong minimum or maximum"
       ELSE "ok"

JudgeSet(r) ==
  LET q == {GT(r.elems[j]) : j \in 1..Len(r.elems)} IN
  IF Len(r.stored) # Cardinality(q) THEN "a fact stored twice, or different facts stored once"
  ELSE IF CTset(r.stored) # q THEN "wrong facts" ELSE "ok"

JudgeRow(r) ==
  IF r.k = "x" THEN r.what
  ELSE IF r.k = "uni" THEN JudgeUni(r)
  ELSE IF r.k = "ann" THEN JudgeAnn(r)
  ELSE IF r.k = "cmp" THEN JudgeCmp(r)
  ELSE IF r.k = "sort" THEN JudgeSort(r)
  ELSE JudgeSet(r)
=============================================================================
