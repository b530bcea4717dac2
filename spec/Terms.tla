------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* The term algebra of AgentSpeak: numbers, booleans, strings, variables,  *)
(* wildcards, literals with annotations, lists in both notations and       *)
(* arithmetic / comparison / boolean expressions.                          *)
(*                                                                         *)
(*   <<"n", p, q>>        the rational number p/q (q > 0, lowest terms)    *)
(*   <<"b", TRUE>>        a boolean                                        *)
(*   <<"s", str>>         a string                                         *)
(*   <<"v", id>>          a variable                                       *)
(*   <<"w">>              the wildcard _                                   *)
(*   <<"f", fun, args, annots>>   a literal: args is a sequence of terms,  *)
(*                        annots a set of terms                            *)
(*   <<"l", elems>>       a list                                           *)
(*   <<"c", head, tail>>  [head | tail]                                    *)
(*   <<"u", op, t>>  <<"e", op, l, r>>    expressions                      *)
(*                                                                         *)
(* A substitution is a function from variable ids to terms.                *)
(* Operators that can go wrong return <<"ok", value>>, <<"err">> (the      *)
(* language defines an error) or <<"und">> (outside the domain on which    *)
(* this specification makes a statement: an infinite term or a number      *)
(* beyond the bounds of the model).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ERR == <<"err">>
UND == <<"und">>
OK(v) == <<"ok", v>>
EmptySub == [x \in {} |-> <<>>]

---------------------------------------------------------------------------
(* Strings: TLC treats strings as sequences of one-character strings.      *)

Alphabet ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(str, i) == SubSeq(str, i, i)
CharIdx == [c \in {Ch(Alphabet, i) : i \in 1..Len(Alphabet)} |->
              CHOOSE i \in 1..Len(Alphabet) : Ch(Alphabet, i) = c]
CharOrd(c) == IF c \in DOMAIN CharIdx THEN 31 + CharIdx[c] ELSE 1000

RECURSIVE StrCmpFrom(_, _, _)
StrCmpFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN "eq"
  ELSE IF i > Len(a) THEN "lt"
  ELSE IF i > Len(b) THEN "gt"
  ELSE LET x == CharOrd(Ch(a, i))  y == CharOrd(Ch(b, i))
       IN IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE StrCmpFrom(a, b, i + 1)
StrCmp(a, b) == StrCmpFrom(a, b, 1)

---------------------------------------------------------------------------
(* Rational arithmetic                                                     *)

LIM == 30000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* Values that binary floating point does not represent exactly are outside
\* the domain: the language does not say how they are rounded.
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}
MkNum(p, q) ==        \* |p|, |q| < 2^31, q # 0
  LET g == Gcd(Abs(p), Abs(q))
      sg == IF q < 0 THEN -1 ELSE 1
      p1 == sg * (p \div g)
      q1 == sg * (q \div g)
  IN IF Abs(p1) > LIM \/ q1 \notin Pow2 THEN UND ELSE OK(<<"n", p1, q1>>)

N(i) == <<"n", i, 1>>
IsInt(t) == t[1] = "n" /\ t[3] = 1
NFloor(t) == t[2] \div t[3]
NCeil(t) == -((-t[2]) \div t[3])
NTrunc(t) == IF t[2] >= 0 THEN NFloor(t) ELSE NCeil(t)
NRound(t) ==          \* half to even
  LET f == NFloor(t)
      r2 == 2 * (t[2] - f * t[3])
  IN IF r2 < t[3] THEN f
     ELSE IF r2 > t[3] THEN f + 1
     ELSE IF f % 2 = 0 THEN f ELSE f + 1
NCmp(a, b) ==
  LET x == a[2] * b[3]  y == b[2] * a[3]
  IN IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE "eq"

NAdd(a, b) ==
  IF Abs(a[2]) > 15000 \/ Abs(b[2]) > 15000 THEN UND
  ELSE MkNum(a[2] * b[3] + b[2] * a[3], a[3] * b[3])
\* numbers beyond the range of exact arithmetic here: <<"n", name, 0>>, or with
\* -1 the negative of that; all that is known of them is which are equal
Big(a) == a[1] = "n" /\ a[3] <= 0
NNeg(a) == IF Big(a) THEN <<"n", a[2], -1 - a[3]>> ELSE <<"n", -a[2], a[3]>>
NMul(a, b) == MkNum(a[2] * b[2], a[3] * b[3])
NDiv(a, b) == IF b[2] = 0 THEN ERR ELSE MkNum(a[2] * b[3], a[3] * b[2])
NFloorDiv(a, b) ==
  IF b[2] = 0 THEN ERR
  ELSE LET p == a[2] * b[3]  q == a[3] * b[2] IN MkNum(IF q < 0 THEN (-p) \div (-q) ELSE p \div q, 1)
NMod(a, b) ==         \* a - b * floor(a / b): takes the sign of the divisor
  LET d == NFloorDiv(a, b) IN
  IF d[1] # "ok" THEN d
  ELSE LET m == NMul(b, d[2]) IN IF m[1] # "ok" THEN m ELSE NAdd(a, NNeg(m[2]))
RECURSIVE NPowNat(_, _)
NPowNat(a, n) ==
  IF n = 0 THEN OK(N(1))
  ELSE LET r == NPowNat(a, n - 1) IN IF r[1] # "ok" THEN r ELSE NMul(a, r[2])
NPow(a, b) ==
  IF ~IsInt(b) THEN (IF a[2] < 0 THEN ERR          \* no real number
                     ELSE IF a[2] = 0 THEN (IF b[2] < 0 THEN ERR ELSE OK(N(0)))
                     ELSE IF a = N(1) THEN OK(a) ELSE UND)
  ELSE IF b[2] >= 0 THEN (IF b[2] > 60 THEN UND ELSE NPowNat(a, b[2]))
  ELSE IF a[2] = 0 THEN ERR
  ELSE IF b[2] < -60 THEN UND
  ELSE LET r == NPowNat(a, -b[2]) IN IF r[1] # "ok" THEN r ELSE NDiv(N(1), r[2])

---------------------------------------------------------------------------
(* Order on ground terms: "lt", "eq", "gt", or "err" when not comparable.  *)

IsAtom(t) == t[1] = "f" /\ t[3] = <<>> /\ t[4] = {}

RECURSIVE Cmp(_, _), SeqCmp(_, _, _)
Cmp(a, b) ==
  IF a[1] = "n" /\ b[1] = "n" THEN NCmp(a, b)
  ELSE IF a[1] = "s" /\ b[1] = "s" THEN StrCmp(a[2], b[2])
  ELSE IF a[1] = "b" /\ b[1] = "b" THEN
       (IF a[2] = b[2] THEN "eq" ELSE IF b[2] THEN "lt" ELSE "gt")
  ELSE IF a[1] = "l" /\ b[1] = "l" THEN SeqCmp(a[2], b[2], 1)
  ELSE IF a[1] = "f" /\ b[1] = "f" THEN
       IF IsAtom(a) /\ IsAtom(b) THEN StrCmp(a[2], b[2])
       ELSE IF a[2] = b[2] /\ Len(a[3]) = Len(b[3]) THEN SeqCmp(a[3], b[3], 1)
       ELSE "err"
  ELSE IF a[1] \in {"other", "c", "v", "w"} \/ b[1] \in {"other", "c", "v", "w"} THEN "err"
  ELSE "err"
SeqCmp(x, y, i) ==
  IF i > Len(x) /\ i > Len(y) THEN "eq"
  ELSE IF i > Len(x) THEN "lt"
  ELSE IF i > Len(y) THEN "gt"
  ELSE IF x[i] = y[i] THEN SeqCmp(x, y, i + 1)
  ELSE Cmp(x[i], y[i])

\* whether a boolean and a number inside two structures can be ordered is left open
RECURSIVE BoolNum(_, _)
BoolNum(a, b) ==
  \/ a[1] = "b" /\ b[1] = "n"
  \/ a[1] = "n" /\ b[1] = "b"
  \/ a[1] = "l" /\ b[1] = "l" /\ \E j \in 1..Len(a[2]) : j <= Len(b[2]) /\ BoolNum(a[2][j], b[2][j])
  \/ a[1] = "f" /\ b[1] = "f" /\ \E j \in 1..Len(a[3]) : j <= Len(b[3]) /\ BoolNum(a[3][j], b[3][j])

CompOps == {"<", "<=", "==", "\\==", ">=", ">"}
CompareOp(op, a, b) ==      \* a, b ground
  IF Big(a) \/ Big(b) THEN UND
  ELSE IF op = "==" THEN OK(<<"b", a = b>>)
  ELSE IF op = "\\==" THEN OK(<<"b", a # b>>)
  ELSE IF a[1] \in {"l", "f"} /\ BoolNum(a, b) THEN UND
  ELSE LET c == Cmp(a, b) IN
       IF c = "err" THEN ERR
       ELSE OK(<<"b", \/ op = "<" /\ c = "lt"
                      \/ op = "<=" /\ c \in {"lt", "eq"}
                      \/ op = ">" /\ c = "gt"
                      \/ op = ">=" /\ c \in {"gt", "eq"} >>)

ArithOp(op, a, b) ==
  IF a[1] # "n" \/ b[1] # "n" THEN ERR
  ELSE IF Big(a) \/ Big(b) THEN UND
  ELSE IF op = "+" THEN NAdd(a, b)
  ELSE IF op = "-" THEN NAdd(a, NNeg(b))
  ELSE IF op = "*" THEN NMul(a, b)
  ELSE IF op = "/" THEN NDiv(a, b)
  ELSE IF op = "div" THEN NFloorDiv(a, b)
  ELSE IF op = "mod" THEN NMod(a, b)
  ELSE IF op = "**" THEN NPow(a, b)
  ELSE UND

BoolOp(op, a, b) ==
  IF a[1] # "b" \/ b[1] # "b" THEN ERR
  ELSE OK(<<"b", IF op = "&" THEN a[2] /\ b[2] ELSE a[2] \/ b[2]>>)

UnOp(op, a) ==
  IF op = "not" THEN (IF a[1] = "b" THEN OK(<<"b", ~a[2]>>) ELSE ERR)
  ELSE IF a[1] # "n" THEN ERR
  ELSE IF op = "-" THEN OK(NNeg(a)) ELSE OK(a)

---------------------------------------------------------------------------
(* Walking, evaluating, grounding, resolving                               *)

RECURSIVE Walk(_, _)
Walk(s, t) == IF t[1] = "v" THEN (IF t[2] \in DOMAIN s THEN Walk(s, s[t[2]]) ELSE t) ELSE t

MkCons(h, t) == IF t[1] = "l" THEN <<"l", <<h>> \o t[2]>> ELSE <<"c", h, t>>

RECURSIVE Ev(_, _), Grd(_, _), GrdSeq(_, _, _), GrdSet(_, _, _)
(* value of a term that stands where a value is needed (top level only)    *)
Ev(s, t) ==
  LET w == Walk(s, t) IN
  IF w[1] = "u" THEN
    LET a == Ev(s, w[3]) IN IF a[1] # "ok" THEN a ELSE UnOp(w[2], a[2])
  ELSE IF w[1] = "e" THEN
    LET a == Ev(s, w[3]) IN
    IF a[1] # "ok" THEN a
    ELSE LET b == Ev(s, w[4]) IN
         IF b[1] # "ok" THEN b
         ELSE IF w[2] \in CompOps THEN
                LET ga == Grd(s, a[2]) IN
                IF ga[1] # "ok" THEN ga
                ELSE LET gb == Grd(s, b[2]) IN
                     IF gb[1] # "ok" THEN gb ELSE CompareOp(w[2], ga[2], gb[2])
         ELSE IF w[2] \in {"&", "|"} THEN BoolOp(w[2], a[2], b[2])
         ELSE ArithOp(w[2], a[2], b[2])
  ELSE OK(w)

(* the ground value of a term, ERR if it is not ground                     *)
Grd(s, t) ==
  LET e == Ev(s, t) IN
  IF e[1] # "ok" THEN e
  ELSE LET w == e[2] IN
    IF w[1] \in {"v", "w"} THEN ERR
    ELSE IF w[1] = "l" THEN
      LET x == GrdSeq(s, w[2], <<>>) IN IF x[1] # "ok" THEN x ELSE OK(<<"l", x[2]>>)
    ELSE IF w[1] = "c" THEN
      LET h == Grd(s, w[2]) IN
      IF h[1] # "ok" THEN h
      ELSE LET r == Grd(s, w[3]) IN IF r[1] # "ok" THEN r ELSE OK(MkCons(h[2], r[2]))
    ELSE IF w[1] = "f" THEN
      LET x == GrdSeq(s, w[3], <<>>) IN
      IF x[1] # "ok" THEN x
      ELSE LET a == GrdSet(s, w[4], {}) IN
           IF a[1] # "ok" THEN a ELSE OK(<<"f", w[2], x[2], a[2]>>)
    ELSE OK(w)
GrdSeq(s, q, acc) ==
  IF q = <<>> THEN OK(acc)
  ELSE LET h == Grd(s, Head(q)) IN
       IF h[1] # "ok" THEN h ELSE GrdSeq(s, Tail(q), Append(acc, h[2]))
GrdSet(s, S, acc) ==
  IF S = {} THEN OK(acc)
  ELSE LET x == CHOOSE x \in S : TRUE
           h == Grd(s, x)
       IN IF h[1] # "ok" THEN h ELSE GrdSet(s, S \ {x}, acc \cup {h[2]})

(* the term under the substitution, expressions replaced by their value;   *)
(* unbound variables stay                                                  *)
RECURSIVE Frz(_, _), FrzSeq(_, _, _), FrzSet(_, _, _)
Frz(s, t) ==
  LET e == Ev(s, t) IN
  IF e[1] # "ok" THEN e
  ELSE LET w == e[2] IN
    IF w[1] = "l" THEN
      LET x == FrzSeq(s, w[2], <<>>) IN IF x[1] # "ok" THEN x ELSE OK(<<"l", x[2]>>)
    ELSE IF w[1] = "c" THEN
      LET h == Frz(s, w[2]) IN
      IF h[1] # "ok" THEN h
      ELSE LET r == Frz(s, w[3]) IN IF r[1] # "ok" THEN r ELSE OK(MkCons(h[2], r[2]))
    ELSE IF w[1] = "f" THEN
      LET x == FrzSeq(s, w[3], <<>>) IN
      IF x[1] # "ok" THEN x
      ELSE LET a == FrzSet(s, w[4], {}) IN
           IF a[1] # "ok" THEN a ELSE OK(<<"f", w[2], x[2], a[2]>>)
    ELSE OK(w)
FrzSeq(s, q, acc) ==
  IF q = <<>> THEN OK(acc)
  ELSE LET h == Frz(s, Head(q)) IN
       IF h[1] # "ok" THEN h ELSE FrzSeq(s, Tail(q), Append(acc, h[2]))
FrzSet(s, S, acc) ==
  IF S = {} THEN OK(acc)
  ELSE LET x == CHOOSE x \in S : TRUE
           h == Frz(s, x)
       IN IF h[1] # "ok" THEN h ELSE FrzSet(s, S \ {x}, acc \cup {h[2]})

(* variables of a term, as written *)
RECURSIVE VarsOf(_)
VarsOf(t) ==
  IF t[1] = "v" THEN {t[2]}
  ELSE IF t[1] = "l" THEN UNION {VarsOf(t[2][i]) : i \in 1..Len(t[2])}
  ELSE IF t[1] = "c" THEN VarsOf(t[2]) \cup VarsOf(t[3])
  ELSE IF t[1] = "f" THEN UNION {VarsOf(t[3][i]) : i \in 1..Len(t[3])}
                          \cup UNION {VarsOf(a) : a \in t[4]}
  ELSE IF t[1] = "u" THEN VarsOf(t[3])
  ELSE IF t[1] = "e" THEN VarsOf(t[3]) \cup VarsOf(t[4])
  ELSE {}

RECURSIVE IsGround(_, _)
IsGround(s, t) ==
  LET w == Walk(s, t) IN
  IF w[1] \in {"v", "w"} THEN FALSE
  ELSE IF w[1] = "l" THEN \A i \in 1..Len(w[2]) : IsGround(s, w[2][i])
  ELSE IF w[1] = "c" THEN IsGround(s, w[2]) /\ IsGround(s, w[3])
  ELSE IF w[1] = "f" THEN (\A i \in 1..Len(w[3]) : IsGround(s, w[3][i]))
                          /\ (\A a \in w[4] : IsGround(s, a))
  ELSE IF w[1] = "u" THEN IsGround(s, w[3])
  ELSE IF w[1] = "e" THEN IsGround(s, w[3]) /\ IsGround(s, w[4])
  ELSE TRUE

(* does variable id occur in t under s? *)
RECURSIVE Occurs(_, _, _)
Occurs(s, id, t) ==
  LET w == Walk(s, t) IN
  IF w[1] = "v" THEN w[2] = id
  ELSE IF w[1] = "l" THEN \E i \in 1..Len(w[2]) : Occurs(s, id, w[2][i])
  ELSE IF w[1] = "c" THEN Occurs(s, id, w[2]) \/ Occurs(s, id, w[3])
  ELSE IF w[1] = "f" THEN (\E i \in 1..Len(w[3]) : Occurs(s, id, w[3][i]))
                          \/ (\E a \in w[4] : Occurs(s, id, a))
  ELSE IF w[1] = "u" THEN Occurs(s, id, w[3])
  ELSE IF w[1] = "e" THEN Occurs(s, id, w[3]) \/ Occurs(s, id, w[4])
  ELSE FALSE

(* renaming of program variables 1..k to off+1..off+k *)
RECURSIVE Ren(_, _)
Ren(t, off) ==
  IF t[1] = "v" THEN <<"v", t[2] + off>>
  ELSE IF t[1] = "l" THEN <<"l", TLCEval([i \in 1..Len(t[2]) |-> Ren(t[2][i], off)])>>
  ELSE IF t[1] = "c" THEN <<"c", Ren(t[2], off), Ren(t[3], off)>>
  ELSE IF t[1] = "f" THEN <<"f", t[2], TLCEval([i \in 1..Len(t[3]) |-> Ren(t[3][i], off)]),
                            {Ren(a, off) : a \in t[4]}>>
  ELSE IF t[1] = "u" THEN <<"u", t[2], Ren(t[3], off)>>
  ELSE IF t[1] = "e" THEN <<"e", t[2], Ren(t[3], off), Ren(t[4], off)>>
  ELSE t

(* apply a map of variable ids *)
RECURSIVE MapVars(_, _)
MapVars(t, m) ==
  IF t[1] = "v" THEN (IF t[2] \in DOMAIN m THEN <<"v", m[t[2]]>> ELSE t)
  ELSE IF t[1] = "l" THEN <<"l", TLCEval([i \in 1..Len(t[2]) |-> MapVars(t[2][i], m)])>>
  ELSE IF t[1] = "c" THEN <<"c", MapVars(t[2], m), MapVars(t[3], m)>>
  ELSE IF t[1] = "f" THEN <<"f", t[2], TLCEval([i \in 1..Len(t[3]) |-> MapVars(t[3][i], m)]),
                            {MapVars(a, m) : a \in t[4]}>>
  ELSE IF t[1] = "u" THEN <<"u", t[2], MapVars(t[3], m)>>
  ELSE IF t[1] = "e" THEN <<"e", t[2], MapVars(t[3], m), MapVars(t[4], m)>>
  ELSE t

(* an injective map from the variables of t to off+1, off+2, ... *)
RECURSIVE NumberSet(_, _)
NumberSet(V, off) ==
  IF V = {} THEN [x \in {} |-> 0]
  ELSE LET v == CHOOSE v \in V : \A w \in V : v <= w
       IN (v :> off + 1) @@ NumberSet(V \ {v}, off + 1)
FreshCopy(t, off) == MapVars(t, NumberSet(VarsOf(t), off))   \* uses Cardinality(VarsOf(t)) ids

(* first-occurrence numbering of the unbound variables of a sequence of    *)
(* resolved terms: the canonical form in which observations are compared   *)
RECURSIVE OccSeq(_, _), Occ(_, _), OccSet(_, _)
Occ(t, acc) ==       \* acc: sequence of distinct ids in order of occurrence
  IF t[1] = "v" THEN (IF \E i \in 1..Len(acc) : acc[i] = t[2] THEN acc ELSE Append(acc, t[2]))
  ELSE IF t[1] = "l" THEN OccSeq(t[2], acc)
  ELSE IF t[1] = "c" THEN Occ(t[3], Occ(t[2], acc))
  ELSE IF t[1] = "f" THEN OccSet(t[4], OccSeq(t[3], acc))
  ELSE acc
OccSeq(q, acc) == IF q = <<>> THEN acc ELSE OccSeq(Tail(q), Occ(Head(q), acc))
OccSet(S, acc) == IF S = {} THEN acc
                  ELSE LET x == CHOOSE x \in S : TRUE IN OccSet(S \ {x}, Occ(x, acc))
CanonSeq(q) ==
  LET o == OccSeq(q, <<>>)
      m == [id \in {o[i] : i \in 1..Len(o)} |-> CHOOSE i \in 1..Len(o) : o[i] = id]
  IN TLCEval([i \in 1..Len(q) |-> MapVars(q[i], m)])

(* equality of two canonical sequences up to renaming: the numbering by    *)
(* first occurrence is not unique where variables occur first in a set     *)
SameUpTo(p, q) ==
  \/ p = q
  \/ LET V == UNION {VarsOf(p[i]) : i \in 1..Len(p)}  n == Cardinality(V) IN
     /\ Len(p) = Len(q)
     /\ n \in 2..5
     /\ UNION {VarsOf(q[i]) : i \in 1..Len(q)} = V
     /\ \E f \in [V -> V] : /\ {f[x] : x \in V} = V
                           /\ \A i \in 1..Len(p) : MapVars(p[i], f) = q[i]

---------------------------------------------------------------------------
(* Unification: most general unifier of finite terms.                      *)

URes(st, s) == [st |-> st, s |-> s]
UBind(s, id, t) ==
  IF t[1] = "v" /\ t[2] = id THEN URes("yes", s)
  ELSE IF Occurs(s, id, t) THEN URes("und", s)
  ELSE URes("yes", (id :> t) @@ s)

RECURSIVE Uni(_, _, _), UniSeq(_, _, _)
Uni(s, x, y) ==
  LET a == Walk(s, x) IN
  IF a[1] = "w" THEN URes("yes", s)
  ELSE IF a[1] = "v" THEN
    LET b == Walk(s, y) IN
    IF b[1] = "w" THEN URes("yes", s)
    ELSE LET eb == Ev(s, b) IN
         IF eb[1] # "ok" THEN URes(eb[1], s) ELSE UBind(s, a[2], eb[2])
  ELSE
    LET ea == Ev(s, a) IN
    IF ea[1] # "ok" THEN URes(ea[1], s)
    ELSE LET b == Walk(s, y)  p == ea[2] IN
      IF b[1] = "w" THEN URes("yes", s)
      ELSE LET eb == Ev(s, b) IN
        IF eb[1] # "ok" THEN URes(eb[1], s)
        ELSE LET q == eb[2] IN
          IF q[1] = "v" THEN UBind(s, q[2], p)
          ELSE IF p[1] = "f" /\ q[1] = "f" THEN
            IF p[2] = q[2] /\ Len(p[3]) = Len(q[3]) THEN UniSeq(s, p[3], q[3])
            ELSE URes("no", s)
          ELSE IF p[1] = "l" /\ q[1] = "l" THEN
            IF Len(p[2]) = Len(q[2]) THEN UniSeq(s, p[2], q[2]) ELSE URes("no", s)
          ELSE IF p[1] = "c" /\ q[1] = "l" THEN
            IF q[2] = <<>> THEN URes("no", s)
            ELSE LET r == Uni(s, p[2], Head(q[2])) IN
                 IF r.st # "yes" THEN r ELSE Uni(r.s, p[3], <<"l", Tail(q[2])>>)
          ELSE IF p[1] = "l" /\ q[1] = "c" THEN
            IF p[2] = <<>> THEN URes("no", s)
            ELSE LET r == Uni(s, Head(p[2]), q[2]) IN
                 IF r.st # "yes" THEN r ELSE Uni(r.s, <<"l", Tail(p[2])>>, q[3])
          ELSE IF p[1] = "c" /\ q[1] = "c" THEN
            LET r == Uni(s, p[2], q[2]) IN
            IF r.st # "yes" THEN r ELSE Uni(r.s, p[3], q[3])
          ELSE IF p = q THEN URes("yes", s)
          ELSE URes("no", s)
UniSeq(s, p, q) ==
  IF p = <<>> THEN URes("yes", s)
  ELSE LET r == Uni(s, Head(p), Head(q)) IN
       IF r.st # "yes" THEN r ELSE UniSeq(r.s, Tail(p), Tail(q))

(* Annotated matching: the set of all results, one per successful          *)
(* one-to-one pairing of the pattern's annotations; {} if there is none.   *)
RECURSIVE UniAnn(_, _, _), AnnPair(_, _, _)
UniAnn(s, p, q) ==
  IF p[1] # "f" THEN (LET r == Uni(s, p, q) IN IF r.st = "no" THEN {} ELSE {r})
  ELSE LET eq == Ev(s, q) IN
    IF eq[1] # "ok" THEN {URes(eq[1], s)}
    ELSE LET w == eq[2]
             r == Uni(s, p, w)
         IN IF r.st = "no" THEN {}
            ELSE IF r.st # "yes" \/ w[1] # "f" THEN {r}
            ELSE AnnPair(r.s, p[4], w[4])
AnnPair(s, L, R) ==
  IF L = {} THEN {URes("yes", s)}
  ELSE IF Cardinality(L) > Cardinality(R) THEN {}
  ELSE LET a == CHOOSE a \in L : TRUE IN
       UNION { UNION { IF u.st = "yes" THEN AnnPair(u.s, L \ {a}, R \ {b}) ELSE {u}
                       : u \in UniAnn(s, a, b) }
               : b \in R }

---------------------------------------------------------------------------
(* Printing, as visible to programs through string-building actions        *)

RECURSIVE JoinStr(_, _)
JoinStr(q, sep) ==
  IF q = <<>> THEN ""
  ELSE IF Len(q) = 1 THEN q[1]
  ELSE q[1] \o sep \o JoinStr(Tail(q), sep)

RECURSIVE Digits(_, _)
Digits(r, q) ==       \* decimal expansion of r/q, q a divisor of some 10^k
  IF r = 0 THEN "" ELSE ToString((10 * r) \div q) \o Digits((10 * r) % q, q)
Terminating(q) == q \in {2, 4, 5, 8, 10, 16, 20, 25, 32, 40, 50, 100}
NumStr(t) ==
  IF t[3] = 1 THEN OK(ToString(t[2]))
  ELSE IF ~Terminating(t[3]) THEN UND
  ELSE LET a == Abs(t[2]) IN
       OK((IF t[2] < 0 THEN "-" ELSE "") \o ToString(a \div t[3]) \o "." \o Digits(a % t[3], t[3]))

(* source representation (asl_repr) of a resolved term *)
RECURSIVE ReprT(_), ReprSeq(_, _)
ReprT(t) ==
  IF t[1] = "n" THEN NumStr(t)
  ELSE IF t[1] = "b" THEN OK(IF t[2] THEN "true" ELSE "false")
  ELSE IF t[1] = "s" THEN OK("\"" \o t[2] \o "\"")
  ELSE IF t[1] = "l" THEN
    LET x == ReprSeq(t[2], <<>>) IN IF x[1] # "ok" THEN x ELSE OK("[" \o JoinStr(x[2], ", ") \o "]")
  ELSE IF t[1] = "f" THEN
    IF Cardinality(t[4]) > 1 THEN UND
    ELSE LET x == ReprSeq(t[3], <<>>)
             y == ReprSeq(IF t[4] = {} THEN <<>> ELSE << CHOOSE a \in t[4] : TRUE >>, <<>>)
         IN IF x[1] # "ok" THEN x
            ELSE IF y[1] # "ok" THEN y
            ELSE OK(t[2] \o (IF t[3] = <<>> THEN "" ELSE "(" \o JoinStr(x[2], ", ") \o ")")
                         \o (IF t[4] = {} THEN "" ELSE "[" \o y[2][1] \o "]"))
  ELSE UND
ReprSeq(q, acc) ==
  IF q = <<>> THEN OK(acc)
  ELSE LET h == ReprT(Head(q)) IN
       IF h[1] # "ok" THEN h ELSE ReprSeq(Tail(q), Append(acc, h[2]))

(* human representation (asl_str): strings without quotes, also in lists *)
RECURSIVE StrT(_), StrSeq(_, _)
StrT(t) ==
  IF t[1] = "s" THEN OK(t[2])
  ELSE IF t[1] = "l" THEN
    LET x == StrSeq(t[2], <<>>) IN IF x[1] # "ok" THEN x ELSE OK("[" \o JoinStr(x[2], ", ") \o "]")
  ELSE ReprT(t)
StrSeq(q, acc) ==
  IF q = <<>> THEN OK(acc)
  ELSE LET h == StrT(Head(q)) IN
       IF h[1] # "ok" THEN h ELSE StrSeq(Tail(q), Append(acc, h[2]))
=============================================================================
