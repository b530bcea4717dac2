------------------------------- MODULE Grammar ------------------------------
(***************************************************************************)
(* The language: which sequences of tokens are programs, and the tree each *)
(* of them stands for.                                                     *)
(*                                                                         *)
(* Tokens  <<"f", functor>> <<"v", name>> <<"n", p, q>> <<"s", string>>    *)
(*         <<"o", spelling>>  (keywords, operators, punctuation)           *)
(*                                                                         *)
(* Trees   <<"f", functor, args, annots>> (annots a sequence) <<"l", q>>   *)
(*         <<"c", h, t>> <<"v", name>> <<"n", p, q>> <<"s", x>> <<"b", x>> *)
(*         <<"u", op, t>> <<"e", op, l, r>>                                *)
(* Statements of bodies                                                    *)
(*         <<"fm", sign, t>>  sign "" + - -+ ! !! ?                        *)
(*         <<"while", c, body>> <<"for", c, body>> <<"if", c, b1, b2>>     *)
(* Plans   <<label, trigger, goal, head, context, body>>                   *)
(*         label and context <<"none">> if absent                          *)
(* Program [b |-> beliefs, r |-> rules <<head, t>>, g |-> goals,           *)
(*          p |-> plans], each in textual order                            *)
(*                                                                         *)
(* A parse is [ok, t, i]: the tree and the position after it.              *)
(***************************************************************************)
EXTENDS Terms

Fail == [ok |-> FALSE, t |-> <<>>, i |-> 0]
Got(t, i) == [ok |-> TRUE, t |-> t, i |-> i]
Tok(T, i) == IF i <= Len(T) THEN T[i] ELSE <<"eof">>
Is(T, i, x) == LET k == Tok(T, i) IN k[1] = "o" /\ k[2] = x
IsIn(T, i, X) == LET k == Tok(T, i) IN k[1] = "o" /\ k[2] \in X

---------------------------------------------------------------------------
(* Expressions, by precedence: each level has its operators, and the       *)
(* levels of the operands left and right of them.                          *)
\*        1 or   2 and   3 not   4 comparison   5 sum   6 product   7 sign   8 power   9 atom
Ops == <<{"|"}, {"&"}, {}, {"<", "<=", "==", "\\==", ">=", ">", "=", "=.."},
         {"+", "-"}, {"*", "/", "div", "mod"}, {}, {"**"}, {}>>
LeftOf  == <<2, 3, 0, 5, 6, 7, 0, 9, 0>>
RightOf == <<2, 3, 0, 5, 6, 7, 0, 7, 0>>

RECURSIVE Expr(_, _, _), More(_, _, _), Chain(_, _, _), Args(_, _, _, _), Elems(_, _, _), TailOf(_, _)

Lit(T, i) ==
  IF Tok(T, i)[1] # "f" THEN Fail
  ELSE LET a == IF Is(T, i + 1, "(") THEN Args(T, i + 2, ")", <<>>) ELSE Got(<<>>, i + 1) IN
       IF ~a.ok THEN Fail
       ELSE LET b == IF Is(T, a.i, "[") THEN Args(T, a.i + 1, "]", <<>>) ELSE Got(<<>>, a.i) IN
            IF ~b.ok THEN Fail ELSE Got(<<"f", T[i][2], a.t, b.t>>, b.i)

\* terms separated by commas up to the closing bracket, at least one
Args(T, i, close, acc) ==
  LET x == Expr(T, i, 1) IN
  IF ~x.ok THEN Fail
  ELSE IF Is(T, x.i, ",") THEN Args(T, x.i + 1, close, Append(acc, x.t))
  ELSE IF Is(T, x.i, close) THEN Got(Append(acc, x.t), x.i + 1)
  ELSE Fail

\* [ ]   [ a, b, c ]   [ h | t ]   [ a | b | t ]
Elems(T, i, acc) ==
  LET x == Expr(T, i, 2) IN
  IF ~x.ok THEN Fail
  ELSE IF Is(T, x.i, ",") THEN Elems(T, x.i + 1, Append(acc, x.t))
  ELSE IF Is(T, x.i, "]") THEN Got(<<"l", Append(acc, x.t)>>, x.i + 1)
  ELSE IF Is(T, x.i, "|") /\ acc = <<>> THEN
    LET r == TailOf(T, x.i + 1) IN IF ~r.ok THEN Fail ELSE Got(<<"c", x.t, r.t>>, r.i)
  ELSE Fail
TailOf(T, i) ==
  LET x == Expr(T, i, 2) IN
  IF ~x.ok THEN Fail
  ELSE IF Is(T, x.i, "]") THEN Got(x.t, x.i + 1)
  ELSE IF Is(T, x.i, "|") THEN
    LET r == TailOf(T, x.i + 1) IN IF ~r.ok THEN Fail ELSE Got(<<"c", x.t, r.t>>, r.i)
  ELSE Fail

Expr(T, i, lv) ==
  LET k == Tok(T, i) IN
  IF lv = 9 THEN
    IF k[1] = "f" THEN Lit(T, i)
    ELSE IF k[1] \in {"v", "n", "s"} THEN Got(k, i + 1)
    ELSE IF k[1] # "o" THEN Fail
    ELSE IF k[2] = "true" THEN Got(<<"b", TRUE>>, i + 1)
    ELSE IF k[2] = "false" THEN Got(<<"b", FALSE>>, i + 1)
    ELSE IF k[2] = "[" THEN (IF Is(T, i + 1, "]") THEN Got(<<"l", <<>>>>, i + 2) ELSE Elems(T, i + 1, <<>>))
    ELSE IF k[2] = "(" THEN
      LET x == Expr(T, i + 1, 1) IN IF x.ok /\ Is(T, x.i, ")") THEN Got(x.t, x.i + 1) ELSE Fail
    ELSE Fail
  ELSE IF lv = 3 THEN
    IF Is(T, i, "not") THEN LET x == Expr(T, i + 1, 3) IN IF x.ok THEN Got(<<"u", "not", x.t>>, x.i) ELSE Fail
    ELSE Expr(T, i, 4)
  ELSE IF lv = 7 THEN
    IF IsIn(T, i, {"+", "-"}) THEN
      LET x == Expr(T, i + 1, 7) IN IF x.ok THEN Got(<<"u", k[2], x.t>>, x.i) ELSE Fail
    ELSE Expr(T, i, 8)
  ELSE LET x == Expr(T, i, LeftOf[lv]) IN
       IF ~x.ok THEN Fail ELSE IF lv = 4 THEN Chain(T, x, <<>>) ELSE More(T, x, lv)

\* left associative
More(T, x, lv) ==
  IF ~IsIn(T, x.i, Ops[lv]) THEN x
  ELSE LET y == Expr(T, x.i + 1, RightOf[lv]) IN
       IF ~y.ok THEN Fail ELSE More(T, Got(<<"e", T[x.i][2], x.t, y.t>>, y.i), lv)

\* a < b < c  means  a < b & b < c
Chain(T, x, acc) ==
  IF ~IsIn(T, x.i, Ops[4]) THEN (IF acc = <<>> THEN x ELSE Got(acc[1], x.i))
  ELSE LET y == Expr(T, x.i + 1, 5) IN
       IF ~y.ok THEN Fail
       ELSE LET c == <<"e", T[x.i][2], x.t, y.t>> IN
            Chain(T, y, <<IF acc = <<>> THEN c ELSE <<"e", "&", acc[1], c>> >>)

Term(T, i) == Expr(T, i, 1)

---------------------------------------------------------------------------
(* Bodies *)
Signs == {"+", "-", "-+", "!", "!!", "?"}

RECURSIVE Stmt(_, _), Block(_, _, _), Body(_, _, _)
\* keyword ( condition ) {
HeadOf(T, i) ==
  IF ~Is(T, i + 1, "(") THEN Fail
  ELSE LET c == Term(T, i + 2) IN
       IF c.ok /\ Is(T, c.i, ")") /\ Is(T, c.i + 1, "{") THEN Got(c.t, c.i + 2) ELSE Fail
Stmt(T, i) ==
  IF IsIn(T, i, {"while", "for", "if"}) THEN
    LET h == HeadOf(T, i) IN
    IF ~h.ok THEN Fail
    ELSE LET b == Block(T, h.i, <<>>) IN
      IF ~b.ok THEN Fail
      ELSE IF ~Is(T, i, "if") THEN Got(<<T[i][2], h.t, b.t>>, b.i)
      ELSE IF ~Is(T, b.i, "else") THEN Got(<<"if", h.t, b.t, <<>> >>, b.i)
      ELSE IF ~Is(T, b.i + 1, "{") THEN Fail
      ELSE LET e == Block(T, b.i + 2, <<>>) IN
           IF ~e.ok THEN Fail ELSE Got(<<"if", h.t, b.t, e.t>>, e.i)
  ELSE IF IsIn(T, i, Signs) THEN
    LET x == Term(T, i + 1) IN IF x.ok THEN Got(<<"fm", T[i][2], x.t>>, x.i) ELSE Fail
  ELSE LET x == Term(T, i) IN IF x.ok THEN Got(<<"fm", "", x.t>>, x.i) ELSE Fail

\* statements up to the closing brace; a semicolon may follow each and must
\* separate a formula from what follows
Block(T, i, acc) ==
  IF Is(T, i, "}") THEN Got(acc, i + 1)
  ELSE LET x == Stmt(T, i) IN
    IF ~x.ok THEN Fail
    ELSE IF Is(T, x.i, ";") THEN Block(T, x.i + 1, Append(acc, x.t))
    ELSE IF x.t[1] # "fm" \/ Is(T, x.i, "}") THEN Block(T, x.i, Append(acc, x.t))
    ELSE Fail

\* the body of a plan: the same up to the full stop, at least one, none may be
\* missing after a semicolon
Body(T, i, acc) ==
  LET x == Stmt(T, i) IN
  IF ~x.ok THEN Fail
  ELSE IF Is(T, x.i, ";") THEN Body(T, x.i + 1, Append(acc, x.t))
  ELSE IF Is(T, x.i, ".") THEN Got(Append(acc, x.t), x.i)
  ELSE IF x.t[1] # "fm" THEN Body(T, x.i, Append(acc, x.t))
  ELSE Fail

---------------------------------------------------------------------------
(* Programs *)
None == <<"none">>
Plan(T, i0) ==
  LET l == IF Is(T, i0, "@") THEN Lit(T, i0 + 1) ELSE Got(None, i0) IN
  IF ~l.ok \/ ~IsIn(T, l.i, {"+", "-"}) THEN Fail
  ELSE LET goal == IF IsIn(T, l.i + 1, {"!", "?"}) THEN T[l.i + 1][2] ELSE ""
           h == Lit(T, IF goal = "" THEN l.i + 1 ELSE l.i + 2)
       IN IF ~h.ok THEN Fail
  ELSE LET c == IF Is(T, h.i, ":") THEN Term(T, h.i + 1) ELSE Got(None, h.i) IN
       IF ~c.ok THEN Fail
  ELSE LET b == IF Is(T, c.i, "<-") THEN Body(T, c.i + 1, <<>>) ELSE Got(<<>>, c.i) IN
       IF ~b.ok THEN Fail ELSE Got(<<l.t, T[l.i][2], goal, h.t, c.t, b.t>>, b.i)

EmptyProg == [b |-> <<>>, r |-> <<>>, g |-> <<>>, p |-> <<>>, inc |-> <<>>]

\* declarations up to the end of the file, or of the innermost { begin } block;
\* inc lists the inclusions, with the number of declarations of each kind before
RECURSIVE Decls(_, _, _, _)
Decls(T, i, depth, A) ==
  IF i > Len(T) THEN (IF depth = 0 THEN Got(A, i) ELSE Fail)
  ELSE IF Tok(T, i)[1] = "f" THEN
    LET h == Lit(T, i) IN
    IF ~h.ok THEN Fail
    ELSE IF Is(T, h.i, ".") THEN Decls(T, h.i + 1, depth, [A EXCEPT !.b = Append(@, h.t)])
    ELSE IF Is(T, h.i, ":-") THEN
      LET c == Term(T, h.i + 1) IN
      IF c.ok /\ Is(T, c.i, ".") THEN Decls(T, c.i + 1, depth, [A EXCEPT !.r = Append(@, <<h.t, c.t>>)])
      ELSE Fail
    ELSE Fail
  ELSE IF Is(T, i, "!") THEN
    LET g == Lit(T, i + 1) IN
    IF g.ok /\ Is(T, g.i, ".") THEN Decls(T, g.i + 1, depth, [A EXCEPT !.g = Append(@, g.t)]) ELSE Fail
  ELSE IF IsIn(T, i, {"@", "+", "-"}) THEN
    LET p == Plan(T, i) IN
    IF p.ok /\ Is(T, p.i, ".") THEN Decls(T, p.i + 1, depth, [A EXCEPT !.p = Append(@, p.t)]) ELSE Fail
  ELSE IF Is(T, i, "{") /\ Is(T, i + 1, "begin") THEN
    LET d == Lit(T, i + 2) IN
    IF d.ok /\ Is(T, d.i, "}") THEN Decls(T, d.i + 1, depth + 1, A) ELSE Fail
  ELSE IF Is(T, i, "{") /\ Is(T, i + 1, "include") THEN
    IF Is(T, i + 2, "(") /\ Tok(T, i + 3)[1] = "s" /\ Is(T, i + 4, ")") /\ Is(T, i + 5, "}") THEN
      Decls(T, i + 6, depth, [A EXCEPT !.inc = Append(@, [name |-> T[i + 3][2], b |-> Len(A.b), r |-> Len(A.r),
                                                          g |-> Len(A.g), p |-> Len(A.p)])])
    ELSE Fail
  ELSE IF Is(T, i, "{") /\ Is(T, i + 1, "end") /\ Is(T, i + 2, "}") /\ depth > 0 THEN
    Decls(T, i + 3, depth - 1, A)
  ELSE Fail

\* a comma before a closing bracket: [a,] is read as [a], which the grammar
\* neither promises nor excludes
Dangling(T) == \E i \in 1..(Len(T) - 1) : Is(T, i, ",") /\ Is(T, i + 1, "]")

---------------------------------------------------------------------------
(* What may stand where, and constant expressions.  Fold(c, t) is the tree *)
(* with its constant expressions replaced by their value, or ERR:          *)
(*   c = "T" a term   "N" an operand of arithmetic   "B" an operand of     *)
(*   a boolean operator inside a term   "L" a condition                    *)
NumOps == {"+", "-", "*", "/", "div", "mod", "**"}
Const(t) == t[1] \in {"n", "s", "b"}

RECURSIVE Fold(_, _), FoldSeq(_, _, _)
Fold(c, t) ==
  LET k == t[1] IN
  IF k \in {"v", "w"} THEN OK(t)
  ELSE IF k = "n" THEN (IF c \in {"T", "N"} THEN OK(t) ELSE ERR)
  ELSE IF k = "s" THEN (IF c = "T" THEN OK(t) ELSE ERR)
  ELSE IF k = "b" THEN (IF c # "N" THEN OK(t) ELSE ERR)
  ELSE IF k = "f" THEN
    IF c \notin {"T", "L"} THEN ERR
    ELSE LET a == FoldSeq("T", t[3], <<>>)  b == FoldSeq("T", t[4], <<>>) IN
         IF a[1] = "err" \/ b[1] = "err" THEN ERR
         ELSE IF a[1] = "und" \/ b[1] = "und" THEN UND
         ELSE OK(<<"f", t[2], a[2], b[2]>>)
  ELSE IF k = "l" THEN
    IF c # "T" THEN ERR
    ELSE LET a == FoldSeq("T", t[2], <<>>) IN IF a[1] # "ok" THEN a ELSE OK(<<"l", a[2]>>)
  ELSE IF k = "c" THEN
    IF c # "T" THEN ERR
    ELSE LET a == FoldSeq("T", <<t[2], t[3]>>, <<>>) IN
         IF a[1] # "ok" THEN a ELSE OK(<<"c", a[2][1], a[2][2]>>)
  ELSE LET op == t[2]
           num == (k = "u" /\ op # "not") \/ (k = "e" /\ op \in NumOps)
           comp == k = "e" /\ op \in CompOps
           bool == (k = "u" /\ op = "not") \/ (k = "e" /\ op \in {"&", "|"})
           \* the context of the operands
           d == IF num THEN (IF c \in {"T", "N"} THEN "N" ELSE "bad")
                ELSE IF comp THEN (IF c = "N" THEN "bad" ELSE "T")
                ELSE IF bool THEN (IF c = "N" THEN "bad" ELSE IF c = "L" THEN "L" ELSE "B")
                ELSE (IF c = "L" THEN "T" ELSE "bad")          \* = and =..
       IN IF d = "bad" THEN ERR
          ELSE LET a == FoldSeq(d, IF k = "u" THEN <<t[3]>> ELSE <<t[3], t[4]>>, <<>>) IN
            IF a[1] # "ok" THEN a
            ELSE IF k = "u" THEN
              LET x == a[2][1] IN IF Const(x) THEN UnOp(op, x) ELSE OK(<<"u", op, x>>)
            ELSE LET x == a[2][1]  y == a[2][2] IN
              IF ~(Const(x) /\ Const(y)) \/ op \in {"=", "=.."} THEN OK(<<"e", op, x, y>>)
              ELSE IF num THEN ArithOp(op, x, y)
              ELSE IF bool THEN BoolOp(op, x, y)
              ELSE IF x[1] = y[1] THEN CompareOp(op, x, y)
              ELSE OK(<<"e", op, x, y>>)
FoldSeq(c, q, acc) ==      \* an error anywhere is an error
  IF q = <<>> THEN OK(acc)
  ELSE LET h == Fold(c, Head(q)) IN
       IF h[1] = "err" THEN ERR
       ELSE LET r == FoldSeq(c, Tail(q), IF h[1] = "ok" THEN Append(acc, h[2]) ELSE acc) IN
            IF r[1] # "ok" THEN r ELSE IF h[1] # "ok" THEN UND ELSE r

\* OK / ERR / UND for a sequence of results, keeping the values
RECURSIVE Join(_, _)
Join(q, acc) ==
  IF q = <<>> THEN OK(acc)
  ELSE LET r == Join(Tail(q), IF Head(q)[1] = "ok" THEN Append(acc, Head(q)[2]) ELSE acc) IN
       IF Head(q)[1] = "err" \/ r[1] = "err" THEN ERR
       ELSE IF Head(q)[1] = "und" THEN UND ELSE r

RECURSIVE FoldStmt(_), FoldBody(_)
FoldStmt(x) ==
  IF x[1] = "fm" THEN
    LET t == IF x[2] = "" THEN Fold("L", x[3])
             ELSE IF x[3][1] \in {"f", "v"} THEN Fold("T", x[3]) ELSE ERR
    IN IF t[1] # "ok" THEN t ELSE OK(<<"fm", x[2], t[2]>>)
  ELSE LET c == Fold("L", x[2])
           j == Join(<<c, FoldBody(x[3])>> \o (IF x[1] = "if" THEN <<FoldBody(x[4])>> ELSE <<>>), <<>>)
       IN IF j[1] # "ok" THEN j ELSE OK(<<x[1]>> \o j[2])
FoldBody(b) == Join(TLCEval([i \in 1..Len(b) |-> FoldStmt(b[i])]), <<>>)

\* operators that remain in a term
RECURSIVE Left(_)
Left(t) ==
  IF t[1] \in {"u", "e"} THEN {t}
  ELSE IF t[1] = "f" THEN UNION ({Left(t[3][i]) : i \in 1..Len(t[3])} \cup {Left(t[4][i]) : i \in 1..Len(t[4])})
  ELSE IF t[1] = "l" THEN UNION {Left(t[2][i]) : i \in 1..Len(t[2])}
  ELSE IF t[1] = "c" THEN Left(t[2]) \cup Left(t[3])
  ELSE {}
\* heads and beliefs are patterns: no operator may remain in them.  Whether a
\* comparison of constants of different kinds has a value is left open.
HeadT(t) ==
  LET h == Fold("T", t) IN
  IF h[1] # "ok" \/ Left(h[2]) = {} THEN h
  ELSE IF \A x \in Left(h[2]) : x[1] = "e" /\ x[2] \in CompOps /\ Const(x[3]) /\ Const(x[4]) THEN UND
  ELSE ERR
FoldPlan(p) ==
  LET j == Join(<<IF p[1] = None THEN OK(None) ELSE Fold("T", p[1]), HeadT(p[4]),
                  IF p[5] = None THEN OK(None) ELSE Fold("L", p[5]), FoldBody(p[6])>>, <<>>)
  IN IF j[1] # "ok" THEN j ELSE OK(<<j[2][1], p[2], p[3], j[2][2], j[2][3], j[2][4]>>)
FoldRule(r) == Join(<<HeadT(r[1]), Fold("L", r[2])>>, <<>>)

FoldProg(A) ==
  LET j == Join(<<Join(TLCEval([i \in 1..Len(A.b) |-> HeadT(A.b[i])]), <<>>),
                  Join(TLCEval([i \in 1..Len(A.r) |-> FoldRule(A.r[i])]), <<>>),
                  Join(TLCEval([i \in 1..Len(A.g) |-> Fold("T", A.g[i])]), <<>>),
                  Join(TLCEval([i \in 1..Len(A.p) |-> FoldPlan(A.p[i])]), <<>>)>>, <<>>)
  IN IF j[1] # "ok" THEN j ELSE OK([b |-> j[2][1], r |-> j[2][2], g |-> j[2][3], p |-> j[2][4]])

\* the meaning of a sequence of tokens: OK(program) / ERR / UND
\* (files it includes are in Include.tla)
Program(T) ==
  LET A == Decls(T, 1, 0, EmptyProg) IN
  IF ~A.ok THEN ERR ELSE IF A.t.inc # <<>> THEN UND ELSE FoldProg(A.t)
=============================================================================
