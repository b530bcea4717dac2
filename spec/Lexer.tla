------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The lexical elements of a text.                                         *)
(*                                                                         *)
(* A text is a sequence of characters (strings of length one).  Its tokens *)
(* are <<class, spelling, line, start, end>>, class "f" "n" "v" "s" (atoms,*)
(* numbers, variables, strings) or "o"; columns count from 0 in the line   *)
(* with its tabs replaced by four blanks, end exclusive.                   *)
(* Scan yields [toks, errs] with errs the positions <<line, column>> of    *)
(* the characters that belong to nothing.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u",
          "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U",
          "V", "W", "X", "Y", "Z"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Word == Lower \cup Upper \cup Digit \cup {"_"}
Space == {" ", "\n", "\r", "\f"}
Reserved == {"true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"}
Symbols == {<<"(">>, <<")">>, <<"[">>, <<"]">>, <<"{">>, <<"}">>, <<"<", "-">>, <<":", "-">>, <<":">>,
            <<"|", "&", "|">>, <<"|", "|", "|">>, <<"!", "!">>, <<"!">>, <<"?">>, <<"-", "+">>, <<"+">>, <<"-">>,
            <<"*", "*">>, <<"*">>, <<"/">>, <<"&">>, <<"|">>, <<"<", "=">>, <<">", "=">>, <<"\\", "=", "=">>,
            <<"=", "=">>, <<"=", ".", ".">>, <<"=">>, <<"<">>, <<">">>, <<".">>, <<",">>, <<";">>, <<"@">>}

RECURSIVE Join(_), Run(_, _, _), Segs(_, _), StrEnd(_, _), LinesOf(_, _, _), ScanLine(_, _, _, _, _),
          ScanLines(_, _, _, _), CloseAt(_, _)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Join(Tail(q))
Sub(L, i, j) == Join(SubSeq(L, i, j - 1))
Ch(L, i) == IF i <= Len(L) THEN L[i] ELSE ""
\* the first position from i on whose character is not in S
Run(L, i, S) == IF Ch(L, i) \in S THEN Run(L, i + 1, S) ELSE i
WordEnd(L, i) == Run(L, i, Word)

---------------------------------------------------------------------------
(* The end of the element of each class at i; i if there is none.          *)
\* words starting with a small letter, joined (and maybe led) by dots
Segs(L, i) ==
  LET j == IF Ch(L, i) = "." THEN i + 1 ELSE i IN
  IF Ch(L, j) \in Lower THEN Segs(L, WordEnd(L, j)) ELSE i
IsReserved(L, i) == Sub(L, i, WordEnd(L, i)) \in Reserved
AtomEnd(L, i) ==
  LET j == IF Ch(L, i) = "~" THEN i + 1 ELSE i IN
  IF IsReserved(L, j) THEN i
  ELSE LET e == Segs(L, j) IN IF e > j THEN e ELSE i

NumEnd(L, i) ==
  LET d == Run(L, i, Digit)
      m == IF Ch(L, d) = "." /\ Ch(L, d + 1) \in Digit THEN Run(L, d + 1, Digit) ELSE d
      k == IF Ch(L, m + 1) \in {"+", "-"} THEN m + 2 ELSE m + 1
  IN IF m = i THEN i
     ELSE IF Ch(L, m) \in {"e", "E"} /\ Ch(L, k) \in Digit THEN Run(L, k, Digit)
     ELSE m

VarEnd(L, i) ==
  LET u == Run(L, i, {"_"}) IN
  IF Ch(L, u) \in Upper THEN WordEnd(L, u) ELSE u

\* j: within a string; the position after its closing quote, 0 if it has none in the line
StrEnd(L, j) ==
  LET c == Ch(L, j) IN
  IF c = "" THEN 0
  ELSE IF c = "\"" THEN j + 1
  ELSE IF c = "\\" THEN IF Ch(L, j + 1) \in {"", "\n"} THEN 0 ELSE StrEnd(L, j + 2)
  ELSE StrEnd(L, j + 1)
StringEnd(L, i) ==
  IF Ch(L, i) # "\"" THEN i
  ELSE LET e == StrEnd(L, i + 1) IN IF e = 0 THEN i ELSE e

\* the longest symbol
SymEnd(L, i) ==
  LET fits == {s \in Symbols : i + Len(s) - 1 <= Len(L) /\ SubSeq(L, i, i + Len(s) - 1) = s} IN
  IF fits = {} THEN i ELSE i + Len(CHOOSE s \in fits : \A u \in fits : Len(u) <= Len(s))

\* <<class, end>>; class "" if nothing starts here
Element(L, i) ==
  LET a == AtomEnd(L, i)  n == NumEnd(L, i)  v == VarEnd(L, i)  s == StringEnd(L, i) IN
  IF Ch(L, i) \in Space THEN <<"space", Run(L, i, Space)>>
  ELSE IF Ch(L, i) = "#" \/ (Ch(L, i) = "/" /\ Ch(L, i + 1) = "/")
       THEN <<"comment", IF L[Len(L)] = "\n" THEN Len(L) ELSE Len(L) + 1>>
  ELSE IF a > i THEN <<"f", a>>
  ELSE IF n > i THEN <<"n", n>>
  ELSE IF v > i THEN <<"v", v>>
  ELSE IF s > i THEN <<"s", s>>
  ELSE IF IsReserved(L, i) THEN <<"o", WordEnd(L, i)>>
  ELSE LET y == SymEnd(L, i) IN IF y > i THEN <<"o", y>> ELSE <<"", i + 1>>

---------------------------------------------------------------------------
(* Lines, with comments that span them.                                    *)
CloseAt(L, i) ==      \* after the first */ from i on; 0 if there is none
  IF i >= Len(L) THEN 0 ELSE IF L[i] = "*" /\ L[i + 1] = "/" THEN i + 2 ELSE CloseAt(L, i + 1)

\* inC: i is within a comment.  st = [toks, errs, inC], n the number of the line
ScanLine(L, i, inC, st, n) ==
  IF i > Len(L) THEN [st EXCEPT !.inC = inC]
  ELSE IF inC THEN LET c == CloseAt(L, i) IN
    IF c = 0 THEN [st EXCEPT !.inC = TRUE] ELSE ScanLine(L, c, FALSE, st, n)
  ELSE IF Ch(L, i) = "/" /\ Ch(L, i + 1) = "*" THEN ScanLine(L, i + 2, TRUE, st, n)
  ELSE LET e == Element(L, i) IN
    IF e[1] \in {"space", "comment"} THEN ScanLine(L, e[2], FALSE, st, n)
    ELSE IF e[1] = "" THEN ScanLine(L, e[2], FALSE, [st EXCEPT !.errs = Append(@, <<n, i - 1>>)], n)
    ELSE ScanLine(L, e[2], FALSE,
                  [st EXCEPT !.toks = Append(@, <<e[1], Sub(L, i, e[2]), n, i - 1, e[2] - 1>>)], n)

\* lines end after each "\n"; tabs become four blanks
LinesOf(q, cur, acc) ==
  IF q = <<>> THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE LET c == cur \o (IF q[1] = "\t" THEN <<" ", " ", " ", " ">> ELSE <<q[1]>>) IN
       IF q[1] = "\n" THEN LinesOf(Tail(q), <<>>, Append(acc, c)) ELSE LinesOf(Tail(q), c, acc)
Lines(q) == LinesOf(q, <<>>, <<>>)

ScanLines(Ls, k, first, st) ==
  IF k > Len(Ls) THEN st
  ELSE ScanLines(Ls, k + 1, first, ScanLine(Ls[k], 1, st.inC, st, first + k - 1))
Scan(text, first) ==
  LET st == ScanLines(TLCEval(Lines(text)), 1, first, [toks |-> <<>>, errs |-> <<>>, inC |-> FALSE]) IN
  [toks |-> st.toks, errs |-> st.errs]

---------------------------------------------------------------------------
(* What each spelling can be: for tokens of class "o", the operator or     *)
(* mark it is taken for in each role, "" where it has none.                *)
(* Roles: boolean, trigger, goal, formula, unary, product, sum, comparison *)
Roles(x) ==
  IF x \in {"true", "false"} THEN <<x, "", "", "", "", "", "", "">>
  ELSE IF x = "!!" THEN <<"", "", "", "!!", "", "", "", "">>
  ELSE IF x \in {"!", "?"} THEN <<"", "", x, x, "", "", "", "">>
  ELSE IF x = "-+" THEN <<"", "", "", "-+", "", "", "", "">>
  ELSE IF x \in {"+", "-"} THEN <<"", x, "", x, x, "", x, "">>
  ELSE IF x \in {"*", "/", "div", "mod"} THEN <<"", "", "", "", "", x, "", "">>
  ELSE IF x \in {"<=", ">=", "\\==", "==", "=..", "=", "<", ">"} THEN <<"", "", "", "", "", "", "", x>>
  ELSE <<"", "", "", "", "", "", "", "">>

---------------------------------------------------------------------------
(* A message about columns a (to b, exclusive) of line n, shown to users:  *)
(* "file:line:column: ..." with the line and a mark under the place.*)
RECURSIVE Rep(_, _), RStrip(_)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
RStrip(L) == IF L # <<>> /\ L[Len(L)] \in Space THEN RStrip(SubSeq(L, 1, Len(L) - 1)) ELSE L
Place(file, n, a) == file \o ":" \o ToString(n) \o ":" \o ToString(a + 1)
Excerpt(L, a, b) == <<Join(RStrip(L)), Rep(" ", a) \o Rep("^", IF b > a THEN b - a ELSE 1)>>
=============================================================================
