------------------------------- MODULE LexMC --------------------------------
(***************************************************************************)
(* The lexer of Lexer.tla on every text over an alphabet up to a length:   *)
(* its tokens stand in order, apart from each other, precisely where they  *)
(* say; whatever lies outside them is white space, comment or reported;    *)
(* each spelling is one token by itself; and the same tokens come out      *)
(* whatever white space or comments separate them.                         *)
(***************************************************************************)
EXTENDS Lexer
CONSTANTS Max, Alphabet
VARIABLE text
Init == text = <<>>
Next == Len(text) < Max /\ \E c \in Alphabet : text' = Append(text, c)
Spec == Init /\ [][Next]_text

CharsOf(w) == TLCEval([i \in 1..Len(w) |-> SubSeq(w, i, i)])
RECURSIVE Glue(_, _)
Glue(toks, gap) == IF toks = <<>> THEN <<>> ELSE CharsOf(toks[1][2]) \o gap \o Glue(Tail(toks), gap)
Gaps == {<<" ">>, <<"\n">>, <<"\t", "\r">>, <<"/", "*", "*", "/">>, <<"/", "/", "a", "\"", "\n">>, <<"#", "*", "/", "\n">>,
         <<"/", "*", "\n", "/", "*", "*", "/">>}
Bare(toks) == TLCEval([i \in 1..Len(toks) |-> <<toks[i][1], toks[i][2]>>])

\* a position (line, column) within a token
In(t, n, c) == t[3] = n /\ t[4] <= c /\ c < t[5]
Where ==
  LET s == Scan(text, 1)  Ls == Lines(text) IN
  /\ \A i \in 1..Len(s.toks) : LET t == s.toks[i] IN
       /\ t[5] > t[4]
       /\ Sub(Ls[t[3]], t[4] + 1, t[5] + 1) = t[2]
       /\ i > 1 => LET p == s.toks[i - 1] IN p[3] < t[3] \/ (p[3] = t[3] /\ p[5] <= t[4])
  /\ \A e \in 1..Len(s.errs) : \A i \in 1..Len(s.toks) : ~In(s.toks[i], s.errs[e][1], s.errs[e][2])
  \* without comments, everything else is white space
  /\ (\A i \in 1..Len(text) : text[i] \notin {"#", "/"}) =>
       \A n \in 1..Len(Ls) : \A c \in 1..Len(Ls[n]) :
         \/ Ls[n][c] \in Space
         \/ \E i \in 1..Len(s.toks) : In(s.toks[i], n, c - 1)
         \/ \E e \in 1..Len(s.errs) : s.errs[e] = <<n, c - 1>>
Alone ==
  LET s == Scan(text, 1) IN
  \A i \in 1..Len(s.toks) :
    LET u == Scan(CharsOf(s.toks[i][2]), 1) IN
    Bare(u.toks) = <<<<s.toks[i][1], s.toks[i][2]>>>> /\ u.errs = <<>>
Layout ==
  LET s == TLCEval(Scan(text, 1)) IN
  \A g \in Gaps :
    \* (a slash right before a comment would change what begins there)
    (g[1] \in Space \/ \A i \in 1..Len(s.toks) : s.toks[i][2] # "/") =>
    LET u == Scan(g \o Glue(s.toks, g), 1) IN Bare(u.toks) = Bare(s.toks) /\ u.errs = <<>>
=============================================================================
