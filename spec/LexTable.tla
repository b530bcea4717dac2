------------------------------ MODULE LexTable ------------------------------
(***************************************************************************)
(* Rows about texts:                                                       *)
(*  lex   text (characters), first (number of its first line), toks (class,*)
(*        spelling, line, columns), roles (of each token), lines (the line *)
(*        of each token as its location quotes it), errs, msgs (each error *)
(*        as shown to users: the place named, the line, the mark), st      *)
(***************************************************************************)
EXTENDS TableBase, Lexer

JudgeLex(r) ==
  LET Ls == TLCEval(Lines(r.text))
      s == TLCEval(Scan(r.text, r.first))
      line(n) == Ls[n - r.first + 1]
  IN
  IF r.st # "ok" THEN r.st
  ELSE IF r.toks # s.toks THEN
    IF Len(r.toks) # Len(s.toks) THEN "expected " \o ToString(Len(s.toks)) \o " tokens, got " \o ToString(Len(r.toks))
    ELSE LET i == CHOOSE i \in 1..Len(s.toks) : r.toks[i] # s.toks[i] IN
         "expected token " \o ToString(s.toks[i]) \o ", got " \o ToString(r.toks[i])
  ELSE IF r.errs # s.errs THEN "errors: expected " \o ToString(s.errs) \o ", got " \o ToString(r.errs)
  ELSE IF \E i \in 1..Len(s.toks) : r.lines[i] # Join(line(s.toks[i][3])) THEN "a token quotes another line"
  ELSE IF \E i \in 1..Len(s.toks) : r.roles[i] # IF s.toks[i][1] = "o" THEN Roles(s.toks[i][2]) ELSE Roles("")
       THEN "a token is taken for something else"
  ELSE IF \E i \in 1..Len(s.errs) : LET n == s.errs[i][1]  a == s.errs[i][2] IN
            r.msgs[i] # <<Place(r.file, n, a)>> \o Excerpt(line(n), a, a)
       THEN "an error is shown at another place"
  ELSE "ok"

JudgeRow(r) == IF r.k = "x" THEN r.what ELSE JudgeLex(r)
=============================================================================
