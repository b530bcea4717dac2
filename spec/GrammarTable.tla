----------------------------- MODULE GrammarTable ---------------------------
(***************************************************************************)
(* Rows about programs as text:                                            *)
(*  parse  toks, st, ast   the tokens of a text, and what the parser made  *)
(*         of it: st "ok" with the tree, "err", or what else happened      *)
(*  print  ast, toks, st, again    a parsed program, the tokens of its     *)
(*         printed form, and what the parser made of that form             *)
(*  repr   t, toks, st, again      a ground term, the tokens of its        *)
(*         printed form, and the value that form has in a program          *)
(***************************************************************************)
EXTENDS TableBase, Grammar, Conv

JudgeParse(r) ==
  LET e == Program(r.toks) IN
  IF r.st \notin {"ok", "err"} THEN r.st
  ELSE IF Dangling(r.toks) \/ e[1] = "und" THEN "und"
  ELSE IF e[1] # r.st THEN "expected " \o e[1] \o ", got " \o r.st
  ELSE IF r.st = "err" THEN "ok"
  ELSE IF FoldProg(r.ast) # e THEN "wrong tree"
  ELSE "ok"

\* the printed program read by the grammar, and by the parser
JudgePrint(r) ==
  LET e == FoldProg(r.ast)
      p == Program(r.toks)
  IN IF e[1] # "ok" THEN "und"
     ELSE IF p[1] = "und" \/ Dangling(r.toks) THEN "und"
     ELSE IF p # e THEN "the printed program is another one"
     ELSE IF r.st # "ok" THEN "the printed program cannot be read: " \o r.st
     ELSE IF FoldProg(r.again) # e THEN "the printed program is read as another one"
     ELSE "ok"

\* the value of a ground term: OK(its normal form), ERR or UND
Value(t) == Grd(EmptySub, CT(t))
JudgeRepr(r) ==
  LET v == Value(r.t)
      p == Term(r.toks, 1)
      f == IF p.ok THEN Fold("T", p.t) ELSE ERR
  IN IF v[1] # "ok" THEN "und"
     ELSE IF ~p.ok \/ p.i # Len(r.toks) + 1 \/ f[1] = "err" THEN "the printed form is no term"
     ELSE IF f[1] = "und" \/ Value(f[2])[1] = "und" THEN "und"
     ELSE IF Value(f[2]) # v THEN "the printed form means another term"
     ELSE IF r.st # "ok" THEN "the printed form cannot be read: " \o r.st
     ELSE IF Value(r.again) # v THEN "the printed form is read as another term"
     ELSE "ok"

JudgeRow(r) ==
  IF r.k = "x" THEN r.what
  ELSE IF r.k = "print" THEN JudgePrint(r)
  ELSE IF r.k = "repr" THEN JudgeRepr(r)
  ELSE JudgeParse(r)
=============================================================================
