------------------------------ MODULE IncTable ------------------------------
(***************************************************************************)
(* Rows about programs in several files:                                   *)
(*  inc   fs (nodes), main (its name), st "ok" "err" or what happened, ast *)
(*        the program read, from: the file each declaration names          *)
(***************************************************************************)
EXTENDS TableBase, Include, Conv

Node1(x) ==
  IF x.k = "file" THEN [at |-> x.at, k |-> "file", toks |-> x.toks]
  ELSE IF x.k = "dir" THEN [at |-> x.at, k |-> "dir"]
  ELSE [at |-> x.at, k |-> "link", to |-> x.to, top |-> x.top]
JudgeInc(r) ==
  LET fs == TLCEval({Node1(r.fs[i]) : i \in 1..Len(r.fs)})
      e == Whole(fs, r.main)
  IN IF r.st \notin {"ok", "err"} THEN r.st
     ELSE IF e[1] = "und" THEN "und"
     ELSE IF e[1] # r.st THEN "expected " \o e[1] \o ", got " \o r.st
     ELSE IF e[1] = "err" THEN "ok"
     ELSE LET f == FoldProg(r.ast) IN
       IF f[1] # "ok" \/ f[2] # e[2] THEN "wrong program"
       ELSE IF r.from # e[3] THEN "a declaration names another file"
       ELSE "ok"
JudgeRow(r) == IF r.k = "x" THEN r.what ELSE JudgeInc(r)
=============================================================================
