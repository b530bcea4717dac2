---------------------------- MODULE ReportTable -----------------------------
(***************************************************************************)
(* Rows about failures:                                                    *)
(*  report  plans, bad (place of a declaration that is an error, or <<>>), *)
(*        out: what the run showed; st: "done", "failed" (an error of the  *)
(*        run), "rejected" (an error when loading), or what else happened; *)
(*        errs: positions of the errors logged, <<>> for one without       *)
(***************************************************************************)
EXTENDS TableBase, Report
JudgeReport(r) ==
  LET e == Whole(r.plans)
      st == IF r.bad # <<>> THEN "rejected" ELSE e.st
      out == IF r.bad # <<>> THEN <<>> ELSE e.out
      where == IF r.bad # <<>> THEN r.bad ELSE e.at
  IN IF r.st \notin {"done", "failed", "rejected"} THEN r.st
     ELSE IF st # r.st THEN "expected " \o st \o ", got " \o r.st
     ELSE IF out # r.out THEN "wrong statements executed"
     ELSE IF st = "done" THEN (IF r.errs = <<>> THEN "ok" ELSE "errors logged without a failure")
     ELSE IF r.errs = <<>> THEN "the failure was not reported"
     ELSE IF st = "failed" /\ Len(r.errs) # 1 THEN "the failure was reported more than once"
     ELSE IF \E i \in 1..Len(r.errs) : r.errs[i] = <<>> THEN "the failure was reported without a position"
     ELSE IF \A i \in 1..Len(r.errs) : ~Within(r.errs[i], where) THEN "the failure was reported at another place"
     ELSE "ok"
JudgeRow(r) == IF r.k = "x" THEN r.what ELSE JudgeReport(r)
=============================================================================
