------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* How far the plan of a goal gets, and where its failure is reported.     *)
(*                                                                         *)
(* A body is a sequence of statements                                      *)
(*   <<"ok", id>>                 shows id                                 *)
(*   <<"nop">>                    succeeds                                 *)
(*   <<"bad", at>>                fails or raises an error                 *)
(*   <<"if", c, at, b1, b2>>      c: TRUE FALSE or "bad"; at: the statement up to *)
(*   <<"for", n, at, b>>          its first block; n: number of rounds,    *)
(*   <<"while", n, at, b>>        -1: the condition raises an error        *)
(*   <<"sub", k>>                 a subgoal or event carried out by plan k *)
(*   <<"later", k>>               a goal for later                         *)
(* at = <<line, column, line, column>>: where it stands, end excluded      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Res(st, out, at, queue) == [st |-> st, out |-> out, at |-> at, queue |-> queue]
RECURSIVE Exec(_, _, _, _), Rounds(_, _, _, _, _)
\* plans, body, what has been shown, the goals for later
Exec(P, b, out, q) ==
  IF b = <<>> THEN Res("done", out, <<>>, q)
  ELSE LET x == Head(b)
           then(r) == IF r.st # "done" THEN r ELSE Exec(P, Tail(b), r.out, r.queue)
       IN IF x[1] = "ok" THEN Exec(P, Tail(b), Append(out, x[2]), q)
          ELSE IF x[1] = "nop" THEN Exec(P, Tail(b), out, q)
          ELSE IF x[1] = "bad" THEN Res("failed", out, x[2], q)
          ELSE IF x[1] = "sub" THEN then(Exec(P, P[x[2]], out, q))
          ELSE IF x[1] = "later" THEN Exec(P, Tail(b), out, Append(q, x[2]))
          ELSE IF x[1] = "if" THEN
            IF x[2] = "bad" THEN Res("failed", out, x[3], q)
            ELSE then(Exec(P, IF x[2] = "true" THEN x[4] ELSE x[5], out, q))
          ELSE IF x[2] < 0 THEN Res("failed", out, x[3], q)
          ELSE then(Rounds(P, x[4], x[2], out, q))
Rounds(P, b, n, out, q) ==
  IF n = 0 THEN Res("done", out, <<>>, q)
  ELSE LET r == Exec(P, b, out, q) IN IF r.st # "done" THEN r ELSE Rounds(P, b, n - 1, r.out, r.queue)

\* the goals for later, one after the other when the first one is done: the goals they post come last
RECURSIVE All(_, _, _)
All(P, out, q) ==
  IF q = <<>> THEN Res("done", out, <<>>, <<>>)
  ELSE LET r == Exec(P, P[Head(q)], out, Tail(q)) IN IF r.st # "done" THEN r ELSE All(P, r.out, r.queue)
Whole(P) == All(P, <<>>, <<1>>)

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Within(p, at) == Before(<<at[1], at[2]>>, p) /\ Before(p, <<at[3], at[4] - 1>>)
=============================================================================
