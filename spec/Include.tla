------------------------------ MODULE Include -------------------------------
(***************************************************************************)
(* Programs in several files.                                              *)
(*                                                                         *)
(* A file system is a set of nodes, each with its path (a sequence of      *)
(* names from the root):                                                   *)
(*   [at, k |-> "file", toks]     [at, k |-> "dir"]                        *)
(*   [at, k |-> "link", to, top]  to: names, from the root if top          *)
(* Names of files in programs are strings: names separated by slashes,     *)
(* "." and ".." among them, with a leading "@" name standing for the root  *)
(* (an absolute path).  A path in use is [q |-> names, top |-> absolute].  *)
(***************************************************************************)
EXTENDS Grammar

RECURSIVE Split(_, _, _, _)
\* the names in a string, empty ones left out
Split(s, i, cur, acc) ==
  LET acc1 == IF cur = "" THEN acc ELSE Append(acc, cur) IN
  IF i > Len(s) THEN acc1
  ELSE LET c == SubSeq(s, i, i) IN
       IF c = "/" THEN Split(s, i + 1, "", acc1) ELSE Split(s, i + 1, cur \o c, acc)
PathOf(s) ==
  LET q == Split(s, 1, "", <<>>)
      top == q # <<>> /\ q[1] = "@"
  IN [q |-> IF top THEN Tail(q) ELSE q, top |-> top, slash |-> Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "/"]
\* the directory part of the spelled path of a file
DirOf(p) == [p EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)]
\* a path as spelled in a file that was itself reached as p
From(p, name) ==
  LET n == PathOf(name) IN
  IF n.top THEN n ELSE [q |-> DirOf(p).q \o n.q, top |-> p.top, slash |-> n.slash]

---------------------------------------------------------------------------
(* Resolution: the node a path leads to from the directory dir, following  *)
(* links.  <<"file" | "dir", path>>, <<"no">> where there is nothing,      *)
(* <<"und">> above the root.                                               *)
Node(fs, at) == {x \in fs : x.at = at}
RECURSIVE Follow(_, _, _, _)
Follow(fs, at, q, fuel) ==        \* at: where we are, a directory
  IF fuel = 0 THEN <<"no">>
  ELSE IF q = <<>> THEN <<"dir", at>>
  ELSE IF q[1] = "." THEN Follow(fs, at, Tail(q), fuel)
  ELSE IF q[1] = ".." THEN
    IF at = <<>> THEN <<"und">> ELSE Follow(fs, SubSeq(at, 1, Len(at) - 1), Tail(q), fuel)
  ELSE LET x == Node(fs, Append(at, q[1])) IN
    IF x = {} THEN <<"no">>
    ELSE LET n == CHOOSE n \in x : TRUE IN
      IF n.k = "dir" THEN Follow(fs, n.at, Tail(q), fuel)
      ELSE IF n.k = "link" THEN Follow(fs, IF n.top THEN <<>> ELSE at, n.to \o Tail(q), fuel - 1)
      ELSE IF Len(q) = 1 THEN <<"file", n.at>> ELSE <<"no">>
\* the working directory is the root
Resolve(fs, p) ==
  LET r == Follow(fs, <<>>, p.q, 20) IN
  IF r[1] = "file" /\ p.slash THEN <<"no">> ELSE r

---------------------------------------------------------------------------
(* The program a file stands for.  open: the files being read, with this   *)
(* one.  The declarations of an included file stand in place of the        *)
(* inclusion; a file that is being read already, or that is not there,     *)
(* is an error.  Each declaration comes with the file it is from.          *)
RECURSIVE Load(_, _, _, _), Placed(_, _, _, _, _, _, _)
Load(fs, p, at, open) ==
  LET T == (CHOOSE x \in fs : x.at = at).toks
      A == Decls(T, 1, 0, EmptyProg)
  IN IF ~A.ok THEN ERR
     ELSE IF Dangling(T) THEN UND
     ELSE LET names == {A.t.inc[i].name : i \in 1..Len(A.t.inc)}
              got == TLCEval([n \in names |->
                        LET s == From(p, n)  r == Resolve(fs, s) IN
                        IF r[1] = "und" THEN UND
                        ELSE IF r[1] # "file" \/ (r[1] = "file" /\ r[2] \in open) THEN ERR
                        ELSE Load(fs, s, r[2], open \cup {r[2]})])
              whole(q, key) == Placed(q, A.t.inc, got, key, at, 1, <<>>)
          IN IF \E n \in names : got[n][1] = "err" THEN ERR
             ELSE IF \E n \in names : got[n][1] = "und" THEN UND
             ELSE OK([b |-> whole(A.t.b, "b"), r |-> whole(A.t.r, "r"), g |-> whole(A.t.g, "g"),
                      p |-> whole(A.t.p, "p")])
\* the declarations q from the i-th on, with what is included between them
Placed(q, incs, got, key, at, i, acc) ==
  IF incs # <<>> /\ incs[1][key] < i THEN
    Placed(q, Tail(incs), got, key, at, i, acc \o got[incs[1].name][2][key])
  ELSE IF i > Len(q) THEN acc
  ELSE Placed(q, incs, got, key, at, i + 1, Append(acc, [t |-> q[i], at |-> at]))

Trees(q) == TLCEval([i \in 1..Len(q) |-> q[i].t])
Origins(q) == TLCEval([i \in 1..Len(q) |-> q[i].at])
\* the program that starts in the file named main: <<"ok", program, origins>>
Whole(fs, main) ==
  LET p == PathOf(main)  r == Resolve(fs, p) IN
  IF r[1] # "file" THEN UND
  ELSE LET A == Load(fs, p, r[2], {r[2]}) IN
    IF A[1] # "ok" THEN A
    ELSE LET P == FoldProg([b |-> Trees(A[2].b), r |-> Trees(A[2].r), g |-> Trees(A[2].g), p |-> Trees(A[2].p)]) IN
         IF P[1] # "ok" THEN P
         ELSE <<"ok", P[2], [b |-> Origins(A[2].b), r |-> Origins(A[2].r), g |-> Origins(A[2].g), p |-> Origins(A[2].p)]>>
=============================================================================
