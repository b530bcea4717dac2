------------------------------- MODULE IncMC --------------------------------
(***************************************************************************)
(* Inclusion as Include.tla has it, on every system of three files with at *)
(* most Max declarations each, against what it should mean: reading always *)
(* ends; it fails exactly if some chain of inclusions from the first file  *)
(* leads back into itself or to a file that is not there; otherwise the    *)
(* program is the text with each inclusion replaced, again and again, by   *)
(* the text it names.                                                      *)
(***************************************************************************)
EXTENDS Include
CONSTANT Max
Names == {"a", "b", "c"}
\* file c lies in a directory; a link leads to a
Path(n) == IF n = "c" THEN <<"d", "c">> ELSE <<n>>
Spell(from, to) == LET up == IF from = "c" THEN "../" ELSE "" IN
                   IF to = "c" THEN up \o "d/./c" ELSE IF to = "a" THEN up \o "l" ELSE up \o to
Items == {"x", "y", "a", "b", "c", "z"}        \* beliefs x, y, inclusions, z: what is not there
VARIABLE text
Init == text = [n \in Names |-> <<>>]
Next == \E n \in Names : Len(text[n]) < Max /\ (\A m \in Names : m = n \/ Len(text[n]) <= Len(text[m]))
          /\ \E i \in Items : text' = [text EXCEPT ![n] = Append(@, i)]
Spec == Init /\ [][Next]_text

Mark(n, i) == <<"f", n \o i>>
O(x) == <<"o", x>>
Toks(n, q) == LET part(i) == IF i \in {"x", "y"} THEN <<Mark(n, i), O(".")>>
                             ELSE <<O("{"), O("include"), O("("), <<"s", Spell(n, i)>>, O(")"), O("}")>>
                  RECURSIVE all(_)
                  all(k) == IF k > Len(q) THEN <<>> ELSE part(q[k]) \o all(k + 1)
              IN all(1)
FS == {[at |-> Path(n), k |-> "file", toks |-> Toks(n, text[n])] : n \in Names}
        \cup {[at |-> <<"d">>, k |-> "dir"], [at |-> <<"l">>, k |-> "link", to |-> <<"d", "..", "a">>, top |-> FALSE]}

\* what follows from a in any number of steps
Step(n) == {text[n][k] : k \in 1..Len(text[n])} \ {"x", "y"}
R1(S) == S \cup UNION {Step(n) : n \in S \cap Names}
Reach(S) == R1(R1(R1(S)))
Bad == LET R == Reach(Step("a")) \cup {"a"} IN
       "z" \in R \/ \E n \in R : n \in Reach(Step(n))
\* replacing every inclusion, k times
RECURSIVE Subst(_, _, _)
Subst(n, q, k) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] \in {"x", "y"} THEN <<<<"f", n \o q[1], <<>>, <<>> >>>> \o Subst(n, Tail(q), k)
  ELSE (IF k = 0 THEN <<>> ELSE Subst(q[1], text[q[1]], k - 1)) \o Subst(n, Tail(q), k)
Meant ==
  LET w == Whole(FS, "a") IN
  IF Bad THEN w = ERR
  ELSE w[1] = "ok" /\ w[2].b = Subst("a", text["a"], 3) /\ w[2].p = <<>>
=============================================================================
