----------------------------- MODULE TableBase ------------------------------
(***************************************************************************)
(* Conformance of functions: a file holds rows, each an application of one *)
(* part of the implementation to some input with the outcome it had.  One  *)
(* initial state per row; its successor holds the verdict of the           *)
(* specification on it:                                                    *)
(*   "ok"        the outcome is the specified one                          *)
(*   "und"       the row lies outside the specified domain                 *)
(*   otherwise   what is wrong                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

File == JsonDeserialize(IOEnv.TRACE)
NR == TLCEval(Len(File.rows))
ASSUME TLCSet(NR + 1, File.rows)
Rows == TLCGet(NR + 1)
ASSUME \A i \in 1..NR : TLCSet(i, "?")

VARIABLES at, said
Init == at \in 1..NR /\ said = "?"
Next == said = "?" /\ said' = Verdict(Rows[at]) /\ at' = at
Spec == Init /\ [][Next]_<<at, said>>
Track == said = "?" \/ TLCSet(at, said)
Report == PrintT(<<"RESULT", TLCEval([k \in 1..NR |-> TLCGet(k)])>>)
=============================================================================
