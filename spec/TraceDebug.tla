----------------------------- MODULE TraceDebug -----------------------------
(* Prints the states in which event DEBUGL of the first trace is awaited.   *)
EXTENDS Trace
DL == atoi(IOEnv.DEBUGL)
Show == IF l = DL THEN PrintT(<<"AT", cur, bud, flag, st.clk, st.pend,
   [a \in AgentNames(st) |-> [bel |-> st.ag[a].bel, ints |-> st.ag[a].ints]]>>) ELSE TRUE
DebugTrack == Show /\ Track
=============================================================================
