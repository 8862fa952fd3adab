-------------------------------- MODULE T_Cel --------------------------------
(***************************************************************************)
(* Recorded expressions: the texts the library wrote for a meaning, and    *)
(* the outcome of verifying responses whose expression is a given text.    *)
(***************************************************************************)
EXTENDS Verify, TraceLib
VARIABLE l

Written(x) ==
    \A i \in 1..Len(x.texts) : x.texts[i] = Write(x.meaning) /\ Meaning(x.texts[i]) = x.meaning
RunOK(x) == IF x.kind = "written" THEN x.texts # <<>> /\ Written(x) ELSE x.outcome = Outcome(x)

Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == RunOK(Trace[l])
Expected == [expected |-> IF Trace[l].kind = "written" THEN <<Write(Trace[l].meaning)>> ELSE Outcome(Trace[l]), l |-> l]
=============================================================================
