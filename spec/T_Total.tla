------------------------------ MODULE T_Total -------------------------------
(***************************************************************************)
(* C11: what was said of every input.                                      *)
(***************************************************************************)
EXTENDS Total, TraceLib
VARIABLE l
Fields(run) == DOMAIN run \cap {"item", "tree", "cert", "ranges", "strings", "stree", "scert"}
RunOK(run) ==
    CASE run.kind = "total" -> Permitted(run, run.got)
      [] run.kind = "verify" -> run.outcome[1] \in Words
      [] run.kind = "certificate" -> run.outcome[1] \in Words \cup {"undecodable"}
      [] run.kind = "cbor" -> \A f \in Fields(run) : run[f] # <<"panic">>
      [] OTHER -> TRUE
Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == RunOK(Trace[l])
=============================================================================
