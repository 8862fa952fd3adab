------------------------------- MODULE GEN_Map ------------------------------
(***************************************************************************)
(* One history for every transition of the reachable red-black trees over  *)
(* the keys: the first history found that leads to the tree, then the      *)
(* operation.  Values are numbered by step.                                *)
(***************************************************************************)
EXTENDS MC_RbTree, Json, CSV, IOUtils
VARIABLE hist
Shape == t
ProbeSeq == SortedSeq(Probes)
GenInit == Init /\ hist = <<>>
GenNext ==
    \E k \in Keys, o \in {"ins", "mod", "del"} :
        LET v == ByteHex(Len(hist) + 1)
            op == IF o = "del" THEN <<o, k>> ELSE <<o, k, v>>
        IN /\ Do(IF o = "del" THEN op ELSE <<o, k, "00">>)
           /\ hist' = Append(hist, op)
           /\ CSVWrite("%1$s", <<ToJson([ops |-> hist', probes |-> ProbeSeq])>>, IOEnv.VH_OUT)
GenSpec == GenInit /\ [][GenNext]_<<t, m, hist>>
=============================================================================
