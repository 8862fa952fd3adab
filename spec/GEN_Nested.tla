----------------------------- MODULE GEN_Nested -----------------------------
(* One history for every transition of the nested map over the paths. *)
EXTENDS MC_Nested, Json, CSV, IOUtils
VARIABLE hist
Shape == n
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
AllPaths == SeqOf(Paths)
GenInit == Init /\ hist = <<>>
GenNext ==
    \E op \in Ops :
        /\ Do(op)
        /\ hist' = Append(hist, IF op[1] = "ins" THEN <<op[1], op[2], ByteHex(Len(hist) + 1)>> ELSE op)
        /\ CSVWrite("%1$s", <<ToJson([ops |-> hist', probes |-> AllPaths])>>, IOEnv.VH_OUT)
GenSpec == GenInit /\ [][GenNext]_<<n, m, hist>>
=============================================================================
