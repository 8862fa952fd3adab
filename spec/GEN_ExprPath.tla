---------------------------- MODULE GEN_ExprPath ----------------------------
(* Every view of every small set of certified paths, every request and     *)
(* every claimed path that is certified or would be the natural answer.    *)
EXTENDS MC_ExprPath, Json, CSV, IOUtils
VARIABLE claimed
Claims == entries \cup {InTree(asked, Exact), InTree(asked, Wild), InTree(<<>>, Wild)}
GenInit == Init /\ claimed = None
GenNext == \/ Next /\ UNCHANGED claimed
           \/ Ready /\ claimed = None /\ claimed' \in Claims /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_<<vars, claimed>>
Emit == claimed # None => CSVWrite("%1$s", <<ToJson([view |-> view, asked |-> asked, claimed |-> claimed])>>, IOEnv.VH_OUT)
=============================================================================
