----------------------------- MODULE GEN_Cache -----------------------------
(* Every history of MaxSteps verifications, to replay on the code. *)
EXTENDS MC_Cache, Json, CSV, IOUtils
Emit == Len(steps) = MaxSteps => CSVWrite("%1$s", <<ToJson([steps |-> steps])>>, IOEnv.VH_OUT)
=============================================================================
