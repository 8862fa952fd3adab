------------------------------ MODULE GEN_Total -----------------------------
(* Inputs of every shape and size. *)
EXTENDS Total, TLC, Json, CSV, IOUtils
CONSTANT Much
VARIABLE x
Init == x \in IF Much THEN All(Small, Large, Vast) ELSE All({1, 32, 33, 256, 257}, {20000}, {1000000})
Spec == Init /\ [][FALSE]_x
Emit == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.VH_OUT)
=============================================================================
