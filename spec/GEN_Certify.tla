----------------------------- MODULE GEN_Certify ----------------------------
(* Every short sequence of headers that matter to creating a certification. *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS MaxHeaders
VARIABLES headers, kind
Tokens == {"same", "other", "spaced", "cased", "longer", "shorter", "empty", "nearly", "certificate", "before", "after"}
Init == headers = <<>> /\ kind \in {"response", "full"}
Next == Len(headers) < MaxHeaders /\ \E t \in Tokens : headers' = Append(headers, t) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<headers, kind>>
Emit == CSVWrite("%1$s", <<ToJson([headers |-> headers, kind |-> kind])>>, IOEnv.VH_OUT)
=============================================================================
