------------------------------ MODULE GEN_Http ------------------------------
(* Every short sequence of builder calls, for both kinds of message. *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Max
VARIABLE x
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Finishes == {"build", "update", "convert"}
Init ==
    \/ x \in {[kind |-> "request", start |-> s, ops |-> o, finish |-> f, after |-> <<>>] :
          s \in {"get", "post", "put", "patch", "delete", "new", "builder"}, o \in Upto({"method", "url", "headers", "body", "version"}, Max), f \in Finishes}
    \/ x \in {[kind |-> "response", start |-> s, ops |-> o, finish |-> f, after |-> a] :
          s \in {"new", "builder"}, o \in Upto({"status", "headers", "body", "upgrade", "rebuild"}, Max), f \in Finishes, a \in Upto({"add", "first", "clear"}, 2)}
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.VH_OUT)
=============================================================================
