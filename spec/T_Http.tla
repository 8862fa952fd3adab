------------------------------- MODULE T_Http -------------------------------
(* C30: recorded builds, conversions and trips over the canister interface *)
EXTENDS Http, TraceLib
VARIABLE l
Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms ==
    LET x == Trace[l]
        start == IF x.kind = "request" THEN StartRequest(x.start) ELSE StartResponse
        after == IF x.kind = "response" THEN x.after ELSE <<>>
        built == BuildAll(start, x.ops)
        v == BuildAll(IF x.finish = "build" THEN built ELSE Update(built), after)
    IN IF x.kind \in {"request", "response"} THEN x.got = <<v, v, v, TRUE>>
       ELSE IF x.kind = "same" THEN x.got = <<Same(x.a, x.b), Same(x.a, x.b), TRUE>>
       ELSE /\ x.got = Received(x.wire)
            /\ x.update = Received(Update(x.wire))
=============================================================================
