------------------------------ MODULE T_Verify ------------------------------
(***************************************************************************)
(* Recorded verifications: each must have exactly the outcome the          *)
(* specification gives, whatever the process verified before it.           *)
(***************************************************************************)
EXTENDS Verify, TraceLib
VARIABLE l

(* Certificates on their own. *)
CertificateOutcome(x) ==
    LET c == DecodeCertificate(x.cert)
    IN IF c[1] = "err" THEN <<"undecodable">>
       ELSE IF CertOK(Signed(x), <<c[2], c[3], c[4]>>, x.canister, x.root, x.now, x.offset)
            THEN <<"ok">> ELSE Rejected

RunOK(x) == CASE x.kind = "verify" -> x.outcome = Outcome(x)
              [] x.kind = "certificate" -> x.outcome = CertificateOutcome(x)

Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == RunOK(Trace[l])
(* for the reader of a counterexample: what the specification expects *)
Expected == [expected |-> IF Trace[l].kind = "verify" THEN Outcome(Trace[l]) ELSE CertificateOutcome(Trace[l]), l |-> l]
=============================================================================
