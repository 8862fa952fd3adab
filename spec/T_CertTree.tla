----------------------------- MODULE T_CertTree -----------------------------
(***************************************************************************)
(* C16, C17: recorded histories of the certification tree, its witnesses,  *)
(* and what the verifier said of the answers made with them.               *)
(***************************************************************************)
EXTENDS CertTree, TraceLib
VARIABLES l, i, m

Step(a, b) == Trace[a].steps[b]
Apply(s, a, b) == CertTreeApply(s, Step(a, b).op, IF Has(Trace[a], "entries") THEN Trace[a].entries ELSE <<>>)
Init == l \in ChunkHeads /\ i = 1 /\ m = Apply(NothingNested, l, 1)
Next ==
    \/ /\ i < Len(Trace[l].steps)
       /\ i' = i + 1 /\ l' = l /\ m' = Apply(m, l, i + 1)
    \/ /\ i = Len(Trace[l].steps) /\ l % ChunkLen # 0 /\ l < NumRuns
       /\ l' = l + 1 /\ i' = 1 /\ m' = Apply(NothingNested, l + 1, 1)
Spec == Init /\ [][Next]_<<l, i, m>>

FullOK(o) ==
    /\ o.full[1] = "l" /\ o.full[2] = PathPrefix
    /\ Digest(o.full) = o.root
    /\ Shows(o.full[3], Below(m, <<>>))
(* C16 *)
Proofs ==
    LET o == Step(l, i)
        es == Trace[l].entries
    IN IF Trace[l].kind # "certtree" THEN TRUE
       ELSE IF Has(o, "bad") THEN ~o.bad
       ELSE /\ FullOK(o)
            /\ \A k \in 1..Len(o.wit) : WitnessOK(o.wit[k].got, es[o.wit[k].e], o.wit[k].url, m, o.root)

(* C17 *)
Accepted(x) == x.outcome[1] = "ok" /\ x.outcome = Outcome(x)
VerifiedOK(q) ==
    LET e == Trace[l].entries[q.e]
    IN \A k \in 1..Len(q.run) :
          IF q.run[k].kind = "panic" THEN FALSE
          ELSE /\ q.run[k].outcome = Outcome(q.run[k])
               /\ Answers(e, q.url, m) /\ Plain(Trace[l].entries) => q.run[k].outcome[1] = "ok"
Acceptance ==
    LET o == Step(l, i)
    IN IF Trace[l].kind = "skiphelper" THEN Accepted(o.run)
       ELSE IF Has(o, "bad") THEN ~o.bad
       ELSE \A k \in 1..Len(o.wit) : VerifiedOK(o.wit[k])
=============================================================================
