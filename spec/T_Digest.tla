------------------------------ MODULE T_Digest ------------------------------
(***************************************************************************)
(* C13: digests, constructors and encodings of trees, and pairs of trees.  *)
(***************************************************************************)
EXTENDS HashTree, TraceLib
VARIABLE l

DigestOK(run) ==
    /\ run.digest = Digest(run.tree)
    /\ run.parts = run.digest
    /\ run.borrowed = run.digest
    /\ Has(run, "full") => run.digest = Digest(run.full)

CodecOK(run) ==
    /\ run.constructed = run.tree
    /\ run.decoded_serde = run.tree
    /\ run.decoded_cbor = run.tree
    /\ run.decoded_own = run.tree

PairOK(run) ==
    /\ run.da = Digest(run.a)
    /\ run.db = Digest(run.b)
    /\ run.equal = (run.a = run.b)

RunOK(run) == CASE run.kind = "digest" -> DigestOK(run) /\ CodecOK(run)
                [] run.kind = "pair" -> PairOK(run)

Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == RunOK(Trace[l])
=============================================================================
