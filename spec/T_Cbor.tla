------------------------------- MODULE T_Cbor -------------------------------
(***************************************************************************)
(* C28: what the decoders make of byte strings, and of what the library    *)
(* encodes itself.                                                         *)
(***************************************************************************)
EXTENDS Cbor, TraceLib, FiniteSets
VARIABLE l

RECURSIVE SameItem(_, _)
SameItem(x, g) ==
    /\ g[1] = x[1]
    /\ CASE x[1] = "int" -> g[2] = x[4] /\ g[3] = x[3]
         [] x[1] = "neg" -> g[2] = x[2]
         [] x[1] = "str" -> g[2] = x[2]
         [] x[1] = "arr" -> Len(g[2]) = Len(x[2]) /\ \A i \in 1..Len(x[2]) : SameItem(x[2][i], g[2][i])
         [] x[1] = "map" ->
              LET last(k) == CHOOSE i \in 1..Len(x[2]) : x[2][i][1] = k /\ \A j \in (i + 1)..Len(x[2]) : x[2][j][1] # k
              IN /\ {g[2][i][1] : i \in 1..Len(g[2])} = {x[2][i][1] : i \in 1..Len(x[2])}
                 /\ Cardinality({g[2][i][1] : i \in 1..Len(g[2])}) = Len(g[2])
                 /\ \A i \in 1..Len(g[2]) : SameItem(x[2][last(g[2][i][1])][2], g[2][i][2])
         [] OTHER -> TRUE
Ok(t) == IF t[1] = "err" THEN <<"err">> ELSE <<"ok", t>>
Tagged == "d9d9f7"

(* The CBOR decoders of ic-cbor do exactly what the specification says. *)
Exactly(run) ==
    /\ SameItem(Decode(run.in), run.item)
    /\ run.tree = Ok(DecodeTree(run.in))
    /\ run.cert = DecodeCertificate(run.in)
    /\ run.ranges = DecodeRanges(run.in)
    /\ run.strings = DecodeStrings(run.in)
(* Those of ic-certification take nothing for what it is not, and take     *)
(* what is written as the Internet Computer does for what it is.           *)
Soundly(run) ==
    LET x == Decode(run.in)
        t == DecodeTree(run.in)
        c == DecodeCertificate(run.in)
    IN /\ x[1] # "err" => /\ run.stree \in {<<"err">>, Ok(LooseTree(x))}
                          /\ run.scert \in {<<"err">>, LooseCertificate(x)}
       /\ (Has(run, "of") /\ Decode(run.of)[1] # "err") => run.stree = <<"err">> /\ run.scert = <<"err">>
       /\ (t[1] # "err" /\ run.in \in {EncodeTree(t), Tagged \o EncodeTree(t)}) => run.stree = Ok(t)
       /\ c[1] = "ok" =>
            LET e == EncodeCertificate(c[2], c[3], c[4])
            IN run.in \in {e, Tagged \o e} => run.scert = c
       /\ \A i \in 1..2 : run.digests[i] \in {<<"err">>} \cup (IF run.stree[1] = "ok" THEN {<<"ok", Digest(run.stree[2])>>} ELSE {})
(* What the library encodes is the value's encoding, and reads back. *)
Own(run) ==
    /\ DecodeTree(run.tcbor) = run.tree
    /\ DecodeCertificate(run.ccbor) = run.cert
    /\ run.tback = <<"ok", run.tree>>
    /\ run.cback = run.cert

RunOK(run) == CASE run.kind = "cbor" -> Exactly(run) /\ Soundly(run)
                [] run.kind = "own" -> Own(run)
Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == RunOK(Trace[l])
=============================================================================
