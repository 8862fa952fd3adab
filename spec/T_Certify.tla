------------------------------ MODULE T_Certify -----------------------------
(***************************************************************************)
(* C22: recorded attempts to create certifications.                        *)
(***************************************************************************)
EXTENDS CertTree, TraceLib
VARIABLE l
Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l

ItemOK(c) ==
    IF Certifiable(c)
    THEN /\ c.got[1] = "ok"
         /\ c.got[2][1] = "l"
         /\ Shows(c.got[2][3], {<<<<"", Exact>> \o CommitTo(c), "">>})
    ELSE c.got[1] = "err" /\ MayBlame(c, c.got)
Conforms ==
    LET x == Trace[l]
    IN /\ \A k \in 1..Len(x.items) : ItemOK(x.items[k])
       /\ \A k \in 1..Len(x.eq) :
             x.eq[k][3] = (CommitTo(x.items[x.eq[k][1]]) = CommitTo(x.items[x.eq[k][2]]))
=============================================================================
