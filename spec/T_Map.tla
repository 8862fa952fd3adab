-------------------------------- MODULE T_Map -------------------------------
(***************************************************************************)
(* C14: recorded histories of the ordered map.  The state of the           *)
(* specification is recomputed from the operations; what the map showed    *)
(* after each of them must be what the specification allows.               *)
(***************************************************************************)
EXTENDS Map, TraceLib
VARIABLES l, i, m

Step(a, b) == Trace[a].steps[b]
Init == l \in ChunkHeads /\ i = 1 /\ m = MapApply(NoEntries, Step(l, 1).op)
Next ==
    \/ /\ i < Len(Trace[l].steps)
       /\ i' = i + 1 /\ l' = l /\ m' = MapApply(m, Step(l, i + 1).op)
    \/ /\ i = Len(Trace[l].steps) /\ l % ChunkLen # 0 /\ l < NumRuns
       /\ l' = l + 1 /\ i' = 1 /\ m' = MapApply(NoEntries, Step(l + 1, 1).op)
Spec == Init /\ [][Next]_<<l, i, m>>

Conforms ==
    LET o == Step(l, i)
    IN IF Has(o, "bad") THEN ~o.bad
       ELSE /\ o.full[1] # "panic"
            /\ ShowsExactly(o.full, m)
            /\ o.root = Digest(o.full)
            /\ o.empty = (DOMAIN m = {})
            /\ o.iter = Entries(m) /\ o.each = Entries(m)
            /\ \A k \in 1..Len(o.same) : o.same[k][2] = Compared(Entries(m), o.same[k][1])
            /\ Shallow(o.full, Cardinality(DOMAIN m))
            /\ \A k \in 1..Len(o.gets) :
                  o.gets[k].got = IF o.gets[k].key \in DOMAIN m THEN <<"some", m[o.gets[k].key]>> ELSE <<"none">>
            /\ \A k \in 1..Len(o.wit) : ProofOK(o.wit[k], m, o.root)
=============================================================================
