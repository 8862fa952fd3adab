------------------------------ MODULE T_Lookup ------------------------------
(***************************************************************************)
(* C12: each run is one tree (optionally with the tree it was pruned from) *)
(* and the observed path listing and lookups.                              *)
(***************************************************************************)
EXTENDS HashTree, TraceLib
VARIABLE l

LookupOK(t, q) == q.value = LookupPath(q.path, t) /\ q.subtree = LookupSubtree(q.path, t)

(* The observed answers never contradict the full tree (stated on the      *)
(* answers themselves, independently of LookupPath on the pruned tree).    *)
RefinesOK(run) ==
    Has(run, "full") =>
        \A k \in 1..Len(run.lookups) :
            LET q == run.lookups[k]
                f == LookupPath(q.path, run.full)
                s == LookupSubtree(q.path, run.full)
            IN /\ q.value[1] = "found" => q.value = f
               /\ q.value[1] = "absent" => f[1] = "absent"
               /\ q.subtree[1] = "absent" => s[1] = "absent"
               /\ q.subtree[1] = "found" => s[1] = "found" /\ IsPruningOf(q.subtree[2], s[2])

RunOK(run) ==
    /\ \A k \in 1..Len(run.lookups) : LookupOK(run.tree, run.lookups[k])
    /\ RefinesOK(run)
    /\ run.paths = ListPaths(run.tree)

Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l
Conforms == RunOK(Trace[l])
=============================================================================
