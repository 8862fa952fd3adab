------------------------------ MODULE T_Nested ------------------------------
(***************************************************************************)
(* C15: recorded histories of the nested map.                              *)
(***************************************************************************)
EXTENDS Nested, TraceLib
VARIABLES l, i, m

Step(a, b) == Trace[a].steps[b]
Init == l \in ChunkHeads /\ i = 1 /\ m = NestedApply(NothingNested, Step(l, 1).op)
Next ==
    \/ /\ i < Len(Trace[l].steps)
       /\ i' = i + 1 /\ l' = l /\ m' = NestedApply(m, Step(l, i + 1).op)
    \/ /\ i = Len(Trace[l].steps) /\ l % ChunkLen # 0 /\ l < NumRuns
       /\ l' = l + 1 /\ i' = 1 /\ m' = NestedApply(NothingNested, Step(l + 1, 1).op)
Spec == Init /\ [][Next]_<<l, i, m>>

QueryOK(q, root) ==
    /\ q.got = IF q.path \in DOMAIN m THEN <<"some", m[q.path]>> ELSE <<"none">>
    /\ q.leaf = (q.path \in DOMAIN m)
    /\ q.has = (q.path = <<>> \/ Below(m, q.path) # {})
    /\ NestedProofOK(q.tree, m, root, {q.path})
Conforms ==
    LET o == Step(l, i)
    IN IF Has(o, "bad") THEN ~o.bad
       ELSE /\ o.full[1] # "panic"
            /\ Shows(o.full, Below(m, <<>>))
            /\ o.root = Digest(o.full)
            /\ \A k \in 1..Len(o.queries) : QueryOK(o.queries[k], o.root)
            /\ \A k \in 1..Len(o.merged) :
                  NestedProofOK(o.merged[k].tree, m, o.root, {o.merged[k].a, o.merged[k].b})
=============================================================================
