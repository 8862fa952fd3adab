---------------------------- MODULE MC_HashTree ----------------------------
(***************************************************************************)
(* The design of hash trees, explored exhaustively on small trees: a tree  *)
(* is built node by node, then pruned, then queried.                       *)
(***************************************************************************)
EXTENDS HashTree, FiniteSets, TLC
CONSTANTS Labels, Values, MaxSize, PathLen
VARIABLES full, view, path

vars == <<full, view, path>>
RECURSIVE Trees(_)
(* All well-formed trees with at most n nodes. *)
Trees(n) ==
    IF n <= 0 THEN {}
    ELSE {Empty} \cup {Leaf(v) : v \in Values}
         \cup {Labeled(b, t) : b \in Labels, t \in Trees(n - 1)}
         \cup UNION {{Fork(a, b) : a \in Trees(k), b \in Trees(n - 1 - k)} : k \in 1..(n-2)}
AllTrees == {t \in Trees(MaxSize) : WellFormed(t)}
Paths == UNION {[1..k -> Labels] : k \in 0..PathLen}

Init == full \in AllTrees /\ view = full /\ path = <<>>
Prune == view = full /\ path = <<>> /\ view' \in Prunings(full) /\ UNCHANGED <<full, path>>
Query == path = <<>> /\ path' \in Paths \ {<<>>} /\ UNCHANGED <<full, view>>
Next == Prune \/ Query
Spec == Init /\ [][Next]_vars

DigestPreserved == Digest(view) = Digest(full)
PruningIsPruning == IsPruningOf(view, full)
FoundSound == LET o == LookupPath(path, view) IN o[1] = "found" => o = LookupPath(path, full)
AbsentSound == LET o == LookupPath(path, view)
               IN o[1] = "absent" => LookupPath(path, full)[1] = "absent"
SubtreeSound == LET o == LookupSubtree(path, view)
                    f == LookupSubtree(path, full)
                IN /\ o[1] = "found" => f[1] = "found" /\ IsPruningOf(o[2], f[2])
                   /\ o[1] = "absent" => f[1] = "absent"
FullKnows == view = full => LookupPath(path, view)[1] # "unknown"
ListsLeaves == \A i \in 1..Len(ListPaths(full)) : LookupPath(ListPaths(full)[i], full)[1] = "found"
(* with idealised hashes the digest determines the tree up to pruning *)
Binding == \A t \in AllTrees : Digest(t) = Digest(full) => t = full
=============================================================================
