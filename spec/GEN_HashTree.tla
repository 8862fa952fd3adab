--------------------------- MODULE GEN_HashTree ----------------------------
(***************************************************************************)
(* Enumerates every small well-formed tree, every pruning of it and every  *)
(* short path, as scenarios to replay on the implementation.               *)
(***************************************************************************)
EXTENDS MC_HashTree, Json, CSV, IOUtils

GenInit == full \in AllTrees /\ view = full /\ path = <<>>
GenSpec == GenInit /\ [][Prune]_vars
AllPaths == LET RECURSIVE Seqs(_)
                Seqs(S) == IF S = {} THEN <<>>
                           ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
            IN Seqs(Paths)
Emit == CSVWrite("%1$s", <<ToJson([tree |-> view, full |-> full, paths |-> AllPaths])>>, IOEnv.VH_OUT)
=============================================================================
