-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Hash trees built from their content: a set of <<path, leaf>> pairs, no  *)
(* path a proper prefix of another.                                        *)
(***************************************************************************)
EXTENDS HashTree, FiniteSets

RECURSIVE SortedSeq(_)
(* A set of byte strings as a sorted sequence. *)
SortedSeq(S) ==
    IF S = {} THEN <<>>
    ELSE LET m == CHOOSE x \in S : \A y \in S : HexLeq(x, y)
         IN <<m>> \o SortedSeq(S \ {m})

RECURSIVE Forks(_)
Forks(ts) ==
    IF Len(ts) = 0 THEN Empty
    ELSE IF Len(ts) = 1 THEN ts[1]
    ELSE LET k == Len(ts) \div 2
         IN Fork(Forks(SubSeq(ts, 1, k)), Forks(SubSeq(ts, k + 1, Len(ts))))

RECURSIVE Build(_), Branches(_, _)
Branches(ls, S) ==
    IF ls = <<>> THEN <<>>
    ELSE <<Labeled(ls[1], Build({<<Tail(x[1]), x[2]>> : x \in {y \in S : y[1][1] = ls[1]}}))>> \o Branches(Tail(ls), S)
Build(S) ==
    IF \E x \in S : x[1] = <<>> THEN Leaf((CHOOSE x \in S : x[1] = <<>>)[2])
    ELSE Forks(Branches(SortedSeq({x[1][1] : x \in S}), S))

(* The views of a tree in which at most one subtree is pruned. *)
RECURSIVE OnePruned(_)
OnePruned(t) ==
    {t, Pruned(Digest(t))} \cup
    CASE t[1] = "f" -> {Fork(x, t[3]) : x \in OnePruned(t[2])} \cup {Fork(t[2], x) : x \in OnePruned(t[3])}
      [] t[1] = "l" -> {Labeled(t[2], x) : x \in OnePruned(t[3])}
      [] OTHER -> {}
=============================================================================
