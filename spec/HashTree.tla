------------------------------ MODULE HashTree ------------------------------
(***************************************************************************)
(* Hash trees of the Internet Computer interface specification.            *)
(*                                                                         *)
(*   <<"e">>         empty                  <<"f", l, r>>  fork            *)
(*   <<"l", b, t>>   label b over tree t    <<"v", b>>     leaf            *)
(*   <<"p", h>>      a pruned subtree, known only by its digest h          *)
(***************************************************************************)
EXTENDS Prim

Empty == <<"e">>
Fork(l, r) == <<"f", l, r>>
Labeled(b, t) == <<"l", b, t>>
Leaf(b) == <<"v", b>>
Pruned(h) == <<"p", h>>

Sep(name) == ByteHex(Len(name)) \o Utf8(name)

EmptyHash == Sha256(Sep("ic-hashtree-empty"))
ForkHash(a, b) == Sha256(Sep("ic-hashtree-fork") \o a \o b)
LabeledHash(b, h) == Sha256(Sep("ic-hashtree-labeled") \o b \o h)
LeafHash(b) == Sha256(Sep("ic-hashtree-leaf") \o b)

RECURSIVE Digest(_)
Digest(t) ==
    CASE t[1] = "e" -> EmptyHash
      [] t[1] = "f" -> ForkHash(Digest(t[2]), Digest(t[3]))
      [] t[1] = "l" -> LabeledHash(t[2], Digest(t[3]))
      [] t[1] = "v" -> LeafHash(t[2])
      [] t[1] = "p" -> t[2]

(***************************************************************************)
(* Looking up labels and paths.                                            *)
(***************************************************************************)
RECURSIVE Flatten(_)
Flatten(t) ==
    CASE t[1] = "e" -> <<>>
      [] t[1] = "f" -> Flatten(t[2]) \o Flatten(t[3])
      [] OTHER -> <<t>>

(* The first index of the flattened tree whose label is >= b, if any. *)
FindLabel(b, t) ==
    LET f == Flatten(t)
        n == Len(f)
        eq == {i \in 1..n : f[i][1] = "l" /\ f[i][2] = b}
        IsL(i) == f[i][1] = "l"
    IN IF eq # {} THEN <<"found", f[CHOOSE i \in eq : TRUE][3]>>
       ELSE IF \/ n = 0
               \/ n = 1 /\ f[1][1] = "v"
               \/ IsL(1) /\ HexLess(b, f[1][2])
               \/ IsL(n) /\ HexLess(f[n][2], b)
               \/ \E i \in 1..(n-1) : /\ IsL(i) /\ IsL(i+1)
                                      /\ HexLess(f[i][2], b) /\ HexLess(b, f[i+1][2])
            THEN <<"absent">>
            ELSE <<"unknown">>

RECURSIVE LookupPath(_, _)
LookupPath(path, t) ==
    IF path = <<>>
    THEN CASE t[1] = "e" -> <<"absent">>
           [] t[1] = "p" -> <<"unknown">>
           [] t[1] = "v" -> <<"found", t[2]>>
           [] OTHER -> <<"error">>
    ELSE LET r == FindLabel(Head(path), t)
         IN IF r[1] = "found" THEN LookupPath(Tail(path), r[2]) ELSE r

RECURSIVE LookupSubtree(_, _)
LookupSubtree(path, t) ==
    IF path = <<>> THEN <<"found", t>>
    ELSE LET r == FindLabel(Head(path), t)
         IN IF r[1] = "found" THEN LookupSubtree(Tail(path), r[2]) ELSE r

RECURSIVE ListPathsFrom(_, _)
ListPathsFrom(t, prefix) ==
    CASE t[1] = "f" -> ListPathsFrom(t[2], prefix) \o ListPathsFrom(t[3], prefix)
      [] t[1] = "v" -> <<prefix>>
      [] t[1] = "l" -> ListPathsFrom(t[3], Append(prefix, t[2]))
      [] OTHER -> <<>>
ListPaths(t) == ListPathsFrom(t, <<>>)

(***************************************************************************)
(* Well-formed trees: at each level, sorted distinct labels, or one leaf.  *)
(***************************************************************************)
RECURSIVE HasPruned(_)
HasPruned(t) ==
    CASE t[1] = "p" -> TRUE
      [] t[1] = "f" -> HasPruned(t[2]) \/ HasPruned(t[3])
      [] t[1] = "l" -> HasPruned(t[3])
      [] OTHER -> FALSE

RECURSIVE WellFormed(_)
WellFormed(t) ==
    LET f == Flatten(t)
    IN \/ t[1] = "v"
       \/ /\ \A i \in 1..Len(f) : f[i][1] \in {"l", "p"}
          /\ \A i \in 1..Len(f) : f[i][1] = "l" => WellFormed(f[i][3])
          /\ \A i, j \in 1..Len(f) :
                i < j /\ f[i][1] = "l" /\ f[j][1] = "l" => HexLess(f[i][2], f[j][2])

RECURSIVE IsPruningOf(_, _)
(* p is t with some subtrees replaced by their digests. *)
IsPruningOf(p, t) ==
    \/ p = t
    \/ p[1] = "p" /\ p[2] = Digest(t)
    \/ p[1] = "f" /\ t[1] = "f" /\ IsPruningOf(p[2], t[2]) /\ IsPruningOf(p[3], t[3])
    \/ p[1] = "l" /\ t[1] = "l" /\ p[2] = t[2] /\ IsPruningOf(p[3], t[3])

RECURSIVE Prunings(_)
Prunings(t) ==
    {Pruned(Digest(t))} \cup
    CASE t[1] = "f" -> {Fork(l, r) : l \in Prunings(t[2]), r \in Prunings(t[3])}
      [] t[1] = "l" -> {Labeled(t[2], s) : s \in Prunings(t[3])}
      [] OTHER -> {t}

(* Number of nodes. *)
RECURSIVE Size(_)
Size(t) == CASE t[1] = "f" -> 1 + Size(t[2]) + Size(t[3])
             [] t[1] = "l" -> 1 + Size(t[3])
             [] OTHER -> 1
RECURSIVE Depth(_)
Max2(a, b) == IF a > b THEN a ELSE b
(* Number of forks between the root and the deepest label of this level. *)
Depth(t) == CASE t[1] = "f" -> 1 + Max2(Depth(t[2]), Depth(t[3]))
              [] OTHER -> 0
=============================================================================
