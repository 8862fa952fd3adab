------------------------------ MODULE MC_Nested -----------------------------
(***************************************************************************)
(* The nested map as it works - a tree of maps in which a node is a leaf   *)
(* or a map of nodes - refines the map from paths, for every history, and  *)
(* never keeps an empty branch.                                            *)
(***************************************************************************)
EXTENDS Nested
CONSTANTS Keys, MaxDepth
VARIABLES n, m
vars == <<n, m>>
Paths == UNION {[1..d -> Keys] : d \in 0..MaxDepth}

Nest(f) == <<"nest", f>>
NoNodes == Nest([k \in {} |-> <<>>])
RECURSIVE Ins(_, _, _), Del(_, _)
Ins(x, p, v) ==
    IF p = <<>> THEN <<"leaf", v>>
    ELSE LET f == IF x[1] = "leaf" THEN NoNodes[2] ELSE x[2]
             c == IF p[1] \in DOMAIN f THEN f[p[1]] ELSE NoNodes
         IN Nest([k \in DOMAIN f \cup {p[1]} |-> IF k = p[1] THEN Ins(c, Tail(p), v) ELSE f[k]])
Del(x, p) ==
    IF p = <<>> THEN NoNodes
    ELSE IF x[1] = "leaf" THEN x
    ELSE IF p[1] \notin DOMAIN x[2] THEN x
    ELSE LET c == Del(x[2][p[1]], Tail(p))
             rest == [k \in DOMAIN x[2] \ {p[1]} |-> x[2][k]]
         IN IF c = NoNodes THEN Nest(rest) ELSE Nest([x[2] EXCEPT ![p[1]] = c])

Init == n = NoNodes /\ m = NothingNested
Do(op) ==
    /\ m' = NestedApply(m, op)
    /\ n' = CASE op[1] = "ins" -> Ins(n, op[2], op[3])
              [] op[1] = "del" -> Del(n, op[2])
              [] op[1] = "clear" -> NoNodes
Ops == {<<"ins", p, "00">> : p \in Paths} \cup {<<"del", p>> : p \in Paths} \cup {<<"clear">>}
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

RECURSIVE Content(_), Lean(_), Tree(_), Children(_, _)
Content(x) == IF x[1] = "leaf" THEN {<<<<>>, x[2]>>}
              ELSE UNION {{<<<<k>> \o c[1], c[2]>> : c \in Content(x[2][k])} : k \in DOMAIN x[2]}
Lean(x) == x[1] = "leaf" \/ \A k \in DOMAIN x[2] : x[2][k] # NoNodes /\ Lean(x[2][k])
Children(ks, f) == IF ks = <<>> THEN <<>> ELSE <<Labeled(ks[1], Tree(f[ks[1]]))>> \o Children(Tail(ks), f)
Tree(x) == IF x[1] = "leaf" THEN Leaf(x[2]) ELSE Forks(Children(SortedSeq(DOMAIN x[2]), x[2]))
Refines == Content(n) = {<<p, m[p]>> : p \in DOMAIN m}
NoEmpty == Lean(n)
PrefixFree == \A p, q \in DOMAIN m : Starts(p, q) => p = q
ShowsState == Shows(Tree(n), Below(m, <<>>))
=============================================================================
