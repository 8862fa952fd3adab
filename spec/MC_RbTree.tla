------------------------------ MODULE MC_RbTree -----------------------------
(***************************************************************************)
(* Every history of the tree over a few keys: it stays ordered, left-      *)
(* leaning and balanced, its cached hashes stay right, it holds what the   *)
(* map holds, and every proof it gives is exact.                           *)
(***************************************************************************)
EXTENDS RbTree
CONSTANTS Keys, Vals, Probes
VARIABLES t, m
vars == <<t, m>>
Init == t = Nil /\ m = NoEntries
Do(op) ==
    /\ m' = MapApply(m, op)
    /\ t' = CASE op[1] = "ins" -> RbInsert(t, op[2], op[3])
              [] op[1] = "mod" -> RbModify(t, op[2], op[3])
              [] op[1] = "del" -> RbDelete(t, op[2])
Next == \E k \in Keys : Do(<<"del", k>>) \/ \E v \in Vals : Do(<<"ins", k, v>>) \/ Do(<<"mod", k, v>>)
Spec == Init /\ [][Next]_vars

Structure == Ordered(t) /\ Leaning(t) /\ ~Red(t) /\ BlackHeight(t) # 99
Hashes == Cached(t) /\ Digest(Shown(t)) = (IF IsNil(t) THEN EmptyHash ELSE t.h)
Holds == ShowsExactly(Shown(t), m)
Flat == Shallow(Shown(t), Cardinality(DOMAIN m))
Queries == {[q |-> x, a |-> a, b |-> ""] : x \in {"key", "prefix"}, a \in Probes} \cup
           {[q |-> x, a |-> a, b |-> b] : x \in {"range", "values"}, a, b \in Probes} \cup {[q |-> "keys", a |-> "", b |-> ""]}
Sensible == {q \in Queries : q.q \in {"range", "values"} => HexLeq(q.a, q.b)}
Root == Digest(Shown(t))
Proofs == \A q \in Sensible :
    LET w == Proof(t, q) IN ProofOK([q |-> q.q, a |-> q.a, b |-> q.b, tree |-> w], m, Root)
=============================================================================
