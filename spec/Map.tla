--------------------------------- MODULE Map --------------------------------
(***************************************************************************)
(* The ordered authenticated map.  State: a function from keys to values.  *)
(* Operations: <<"ins", k, v>>, <<"mod", k, v>> (only if k is there) and   *)
(* <<"del", k>>.                                                           *)
(***************************************************************************)
EXTENDS Trees

NoEntries == [k \in {} |-> ""]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
MapApply(m, op) ==
    CASE op[1] = "ins" -> Put(m, op[2], op[3])
      [] op[1] = "mod" -> IF op[2] \in DOMAIN m THEN Put(m, op[2], op[3]) ELSE m
      [] op[1] = "del" -> [x \in DOMAIN m \ {op[2]} |-> m[x]]

(* What the map must show of itself. *)
RECURSIVE EntriesOf(_, _)
EntriesOf(ks, m) == IF ks = <<>> THEN <<>> ELSE <<<<ks[1], m[ks[1]]>>>> \o EntriesOf(Tail(ks), m)
Entries(m) == EntriesOf(SortedSeq(DOMAIN m), m)
LabelsOf(t) == LET f == Flatten(t) IN [i \in 1..Len(f) |-> IF f[i][1] = "l" THEN <<f[i][2], f[i][3]>> ELSE <<f[i][1]>>]
ShowsExactly(t, m) ==
    LET e == Entries(m) IN LabelsOf(t) = [i \in 1..Len(e) |-> <<e[i][1], Leaf(e[i][2])>>]

(***************************************************************************)
(* Proofs.  A query names an interval of keys; Wanted says whether a key   *)
(* is in it.  In the proof w every key of the interval is present with its *)
(* value (or, if only keys are asked for, present), every other key of the *)
(* interval is proved absent, no value outside the interval shows, and no  *)
(* key outside it but the nearest on either side.                          *)
(***************************************************************************)
IsPrefixOf(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Wanted(q, k) ==
    CASE q.q = "key" -> k = q.a
      [] q.q \in {"range", "values"} -> HexLeq(q.a, k) /\ HexLeq(k, q.b)
      [] q.q = "prefix" -> IsPrefixOf(q.a, k)
      [] q.q = "keys" -> TRUE
WithValues(q) == q.q \in {"key", "values"}
(* One key of every gap between the keys of the interval. *)
Gaps(q, m) ==
    LET some == (IF q.q = "keys" THEN {""} ELSE {q.a}) \cup
                {k \o "00" : k \in {x \in DOMAIN m : Wanted(q, x)} \cup (IF q.q = "key" THEN {} ELSE {q.a})}
    IN {k \in some : Wanted(q, k) /\ k \notin DOMAIN m}
RevealedValues(w) == LET f == Flatten(w) IN {f[i][2] : i \in {j \in 1..Len(f) : f[j][1] = "l" /\ f[j][3][1] # "p"}}
(* Other keys may only show where they bound a gap: the last one before the interval and the first one after it. *)
ShownKeys(w) == LET f == Flatten(w) IN {f[i][2] : i \in {j \in 1..Len(f) : f[j][1] = "l"}}
OnlyNeighbours(q, m) ==
    LET others == {k \in DOMAIN m : ~Wanted(q, k)}
        before == {k \in others : HexLeq(k, q.a)}
    IN \A k \in ShownKeys(q.tree) \cap others :
          IF k \in before THEN \A x \in before : HexLeq(x, k) ELSE \A x \in others \ before : HexLeq(k, x)
Proper(q) == q.q \in {"range", "values"} => HexLeq(q.a, q.b)
ProofOK(q, m, root) ==
    /\ q.tree[1] # "panic"
    /\ Digest(q.tree) = root
    /\ \A k \in {x \in DOMAIN m : Wanted(q, x)} :
          FindLabel(k, q.tree) = <<"found", IF WithValues(q) THEN Leaf(m[k]) ELSE Pruned(LeafHash(m[k]))>>
    /\ \A k \in Gaps(q, m) : FindLabel(k, q.tree) = <<"absent">>
    /\ \A k \in RevealedValues(q.tree) : WithValues(q) /\ Wanted(q, k)
    /\ Proper(q) => OnlyNeighbours(q, m)

(* Maps compare as the sequences of their entries. *)
EntryLess(a, b) == a # b /\ HexLeq(a[1], b[1]) /\ (a[1] = b[1] => HexLeq(a[2], b[2]))
RECURSIVE Order(_, _)
Order(as, bs) ==
    CASE as = bs -> "equal"
      [] as = <<>> -> "less"
      [] bs = <<>> -> "greater"
      [] OTHER -> IF as[1] = bs[1] THEN Order(Tail(as), Tail(bs)) ELSE IF EntryLess(as[1], bs[1]) THEN "less" ELSE "greater"
Compared(as, bs) == <<as = bs, as = bs, Order(as, bs), Order(bs, as), Order(as, bs)>>

(* Proofs stay small: the depth of the tree is logarithmic. *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Log2Up(n) == CHOOSE k \in 0..40 : Pow2(k) >= n /\ (k = 0 \/ Pow2(k - 1) < n)
Shallow(t, n) == Depth(t) <= 4 * Log2Up(n + 1)
=============================================================================
