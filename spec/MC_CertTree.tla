----------------------------- MODULE MC_CertTree ----------------------------
(***************************************************************************)
(* The certification tree and the verifier together: in every reachable    *)
(* state, the least witness that settles what must be settled makes the    *)
(* verifier accept exactly the entries that are held and are the most      *)
(* specific for the request.                                               *)
(* Certifications are abstract here: a path of hashes per entry.           *)
(***************************************************************************)
EXTENDS ExprPath, Nested
CONSTANTS Paths, Urls, MaxHeld
VARIABLE m

(* an entry: <<path segments below http_expr, with the terminator; hashes>> *)
PathSegs == [p \in Paths |-> RequestSegments(Utf8(p))]
Entries ==
    {<<Append(PathSegs[p], Wild), <<"c1">>>> : p \in Paths} \cup
    {<<Append(PathSegs[p], Exact), <<"c1">>>> : p \in Paths \ {""}} \cup
    {<<Append(PathSegs["/a"], e), <<"c2", "r1">>>> : e \in {Exact, Wild}}
Full(e) == e[1] \o e[2]

Init == m = NothingNested
Next == \/ Cardinality(DOMAIN m) < MaxHeld /\ \E e \in Entries : m' = NestedApply(m, <<"ins", Full(e), "">>)
        \/ \E e \in Entries : m' = NestedApply(m, <<"del", Full(e)>>)
        \/ m' = NestedApply(m, <<"clear">>)
Spec == Init /\ [][Next]_m

(***************************************************************************)
(* The least view of a tree that settles all the paths of S.               *)
(***************************************************************************)
RECURSIVE Least(_, _), LeastLevel(_, _, _, _)
Least(t, S) ==
    IF S = {} THEN Pruned(Digest(t))
    ELSE IF <<>> \in S \/ t[1] \in {"e", "v"} THEN t
    ELSE LET f == Flatten(t)
             names == {f[k][2] : k \in 1..Len(f)}
             wanted == {p[1] : p \in S} \cap names
             missing == {p[1] : p \in S} \ names
             near == {b \in names : \E x \in missing :
                        \/ HexLess(b, x) /\ ~\E c \in names : HexLess(b, c) /\ HexLess(c, x)
                        \/ HexLess(x, b) /\ ~\E c \in names : HexLess(x, c) /\ HexLess(c, b)}
         IN LeastLevel(t, S, wanted, near)
LeastLevel(t, S, wanted, near) ==
    IF t[1] = "f"
    THEN LET a == LeastLevel(t[2], S, wanted, near)
             b == LeastLevel(t[3], S, wanted, near)
         IN IF a[1] = "p" /\ b[1] = "p" THEN Pruned(Digest(t)) ELSE Fork(a, b)
    ELSE IF t[2] \in wanted THEN Labeled(t[2], Least(t[3], {Tail(p) : p \in {q \in S : q[1] = t[2]}}))
    ELSE IF t[2] \in near THEN Labeled(t[2], Pruned(Digest(t[3])))
    ELSE Pruned(Digest(t))

Tree == Build({<<<<PathPrefix>> \o p, "">> : p \in DOMAIN m})
Settle(e, P) ==
    LET w == SubSeq(e[1], 1, Len(e[1]) - 1)
    IN IF e[1][Len(e[1])] = Exact THEN {Full(e)}
       ELSE {Append(P, Exact), e[1]} \cup
            (IF Matches(w, P) THEN LET c == MoreSpecific(w, P) IN {Append(c[k], Wild) : k \in 1..Len(c)} ELSE {})
Witness(e, P) == Least(Tree, {<<PathPrefix>> \o p : p \in Settle(e, P)})
TooSpecific(e, P) == e[1][Len(e[1])] = Wild /\ Len(e[1]) - 1 > Len(P)

Holds(path) == Below(m, path) # {}
Answers(e, P) ==
    LET w == SubSeq(e[1], 1, Len(e[1]) - 1)
        c == MoreSpecific(w, P)
    IN /\ Full(e) \in DOMAIN m
       /\ IF e[1][Len(e[1])] = Exact THEN w = P
          ELSE Matches(w, P) /\ ~Holds(Append(P, Exact)) /\ \A k \in 1..Len(c) : ~Holds(Append(c[k], Wild))
Verifies(e, P, t) ==
    LET E == <<PathPrefix>> \o e[1]
    IN ExprPathOK(E, P, t) /\ LookupSubtree(E \o e[2], t) = <<"found", Leaf("")>>

AcceptedIffAnswers ==
    \A u \in Urls, e \in Entries :
        LET P == RequestSegments(Utf8(u))
            w == Witness(e, P)
        IN ~TooSpecific(e, P) =>
              /\ Digest(w) = Digest(Tree)
              /\ Verifies(e, P, w) <=> Answers(e, P)
(* No view of the tree makes anything else acceptable. *)
NeverForAnother ==
    \A u \in Urls, e \in Entries :
        LET P == RequestSegments(Utf8(u)) IN (~TooSpecific(e, P) /\ Verifies(e, P, Tree)) => Answers(e, P)
(* Every request has an answer as long as any held wildcard matches it. *)
SomeAnswer ==
    \A u \in Urls :
        LET P == RequestSegments(Utf8(u))
        IN (\E e \in Entries : Full(e) \in DOMAIN m /\ ~TooSpecific(e, P) /\
              IF e[1][Len(e[1])] = Exact THEN e[1] = Append(P, Exact) ELSE Matches(SubSeq(e[1], 1, Len(e[1]) - 1), P))
           => \E e \in Entries : Answers(e, P)
Shown == Shows(Tree, {<<<<PathPrefix>> \o c[1], c[2]>> : c \in Below(m, <<>>)})
=============================================================================
