----------------------------- MODULE MC_ExprPath -----------------------------
(***************************************************************************)
(* The choice of the expression path: any small set of certified paths,    *)
(* any view of their tree, any request and any claimed path.               *)
(***************************************************************************)
EXTENDS ExprPath, Trees, TLC
CONSTANTS MaxEntries, AllPrunings, Odd
VARIABLES entries, view, asked
vars == <<entries, view, asked>>

A == Utf8("a")  B == Utf8("b")
Plain == {<<>>, <<"">>, <<A>>, <<A, "">>, <<A, B>>, <<A, B, "">>, <<B>>}
OddPaths == {<<PathPrefix>>, <<PathPrefix, A>>, <<Wild>>, <<A, Wild>>, <<A, Exact>>}
Names == IF Odd THEN Plain \cup OddPaths ELSE Plain
Requests == {<<"">>, <<A>>, <<A, "">>, <<A, B>>, <<A, B, "">>, <<B>>}
            \cup (IF Odd THEN OddPaths ELSE {})
Candidates == {InTree(w, Wild) : w \in Names} \cup {InTree(p, Exact) : p \in Names \ {<<>>}}
ExprHash == Sha256(Utf8("default_certification(ValidationArgs{no_certification:Empty{}})"))

RECURSIVE UpTo(_, _)
UpTo(n, S) == IF n = 0 THEN {{}} ELSE LET r == UpTo(n - 1, S) IN r \cup {s \cup {x} : s \in r, x \in S}
TreeOf(es) == Build({<<Append(e, ExprHash), "">> : e \in es})

None == <<"none">>
Init == entries = {None} /\ view = None /\ asked = None
Certify == entries = {None} /\ entries' \in UpTo(MaxEntries, Candidates) /\ UNCHANGED <<view, asked>>
Show == /\ entries # {None} /\ view = None
        /\ view' \in (IF AllPrunings THEN Prunings(TreeOf(entries)) ELSE OnePruned(TreeOf(entries)))
        /\ UNCHANGED <<entries, asked>>
Ask == view # None /\ asked = None /\ asked' \in Requests /\ UNCHANGED <<entries, view>>
Next == Certify \/ Show \/ Ask
Spec == Init /\ [][Next]_vars
Ready == asked # None

(* The most specific certified path, said without regard to any tree: the  *)
(* exact path, or else the wildcard with the longest part in common.       *)
IsDir(w) == w # <<>> /\ w[Len(w)] = ""
Rank(w) == IF IsDir(w) THEN (2 * Len(w)) - 1 ELSE 2 * Len(w)
Wildcards == {SubSeq(e, 2, Len(e) - 1) : e \in {e \in entries : e[Len(e)] = Wild}}
Fitting == {w \in Wildcards : Matches(w, asked) /\ w # Append(asked, "")}
Best == IF InTree(asked, Exact) \in entries THEN {InTree(asked, Exact)}
        ELSE {InTree(w, Wild) : w \in {w \in Fitting : \A v \in Fitting : Rank(v) <= Rank(w)}}
(* The directory wildcard of the request itself is tolerated where there   *)
(* is nothing more specific.                                               *)
Tolerated == IF Best \cap {InTree(asked, Exact), InTree(asked, Wild)} = {}
             THEN {InTree(Append(asked, ""), Wild)} \cap entries ELSE {}

(* The verifier also looks for the expression below the path; this keeps   *)
(* a path segment that looks like a terminator from being taken for one.   *)
Accepted(E, t) == ExprPathOK(E, asked, t) /\ LookupSubtree(Append(E, ExprHash), t)[1] = "found"
Sound == Ready => \A E \in Candidates :
            Accepted(E, view) => E \in entries /\ E \in Best \cup Tolerated
Unique == Ready => Cardinality(Best) <= 1
Ordinary == \A e \in entries : \A i \in 2..(Len(e) - 1) : e[i] \notin {Wild, Exact}
Complete == Ready /\ view = TreeOf(entries) /\ Ordinary =>
                \A E \in Best \cup Tolerated : Accepted(E, view)
(* Hiding parts of a tree never makes a path acceptable. *)
Monotonic == Ready => \A E \in Candidates :
            Accepted(E, view) => Accepted(E, TreeOf(entries))
=============================================================================
