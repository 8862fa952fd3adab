------------------------------ MODULE ExprPath ------------------------------
(***************************************************************************)
(* Which expression path may answer a request (version 2).                 *)
(*                                                                         *)
(* Paths are sequences of byte strings.  A request path P is the list of   *)
(* its non-empty segments, with a final "" for a directory (trailing       *)
(* slash).  The tree holds  http_expr, segments..., then <$> for an exact  *)
(* path or <*> for a wildcard.                                             *)
(***************************************************************************)
EXTENDS HashTree

PathPrefix == Utf8("http_expr")
Exact == Utf8("<$>")
Wild == Utf8("<*>")

(* p: the bytes of a decoded request path *)
RequestSegments(p) ==
    LET parts == HexSplit(p, "2f")
        segs == SelectSeq(parts, LAMBDA s : s # "")
        dir == Len(p) >= 2 /\ SubSeq(p, Len(p) - 1, Len(p)) = "2f"
    IN IF dir THEN Append(segs, "") ELSE segs

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* A wildcard w (without prefix and terminator) matches a request path P   *)
(* if it is a segment-wise prefix of it; a final "" of w may be dropped.   *)
Matches(w, P) ==
    IsPrefixOf(w, P) \/ (w # <<>> /\ w[Len(w)] = "" /\ IsPrefixOf(Front(w), P))

(* The wildcards that match P, from the most specific on: P itself, then   *)
(* by turns the directory of what is left and what is left.                *)
RECURSIVE Chain(_)
Chain(P) ==
    <<P>> \o (IF P = <<>> THEN <<>>
              ELSE IF P[Len(P)] = "" THEN Chain(Front(P))
              ELSE Chain(Append(Front(P), "")))

Index(x, s) == LET at == {i \in 1..Len(s) : s[i] = x}
               IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
(* The wildcards strictly more specific than w for P.  A matching w that   *)
(* is not in the chain is the directory wildcard of P itself: it ranks     *)
(* just below the wildcard of P, and is never required to be absent.       *)
MoreSpecific(w, P) ==
    LET c == Chain(P)
        i == Index(w, c)
    IN IF i > 0 THEN SubSeq(c, 1, i - 1)
       ELSE IF P # <<>> /\ P[Len(P)] = "" THEN <<>> ELSE <<P>>

Known(t, path) == LookupSubtree(path, t)[1]
InTree(w, end) == <<PathPrefix>> \o w \o <<end>>

(* May expression path E answer a request for P, according to (pruned)     *)
(* tree t?                                                                 *)
ExprPathOK(E, P, t) ==
    /\ Len(E) >= 2 /\ E[1] = PathPrefix /\ E[Len(E)] \in {Exact, Wild}
    /\ IF E = InTree(P, Exact) THEN Known(t, E) = "found"
       ELSE /\ E[Len(E)] = Wild
            /\ Known(t, InTree(P, Exact)) = "absent"
            /\ LET w == SubSeq(E, 2, Len(E) - 1)
                   more == MoreSpecific(w, P)
               IN /\ Matches(w, P)
                  /\ \A i \in 1..Len(more) : Known(t, InTree(more[i], Wild)) = "absent"
                  /\ Known(t, E) = "found"
=============================================================================
