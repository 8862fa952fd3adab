-------------------------------- MODULE Total -------------------------------
(***************************************************************************)
(* Inputs of every size, and what may be said of them: always "ok" or      *)
(* "rejected", in bounded time, stack and memory, and "ok" for what is     *)
(* large but well-formed.                                                  *)
(*                                                                         *)
(* A case is  [call, make, n, end]: n repetitions of a construct in some   *)
(* place, whole, cut short or followed by more.  The words of a case are   *)
(* what each call it makes said, in order.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Small == {1, 2, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300}
Large == {1000, 5000, 20000}
Vast == {100000, 1000000}

Nests == {"arrays", "maps", "tags", "longtags", "leftforks", "rightforks", "labels", "openarrays", "openmaps", "openstrings"}
Claims == {"claimbytes", "claimtext", "claimarray", "claimmap", "claimarrays"}
Lists == {"widetree", "widearray", "widemap", "samekeys", "bytes", "ranges", "texts", "negatives", "junk"}
Cbors == Nests \cup Claims \cup Lists
TreeShapes == {"deep", "wide", "left", "right", "same", "reverse", "empties", "pruned", "siblings"}
Urls == {"segments", "directories", "ends", "slashes", "percent", "wide", "notutf8", "halfpercent", "long", "query", "questions",
         "hashes", "dots", "host", "port", "user"}
CelNests == {"calls", "callsin", "arrays", "arraysin", "objects", "objectsin", "mixed"}
CelLists == {"arguments", "string", "quotes", "escapes", "openstring", "names", "exclusions", "requestnames", "parameters", "spaces",
             "newlines", "commas", "colons", "name", "properties"}
HeaderTexts == {"fields", "repeats", "equals", "colons", "commas", "spaces", "name", "base64", "notbase64", "version", "zeros", "wide"}
HeaderLists == {"response", "same", "listed", "request", "long"}
Bodies == {"zeros", "deflated", "random", "identity"}
Paths == {"exact", "exactends", "wild", "wildends"}

Case(c, m, n, e) == [call |-> c, make |-> m, n |-> n, end |-> e]
Cases(c, M, N, E) == {Case(c, m, n, e) : m \in M, n \in N, e \in E}
Ends == {"whole", "cut", "more"}
All(small, large, vast) ==
    Cases("decode", Nests, small \cup large \cup vast, Ends)
    \cup Cases("decode", Claims \cup Lists, small \cup large, Ends)
    \cup Cases("decode", Claims \ {"claimarrays"}, {1000000000}, {"whole"})
    \cup Cases("decode", Lists \ {"widetree"}, vast, {"whole"})
    \cup Cases("part", Cbors, small \cup large, {"whole", "cut"})
    \cup Cases("tree", TreeShapes \ {"deep", "left", "right"}, small \cup large, {"whole", "cut"})
    \cup Cases("tree", {"deep", "left", "right"}, small \cup {200, 240, 252}, {"whole", "cut"})
    \cup Cases("url", Urls, small \cup large, {"whole", "cut"})
    \cup Cases("url", {"segments", "directories", "slashes"}, {32000}, {"whole"})
    \cup {[call |-> "url", make |-> m, n |-> n, end |-> "whole", tree |-> t] : m \in {"segments", "directories"}, n \in {1, 99, 100, 101, 20000}, t \in {"deep", "wide"}}
    \cup Cases("cel", CelNests, small \cup large \cup vast, {"whole", "cut"})
    \cup Cases("cel", CelLists, small \cup large, {"whole", "cut"})
    \cup Cases("path", Paths, small \cup large, {"whole", "cut"})
    \cup Cases("header", HeaderTexts, small \cup large, {"whole", "cut"})
    \cup Cases("headers", HeaderLists, small \cup (large \ {20000}), {"whole"})
    \cup Cases("query", {"all"}, small \cup (large \ {20000}), {"whole"})
    \cup Cases("body", {"zeros", "deflated"}, {1200000000}, {"whole"})
    \cup Cases("body", Bodies, small \cup large \cup vast, {"whole", "cut"})

(* The calls of a case that must be "ok" by their place among its words.   *)
(* Nothing is said of nesting deeper than any tree of the Internet         *)
(* Computer, nor of addresses longer than a URL may be.                    *)
Length(m, n) == CASE m \in {"segments", "directories"} -> 2 * n + 1
                  [] m = "percent" -> 3 * n + 1 [] m = "wide" -> 6 * n + 1
                  [] m \in {"long", "slashes"} -> n + 1 [] m = "query" -> 4 * n + 2 [] OTHER -> 100000
MustBeOk(c) ==
    IF c.end # "whole" THEN {}
    ELSE CASE c.call = "decode" /\ c.make \in {"arrays", "maps", "tags"} /\ c.n <= 100 -> {1}
           [] c.call = "decode" /\ c.make \in {"leftforks", "rightforks", "labels"} /\ c.n <= 100 -> {1, 2, 6}
           [] c.call = "decode" /\ c.make = "widetree" -> {1, 2, 6}
           [] c.call = "decode" /\ c.make \in {"widearray", "widemap", "bytes"} -> {1}
           [] c.call = "decode" /\ c.make = "ranges" -> {1, 4}
           [] c.call = "decode" /\ c.make = "texts" -> {1, 5}
           [] c.call = "tree" /\ c.make \in {"wide", "siblings"} -> {1}
           [] c.call = "tree" /\ c.make \in {"left", "right", "deep"} /\ c.n \in 2..200 -> {1}
           [] c.call = "url" /\ Length(c.make, c.n) < 65000 -> {1, 2, 3}
           [] c.call = "cel" /\ c.make \in {"names", "exclusions", "requestnames", "parameters", "spaces", "newlines"} /\ c.n <= 5000 -> {1}
           [] c.call = "headers" /\ c.make # "long" -> {1}
           [] c.call = "query" /\ c.n <= 5000 -> {1}
           [] c.call = "body" -> {1}
           [] OTHER -> {}
Words == {"ok", "rejected"}
Permitted(c, got) ==
    /\ Len(got) > 0
    /\ \A i \in 1..Len(got) : got[i] \in Words
    /\ \A i \in MustBeOk(c) : i <= Len(got) /\ got[i] = "ok"
=============================================================================
