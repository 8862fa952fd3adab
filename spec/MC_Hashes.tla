------------------------------ MODULE MC_Hashes -----------------------------
(***************************************************************************)
(* The hashes of the specification distinguish exactly what they should:   *)
(* over small universes of maps, requests and responses, and for every     *)
(* choice of what is certified, two of them have the same hash if and only *)
(* if their certified parts are the same.                                  *)
(***************************************************************************)
EXTENDS Rih, FiniteSets, TLC
CONSTANTS MaxHeaders, Kind
VARIABLE what

Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Exact(U, HashIt(_), Essence(_)) ==
    LET T == {<<Essence(u), HashIt(u)>> : u \in U}
    IN /\ Cardinality({t[1] : t \in T}) = Cardinality(T)
       /\ Cardinality({t[2] : t \in T}) = Cardinality(T)

Names == {"a", "A", "b", "ab"}
Fields == {<<"a", "1">>, <<"A", "1">>, <<"a", "b1">>, <<"ab", "1">>, <<"b", "2">>}
Urls == {"/x", "/x?", "/x?q=1", "/x?Q=1", "/x?q=1&r=2", "/x?r=2&q=1", "/y?q=1", "/x?q=1&q=1", "/x?qq=1", "/x?r=2#q=1", "/x?q=1%26r=2"}
Bodies == {"", "61"}

Requests == {[method |-> m, url |-> u, headers |-> h, body |-> b] :
               m \in {"GET", "POST"}, u \in Urls, h \in Upto(Fields, MaxHeaders), b \in Bodies}
(* what the certification of a request is about, written without hashes *)
KeptFields(hs, Keep(_)) ==
    LET k == SelectSeq(hs, LAMBDA h : Keep(h[1])) IN Bag([i \in 1..Len(k) |-> <<Lower(k[i][1]), k[i][2]>>])
QueryEssence(u, ps) ==
    LET q == QueryOf(Utf8(u))[2]
    IN IF q = <<>> THEN <<>>
       ELSE SelectSeq(HexSplit(q[1], "26"), LAMBDA f : \E i \in 1..Len(ps) : HexSplit(f, "3d")[1] \in {Utf8(Lower(ps[i])), Utf8("Q")} /\ (HexSplit(f, "3d")[1] = Utf8("Q") => Lower(ps[i]) = "q"))
RequestEssence(r, hs, ps) ==
    LET q == QueryOf(Utf8(r.url))[2]
    IN <<r.method, KeptFields(r.headers, LAMBDA n : \E i \in 1..Len(hs) : Lower(hs[i]) = Lower(n)),
         q = <<>>, QueryEssence(r.url, ps), r.body>>

Responses == {[status |-> s, headers |-> h, body |-> b] :
                s \in {"200", "404", "1"}, h \in Upto(Fields \cup {<<"IC-CertificateExpression", "1">>, <<"IC-Certificate", "1">>}, MaxHeaders), b \in Bodies}
ResponseEssence(r, rc) ==
    <<r.status, KeptFields(r.headers, LAMBDA n :
         LET x == Lower(n)
             in == \E i \in 1..Len(rc[2]) : Lower(rc[2][i]) = x
         IN x # "ic-certificate" /\ (x = "ic-certificateexpression" \/ in = (rc[1] = "certified"))), r.body>>

(* maps in which the key settles the type of the value *)
MapEntries == {<<"", <<"s", "">>>>, <<"", <<"s", "61">>>>, <<"61", <<"n", "0">>>>, <<"61", <<"n", "128">>>>,
               <<"62", <<"a", <<>>>>>>, <<"62", <<"a", <<<<"a", <<>>>>>>>>>>, <<"62", <<"a", <<<<"s", "61">>, <<"s", "62">>>>>>>>,
               <<"62", <<"a", <<<<"s", "62">>, <<"s", "61">>>>>>>>, <<"6161", <<"s", "61">>>>}

Init == \/ Kind = "request" /\ what \in {<<"request", hs, ps>> : hs \in {<<>>, <<"a">>, <<"A", "b">>, <<"ab">>}, ps \in {<<>>, <<"q">>, <<"Q">>, <<"r">>, <<"q", "r">>}}
        \/ Kind = "response" /\ what \in {<<"response", <<k, hs>>>> : k \in {"certified", "excluded"}, hs \in {<<>>, <<"a">>, <<"A", "b">>, <<"ab">>, <<"IC-Certificate">>, <<"IC-CertificateExpression", "a">>}}
        \/ Kind = "map" /\ what = <<"map">>
Spec == Init /\ [][FALSE]_what
Faithful ==
    CASE what[1] = "request" -> Exact(Requests, LAMBDA r : RequestHash(r, what[2], what[3]), LAMBDA r : RequestEssence(r, what[2], what[3]))
      [] what[1] = "response" -> Exact(Responses, LAMBDA r : ResponseHash(r, what[2]), LAMBDA r : ResponseEssence(r, what[2]))
      [] OTHER -> Exact(Upto(MapEntries, 3), LAMBDA m : RihOf(m), LAMBDA m : Bag(m))
=============================================================================
