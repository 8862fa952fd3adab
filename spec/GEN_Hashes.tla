------------------------------ MODULE GEN_Hashes ----------------------------
(***************************************************************************)
(* Enumerations of small maps, requests and responses to hash.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Kind, Max
VARIABLE x

Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
Values == {<<"s", "">>, <<"s", "61">>, <<"b", "ff">>, <<"n", "0">>, <<"n", "127">>, <<"n", "128">>, <<"n", "18446744073709551615">>,
           <<"a", <<>>>>, <<"a", <<<<"s", "61">>, <<"n", "1">>>>>>, <<"a", <<<<"n", "1">>, <<"s", "61">>>>>>, <<"a", <<<<"a", <<>>>>>>>>}
Entries == {<<k, v>> : k \in {"", "61", "6161"}, v \in Values}

Fields == {<<"a", "1">>, <<"A", "1">>, <<"b", "2">>, <<"ab", "">>, <<"a", "">>}
Queries == {"", "?", "?q=1", "?q=1&r=2", "?r=2&q=1", "?Q=1", "?q", "?q=1&q=1", "?q=1&", "?&q", "?qq=1", "?r=q=1", "?q=1#r=2", "#q=1", "?q%3D=1", "??q=1", "?a%20b=1&q=1"}
Certified == {<<>>, <<"a">>, <<"A", "b">>, <<"ab", "a">>}
Params == {<<>>, <<"q">>, <<"Q">>, <<"r", "q">>, <<"">>, <<"?q">>, <<"a b">>, <<"a%20b">>}

Special == {<<"IC-CertificateExpression", "e">>, <<"ic-certificateexpression", "f">>, <<"IC-Certificate", "c">>, <<"ic-certificatE", "d">>, <<"x", "1">>, <<"X", "2">>, <<"y", "1">>}
Lists == {<<>>, <<"x">>, <<"X", "y">>, <<"IC-Certificate">>, <<"ic-certificateexpression", "y">>}

Init ==
    \/ Kind = "map" /\ x \in {[map |-> m] : m \in Upto(Entries, Max)}
    \/ Kind = "request" /\ x \in {[method |-> m, url |-> u \o q, headers |-> h, body |-> b, certified |-> c, params |-> p] :
            m \in {"GET", "POST"}, u \in {"/", "https://h/p"}, q \in Queries, h \in Upto(Fields, Max), b \in {""}, c \in Certified, p \in Params}
    \/ Kind = "response" /\ x \in {[status |-> s, headers |-> h, body |-> b, rc |-> <<k, c>>] :
            s \in {200, 999}, h \in Upto(Special, Max), b \in {"", "b"}, k \in {"certified", "excluded"}, c \in Lists}
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.VH_OUT)
=============================================================================
