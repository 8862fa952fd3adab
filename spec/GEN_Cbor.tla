------------------------------ MODULE GEN_Cbor ------------------------------
(***************************************************************************)
(* Byte strings for the decoders: arrays and maps of every kind of member  *)
(* in every place, with more and fewer members than the head says.         *)
(***************************************************************************)
EXTENDS Cbor, TLC, Json, CSV, IOUtils
CONSTANTS Kind, Max
VARIABLE x

Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
H32 == "5820" \o ConcatAll([i \in 1..32 |-> "cd"])
H31 == "581f" \o ConcatAll([i \in 1..31 |-> "cd"])
Heads(m, n) == {EncHead(m, k) : k \in {n, n + 1} \cup (IF n > 0 THEN {n - 1} ELSE {})}

Tokens == {"00", "01", "02", "03", "04", "1801", "190000", "20", "3bffffffffffffffff", "40", "4161", "60", "6162", "61ff", "80", "81", "82", "83",
           "a0", "a1", "c1", "d9d9f7", "f6", "9f", "ff", "1c", "5b00000000000000ff", "9b7fffffffffffffff", "bb00000000ffffffff"}
Members == {"00", "01", "02", "03", "04", "1800", "190003", "05", "40", "4161", "6161", "8100", "820340", "83024161" \o "8100", H32, H31, "a0", "20", "f6"}
Pairs == {EncText(Utf8(k)) \o v :
            k \in {"tree", "signature", "delegation", "Tree", ""},
            v \in {"8100", "820340", "40", "4161", "6161", "a0", "80", "f6", "8141" \o "61",
                   "a2" \o EncText(Utf8("subnet_id")) \o "4101" \o EncText(Utf8("certificate")) \o "4102",
                   "a2" \o EncText(Utf8("subnet_id")) \o "4101" \o EncText(Utf8("certificate")) \o "8102",
                   "a1" \o EncText(Utf8("subnet_id")) \o "4101", "a1" \o EncText(Utf8("certificate")) \o "4102", "824101" \o "4102"}}
Ends == {"40", "4161", "58" \o "1d" \o ConcatAll([i \in 1..29 |-> "07"]), "58" \o "1e" \o ConcatAll([i \in 1..30 |-> "07"]), "6161", "00", "80"}
Range == {h \o ConcatAll(e) : h \in {"80", "81", "82", "83"}, e \in Upto(Ends, 3)}

Seqs(S) == UNION {[1..k -> S] : k \in 0..Max}
Init ==
    CASE Kind = "tokens" -> \E s \in Seqs(Tokens) : x = ConcatAll(s)
      [] Kind = "nodes" -> \E s \in Seqs(Members) : \E h \in Heads(4, Len(s)) : x = h \o ConcatAll(s)
      [] Kind = "maps" -> \E s \in Seqs(Pairs) : \E h \in Heads(5, Len(s)) : x = h \o ConcatAll(s)
      [] Kind = "ranges" -> \E r \in Range : x \in {r, "81" \o r, "82" \o "824161" \o "4162" \o r}
Spec == Init /\ [][FALSE]_x
Emit == CSVWrite("%1$s", <<ToJson([bytes |-> x])>>, IOEnv.VH_OUT)
=============================================================================
