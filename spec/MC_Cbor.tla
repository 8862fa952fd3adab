------------------------------- MODULE MC_Cbor ------------------------------
(***************************************************************************)
(* C28 on the specification: every small tree, certificate, list of        *)
(* ranges and list of texts is read back from its encoding as it was, and  *)
(* nothing is read from a part of an encoding, from more than one, or from *)
(* the encoding of something else.                                         *)
(***************************************************************************)
EXTENDS Cbor, FiniteSets, SequencesExt, TLC
CONSTANTS Deep, MaxLen
VARIABLES g, x

Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
D32 == ConcatAll([i \in 1..32 |-> "ab"])
Bs == {"", "00", "83"}
RECURSIVE TreesTo(_)
TreesTo(d) ==
    LET T0 == {Empty, Pruned(D32)} \cup {Leaf(b) : b \in Bs}
    IN IF d = 0 THEN T0
       ELSE LET T == TreesTo(d - 1)
            IN T0 \cup {Labeled(b, t) : b \in Bs, t \in T} \cup {Fork(a, b) : a \in T, b \in T}
Long == ConcatAll([i \in 1..29 |-> "01"])
Principals == {"", "00", Long}
Texts == {"", "61", "3c243e"}
Values ==
    {<<"tree", t>> : t \in TreesTo(Deep)}
    \cup {<<"cert", <<"ok", t, s, d>>>> : t \in TreesTo(1), s \in Bs, d \in {<<>>, <<"", "">>, <<"00", "a0">>}}
    \cup {<<"ranges", <<"ok", r>>>> : r \in Upto(Principals \X Principals, 2)}
    \cup {<<"strings", <<"ok", r>>>> : r \in Upto(Texts, MaxLen)}

Enc(v) == CASE v[1] = "tree" -> EncodeTree(v[2])
            [] v[1] = "cert" -> EncodeCertificate(v[2][2], v[2][3], v[2][4])
            [] v[1] = "ranges" -> EncodeRanges(v[2][2])
            [] v[1] = "strings" -> EncodeStrings(v[2][2])
All(b) == {<<"tree", DecodeTree(b)>>, <<"cert", DecodeCertificate(b)>>, <<"ranges", DecodeRanges(b)>>, <<"strings", DecodeStrings(b)>>}
Read(b) == {v \in All(b) : v[2][1] # "err"}

(* (in groups, so that TLC's workers share them) *)
Groups == 64
Listed == SetToSeq(Values)
Init == g \in 1..Groups /\ x = <<"strings", <<"ok", <<>>>>>>
Next == g > 0 /\ g' = 0 /\ x' \in {Listed[i] : i \in {i \in 1..Len(Listed) : i % Groups = g - 1}}
Spec == Init /\ [][Next]_<<g, x>>
(* The empty list is a list of ranges and of texts, and <<[3, "..."]>> is  *)
(* no list of texts; nothing else can be taken for two things.             *)
RoundTrip == /\ x \in Read(Enc(x))
             /\ Cardinality(Read(Enc(x))) > 1 => Enc(x) = "80"
NoPart == \A k \in 0..(NBytes(Enc(x)) - 1) : Read(Slice(Enc(x), 0, k)) = {}
NoMore == \A b \in {"00", "80", "f6", "ff"} : Read(Enc(x) \o b) = {} /\ Read(Enc(x) \o Enc(x)) = {}
Loosely == x[1] = "tree" => LooseTree(Decode(Enc(x))) = x[2]
=============================================================================
