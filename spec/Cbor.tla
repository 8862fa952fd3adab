-------------------------------- MODULE Cbor --------------------------------
(***************************************************************************)
(* The CBOR decoding rules the verifier relies on (RFC 8949, restricted to *)
(* what Internet Computer certificates, trees and lists use).              *)
(*                                                                         *)
(* An item is  <<"int", n, short, arg>>  (n capped; short: one byte of     *)
(* content at most; arg: all eight bytes), <<"neg", arg>> for -1-arg,      *)
(* <<"str", bytes>> (byte and text strings alike), <<"arr", items>>,       *)
(* <<"map", pairs>> with text keys, or <<"err">>.                          *)
(* Tags are skipped; floats, simple values, indefinite lengths and nesting *)
(* beyond MaxDepth are refused.                                            *)
(***************************************************************************)
EXTENDS HashTree

MaxDepth == 256
Huge == 1000000000

RECURSIVE BigEndian(_, _, _)
BigEndian(h, p, n) ==
    IF n = 0 THEN 0
    ELSE LET rest == BigEndian(h, p, n - 1)
         IN IF rest >= 1000000 THEN Huge ELSE rest * 256 + ByteAt(h, p + n - 1)

Eight(h) == SubSeq("0000000000000000", 1, 16 - Len(h)) \o h
(* <<major type, argument, position after the head, short, argument bytes>> or <<>>. *)
HeadAt(h, p) ==
    IF p >= NBytes(h) THEN <<>>
    ELSE LET b == ByteAt(h, p)
             info == b % 32
             w == CASE info < 24 -> 0 [] info = 24 -> 1 [] info = 25 -> 2
                    [] info = 26 -> 4 [] info = 27 -> 8 [] OTHER -> 100
         IN IF w = 100 \/ p + 1 + w > NBytes(h) THEN <<>>
            ELSE <<b \div 32, IF w = 0 THEN info ELSE BigEndian(h, p + 1, w), p + 1 + w, w <= 1,
                   Eight(IF w = 0 THEN ByteHex(info) ELSE Slice(h, p + 1, w))>>

Bad == <<"err", 0>>
(* Results below are <<item, position after it>>; Bad has item "err". *)
RECURSIVE ItemAt(_, _, _), ItemsAt(_, _, _, _, _), PairsAt(_, _, _, _, _)
ItemAt(h, p, d) ==
    IF d > MaxDepth THEN <<<<"err">>, 0>>
    ELSE LET hd == HeadAt(h, p)
         IN IF hd = <<>> THEN <<<<"err">>, 0>>
            ELSE LET m == hd[1]  n == hd[2]  q == hd[3]
                 IN CASE m = 0 -> <<<<"int", n, hd[4], hd[5]>>, q>>
                      [] m = 1 -> IF HexVal(Char(hd[5], 1)) >= 8 THEN <<<<"err">>, 0>>  \* below -2^63
                                  ELSE <<<<"neg", hd[5]>>, q>>
                      [] m \in {2, 3} -> IF n > NBytes(h) - q THEN <<<<"err">>, 0>>
                                         ELSE <<<<"str", Slice(h, q, n)>>, q + n>>
                      [] m = 4 -> IF n > NBytes(h) - q THEN <<<<"err">>, 0>>
                                  ELSE ItemsAt(h, q, d + 1, n, <<>>)
                      [] m = 5 -> IF n > NBytes(h) - q THEN <<<<"err">>, 0>>
                                  ELSE PairsAt(h, q, d + 1, n, <<>>)
                      [] m = 6 -> ItemAt(h, q, d + 1)
                      [] OTHER -> <<<<"err">>, 0>>
ItemsAt(h, p, d, n, acc) ==
    IF n = 0 THEN <<<<"arr", acc>>, p>>
    ELSE LET x == ItemAt(h, p, d)
         IN IF x[1][1] = "err" THEN x ELSE ItemsAt(h, x[2], d, n - 1, Append(acc, x[1]))
PairsAt(h, p, d, n, acc) ==
    IF n = 0 THEN <<<<"map", acc>>, p>>
    ELSE LET k == ItemAt(h, p, d)
         IN IF k[1][1] # "str" \/ ~IsUtf8(k[1][2]) THEN <<<<"err">>, 0>>
            ELSE LET v == ItemAt(h, k[2], d)
                 IN IF v[1][1] = "err" THEN v
                    ELSE PairsAt(h, v[2], d, n - 1, Append(acc, <<k[1][2], v[1]>>))

(* The single item a byte string encodes. *)
Decode(h) == LET x == ItemAt(h, 0, 0)
             IN IF x[1][1] # "err" /\ x[2] = NBytes(h) THEN x[1] ELSE <<"err">>

(* The value of a key of a map item (the last one, if it is repeated). *)
MapGet(m, key) ==
    LET at == {i \in 1..Len(m[2]) : m[2][i][1] = Utf8(key)}
    IN IF at = {} THEN <<"none">> ELSE m[2][CHOOSE i \in at : \A j \in at : j <= i][2]

(***************************************************************************)
(* Hash trees, certificates, principal ranges and string lists.            *)
(***************************************************************************)
RECURSIVE TreeOf(_)
(* The hash tree an item encodes, or <<"err">>. *)
TreeOf(x) ==
    IF x[1] # "arr" \/ x[2] = <<>> THEN <<"err">>
    ELSE LET a == x[2]
             tag == a[1]
             n == Len(a)
             isTag(k) == tag[1] = "int" /\ tag[3] /\ tag[2] = k
         IN CASE isTag(0) /\ n = 1 -> Empty
              [] isTag(1) /\ n = 3 ->
                    LET l == TreeOf(a[2]) r == TreeOf(a[3])
                    IN IF l[1] = "err" \/ r[1] = "err" THEN <<"err">> ELSE Fork(l, r)
              [] isTag(2) /\ n = 3 ->
                    LET t == TreeOf(a[3])
                    IN IF a[2][1] # "str" \/ t[1] = "err" THEN <<"err">> ELSE Labeled(a[2][2], t)
              [] isTag(3) /\ n = 2 -> IF a[2][1] = "str" THEN Leaf(a[2][2]) ELSE <<"err">>
              [] isTag(4) /\ n = 2 ->
                    IF a[2][1] = "str" /\ NBytes(a[2][2]) = 32 THEN Pruned(a[2][2]) ELSE <<"err">>
              [] OTHER -> <<"err">>
DecodeTree(h) == TreeOf(Decode(h))

(* <<"ok", tree, signature, delegation>>, the delegation <<>> or           *)
(* <<subnet, certificate>>; or <<"err">>.                                  *)
DecodeCertificate(h) ==
    LET m == Decode(h)
    IN IF m[1] # "map" THEN <<"err">>
       ELSE LET t == MapGet(m, "tree") s == MapGet(m, "signature") d == MapGet(m, "delegation")
                tree == IF t[1] = "none" THEN <<"err">> ELSE TreeOf(t)
            IN IF tree[1] = "err" \/ s[1] # "str" THEN <<"err">>
               ELSE IF d[1] = "none" THEN <<"ok", tree, s[2], <<>>>>
               ELSE IF d[1] # "map" THEN <<"err">>
               ELSE LET i == MapGet(d, "subnet_id") c == MapGet(d, "certificate")
                    IN IF i[1] # "str" \/ c[1] # "str" THEN <<"err">>
                       ELSE <<"ok", tree, s[2], <<i[2], c[2]>>>>

IsPrincipal(b) == NBytes(b) <= 29
(* <<"ok", seq of <<first, last>>>> or <<"err">>. *)
DecodeRanges(h) ==
    LET a == Decode(h)
        good(r) == /\ r[1] = "arr" /\ Len(r[2]) = 2
                   /\ r[2][1][1] = "str" /\ r[2][2][1] = "str"
                   /\ IsPrincipal(r[2][1][2]) /\ IsPrincipal(r[2][2][2])
    IN IF a[1] # "arr" THEN <<"err">>
       ELSE IF \E i \in 1..Len(a[2]) : ~good(a[2][i]) THEN <<"err">>
       ELSE <<"ok", [i \in 1..Len(a[2]) |-> <<a[2][i][2][1][2], a[2][i][2][2][2]>>]>>

(* <<"ok", seq of texts as UTF-8 bytes>> or <<"err">>. *)
DecodeStrings(h) ==
    LET a == Decode(h)
    IN IF a[1] # "arr" THEN <<"err">>
       ELSE IF \E i \in 1..Len(a[2]) : a[2][i][1] # "str" \/ ~IsUtf8(a[2][i][2]) THEN <<"err">>
       ELSE <<"ok", [i \in 1..Len(a[2]) |-> a[2][i][2]]>>

(***************************************************************************)
(* Encoding.                                                               *)
(***************************************************************************)
EncHead(m, n) ==
    IF n < 24 THEN ByteHex((32 * m) + n)
    ELSE IF n < 256 THEN ByteHex((32 * m) + 24) \o ByteHex(n)
    ELSE IF n < 65536 THEN ByteHex((32 * m) + 25) \o ByteHex(n \div 256) \o ByteHex(n % 256)
    ELSE ByteHex((32 * m) + 26) \o ByteHex(n \div 16777216) \o ByteHex((n \div 65536) % 256)
         \o ByteHex((n \div 256) % 256) \o ByteHex(n % 256)
EncBytes(b) == EncHead(2, NBytes(b)) \o b
EncText(b) == EncHead(3, NBytes(b)) \o b
RECURSIVE EncodeTree(_)
EncodeTree(t) ==
    CASE t[1] = "e" -> "8100"
      [] t[1] = "f" -> "8301" \o EncodeTree(t[2]) \o EncodeTree(t[3])
      [] t[1] = "l" -> "8302" \o EncBytes(t[2]) \o EncodeTree(t[3])
      [] t[1] = "v" -> "8203" \o EncBytes(t[2])
      [] t[1] = "p" -> "8204" \o EncBytes(t[2])
(* deleg: <<>> or <<subnet id, encoded certificate>> *)
EncodeCertificate(tree, sig, deleg) ==
    EncHead(5, IF deleg = <<>> THEN 2 ELSE 3)
    \o EncText(Utf8("tree")) \o EncodeTree(tree)
    \o EncText(Utf8("signature")) \o EncBytes(sig)
    \o (IF deleg = <<>> THEN ""
        ELSE EncText(Utf8("delegation")) \o EncHead(5, 2)
             \o EncText(Utf8("subnet_id")) \o EncBytes(deleg[1])
             \o EncText(Utf8("certificate")) \o EncBytes(deleg[2]))
EncodeRanges(rs) ==
    EncHead(4, Len(rs))
    \o ConcatAll([i \in 1..Len(rs) |-> "82" \o EncBytes(rs[i][1]) \o EncBytes(rs[i][2])])
EncodeStrings(ss) == EncHead(4, Len(ss)) \o ConcatAll([i \in 1..Len(ss) |-> EncText(ss[i])])
(* Byte strings as other encoders write them: arrays of small numbers. *)
IsBytes(x) == x[1] = "str" \/ (x[1] = "arr" /\ \A i \in 1..Len(x[2]) : x[2][i][1] = "int" /\ x[2][i][2] < 256)
BytesOf(x) == IF x[1] = "str" THEN x[2] ELSE OfBytes([i \in 1..Len(x[2]) |-> x[2][i][2]])
RECURSIVE LooseTree(_)
(* What an item can at most be taken for: the tree or certificate it would *)
(* be if it used byte strings and short numbers and maps.                  *)
LooseTree(x) ==
    IF x[1] # "arr" \/ x[2] = <<>> THEN <<"err">>
    ELSE LET a == x[2]
             n == Len(a)
             isTag(k) == a[1][1] = "int" /\ a[1][2] = k
         IN CASE isTag(0) /\ n = 1 -> Empty
              [] isTag(1) /\ n = 3 ->
                    LET l == LooseTree(a[2]) r == LooseTree(a[3])
                    IN IF l[1] = "err" \/ r[1] = "err" THEN <<"err">> ELSE Fork(l, r)
              [] isTag(2) /\ n = 3 ->
                    LET t == LooseTree(a[3])
                    IN IF ~IsBytes(a[2]) \/ t[1] = "err" THEN <<"err">> ELSE Labeled(BytesOf(a[2]), t)
              [] isTag(3) /\ n = 2 -> IF IsBytes(a[2]) THEN Leaf(BytesOf(a[2])) ELSE <<"err">>
              [] isTag(4) /\ n = 2 ->
                    IF IsBytes(a[2]) /\ NBytes(BytesOf(a[2])) = 32 THEN Pruned(BytesOf(a[2])) ELSE <<"err">>
              [] OTHER -> <<"err">>
(* The members of a map or array by name or place; <<"none">> if missing. *)
Member(x, key, i) == IF x[1] = "map" THEN MapGet(x, key) ELSE IF i <= Len(x[2]) THEN x[2][i] ELSE <<"none">>
LooseCertificate(m) ==
    IF m[1] \notin {"map", "arr"} THEN <<"err">>
    ELSE LET t == Member(m, "tree", 1) s == Member(m, "signature", 2) d == Member(m, "delegation", 3)
             tree == IF t[1] = "none" THEN <<"err">> ELSE LooseTree(t)
         IN IF tree[1] = "err" \/ ~IsBytes(s) THEN <<"err">>
            ELSE IF d[1] = "none" THEN <<"ok", tree, BytesOf(s), <<>>>>
            ELSE IF d[1] \notin {"map", "arr"} THEN <<"err">>
            ELSE LET i == Member(d, "subnet_id", 1) c == Member(d, "certificate", 2)
                 IN IF ~IsBytes(i) \/ ~IsBytes(c) THEN <<"err">>
                    ELSE <<"ok", tree, BytesOf(s), <<BytesOf(i), BytesOf(c)>>>>
=============================================================================
