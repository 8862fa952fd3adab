------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The IC-Certificate header:  name=:base64:, name=value, ...              *)
(***************************************************************************)
EXTENDS Cbor

Rest(s, i) == SubSeq(s, i, Len(s))
(* Index of the first c, or 0. *)
IndexOf(s, c) == LET parts == SplitOn(s, c) IN IF Len(parts) = 1 THEN 0 ELSE Len(parts[1]) + 1

(* <<name, value>>, or <<>> for a field that is ignored. *)
FieldOf(text) ==
    LET f == Trim(text)
        e == IndexOf(f, "=")
        v == Rest(f, e + 1)
        w == IF v # "" /\ Char(v, 1) = ":" THEN Rest(v, 2) ELSE v
        c == IndexOf(w, ":")
        value == IF c = 0 THEN w ELSE SubSeq(w, 1, c - 1)
    IN IF e <= 1 THEN <<>>
       ELSE IF c # 0 /\ c # Len(w) THEN <<>>
       ELSE IF value = "" THEN <<>>
       ELSE <<SubSeq(f, 1, e - 1), value>>

Fields(text) ==
    LET parts == SplitOn(text, ",")
        all == [i \in 1..Len(parts) |-> FieldOf(parts[i])]
    IN SelectSeq(all, LAMBDA f : f # <<>>)

(* The value of the first field with the given name, <<>> if there is none. *)
FirstField(fs, name) ==
    LET at == {i \in 1..Len(fs) : fs[i][1] = name}
    IN IF at = {} THEN <<>> ELSE <<fs[CHOOSE i \in at : \A j \in at : i <= j][2]>>

RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (Char(s, 1) \in {"0","1","2","3","4","5","6","7","8","9"} /\ AllDigits(Rest(s, 2)))
(* An unsigned 8-bit number, in decimal: <<"ok", number>> or <<"err">>. *)
ParseU8(s) ==
    LET d == IF s # "" /\ Char(s, 1) = "+" THEN Rest(s, 2) ELSE s
    IN IF d = "" \/ ~AllDigits(d) THEN <<"err">>
       ELSE LET n == StripZeros(d) IN IF DecLeq(n, "255") THEN <<"ok", n>> ELSE <<"err">>

(* <<"ok", [cert, tree, version, path]>> (path <<>> if absent) or <<"err">> *)
ParseHeader(text) ==
    LET fs == Fields(text)
        c == FirstField(fs, "certificate")
        t == FirstField(fs, "tree")
        v == FirstField(fs, "version")
        p == FirstField(fs, "expr_path")
        Decoded(x, Dec(_)) == LET b == Base64(x) IN IF b[1] = "err" THEN <<"err">> ELSE Dec(b[2])
        cert == Decoded(c[1], DecodeCertificate)
        tree == Decoded(t[1], DecodeTree)
        version == IF v = <<>> THEN <<"ok", "1">> ELSE ParseU8(v[1])
        path == IF p = <<>> THEN <<"ok", <<>>>> ELSE Decoded(p[1], DecodeStrings)
    IN IF c = <<>> \/ t = <<>> THEN <<"err">>
       ELSE IF cert[1] = "err" \/ tree[1] = "err" \/ version[1] = "err" \/ path[1] = "err" THEN <<"err">>
       ELSE <<"ok", [cert |-> <<cert[2], cert[3], cert[4]>>, tree |-> tree, version |-> version[2],
                     path |-> IF p = <<>> THEN <<>> ELSE <<path[2]>>]>>

(***************************************************************************)
(* A header map: the value of a name, compared case-insensitively; the     *)
(* last of repeated headers.  <<>> if there is none.                       *)
(***************************************************************************)
HeaderValue(hs, name) ==
    LET at == {i \in 1..Len(hs) : Lower(hs[i][1]) = name}
    IN IF at = {} THEN <<>> ELSE <<hs[CHOOSE i \in at : \A j \in at : j <= i][2]>>
=============================================================================
