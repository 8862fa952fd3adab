-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Byte strings and the few primitives the specification takes as given.   *)
(*                                                                         *)
(* A byte string is a TLA+ string of lower-case hexadecimal digits, two    *)
(* per byte, so that byte-wise lexicographic order, concatenation and      *)
(* equality are string order, \o and =.  Text is an ordinary TLA+ string.  *)
(*                                                                         *)
(* Every operator is defined here in TLA+.  java/Prim.java gives TLC a     *)
(* faster equivalent of the purely computational ones, and the real        *)
(* SHA-256 in place of the symbolic, injective one below: with the class   *)
(* on TLC's class path a trace recorded from the code is checked against   *)
(* exact hashes; without it the same modules are model-checked with        *)
(* idealised, collision-free hashes.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

(* Symbolic, injective stand-in for SHA-256 on a hexadecimal string. *)
Sha256(h) == "<" \o h \o ">"

Char(s, i) == SubSeq(s, i, i)

HexDigits == "0123456789abcdef"
HexVal(c) == (CHOOSE i \in 1..16 : Char(HexDigits, i) = c) - 1
HexOf(n) == Char(HexDigits, n + 1)                  (* 0 <= n < 16  *)
ByteHex(n) == HexOf(n \div 16) \o HexOf(n % 16)     (* 0 <= n < 256 *)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode(c) == (CHOOSE i \in 1..Len(Ascii) : Char(Ascii, i) = c) + 31

RECURSIVE Utf8(_)
(* The UTF-8 bytes of a text (printable ASCII here; all of Unicode in Java). *)
Utf8(s) == IF s = "" THEN ""
           ELSE ByteHex(CharCode(Char(s, 1))) \o Utf8(SubSeq(s, 2, Len(s)))

RECURSIVE Lower(_)
(* ASCII lower case of a text. *)
Lower(s) ==
    IF s = "" THEN ""
    ELSE LET c == Char(s, 1)
             up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
             lo == "abcdefghijklmnopqrstuvwxyz"
             i == {k \in 1..26 : Char(up, k) = c}
         IN (IF i = {} THEN c ELSE Char(lo, CHOOSE k \in i : TRUE))
            \o Lower(SubSeq(s, 2, Len(s)))

RECURSIVE HexLess(_, _)
(* Lexicographic order of byte strings. *)
HexLess(a, b) ==
    IF b = "" THEN FALSE
    ELSE IF a = "" THEN TRUE
    ELSE IF Char(a, 1) = Char(b, 1)
         THEN HexLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
         ELSE HexVal(Char(a, 1)) < HexVal(Char(b, 1))

HexLeq(a, b) == a = b \/ HexLess(a, b)

RECURSIVE SplitOn(_, _)
(* The pieces of text s between the occurrences of the one-character text d. *)
SplitOn(s, d) ==
    LET hits == {i \in 1..Len(s) : Char(s, i) = d}
    IN IF hits = {} THEN <<s>>
       ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
            IN <<SubSeq(s, 1, i - 1)>> \o SplitOn(SubSeq(s, i + 1, Len(s)), d)

RECURSIVE HexSplit(_, _)
(* The pieces of byte string h between the occurrences of the byte d. *)
HexSplit(h, d) ==
    LET n == Len(h) \div 2
        hits == {i \in 1..n : SubSeq(h, 2*i - 1, 2*i) = d}
    IN IF hits = {} THEN <<h>>
       ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
            IN <<SubSeq(h, 1, 2*i - 2)>> \o HexSplit(SubSeq(h, 2*i + 1, 2*n), d)

RECURSIVE SortHex(_)
(* A sequence of byte strings in lexicographic order. *)
SortHex(s) ==
    IF Len(s) <= 1 THEN s
    ELSE LET p == s[1]
             r == SubSeq(s, 2, Len(s))
             lo == SelectSeq(r, LAMBDA x : HexLess(x, p))
             hi == SelectSeq(r, LAMBDA x : ~HexLess(x, p))
         IN SortHex(lo) \o <<p>> \o SortHex(hi)

RECURSIVE ConcatAll(_)
ConcatAll(s) == IF s = <<>> THEN "" ELSE Head(s) \o ConcatAll(Tail(s))

RECURSIVE JoinWith(_, _)
JoinWith(s, d) == IF s = <<>> THEN ""
                  ELSE IF Len(s) = 1 THEN s[1]
                  ELSE s[1] \o d \o JoinWith(Tail(s), d)

RECURSIVE DecLeq(_, _)
(* Order of natural numbers written in decimal without leading zeros: the  *)
(* 64- and 128-bit quantities of the protocol exceed TLC's integers.       *)
DecLeq(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE IF a = b THEN TRUE
    ELSE IF Char(a, 1) = Char(b, 1)
         THEN DecLeq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
         ELSE CharCode(Char(a, 1)) < CharCode(Char(b, 1))

StripZeros(s) ==
    LET nz == {i \in 1..Len(s) : Char(s, i) # "0"}
    IN IF nz = {} THEN "0"
       ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))

RECURSIVE DecAddC(_, _, _)
DecAddC(a, b, c) ==
    IF a = "" /\ b = "" THEN (IF c = 0 THEN "" ELSE "1")
    ELSE LET da == IF a = "" THEN 0 ELSE CharCode(Char(a, Len(a))) - 48
             db == IF b = "" THEN 0 ELSE CharCode(Char(b, Len(b))) - 48
             s  == da + db + c
             ra == IF a = "" THEN "" ELSE SubSeq(a, 1, Len(a) - 1)
             rb == IF b = "" THEN "" ELSE SubSeq(b, 1, Len(b) - 1)
         IN DecAddC(ra, rb, s \div 10) \o Char(HexDigits, (s % 10) + 1)
(* Sum of two natural numbers written in decimal. *)
DecAdd(a, b) == StripZeros(DecAddC(a, b, 0))

RECURSIVE DecDivMod(_, _, _, _)
DecDivMod(a, d, q, r) ==
    IF a = "" THEN <<StripZeros(IF q = "" THEN "0" ELSE q), r>>
    ELSE LET x == 10 * r + (CharCode(Char(a, 1)) - 48)
         IN DecDivMod(SubSeq(a, 2, Len(a)), d,
                      q \o Char(HexDigits, (x \div d) + 1), x % d)

RECURSIVE Leb128(_)
(* Unsigned LEB128 bytes of a natural number written in decimal. *)
Leb128(n) ==
    LET qr == DecDivMod(n, 128, "", 0)
        q == qr[1]
        r == qr[2]
    IN IF q = "0" THEN ByteHex(r) ELSE ByteHex(r + 128) \o Leb128(q)

RECURSIVE LebScan(_, _)
(* Position (in bytes) of the last byte of the first LEB128 number of h. *)
LebScan(h, k) ==
    IF Len(h) < 2 * k THEN 0
    ELSE IF HexVal(Char(h, 2*k - 1)) < 8 THEN k ELSE LebScan(h, k + 1)
Double(n) == DecAdd(n, n)
Times128(n) == Double(Double(Double(Double(Double(Double(Double(n)))))))
RECURSIVE LebValue(_)
LebValue(h) ==
    IF h = "" THEN "0"
    ELSE LET b == 16 * HexVal(Char(h, 1)) + HexVal(Char(h, 2))
             low == b % 128
             dec == IF low < 10 THEN Char(HexDigits, low + 1)
                    ELSE IF low < 100 THEN Char(HexDigits, (low \div 10) + 1) \o Char(HexDigits, (low % 10) + 1)
                    ELSE "1" \o Char(HexDigits, ((low - 100) \div 10) + 1) \o Char(HexDigits, (low % 10) + 1)
         IN DecAdd(dec, Times128(LebValue(SubSeq(h, 3, Len(h)))))
(* The unsigned 64-bit number that the byte string starts with in LEB128,  *)
(* in decimal; "" if there is none.                                        *)
LebDecode(h) ==
    LET k == LebScan(h, 1)
        v == LebValue(SubSeq(h, 1, 2 * k))
    IN IF k = 0 \/ k > 10 THEN ""
       ELSE IF DecLeq(v, "18446744073709551615") THEN v ELSE ""

(* The characters of a text. *)
Chars(s) == [i \in 1..Len(s) |-> Char(s, i)]

RECURSIVE PercentDecode(_)
(* Percent decoding of a byte string: % followed by two hexadecimal digits *)
(* stands for the byte they name; anything else stands for itself.         *)
IsHexDigitByte(b) == b \in {"30","31","32","33","34","35","36","37","38","39",
                            "41","42","43","44","45","46","61","62","63","64","65","66"}
HexDigitByteVal(b) ==
    LET hi == HexVal(Char(b, 1)) lo == HexVal(Char(b, 2))
    IN IF hi = 3 THEN lo ELSE lo + 9
PercentDecode(h) ==
    IF h = "" THEN ""
    ELSE IF SubSeq(h, 1, 2) = "25" /\ Len(h) >= 6
            /\ IsHexDigitByte(SubSeq(h, 3, 4)) /\ IsHexDigitByte(SubSeq(h, 5, 6))
    THEN ByteHex(16 * HexDigitByteVal(SubSeq(h, 3, 4)) + HexDigitByteVal(SubSeq(h, 5, 6)))
         \o PercentDecode(SubSeq(h, 7, Len(h)))
    ELSE SubSeq(h, 1, 2) \o PercentDecode(SubSeq(h, 3, Len(h)))

(* Whether a byte string is well-formed UTF-8 (ASCII here; exact in Java). *)
IsUtf8(h) == \A i \in 1..(Len(h) \div 2) : HexVal(Char(h, 2*i - 1)) < 8

(* The bytes of a byte string as numbers, and back. *)
Bytes(h) == [i \in 1..(Len(h) \div 2) |-> 16 * HexVal(Char(h, 2*i - 1)) + HexVal(Char(h, 2*i))]
RECURSIVE OfBytes(_)
OfBytes(s) == IF s = <<>> THEN "" ELSE ByteHex(Head(s)) \o OfBytes(Tail(s))

NBytes(h) == Len(h) \div 2
(* The n bytes after the first p, and the byte after the first p. *)
Slice(h, p, n) == SubSeq(h, 2*p + 1, 2*(p + n))
ByteAt(h, p) == 16 * HexVal(Char(h, 2*p + 1)) + HexVal(Char(h, 2*p + 2))

RECURSIVE Trim(_)
(* A text without surrounding white space (ASCII here, Unicode in Java). *)
IsBlank(c) == c \in {" ", "\t", "\n", "\r", "\f"}
Trim(s) == IF s = "" THEN ""
           ELSE IF IsBlank(Char(s, 1)) THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF IsBlank(Char(s, Len(s))) THEN Trim(SubSeq(s, 1, Len(s) - 1))
           ELSE s

(* Base64 (standard alphabet, padding optional, trailing bits ignored) of  *)
(* a text: <<"ok", bytes>> or <<"err">>.                                   *)
B64Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64Val(c) == (CHOOSE i \in 1..64 : Char(B64Alphabet, i) = c) - 1
IsB64(c) == \E i \in 1..64 : Char(B64Alphabet, i) = c
RECURSIVE B64Groups(_)
B64Groups(s) ==
    IF Len(s) < 2 THEN ""
    ELSE LET a == B64Val(Char(s, 1))
             b == B64Val(Char(s, 2))
             c == IF Len(s) >= 3 THEN B64Val(Char(s, 3)) ELSE 0
             d == IF Len(s) >= 4 THEN B64Val(Char(s, 4)) ELSE 0
         IN ByteHex((4 * a) + (b \div 16))
            \o (IF Len(s) >= 3 THEN ByteHex((16 * (b % 16)) + (c \div 4)) ELSE "")
            \o (IF Len(s) >= 4 THEN ByteHex((64 * (c % 4)) + d) ELSE "")
            \o B64Groups(SubSeq(s, 5, Len(s)))
Base64(s) ==
    LET pads == {i \in 1..Len(s) : Char(s, i) = "="}
        n == IF pads = {} THEN Len(s) ELSE (CHOOSE i \in pads : \A j \in pads : i <= j) - 1
        p == Len(s) - n
    IN IF \/ \E i \in 1..n : ~IsB64(Char(s, i))
          \/ \E i \in (n+1)..Len(s) : Char(s, i) # "="
          \/ n % 4 = 1
          \/ p > 0 /\ (n % 4 < 2 \/ p > 4 - (n % 4))
       THEN <<"err">>
       ELSE <<"ok", B64Groups(SubSeq(s, 1, n))>>
=============================================================================
