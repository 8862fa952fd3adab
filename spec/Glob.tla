--------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* Asset patterns.  A pattern is a sequence of tokens, a path a byte       *)
(* string:                                                                 *)
(*   <<"c", b>>           the byte b                                       *)
(*   <<"one">>            any byte (question mark)                         *)
(*   <<"star">>           any bytes, of any number (star)                  *)
(*   <<"class", neg, S>>  a byte that is (not) in one of the ranges        *)
(*                        <<from, to>> of the sequence S (brackets)        *)
(*   <<"alt", ps>>        one of several patterns (braces)                 *)
(*   <<"prefix">>         two stars and a slash at the start of a pattern: *)
(*                        nothing, a slash, or any bytes and a slash;      *)
(*                        with nothing after it, any path                  *)
(*   <<"suffix">>         a slash and two stars at the end:                *)
(*                        a slash and any bytes                            *)
(*   <<"between">>        a slash, two stars and a slash:                  *)
(*                        a slash, or two slashes around any bytes         *)
(***************************************************************************)
EXTENDS Prim

LOCAL SlashByte == "2f"
LOCAL ByteNo(p, i) == Slice(p, i, 1)                 (* after the first i *)
RECURSIVE Ends(_, _, _), TokenEnds(_, _, _)
(* Where in path p a match of a token sequence may end that starts after   *)
(* one of the numbers of bytes in S.                                       *)
TokenEnds(t, p, S) ==
    LET n == NBytes(p)
        One(Ok(_)) == {i + 1 : i \in {j \in S : j < n /\ Ok(ByteNo(p, j))}}
        Slashes == {j \in 0..(n - 1) : ByteNo(p, j) = SlashByte}
        AfterSlash(from) == {j + 1 : j \in {k \in Slashes : k >= from}}
        InClass(b) == \E k \in 1..Len(t[3]) : HexLeq(t[3][k][1], b) /\ HexLeq(b, t[3][k][2])
    IN CASE t[1] = "c" -> One(LAMBDA b : b = t[2])
         [] t[1] = "one" -> One(LAMBDA b : TRUE)
         [] t[1] = "star" -> UNION {i..n : i \in S}
         [] t[1] = "class" -> One(LAMBDA b : InClass(b) # t[2])
         [] t[1] = "alt" -> UNION {Ends(t[2][k], p, S) : k \in 1..Len(t[2])}
         [] t[1] = "prefix" -> S \cup UNION {AfterSlash(i) : i \in S}
         [] t[1] = "suffix" -> UNION {(i + 1)..n : i \in S \cap Slashes}
         [] t[1] = "between" -> UNION {{i + 1} \cup AfterSlash(i + 1) : i \in S \cap Slashes}
Ends(ts, p, S) == IF ts = <<>> THEN S ELSE Ends(Tail(ts), p, TokenEnds(Head(ts), p, S))
GlobMatches(ts, p) == ts = << <<"prefix">> >> \/ NBytes(p) \in Ends(ts, p, {0})
=============================================================================
