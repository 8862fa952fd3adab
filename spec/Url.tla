--------------------------------- MODULE Url --------------------------------
(***************************************************************************)
(* What a request URL means: its path (percent-decoded) and its query (as  *)
(* it stands).  RFC 3986 references of the forms  /path?query#fragment,    *)
(* scheme://authority/path?query#fragment, a bare authority, and "*".      *)
(* Everything is on bytes (a URL is given as the UTF-8 bytes of its text). *)
(***************************************************************************)
EXTENDS Prim

PathBytes == {33, 34, 61} \cup (36..59) \cup (64..95) \cup (97..126)
QueryBytes == {33, 61} \cup (36..59) \cup (63..126)
SchemeBytes == {43, 45, 46, 126} \cup (48..57) \cup (65..90) \cup (97..122)
(* userinfo, host and port, including the delimiters : @ [ ] *)
AuthorityBytes == {33, 36, 38, 39, 61, 64, 91, 93, 95, 126} \cup (40..46) \cup (48..59)
                  \cup (65..90) \cup (97..122)
Colon == 58
SlashB == 47
Question == 63
Hash == 35
MaxUrl == 65534

(* Index of the first element of b in S, or one past the end. *)
First(b, S) ==
    LET hits == {i \in 1..Len(b) : b[i] \in S}
    IN IF hits = {} THEN Len(b) + 1 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
All(b, S) == \A i \in 1..Len(b) : b[i] \in S

UrlErr == <<"err">>
(* <<"ok", path, <<>> or <<query>>>>; an empty path means "/". *)
PathAndQuery(b) ==
    LET e == First(b, {Question, Hash})
        path == SubSeq(b, 1, e - 1)
        hasQ == e <= Len(b) /\ b[e] = Question
        rest == SubSeq(b, e + 1, Len(b))
        q == SubSeq(rest, 1, First(rest, {Hash}) - 1)
    IN IF ~All(path, PathBytes) \/ (hasQ /\ ~All(q, QueryBytes)) THEN UrlErr
       ELSE <<"ok", IF path = <<>> THEN <<SlashB>> ELSE path, IF hasQ THEN <<OfBytes(q)>> ELSE <<>>>>

(* The authority: [userinfo@]host[:port], the host possibly in brackets;   *)
(* percent-encoding only in the userinfo.                                  *)
RECURSIVE AuthScan(_, _, _, _, _, _)
AuthScan(a, i, colons, open, close, pct) ==
    IF i > Len(a)
    THEN open = close /\ colons <= 1 /\ ~pct
    ELSE LET b == a[i]
         IN CASE b = Colon -> colons < 8 /\ AuthScan(a, i + 1, colons + 1, open, close, pct)
              [] b = 91 -> ~pct /\ ~open /\ AuthScan(a, i + 1, colons, TRUE, close, pct)
              [] b = 93 -> open /\ ~close /\ AuthScan(a, i + 1, 0, open, TRUE, FALSE)
              [] b = 64 -> i < Len(a) /\ AuthScan(a, i + 1, 0, open, close, FALSE)
              [] b = 37 -> AuthScan(a, i + 1, colons, open, close, TRUE)
              [] OTHER -> b \in AuthorityBytes /\ AuthScan(a, i + 1, colons, open, close, pct)
AuthorityOK(a) == AuthScan(a, 1, 0, FALSE, FALSE, FALSE)

(* <<"ok", raw path bytes, query>> or <<"err">>. *)
ParseUrl(h) ==
    LET b == Bytes(h)
        n == Len(b)
        c == First(b, 0..255 \ SchemeBytes)            (* end of a possible scheme *)
        hasScheme == n > 3 /\ c + 2 <= n /\ b[c] = Colon /\ b[c+1] = SlashB /\ b[c+2] = SlashB
        rest == SubSeq(b, c + 3, n)
        e == First(rest, {SlashB, Question, Hash})
    IN IF n = 0 \/ n > MaxUrl THEN UrlErr
       ELSE IF b[1] = SlashB THEN PathAndQuery(b)
       ELSE IF b = <<42>> THEN <<"ok", b, <<>>>>
       ELSE IF hasScheme
            THEN IF c - 1 > 64 \/ e = 1 \/ ~AuthorityOK(SubSeq(rest, 1, e - 1)) THEN UrlErr
                 ELSE PathAndQuery(SubSeq(rest, e, Len(rest)))
       ELSE IF First(b, {SlashB, Question, Hash}) > n /\ AuthorityOK(b)
            THEN <<"ok", <<>>, <<>>>>
       ELSE UrlErr

(* The percent-decoded path, which must be text: <<"ok", bytes>>/<<"err">> *)
PathOf(h) ==
    LET u == ParseUrl(h)
        p == PercentDecode(OfBytes(u[2]))
    IN IF u[1] = "err" THEN <<"err">> ELSE IF IsUtf8(p) THEN <<"ok", p>> ELSE <<"err">>
(* <<"ok", <<>> or <<query>>>> or <<"err">> *)
QueryOf(h) == LET u == ParseUrl(h) IN IF u[1] = "err" THEN <<"err">> ELSE <<"ok", u[3]>>
=============================================================================
