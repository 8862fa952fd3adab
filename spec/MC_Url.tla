-------------------------------- MODULE MC_Url ------------------------------
(***************************************************************************)
(* Every URL of a few tokens: what URLs mean is consistent, and the        *)
(* scenarios for the code.                                                 *)
(***************************************************************************)
EXTENDS Url, TLC, Json, CSV, IOUtils
CONSTANTS MaxTokens, Tokens, Starts
VARIABLE u
Init == u \in {<<s>> : s \in Starts}
Next == Len(u) <= MaxTokens /\ \E t \in Tokens : u' = Append(u, t)
Spec == Init /\ [][Next]_u

UrlTokens == {"/", "a", "%41", "%2F", "%", "%4", "%zz", "%ff", "%C3%A9", "?", "#", "=", "&", ":", "@", "[", "]", "*", " ", "+", "<", "\\", "%25", "http://", "%00"}
UrlStarts == {"/", "http://ic0.app", "https://h/", ""}

Text == ConcatAll(u)
Abs(h) == Utf8("http://ic0.app") \o h
Emit == CSVWrite("%1$s", <<ToJson([tokens |-> u])>>, IOEnv.VH_OUT)
(* relative and absolute references to the same path agree; what is after  *)
(* the fragment mark does not matter; the query does not change the path;  *)
(* a plain path means itself; the query is text of the URL                 *)
Consistent ==
    LET h == Utf8(Text)
    IN /\ u[1] = "/" => PathOf(h) = PathOf(Abs(h)) /\ QueryOf(h) = QueryOf(Abs(h))
       /\ PathOf(h)[1] = "ok" /\ QueryOf(h)[2] = <<>> /\ (\A i \in 1..Len(u) : u[i] \notin {"#", "*"}) /\ u[1] = "/" =>
             /\ PathOf(h \o Utf8("?a=b")) = PathOf(h)
             /\ QueryOf(h \o Utf8("?a=%b?")) = <<"ok", <<Utf8("a=%b?")>>>>
             /\ PathOf(h \o Utf8("#a?b")) = PathOf(h) /\ QueryOf(h \o Utf8("#a?b")) = QueryOf(h)
       /\ (\A i \in 1..Len(u) : u[i] \in {"/", "a", "="}) /\ u[1] = "/" => PathOf(h) = <<"ok", h>> /\ QueryOf(h) = <<"ok", <<>>>>
       /\ QueryOf(h)[1] = "err" => PathOf(h)[1] = "err"
=============================================================================
