------------------------------ MODULE CertTree ------------------------------
(***************************************************************************)
(* The certification tree: a nested map whose paths are an expression path *)
(* followed by the hashes of a certification, all below http_expr.         *)
(*                                                                         *)
(* A certification is of  c.cel (a meaning), c.req, c.resp and c.given     *)
(* (<<"none">> or <<"hash", h>>, the hash of the body).  An entry has in   *)
(* addition e.wild and e.path (bytes of the decoded path).                 *)
(***************************************************************************)
EXTENDS Verify, Nested

(***************************************************************************)
(* Creating a certification.                                               *)
(***************************************************************************)
RcOf(m) == IF m[1] = "full" THEN m[4] ELSE m[2]
BodyHash(c) == IF c.given[1] = "hash" THEN c.given[2] ELSE Sha256(c.resp.body)
CommitTo(c) ==
    LET m == c.cel
        text == Sha256(Utf8(Write(m)))
        resp == ResponseHashOf(c.resp.status, c.resp.headers, RcOf(m), BodyHash(c))
    IN CASE m[1] = "skip" -> <<text>>
         [] m[1] = "response" -> <<text, "", resp>>
         [] m[1] = "full" -> <<text, RequestHash(c.req, m[2], m[3])[2], resp>>
Expressions(c) ==
    LET hs == SelectSeq(c.resp.headers, LAMBDA h : Lower(h[1]) = ExprHeader)
    IN [i \in 1..Len(hs) |-> hs[i][2]]
(* Whether it can be created, and the reasons that may be given if not. *)
Certifiable(c) ==
    \/ c.cel[1] = "skip"
    \/ /\ Expressions(c) = <<Write(c.cel)>>
       /\ c.cel[1] = "full" => QueryOf(Utf8(c.req.url))[1] = "ok"
MayBlame(c, reason) ==
    LET es == Expressions(c)
    IN CASE reason[2] = "missing" -> es = <<>> /\ reason[3] = Write(c.cel)
         [] reason[2] = "mismatch" ->
               reason[3] = Write(c.cel) /\ reason[4] # Write(c.cel) /\ \E i \in 1..Len(es) : es[i] = reason[4]
         [] reason[2] = "multiple" -> Len(es) > 1 /\ reason[3] = Write(c.cel)
         [] reason[2] = "url" -> c.cel[1] = "full" /\ QueryOf(Utf8(c.req.url))[1] = "err"
         [] OTHER -> FALSE

(***************************************************************************)
(* The tree.                                                               *)
(***************************************************************************)
PathOfEntry(e) == Append(RequestSegments(e.path), IF e.wild THEN Wild ELSE Exact)
TreePath(e) == PathOfEntry(e) \o CommitTo(e)
CertTreeApply(m, op, entries) ==
    CASE op[1] = "ins" -> NestedApply(m, <<"ins", TreePath(entries[op[2]]), "">>)
      [] op[1] = "del" -> NestedApply(m, <<"del", TreePath(entries[op[2]])>>)
      [] op[1] = "clear" -> NothingNested

(* What a witness for entry e and a request for the decoded path url must  *)
(* settle: paths below http_expr.                                          *)
WildAt(ws) == {Append(ws[i], Wild) : i \in 1..Len(ws)}
MustSettle(e, url) ==
    LET P == RequestSegments(url)
        w == RequestSegments(e.path)
    IN IF ~e.wild THEN {TreePath(e)}
       ELSE {Append(P, Exact), Append(w, Wild)} \cup
            (IF Matches(w, P) THEN WildAt(MoreSpecific(w, P)) ELSE {})
TooSpecific(e, url) == e.wild /\ Len(RequestSegments(e.path)) > Len(RequestSegments(url))
WitnessOK(got, e, url, m, root) ==
    IF TooSpecific(e, url) THEN got = <<"err">>
    ELSE /\ got[1] = "ok"
         /\ got[2][1] = "l" /\ got[2][2] = PathPrefix
         /\ Digest(got[2]) = root
         /\ \A p \in MustSettle(e, url) : Proves(got[2][3], m, p)

(* e is held and is the most specific entry for a request of this path. *)
Holds(m, path) == Below(m, path) # {}
Answers(e, url, m) ==
    LET P == RequestSegments(url)
        w == RequestSegments(e.path)
    IN /\ Below(m, TreePath(e)) # {}
       /\ IF e.wild
          THEN /\ Matches(w, P) /\ ~Holds(m, Append(P, Exact))
               /\ \A p \in WildAt(MoreSpecific(w, P)) : ~Holds(m, p)
          ELSE w = P
(* No path has a segment that looks like the end of a path. *)
Plain(entries) ==
    \A i \in 1..Len(entries) :
        LET s == RequestSegments(entries[i].path) IN \A k \in 1..Len(s) : s[k] \notin {Exact, Wild}
=============================================================================
