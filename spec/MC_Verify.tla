------------------------------ MODULE MC_Verify ------------------------------
(***************************************************************************)
(* Version 2 verification against an attacker.  A canister publishes one   *)
(* or two certified exchanges; the attacker takes an honest delivery of    *)
(* one of them and changes up to Budget parts of it: the request it is     *)
(* shown for, the response, the expression, the claimed path, the view of  *)
(* the tree, the certificate.                                              *)
(***************************************************************************)
EXTENDS Verify, Trees, TLC
CONSTANT Budget
VARIABLES published, x, cert, tree, path, expr, left
vars == <<published, x, cert, tree, path, expr, left>>

Canister == "0105"  Other == "0206"
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
RootKey == Rep("0a", 96)  EvilKey == Rep("0d", 96)
Root == DerPrefix \o RootKey

(* What a canister may certify. *)
Rc == <<"certified", <<"X-Cert">>>>
Rx == <<"excluded", <<"X-Free">>>>
Meanings == {<<"skip">>, <<"response", Rc>>, <<"response", Rx>>, <<"full", <<"X-Cert">>, <<"q">>, Rc>>}
Places == {<<PathPrefix, Utf8("a"), Exact>>, <<PathPrefix, Wild>>}
Req(m, u, hs, b) == [method |-> m, url |-> u, headers |-> hs, body |-> b]
Resp(s, hs, b) == [status |-> s, headers |-> hs, body |-> b]
Req0 == Req("GET", "/a?q=1&f=2", << <<"x-cert", "1">>, <<"X-Free", "1">> >>, "00")
Resp0 == Resp("200", << <<"X-Cert", "1">>, <<"x-free", "1">> >>, "00")
WithExpr(resp, text) ==
    [resp EXCEPT !.headers = << <<"IC-CertificateExpression", text>>, <<"IC-Certificate", "...">> >> \o resp.headers]
Entries == {[at |-> p, means |-> m, req |-> Req0, resp |-> Resp0] : p \in Places, m \in Meanings}
RawEntryPath(e) ==
    LET rc == IF e.means[1] = "full" THEN e.means[4] ELSE e.means[2]
        t == Write(e.means)
    IN e.at \o <<Sha256(Utf8(t))>> \o
       (IF e.means[1] = "skip" THEN <<>>
        ELSE <<IF e.means[1] = "full" THEN RequestHash(e.req, e.means[2], e.means[3])[2] ELSE "",
               ResponseHash(WithExpr(e.resp, t), rc)>>)
(* computed once *)
PathTable == [e \in Entries |-> RawEntryPath(e)]
States == {{e} : e \in Entries} \cup {{e, f} : e, f \in Entries}
Rogue == {e \in Entries : e.means[1] = "response"}
PublishedTable == [es \in States \cup {Rogue} |-> Build({<<PathTable[e], "">> : e \in es})]
Published(es) == PublishedTable[es]
DigestTable == [es \in States \cup {Rogue} |-> Digest(PublishedTable[es])]

StateTree(c, data) ==
    Fork(Labeled(Utf8("canister"), Labeled(c, Labeled(Utf8("certified_data"), Leaf(data)))),
         Labeled(Utf8("time"), Leaf("05")))
Msg(t) == StateRoot \o Digest(t)
RawCertFor(c, k, es) == LET t == StateTree(c, DigestTable[es]) IN <<t, Sha256("99" \o k \o Digest(t)), <<>>>>
CertTable == [a \in ({<<Canister, RootKey>>} \X States) \cup ({<<Other, RootKey>>, <<Canister, EvilKey>>} \X {Rogue}) |->
                RawCertFor(a[1][1], a[1][2], a[2])]
CertFor(c, k, es) == CertTable[<<<<c, k>>, es>>]
RawMade(a) == LET t == CertTable[a] IN [k |-> a[1][2], s |-> t[2], m |-> Msg(t[1])]
MadeTable == [a \in DOMAIN CertTable |-> RawMade(a)]
Made(c, k, es) == MadeTable[<<<<c, k>>, es>>]

(* Another canister published everything there is; the attacker has a key. *)
Signatures(es) == <<Made(Canister, RootKey, es), Made(Other, RootKey, Rogue), Made(Canister, EvilKey, Rogue)>>

Init ==
    /\ published \in States
    /\ \E e \in published :
         /\ path = e.at
         /\ expr = Write(e.means)
         /\ x = [req |-> e.req, resp |-> e.resp]
    /\ tree = Published(published)
    /\ cert = CertFor(Canister, RootKey, published)
    /\ left = Budget

Methods == {"POST"}
Urls == {"/a", "/a?q=2&f=2", "/a?f=2&q=1", "/a?q=1", "/b?q=1&f=2", "/a/?q=1&f=2", "/a?q=1&f=2&q=1"}
HeaderSets == {<<>>, << <<"X-Cert", "2">>, <<"X-Free", "1">> >>, << <<"x-free", "2">>, <<"X-CERT", "1">> >>,
               << <<"X-Cert", "1">>, <<"X-Cert", "1">> >>, << <<"X-Other", "1">>, <<"X-Cert", "1">> >>}
Bodies == {"", "01"}
Change ==
    \/ \E m \in Methods : x' = [x EXCEPT !.req.method = m] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ \E u \in Urls : x' = [x EXCEPT !.req.url = u] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ \E h \in HeaderSets : x' = [x EXCEPT !.req.headers = h] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ \E b \in Bodies : x' = [x EXCEPT !.req.body = b] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ x' = [x EXCEPT !.resp.status = "404"] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ \E h \in HeaderSets : x' = [x EXCEPT !.resp.headers = h] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ \E b \in Bodies : x' = [x EXCEPT !.resp.body = b] /\ UNCHANGED <<cert, tree, path, expr>>
    \/ \E m \in Meanings : expr' = Write(m) /\ UNCHANGED <<cert, tree, path, x>>
    \/ \E p \in Places : path' = p /\ UNCHANGED <<cert, tree, expr, x>>
    \/ tree' \in OnePruned(tree) \cup {Published(Rogue)} /\ UNCHANGED <<cert, path, expr, x>>
    \/ cert' \in {CertFor(Other, RootKey, Rogue), CertFor(Canister, EvilKey, Rogue)} /\ UNCHANGED <<tree, path, expr, x>>
Next == left > 0 /\ left' = left - 1 /\ UNCHANGED published /\ Change
Spec == Init /\ [][Next]_vars

Run == [req |-> x.req, resp |-> WithExpr(x.resp, expr), canister |-> Canister, root |-> Root,
        now |-> "5", offset |-> "1", signed |-> Signatures(published)]
Result == Verify2(Run, [cert |-> cert, tree |-> tree, path |-> <<path>>], expr)

(* What it means for the delivered exchange to be the certified one, said  *)
(* without hashes: bags of headers, sequences of query parameters.         *)
Bag(hs, Keep(_)) ==
    LET k == SelectSeq(hs, LAMBDA h : Keep(h[1]))
        n(z) == Cardinality({i \in 1..Len(k) : <<Lower(k[i][1]), k[i][2]>> = z})
    IN {<<<<Lower(k[i][1]), k[i][2]>>, n(<<Lower(k[i][1]), k[i][2]>>)>> : i \in 1..Len(k)}
CertifiedName(n, rc) == (Lower(n) = "x-cert") \/ (rc[1] = "excluded" /\ Lower(n) # "x-free")
QueryTable == [u \in {Req0.url} \cup Urls |->
    CASE u = "/a" -> <<"none">>
      [] u \in {"/a?q=1&f=2", "/a?f=2&q=1", "/a?q=1", "/b?q=1&f=2", "/a/?q=1&f=2"} -> <<"q=1">>
      [] u = "/a?q=2&f=2" -> <<"q=2">>
      [] u = "/a?q=1&f=2&q=1" -> <<"q=1", "q=1">>]
SameResponse(e) ==
    LET rc == IF e.means[1] = "full" THEN e.means[4] ELSE e.means[2]
    IN /\ x.resp.status = e.resp.status /\ x.resp.body = e.resp.body
       /\ Bag(x.resp.headers, LAMBDA n : CertifiedName(n, rc)) = Bag(e.resp.headers, LAMBDA n : CertifiedName(n, rc))
SameRequest(e) ==
    /\ x.req.method = e.req.method /\ x.req.body = e.req.body
    /\ QueryTable[x.req.url] = QueryTable[e.req.url]
    /\ Bag(x.req.headers, LAMBDA n : Lower(n) = "x-cert") = Bag(e.req.headers, LAMBDA n : Lower(n) = "x-cert")
Certified(e) ==
    /\ e.at = path /\ Write(e.means) = expr
    /\ e.means[1] # "skip" => SameResponse(e)
    /\ e.means[1] = "full" => SameRequest(e)
ExactPlace == <<PathPrefix, Utf8("a"), Exact>>
ForA == x.req.url \in ({Req0.url} \cup Urls) \ {"/b?q=1&f=2", "/a/?q=1&f=2"}
Answers == IF path = ExactPlace THEN ForA
           ELSE ~ForA \/ \A e \in published : e.at # ExactPlace

Sound(r) == r[1] = "ok" => Answers /\ \E e \in published : Certified(e)
(* an untouched delivery of the most specific entry is accepted, and so is *)
(* one with other uncertified parts *)
Complete(r) ==
    (/\ tree = Published(published) /\ cert = CertFor(Canister, RootKey, published)
     /\ Answers /\ \E e \in published : Certified(e)) => r[1] = "ok"
SkipsNothing(r) == r[1] = "ok" /\ r[3] = <<>> => \E e \in published : e.at = path /\ e.means = <<"skip">>
ReportsCertified(r) ==
    r[1] = "ok" /\ r[3] # <<>> =>
        LET c == r[3][1]
        IN /\ c.status = x.resp.status /\ c.body = x.resp.body
           /\ \A i \in 1..Len(c.headers) :
                 \/ Lower(c.headers[i][1]) \in {"ic-certificate", "ic-certificateexpression"}
                 \/ \E e \in published : e.at = path /\ Write(e.means) = expr /\ e.means[1] # "skip" /\
                       CertifiedName(c.headers[i][1], IF e.means[1] = "full" THEN e.means[4] ELSE e.means[2])

Good == LET r == Result IN Sound(r) /\ Complete(r) /\ SkipsNothing(r) /\ ReportsCertified(r)
=============================================================================
