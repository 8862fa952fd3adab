------------------------------- MODULE Verify -------------------------------
(***************************************************************************)
(* The verification of a request and response pair.                        *)
(*                                                                         *)
(* A run x has                                                             *)
(*   x.req   method, url, headers, body        x.resp  status, headers,    *)
(*   x.canister, x.root  (bytes)                       body                *)
(*   x.now, x.offset, x.min  (decimal)                                     *)
(*   x.signed  the signatures made        x.gzip, x.deflate  the response  *)
(*             body decoded: <<"ok", bytes>> or <<"err">>                  *)
(*                                                                         *)
(* Outcomes: <<"rejected">>, <<"ok", "1"|"2", <<>>>> (verified to be       *)
(* exempt: no content) or <<"ok", version, <<content>>>> with content      *)
(* [status |-> decimal or "", headers, body].                              *)
(***************************************************************************)
EXTENDS Cert, ExprPath, Cel

Rejected == <<"rejected">>
Signed(x) == {x.signed[i] : i \in 1..Len(x.signed)}
Authentic(x, h) ==
    /\ CertOK(Signed(x), h.cert, x.canister, x.root, x.now, x.offset)
    /\ CommitsTo(h.cert, x.canister, h.tree)

(***************************************************************************)
(* Version 1: the body is the asset at the path (or the index fallback).   *)
(***************************************************************************)
Assets == Utf8("http_assets")
AssetHash(path, tree) ==
    LET a == LookupPath(<<Assets, path>>, tree)
    IN IF a[1] = "found" THEN a ELSE LookupPath(<<Assets, Utf8("/index.html")>>, tree)
Verify1(x, h) ==
    LET path == PathOf(Utf8(x.req.url))
        enc == HeaderValue(x.resp.headers, "content-encoding")
        body == IF enc = <<"gzip">> THEN x.gzip
                ELSE IF enc = <<"deflate">> THEN x.deflate
                ELSE <<"ok", x.resp.body>>
        a == AssetHash(path[2], h.tree)
    IN IF ~Authentic(x, h) \/ path[1] = "err" \/ body[1] = "err" THEN Rejected
       ELSE IF a[1] = "found" /\ (a[2] = Sha256(body[2]) \/ (enc # <<>> /\ a[2] = Sha256(x.resp.body)))
            THEN <<"ok", "1", <<[status |-> "", headers |-> <<>>, body |-> x.resp.body]>>>>
            ELSE Rejected

(***************************************************************************)
(* Version 2: the tree holds, at the expression path, the expression's     *)
(* hash, the request's hash ("" if uncertified) and the response's hash.   *)
(***************************************************************************)
Verify2(x, h, expr) ==
    LET m == Meaning(expr)
        path == PathOf(Utf8(x.req.url))
        P == RequestSegments(path[2])
        E == h.path[1]
        exprPath == Append(E, Sha256(Utf8(expr)))
        rc == IF m[1] = "full" THEN m[4] ELSE m[2]
        reqHash == IF m[1] = "full" THEN RequestHash(x.req, m[2], m[3]) ELSE <<"ok", "">>
        entry == exprPath \o <<reqHash[2], ResponseHash(x.resp, rc)>>
        covered == CoveredHeaders(x.resp.headers, rc)
        certHeader == HeaderValue(x.resp.headers, CertHeader)
    IN IF h.path = <<>> \/ m[1] = "err" \/ path[1] = "err" THEN Rejected
       ELSE IF ~Authentic(x, h) \/ ~ExprPathOK(E, P, h.tree) THEN Rejected
       ELSE IF m[1] = "skip"
            THEN IF LookupSubtree(exprPath, h.tree)[1] = "found" THEN <<"ok", "2", <<>>>> ELSE Rejected
       ELSE IF reqHash[1] = "ok" /\ LookupSubtree(entry, h.tree) = <<"found", Leaf("")>>
            THEN <<"ok", "2", <<[status |-> x.resp.status,
                                 headers |-> Append(covered, <<"IC-Certificate", certHeader[1]>>),
                                 body |-> x.resp.body]>>>>
            ELSE Rejected

Outcome(x) ==
    LET header == HeaderValue(x.resp.headers, CertHeader)
        h == ParseHeader(header[1])
        expr == HeaderValue(x.resp.headers, ExprHeader)
    IN IF header = <<>> THEN Rejected
       ELSE IF h[1] = "err" THEN Rejected
       ELSE IF ~DecLeq(x.min, h[2].version) THEN Rejected
       ELSE CASE h[2].version = "1" -> Verify1(x, h[2])
              [] h[2].version = "2" -> IF expr = <<>> THEN Rejected ELSE Verify2(x, h[2], expr[1])
              [] OTHER -> Rejected
=============================================================================
