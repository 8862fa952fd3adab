--------------------------------- MODULE Rih --------------------------------
(***************************************************************************)
(* Representation independent hashes (IC interface specification, "hash of *)
(* map") and the request and response hashes built from them.              *)
(*                                                                         *)
(* Values:  <<"s", utf8 bytes>>  <<"b", bytes>>  <<"n", decimal>>          *)
(*          <<"a", seq of values>>.   Maps are sequences of <<key, value>>,*)
(* keys as UTF-8 bytes.                                                    *)
(* Headers are sequences of <<name, value>> texts.                         *)
(***************************************************************************)
EXTENDS Url

RECURSIVE HashOf(_)
HashOf(v) ==
    CASE v[1] \in {"s", "b"} -> Sha256(v[2])
      [] v[1] = "n" -> Sha256(Leb128(v[2]))
      [] v[1] = "a" -> Sha256(ConcatAll([i \in 1..Len(v[2]) |-> HashOf(v[2][i])]))

RihOf(map) == Sha256(ConcatAll(SortHex([i \in 1..Len(map) |-> Sha256(map[i][1]) \o HashOf(map[i][2])])))

SameName(a, b) == Lower(a) = Lower(b)
Listed(name, names) == \E i \in 1..Len(names) : SameName(names[i], name)

(* The map entries of the headers among hs that satisfy Keep(name). *)
HeaderEntries(hs, Keep(_)) ==
    LET kept == SelectSeq(hs, LAMBDA h : Keep(h[1]))
    IN [i \in 1..Len(kept) |-> <<Utf8(Lower(kept[i][1])), <<"s", Utf8(kept[i][2])>>>>]

(* Query fragments whose name (before the first =) is certified; on bytes. *)
RECURSIVE LowerHex(_)
LowerHex(h) == IF h = "" THEN ""
               ELSE LET b == ByteAt(h, 0)
                    IN ByteHex(IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b) \o LowerHex(SubSeq(h, 3, Len(h)))
CertifiedQuery(q, params) ==
    JoinWith(SelectSeq(HexSplit(q, "26"),
                       LAMBDA f : \E i \in 1..Len(params) :
                                     LowerHex(Utf8(params[i])) = LowerHex(HexSplit(f, "3d")[1])), "26")

(* The hash of a request certified with the given headers and query        *)
(* parameters; <<"err">> if its URL cannot be parsed.                      *)
RequestHash(req, headers, params) ==
    LET q == QueryOf(Utf8(req.url))
        map == HeaderEntries(req.headers, LAMBDA n : Listed(n, headers))
               \o << <<Utf8(":ic-cert-method"), <<"s", Utf8(req.method)>>>> >>
               \o (IF q[2] = <<>> THEN <<>>
                   ELSE << <<Utf8(":ic-cert-query"), <<"s", CertifiedQuery(q[2][1], params)>>>> >>)
    IN IF q[1] = "err" THEN <<"err">>
       ELSE <<"ok", Sha256(RihOf(map) \o Sha256(req.body))>>

(***************************************************************************)
(* Which response headers a response certification covers: those listed,   *)
(* or all but those excluded; always the expression header, never the      *)
(* certificate header.  rc is <<"certified", names>> or <<"excluded",      *)
(* names>>.                                                                *)
(***************************************************************************)
CertHeader == "ic-certificate"
ExprHeader == "ic-certificateexpression"
Covered(name, rc) ==
    IF Lower(name) = CertHeader THEN FALSE
    ELSE IF Lower(name) = ExprHeader THEN TRUE
    ELSE IF rc[1] = "certified" THEN Listed(name, rc[2]) ELSE ~Listed(name, rc[2])

CoveredHeaders(hs, rc) ==
    LET kept == SelectSeq(hs, LAMBDA h : Covered(h[1], rc))
    IN [i \in 1..Len(kept) |-> <<Lower(kept[i][1]), kept[i][2]>>]

HeadersHash(status, covered) ==
    RihOf(HeaderEntries(covered, LAMBDA n : TRUE)
          \o << <<Utf8(":ic-cert-status"), <<"n", status>>>> >>)
(* status in decimal, body hash given *)
ResponseHashOf(status, headers, rc, bodyHash) ==
    Sha256(HeadersHash(status, CoveredHeaders(headers, rc)) \o bodyHash)
ResponseHash(resp, rc) == ResponseHashOf(resp.status, resp.headers, rc, Sha256(resp.body))
=============================================================================
