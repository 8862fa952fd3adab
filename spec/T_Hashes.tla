------------------------------ MODULE T_Hashes ------------------------------
(***************************************************************************)
(* C18, C19, C20, C29: recorded hashes of requests, responses and maps, and *)
(* recorded paths and queries of URLs.                                     *)
(***************************************************************************)
EXTENDS Rih, TraceLib
VARIABLE l
Init == l \in ChunkHeads
Next == l % ChunkLen # 0 /\ l < NumRuns /\ l' = l + 1
Spec == Init /\ [][Next]_l

LastCertificate(hs) ==
    LET c == SelectSeq(hs, LAMBDA h : Lower(h[1]) = CertHeader)
    IN IF c = <<>> THEN <<>> ELSE <<c[Len(c)][2]>>
BodyHash(x) == IF x.given[1] = "hash" THEN x.given[2] ELSE Sha256(x.resp.body)

Conforms ==
    LET x == Trace[l]
    IN CASE x.kind = "rih" -> x.got = RihOf(x.map)
         [] x.kind = "hash" -> x.got = Sha256(x.data)
         [] x.kind = "request" -> x.got = RequestHash(x.req, x.headers, x.params)
         [] x.kind = "response" ->
               LET covered == CoveredHeaders(x.resp.headers, x.rc)
               IN /\ x.got = ResponseHashOf(x.resp.status, x.resp.headers, x.rc, BodyHash(x))
                  /\ x.filtered.headers = covered
                  /\ x.filtered.certificate = LastCertificate(x.resp.headers)
                  /\ x.filtered.hash = HeadersHash(x.resp.status, covered)
         [] x.kind = "headers" -> x.got = HeadersHash(x.status, x.headers)
         [] x.kind = "url" -> /\ x.query = <<PathOf(x.url), QueryOf(x.url)>>
                              /\ x.update = x.query
=============================================================================
