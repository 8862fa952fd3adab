---------------------------- MODULE T_AssetRouter ---------------------------
(***************************************************************************)
(* C23 - C27: recorded histories of the asset router: what it lists and    *)
(* certifies after every call, how it answers requests, and what the       *)
(* verifier says of the answers.                                           *)
(***************************************************************************)
EXTENDS AssetRouter, TraceLib
VARIABLES l, i, m

Step(a, b) == Trace[a].steps[b]

(* Responses as recorded: [status, headers, len, sha].  The order of       *)
(* headers and the case of their names say nothing.                        *)
Norm(hs) == [k \in 1..Len(hs) |-> <<Lower(hs[k][1]), hs[k][2]>>]
Times(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameHeaders(a, b) ==
    LET x == Norm(a) y == Norm(b)
    IN Len(x) = Len(y) /\ \A k \in 1..Len(x) : Times(x[k], x) = Times(x[k], y)
Same(a, b) == a.status = b.status /\ a.len = b.len /\ a.sha = b.sha /\ SameHeaders(a.headers, b.headers)

(* Observed: the listing tells which of two assets that write the same key *)
(* came last.                                                              *)
ListedAs(list, key) ==
    {list[k].resp : k \in {j \in 1..Len(list) : Segs(list[j].path) = key[1] /\ list[j].enc = key[2] /\ list[j].begin = ""}}
Call(a, op) ==
    IF op[1] = "clear" THEN op
    ELSE <<op[1], [k \in 1..Len(op[2]) |-> Trace[a].assets[op[2][k]]], op[3]>>
Apply(s, a, b) ==
    LET o == Step(a, b)
        list(where) == IF where = "held" THEN o.held ELSE o.fallback
        Pick(where, key, rs) ==
            LET ok == {r \in rs : \E x \in ListedAs(list(where), key) : Same(x, Whole(r))}
            IN IF ok # {} THEN CHOOSE r \in ok : TRUE ELSE CHOOSE r \in rs : TRUE
    IN RouterApply(s, Call(a, o.op), Pick)
(* what others hold in the same tree: cleared along with the assets *)
Foreign(a, b) ==
    LET cleared == {k \in 1..b : Step(a, k).op[1] = "clear"}
        from == IF cleared = {} THEN 0 ELSE CHOOSE k \in cleared : \A j \in cleared : j <= k
    IN IF Has(Trace[a], "foreign") /\ from = 0
       THEN {TreePath(Trace[a].foreign[k]) : k \in 1..Len(Trace[a].foreign)} ELSE {}

Init == l \in ChunkHeads /\ i = 1 /\ m = Apply(NoAssets, l, 1)
Next ==
    \/ /\ i < Len(Trace[l].steps)
       /\ i' = i + 1 /\ l' = l /\ m' = Apply(m, l, i + 1)
    \/ /\ i = Len(Trace[l].steps) /\ l % ChunkLen # 0 /\ l < NumRuns
       /\ l' = l + 1 /\ i' = 1 /\ m' = Apply(NoAssets, l + 1, 1)
Spec == Init /\ [][Next]_<<l, i, m>>

(***************************************************************************)
(* What the router lists, and what the root hash commits to.               *)
(***************************************************************************)
Lists(list, count, want) ==
    /\ count = Len(list) /\ Len(list) = Cardinality(want)
    /\ \A w \in want : \E k \in 1..Len(list) :
          Segs(list[k].path) = w[1] /\ list[k].enc = w[2] /\ list[k].begin = w[3] /\ Same(list[k].resp, w[4])
Gets(g, want) ==
    LET w == {x \in want : x[1] = Segs(g.path) /\ x[2] = g.enc /\ x[3] = g.begin}
    IN IF w = {} THEN g.got = <<>> ELSE g.got # <<>> /\ \A x \in w : Same(g.got[1], x[4])
ResultOK(o) == o.result = IF Refused(Call(l, o.op)) THEN "err" ELSE "ok"
TreeOK(o) ==
    LET want == TreeOfAssets(m) \cup Foreign(l, i)
    IN /\ o.full[1] = "l" /\ o.full[2] = PathPrefix
       /\ Digest(o.full) = o.root
       /\ Shows(o.full[3], {<<p, "">> : p \in want})
State ==
    LET o == Step(l, i)
    IN IF ~ResultOK(o) THEN FALSE
       ELSE IF ~Has(o, "held") THEN TRUE
       ELSE /\ Lists(o.held, o.count, Listing(m))
            /\ Lists(o.fallback, o.fallbackCount, FallbackListing(m))
            /\ \A k \in 1..Len(o.gets) :
                  Gets(o.gets[k], IF o.gets[k].fallback THEN FallbackListing(m) ELSE Listing(m))
            /\ Has(o, "full") => TreeOK(o)

(***************************************************************************)
(* How it answers.                                                         *)
(***************************************************************************)
AnswerTo(q) ==
    LET path == PathOf(Utf8(q.url))
    IN IF path[1] = "err" THEN No ELSE Serve(m, Segs(path[2]), q.headers)
CertHeaders(hs) == SelectSeq(hs, LAMBDA h : Lower(h[1]) = CertHeader)
OtherHeaders(hs) == SelectSeq(hs, LAMBDA h : Lower(h[1]) # CertHeader)
ServedOK(q) ==
    LET a == AnswerTo(q)
    IN IF a = No THEN q.got = <<"refused">>
       ELSE /\ q.got[1] = "ok"
            /\ Len(CertHeaders(q.got[2].headers)) = 1
            /\ Same([q.got[2] EXCEPT !.headers = OtherHeaders(@)], a[2])
Served == LET o == Step(l, i)
          IN Has(o, "probes") => \A k \in 1..Len(o.probes) : ServedOK(o.probes[k])

(* The verifier accepts it, and reports what was served.                   *)
Reported(q) ==
    /\ q.outcome[1] = "ok" /\ q.outcome[2] = "2" /\ Len(q.outcome[3]) = 1
    /\ LET c == q.outcome[3][1]
       IN /\ c.status = q.got[2].status /\ c.sha = q.got[2].sha
          /\ SameHeaders(c.headers, q.got[2].headers)
HasQuery(q) == QueryOf(Utf8(q.url))[2] # <<>>
VerifiedOK(q) ==
    LET a == AnswerTo(q)
        P == Segs(PathOf(Utf8(q.url))[2])
        tree == TreeOfAssets(m) \cup Foreign(l, i)
    IN IF q.got[1] = "panic" THEN FALSE
       ELSE IF q.got[1] = "refused" THEN TRUE
       ELSE IF a = No THEN Reported(q)             (* whatever it is, it must verify *)
       ELSE IF q.method # "GET" \/ q.body # "" THEN TRUE
       ELSE IF Foreign(l, i) # {} /\ ~EntryAnswers(a[3], P, tree) THEN TRUE
       ELSE IF ~a[4] THEN q.outcome = <<"rejected">> \/ Reported(q)
       ELSE IF HasQuery(q)
            THEN Reported(q) \/ (q.outcome = <<"rejected">>
                                 /\ PrintT("FINDING a response served for a request with a query string does not verify"))
       ELSE Reported(q)
Verified == LET o == Step(l, i)
            IN Has(o, "probes") => \A k \in 1..Len(o.probes) : VerifiedOK(o.probes[k])

BadProbes(o) == {k \in 1..Len(o.probes) : ~ServedOK(o.probes[k]) \/ ~VerifiedOK(o.probes[k])}
Expected ==
    LET o == Step(l, i)
    IN [l |-> l, i |-> i,
        expected |-> [held |-> [k \in DOMAIN m.held |-> m.held[k]], fallback |-> m.fallback,
                      probes |-> IF Has(o, "probes") THEN {<<o.probes[k].url, o.probes[k].headers, AnswerTo(o.probes[k])>> : k \in BadProbes(o)} ELSE {}]]
=============================================================================
