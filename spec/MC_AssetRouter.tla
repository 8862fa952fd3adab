---------------------------- MODULE MC_AssetRouter --------------------------
(***************************************************************************)
(* The asset router over every history of calls with the given assets and  *)
(* configurations: it maintains its certification tree call by call, by    *)
(* removing what it replaces and adding what is new.  In every state       *)
(*   - the tree holds exactly what the held responses are certified with,  *)
(*   - every answer is the right one for the request, and verifies,        *)
(*   - nothing is left of what has been deleted.                           *)
(***************************************************************************)
EXTENDS AssetRouter
CONSTANTS MaxOps
VARIABLES m, tree, ops
vars == <<m, tree, ops>>

Content(n) == ConcatAll([k \in 1..n |-> ByteHex(k)])
Pieces(n) == IF n <= ChunkSize THEN <<>>
             ELSE [k \in 1..NumChunks(n) |-> Sha256(Slice(Content(n), Start(k), End(k, n) - Start(k)))]
Asset(path, n) == [path |-> Utf8(path), len |-> n, sha |-> Sha256(Content(n)), chunks |-> Pieces(n)]
Pool == <<Asset("a", 1), Asset("a.br", 3), Asset("a", 5), Asset("d/b", 2)>>
File(path, fallbacks, aliases, encodings) ==
    [kind |-> "file", path |-> Utf8(path), type |-> <<>>, headers |-> << <<"x-h", "1">> >>,
     fallbacks |-> [k \in 1..Len(fallbacks) |-> <<Utf8(fallbacks[k][1]), fallbacks[k][2]>>],
     aliases |-> [k \in 1..Len(aliases) |-> Utf8(aliases[k])],
     encodings |-> [k \in 1..Len(encodings) |-> <<encodings[k][1], Utf8(encodings[k][2])>>]]
Star == [kind |-> "pattern", glob |-> << <<"star">> >>, type |-> <<"t/p">>, headers |-> <<>>, encodings |-> << <<"br", Utf8(".br")>> >>]
Redirect(from, status) == [kind |-> "redirect", from |-> Utf8(from), to |-> "/a", status |-> status]
Configs == <<
    <<>>,
    <<File("a", << <<"/", "">> >>, <<"/", "d/b">>, << <<"br", ".br">>, <<"gzip", ".br">> >>)>>,
    <<Star>>,
    <<File("d/b", << <<"/d", "404">>, <<"", "">> >>, <<"/d/">>, <<>>), Redirect("/d", "301")>> >>
Calls == {<<1>>, <<3>>, <<4>>, <<1, 2>>, <<3, 2, 4>>}
As(c) == [k \in 1..Len(c) |-> Pool[c[k]]]
Ops == {<<"certify", c, f>> : c \in Calls, f \in 1..Len(Configs)}
       \cup {<<"delete", c, f>> : c \in {<<1>>, <<4>>, <<1, 2>>}, f \in 1..Len(Configs)}
       \cup {<<"clear">>}
Full(op) == IF op[1] = "clear" THEN op ELSE <<op[1], As(op[2]), Configs[op[3]]>>
AnyOf(where, k, rs) == CHOOSE r \in rs : TRUE

Held(a) == {<<Exact, k, a.held[k]>> : k \in DOMAIN a.held} \cup {<<Wild, k, a.fallback[k]>> : k \in DOMAIN a.fallback}
EntriesOf(h) == IF h[1] = Exact THEN EntriesFor(h[2][1], h[3]) ELSE {WholeEntry(h[2][1], Wild, h[3])}
Init == m = NoAssets /\ tree = {} /\ ops = <<>>
Do(op) ==
    LET new == RouterApply(m, Full(op), AnyOf)
    IN /\ m' = new
       /\ tree' = (tree \ UNION {EntriesOf(h) : h \in Held(m) \ Held(new)}) \cup UNION {EntriesOf(h) : h \in Held(new) \ Held(m)}
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops : Do(op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_vars
Shape == <<m, tree>>

Urls == {"/", "/a", "/a/", "/a.br", "/d", "/d/", "/d/b", "/d/x", "/x"}
HeaderLists ==
    {<<>>, << <<"accept-encoding", "gzip, BR">> >>, << <<"Accept-Encoding", "br;q=0,gzip">> >>, << <<"range", "bytes=0-">> >>,
     << <<"range", "bytes=2-">> >>, << <<"range", "bytes=1-">> >>, << <<"range", "bytes=2-">>, <<"accept-encoding", "br">> >>}
Requests == Urls \X HeaderLists
AnswerFor(q) == Serve(m, Segs(Utf8(q[1])), q[2])

TreeFollows == tree = TreeOfAssets(m)
AnswersVerify == \A q \in Requests : LET a == AnswerFor(q) IN a = No \/ EntryAnswers(a[3], Segs(Utf8(q[1])), tree)
(* a held path is answered for a plain request, and never by a fallback *)
HeldIsServed ==
    \A q \in Requests :
        LET P == Segs(Utf8(q[1])) a == AnswerFor(q)
        IN /\ (<<P, "">> \in DOMAIN m.held /\ RangeOf(q[2])[1] = "none") => a # No
           /\ (HasPath(m, P) /\ a # No) => SubSeq(a[3], 1, Len(P) + 1) = Append(P, Exact)
           /\ (~HasPath(m, P) /\ a # No) => \E k \in DOMAIN m.fallback : \E i \in 1..Len(Chain(P)) :
                                               Chain(P)[i] = k[1] /\ a[3][Len(k[1]) + 1] = Wild
           /\ (~HasPath(m, P) /\ RangeOf(q[2])[1] # "bad" /\ \E i \in 1..Len(Chain(P)) : <<Chain(P)[i], "">> \in DOMAIN m.fallback)
                => a # No \/ \E k \in DOMAIN m.fallback : k[2] # "" /\ <<k[1], "">> \notin DOMAIN m.fallback
(* a content-encoding is one that was asked for *)
EncodingAccepted ==
    \A q \in Requests :
        LET a == AnswerFor(q)
        IN a # No => \A k \in 1..Len(a[2].headers) :
              a[2].headers[k][1] = "content-encoding" => \E i \in 1..Len(Accepted(q[2])) : Accepted(q[2])[i] = a[2].headers[k][2]
(* the chunks of an asset, in order, are all of it *)
ChunksCover ==
    \A k \in DOMAIN m.held :
        Large(m.held[k]) =>
           LET r == m.held[k] n == NumChunks(r.len)
           IN /\ Start(1) = 0 /\ End(n, r.len) = r.len
              /\ \A c \in 1..n : Start(c) < End(c, r.len) /\ End(c, r.len) - Start(c) <= ChunkSize
              /\ \A c \in 1..(n - 1) : End(c, r.len) = Start(c + 1)
              /\ Len(r.chunks) = n
(* entries of different held responses are different *)
Distinct == \A g, h \in Held(m) : g # h => EntriesOf(g) \cap EntriesOf(h) = {}
DeleteForgets ==
    [][LET op == ops'[Len(ops')]
       IN op[1] # "certify" =>
            /\ op[1] = "clear" => m' = NoAssets /\ tree' = {}
            /\ op[1] = "delete" =>
                 /\ \A k \in 1..Len(op[2]) : <<Segs(UrlOf(Pool[op[2][k]].path)), "">> \notin DOMAIN m'.held
                 /\ Held(m') \subseteq Held(m) /\ tree' \subseteq tree
      ]_vars
=============================================================================
