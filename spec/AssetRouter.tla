----------------------------- MODULE AssetRouter ----------------------------
(***************************************************************************)
(* The asset router: which responses it holds, what it certifies for them, *)
(* and how it answers a request.                                           *)
(*                                                                         *)
(* Asset:  [path, len, sha, chunks]  path in bytes; sha the hash of the    *)
(*   content and chunks those of its pieces of ChunkSize bytes.            *)
(* Configuration:                                                          *)
(*   [kind |-> "file", path, type, headers, fallbacks, aliases, encodings] *)
(*   [kind |-> "pattern", glob, type, headers, encodings]                  *)
(*   [kind |-> "redirect", from, to, status]     [kind |-> "invalid"]      *)
(*   type is <<>> or <<text>>, fallbacks are <<scope, status>> (status ""  *)
(*   if not given), encodings <<name, postfix>>.                           *)
(* State:  m.held and m.fallback are functions from <<path segments,       *)
(*   encoding>> (encoding "" for none) to records [status, headers, len,   *)
(*   sha, chunks]; the headers are those besides content-length,           *)
(*   content-range and the expression.                                     *)
(* Operations: <<"certify", assets, configs>>  <<"delete", assets,         *)
(*   configs>>  <<"clear">>.                                               *)
(***************************************************************************)
EXTENDS CertTree, Glob, TLC
CONSTANT ChunkSize

Segs(path) == RequestSegments(path)
UrlOf(path) == IF NBytes(path) > 0 /\ Slice(path, 0, 1) = "2f" THEN path ELSE "2f" \o path
Nothing == [k \in {} |-> <<>>]
NoAssets == [held |-> Nothing, fallback |-> Nothing]

(***************************************************************************)
(* Responses.                                                              *)
(***************************************************************************)
Large(r) == r.len > ChunkSize
NumChunks(len) == (len + ChunkSize - 1) \div ChunkSize
Start(k) == (k - 1) * ChunkSize
End(k, len) == IF k * ChunkSize < len THEN k * ChunkSize ELSE len
All0 == <<"excluded", <<>>>>
Text0(names) == Write(<<"full", names, <<>>, All0>>)
(* A response is [status, headers, len, sha]. *)
Made(status, len, sha, headers, expr) ==
    [status |-> status, len |-> len, sha |-> sha,
     headers |-> << <<"content-length", ToString(len)>> >> \o headers \o << <<ExprHeader, expr>> >>]
Whole(r) == Made(r.status, r.len, r.sha, r.headers, Text0(<<>>))
Chunk(r, k) ==
    LET b == Start(k) e == End(k, r.len)
    IN Made("206", e - b, r.chunks[k],
            r.headers \o << <<"content-range", "bytes " \o ToString(b) \o "-" \o ToString(e - 1) \o "/" \o ToString(r.len)>> >>,
            Text0(<<"range">>))
RangeText(k) == "bytes=" \o ToString(Start(k)) \o "-"

(***************************************************************************)
(* What is certified for them: paths of the certification tree.            *)
(***************************************************************************)
Committed(names, rangeHeaders, resp) ==
    CommitTo([cel |-> <<"full", names, <<>>, All0>>,
              req |-> [method |-> "GET", url |-> "/", headers |-> rangeHeaders, body |-> ""],
              resp |-> [status |-> resp.status, headers |-> resp.headers, body |-> ""],
              given |-> <<"hash", resp.sha>>])
WholeEntry(P, end, r) == Append(P, end) \o Committed(<<>>, <<>>, Whole(r))
ChunkEntry(P, r, k) == Append(P, Exact) \o Committed(<<"range">>, << <<"range", RangeText(k)>> >>, Chunk(r, k))
FirstEntry(P, r) == Append(P, Exact) \o Committed(<<"range">>, <<>>, Chunk(r, 1))
EntriesFor(P, r) ==
    IF Large(r) THEN {ChunkEntry(P, r, k) : k \in 1..NumChunks(r.len)} \cup {FirstEntry(P, r)}
    ELSE {WholeEntry(P, Exact, r)}
TreeOfAssets(m) ==
    UNION {EntriesFor(k[1], m.held[k]) : k \in DOMAIN m.held}
    \cup {WholeEntry(k[1], Wild, m.fallback[k]) : k \in DOMAIN m.fallback}
(* The responses the router lists: <<path, encoding, start of the chunk or  *)
(* "">> and the response.                                                  *)
Listing(m) ==
    {<<k[1], k[2], "", Whole(m.held[k])>> : k \in DOMAIN m.held}
    \cup UNION {{<<k[1], k[2], ToString(Start(c)), Chunk(m.held[k], c)>> : c \in 1..NumChunks(m.held[k].len)}
                : k \in {j \in DOMAIN m.held : Large(m.held[j])}}
FallbackListing(m) == {<<k[1], k[2], "", Whole(m.fallback[k])>> : k \in DOMAIN m.fallback}

(***************************************************************************)
(* Certifying and deleting.                                                *)
(***************************************************************************)
Applies(c, path) ==
    CASE c.kind = "file" -> c.path = path
      [] c.kind = "pattern" -> GlobMatches(c.glob, path)
      [] OTHER -> FALSE
(* <<>> or <<the configuration for the path>> *)
ConfigFor(path, cs) ==
    LET at == {i \in 1..Len(cs) : Applies(cs[i], path)}
    IN IF at = {} THEN <<>> ELSE <<cs[CHOOSE i \in at : \A j \in at : i <= j]>>
Invalid(cs) == \E i \in 1..Len(cs) : cs[i].kind = "invalid"

(* the last asset of a path counts *)
Chosen(as) == {as[i] : i \in {j \in 1..Len(as) : \A k \in (j + 1)..Len(as) : as[k].path # as[j].path}}
Record(status, b, headers) == [status |-> status, headers |-> headers, len |-> b.len, sha |-> b.sha, chunks |-> b.chunks]

(* What an asset writes, in order: <<"held" or "fallback", key, record>>. *)
WritesAs(a, b, c, enc) ==
    LET encHeader == IF enc = "" THEN <<>> ELSE << <<"content-encoding", enc>> >>
        extra == IF c = <<>> THEN encHeader
                 ELSE c[1].headers \o (IF c[1].type = <<>> THEN <<>> ELSE << <<"content-type", c[1].type[1]>> >>) \o encHeader
        HeldAt(url) == <<"held", <<Segs(url), enc>>, Record("200", b, extra)>>
        file == c # <<>> /\ c[1].kind = "file"
    IN <<HeldAt(UrlOf(a.path))>> \o
       (IF ~file THEN <<>>
        ELSE [i \in 1..Len(c[1].fallbacks) |->
                <<"fallback", <<Segs(c[1].fallbacks[i][1]), enc>>,
                  Record(IF c[1].fallbacks[i][2] = "" THEN "200" ELSE c[1].fallbacks[i][2], b, extra)>>]
             \o [i \in 1..Len(c[1].aliases) |-> HeldAt(c[1].aliases[i])])
RECURSIVE WritesFrom(_, _, _, _)
WritesFrom(a, call, c, i) ==
    IF c = <<>> \/ i > Len(c[1].encodings) THEN WritesAs(a, a, c, "")
    ELSE LET e == c[1].encodings[i]
             found == {b \in call : b.path = a.path \o e[2]}
         IN (IF found = {} THEN <<>> ELSE WritesAs(a, CHOOSE b \in found : TRUE, c, e[1]))
            \o WritesFrom(a, call, c, i + 1)
Writes(a, call, cs) == WritesFrom(a, call, ConfigFor(a.path, cs), 1)
KeysIn(ws, where) == {ws[i][2] : i \in {j \in 1..Len(ws) : ws[j][1] = where}}
LastIn(ws, where, key) ==
    LET at == {i \in 1..Len(ws) : ws[i][1] = where /\ ws[i][2] = key}
    IN ws[CHOOSE i \in at : \A j \in at : j <= i][3]

Redirects(cs) == SelectSeq(cs, LAMBDA c : c.kind = "redirect")
NoContent == [len |-> 0, sha |-> Sha256(""), chunks |-> <<>>]
RedirectRecord(c) == Record(c.status, NoContent, << <<"location", c.to>> >>)
RedirectWrites(cs) ==
    LET rs == Redirects(cs)
    IN [i \in 1..Len(rs) |-> <<"held", <<Segs(rs[i].from), "">>, RedirectRecord(rs[i])>>]

(* A configuration may not bring an expression of its own. *)
BringsExpr(c) == c # <<>> /\ \E i \in 1..Len(c[1].headers) : Lower(c[1].headers[i][1]) = Lower(ExprHeader)
Refused(op) ==
    /\ op[1] # "clear"
    /\ \/ Invalid(op[3])
       \/ op[1] = "certify" /\ \E a \in Chosen(op[2]) : BringsExpr(ConfigFor(a.path, op[3]))

(* The order among different assets of a call is not determined; if two    *)
(* write the same key, Pick(where, key, records) says which record counts. *)
Written(old, where, all, cs, Pick(_, _, _)) ==
    LET rw == RedirectWrites(cs)
        rk == KeysIn(rw, where)
        keys == UNION {KeysIn(ws, where) : ws \in all}
    IN [k \in DOMAIN old \cup keys \cup rk |->
           IF k \in rk THEN LastIn(rw, where, k)
           ELSE IF k \in keys
                THEN LET rs == {LastIn(ws, where, k) : ws \in {w \in all : k \in KeysIn(w, where)}}
                     IN IF Cardinality(rs) = 1 THEN CHOOSE r \in rs : TRUE ELSE Pick(where, k, rs)
           ELSE old[k]]
Without(f, keys) == [k \in DOMAIN f \ keys |-> f[k]]
RouterApply(m, op, Pick(_, _, _)) ==
    IF op[1] = "clear" THEN NoAssets
    ELSE IF Refused(op) THEN m
    ELSE LET call == Chosen(op[2])
             all == {Writes(a, call, op[3]) : a \in call}
             gone(where) == UNION {KeysIn(ws, where) : ws \in all} \cup KeysIn(RedirectWrites(op[3]), where)
         IN IF op[1] = "certify"
            THEN [held |-> Written(m.held, "held", all, op[3], Pick),
                  fallback |-> Written(m.fallback, "fallback", all, op[3], Pick)]
            ELSE [held |-> Without(m.held, gone("held")), fallback |-> Without(m.fallback, gone("fallback"))]

(***************************************************************************)
(* Serving.                                                                *)
(***************************************************************************)
FirstHeader(hs, name) ==
    LET at == {i \in 1..Len(hs) : Lower(hs[i][1]) = name}
    IN IF at = {} THEN <<>> ELSE <<hs[CHOOSE i \in at : \A j \in at : i <= j][2]>>

(* The encodings a client accepts, by the router's preference. *)
Preference == <<"br", "zstd", "gzip", "deflate", "identity">>
Zeros == {"0", "0.", "0.0", "0.00", "0.000"}
IsZeroQuality(p) ==
    LET kv == SplitOn(p, "=")
    IN Len(kv) = 2 /\ Lower(Trim(kv[1])) = "q" /\ Trim(kv[2]) \in Zeros
Accepts(value, enc) ==
    LET items == SplitOn(value, ",")
    IN \E i \in 1..Len(items) :
          LET parts == SplitOn(items[i], ";")
          IN Lower(Trim(parts[1])) = enc /\ ~\E k \in 2..Len(parts) : IsZeroQuality(parts[k])
Accepted(hs) ==
    LET v == FirstHeader(hs, "accept-encoding")
    IN IF v = <<>> THEN <<"">> ELSE SelectSeq(Preference, LAMBDA e : Accepts(v[1], e)) \o <<"">>

(* <<"none">>, <<"from", start, text>> or <<"bad">>.  A range is  bytes=   *)
(* start - [end].  The first range header counts; there is no single text  *)
(* if there are several.                                                   *)
MaxUsize == "18446744073709551615"
Number(s) ==
    LET d == IF s # "" /\ Char(s, 1) = "+" THEN SubSeq(s, 2, Len(s)) ELSE s
    IN IF d = "" \/ ~AllDigits(d) THEN <<"err">>
       ELSE IF DecLeq(StripZeros(d), MaxUsize) THEN <<"ok", StripZeros(d)>> ELSE <<"err">>
RangeOf(hs) ==
    LET v == FirstHeader(hs, "range")
        t == Trim(v[1])
        parts == SplitOn(SubSeq(t, 7, Len(t)), "-")
        b == Number(parts[1])
        e == IF parts[2] = "" THEN <<"ok", MaxUsize>> ELSE Number(parts[2])
    IN IF v = <<>> THEN <<"none">>
       ELSE IF Len(t) < 6 \/ SubSeq(t, 1, 6) # "bytes=" \/ Len(parts) # 2 THEN <<"bad">>
       ELSE IF b[1] = "err" \/ e[1] = "err" THEN <<"bad">>
       ELSE IF ~DecLeq(b[2], e[2]) THEN <<"bad">>
       ELSE <<"from", b[2], IF Cardinality({k \in 1..Len(hs) : Lower(hs[k][1]) = "range"}) = 1 THEN v[1] ELSE "">>

(* An answer: <<"yes", response, tree path, whether verification is        *)
(* certain>>, or <<"no">>.  Chunks are certified for the plain form of     *)
(* their range only.                                                       *)
No == <<"no">>
PieceOf(P, r, range) ==
    IF ~Large(r) THEN <<"yes", Whole(r), WholeEntry(P, Exact, r), TRUE>>
    ELSE IF range[1] = "none" THEN <<"yes", Chunk(r, 1), FirstEntry(P, r), TRUE>>
    ELSE LET at == {k \in 1..NumChunks(r.len) : ToString(Start(k)) = range[2]}
         IN IF at = {} THEN No
            ELSE LET k == CHOOSE k \in at : TRUE
                 IN <<"yes", Chunk(r, k), ChunkEntry(P, r, k), range[3] = RangeText(k)>>
RECURSIVE FromHeld(_, _, _, _), FromFallbacks(_, _, _)
FromHeld(m, P, encs, range) ==
    IF encs = <<>> THEN No
    ELSE LET k == <<P, encs[1]>>
             a == IF k \in DOMAIN m.held THEN PieceOf(P, m.held[k], range) ELSE No
         IN IF a # No THEN a ELSE FromHeld(m, P, Tail(encs), range)
FromFallbacks(m, scopes, encs) ==
    IF scopes = <<>> THEN No
    ELSE LET held == {k \in DOMAIN m.fallback : k[1] = scopes[1]}
             at == {i \in 1..Len(encs) : <<scopes[1], encs[i]>> \in held}
         IN IF held = {} THEN FromFallbacks(m, Tail(scopes), encs)
            ELSE IF at = {} THEN No                  (* a less specific one is not valid *)
            ELSE LET e == encs[CHOOSE i \in at : \A j \in at : i <= j]
                     r == m.fallback[<<scopes[1], e>>]
                 IN <<"yes", Whole(r), WholeEntry(scopes[1], Wild, r), TRUE>>
HasPath(m, P) == \E k \in DOMAIN m.held : k[1] = P
Serve(m, P, hs) ==
    LET encs == Accepted(hs)
        range == RangeOf(hs)
        direct == FromHeld(m, P, encs, range)
    IN IF range[1] = "bad" THEN No
       ELSE IF direct # No THEN direct
       ELSE IF HasPath(m, P) THEN No
       ELSE FromFallbacks(m, Chain(P), encs)

(* Is the entry at this tree path the answer for a request of P?           *)
EntryAnswers(path, P, tree) ==
    LET E == SubSeq(path, 1, Len(path) - 3)
        w == Front(E)
        some(p) == \E q \in tree : Starts(p, q)
    IN /\ path \in tree
       /\ IF E[Len(E)] = Exact THEN w = P
          ELSE /\ Matches(w, P) /\ ~some(Append(P, Exact))
               /\ \A p \in WildAt(MoreSpecific(w, P)) : ~some(p)
=============================================================================
