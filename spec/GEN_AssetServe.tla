--------------------------- MODULE GEN_AssetServe ---------------------------
(***************************************************************************)
(* Assets to certify and requests for them:                                *)
(*   "encodings": every set of held encodings, direct, aliased and as a    *)
(*       fallback, with every short accept-encoding header;                *)
(*   "chunks": every pair of lengths next to multiples of the chunk size,  *)
(*       as two encodings of an asset or one replacing the other;          *)
(*   "globs": every short pattern over a set of paths, alone and behind    *)
(*       another one.                                                      *)
(***************************************************************************)
EXTENDS Prim, Integers, FiniteSets, TLC, Json, CSV, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS Kind, Bound, Most    (* at most so many requests each *)
VARIABLE x
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* encodings *)
Names == <<"br", "zstd", "gzip", "deflate", "identity">>
Held(E) == SelectSeq(Names, LAMBDA n : n \in E)
File(path, encs, type, fallbacks, aliases) ==
    [kind |-> "file", path |-> Utf8(path), type |-> type, headers |-> <<>>, fallbacks |-> fallbacks, aliases |-> aliases,
     encodings |-> [k \in 1..Len(encs) |-> <<encs[k], Utf8("." \o encs[k])>>]]
Items == {"br", "zstd", "gzip", "deflate", "identity", "x", "*", ""}
Qs == {"", ";q=0", "; Q=0.5"}
ItemText == {i \o q : i \in Items, q \in Qs}
Accepts == {JoinWith(s, ", ") : s \in Upto(ItemText, Bound)}
AcceptHeaders == LET s == SetToSeq(Accepts) IN << <<>> >> \o [k \in 1..Len(s) |-> << <<"accept-encoding", s[k]>> >>]
Encodings ==
    {LET assets == <<"a">> \o [k \in 1..Cardinality(E) |-> "a." \o Held(E)[k]]
         cfg == <<File("a", Held(E), <<"t">>, << <<Utf8("/f"), "404">> >>, <<Utf8("/al")>>)>>
         ids == [k \in 1..Len(assets) |-> k]
         certify == <<"certify", ids, cfg>>
         (* the plain one is taken back *)
         forget == <<"delete", <<1>>, <<File("a", <<>>, <<"t">>, << <<Utf8("/f"), "404">> >>, <<Utf8("/al")>>)>> >>
     IN [assets |-> [k \in 1..Len(assets) |-> [path |-> Utf8(assets[k]), len |-> 1, more |-> k]],
         configs |-> <<>>, ops |-> IF plain THEN <<certify>> ELSE <<certify, forget>>,
         urls |-> <<"/a", "/al", "/f/x">>, headers |-> AcceptHeaders, most |-> Most]
     : E \in SUBSET {Names[k] : k \in 1..5}, plain \in BOOLEAN}

(* chunks *)
Sizes == {<<k, d>> \in (0..Bound) \X {-1, 0, 1} : k > 0 \/ d >= 0}
ChunkHeaders ==
    << <<>> >> \o [j \in 1..((Bound + 2) * 2) |-> << <<"range", "chunk:" \o ToString((j - 1) \div 2) \o "+" \o ToString((j - 1) % 2)>> >>]
    \o [j \in 1..(Bound + 1) |-> << <<"Range", "chunk:" \o ToString(j - 1) \o "+0">>, <<"accept-encoding", "br">> >>]
    \o << << <<"accept-encoding", "br">> >> >>
Size(path, s) == [path |-> Utf8(path), len |-> 2 * s[1], more |-> s[2]]
Chunks ==
    {[assets |-> <<Size("a", s), Size("a.br", t)>>, configs |-> <<>>,
      ops |-> << <<"certify", <<1, 2>>, <<File("a", <<"br">>, <<>>, <<>>, <<Utf8("/al")>>)>> >> >>,
      urls |-> <<"/a", "/al">>, headers |-> ChunkHeaders, most |-> Most] : s \in Sizes, t \in Sizes}
    \cup
    {[assets |-> <<Size("a", s), Size("a", t)>>, configs |-> <<>>,
      ops |-> << <<"certify", <<1>>, <<>> >>, <<"certify", <<2>>, <<>> >> >> \o back,
      urls |-> <<"/a">>, headers |-> ChunkHeaders, most |-> Most]
     : s \in Sizes, t \in Sizes, back \in {<<>>, << <<"delete", <<1>>, <<>> >> >>}}

(* globs *)
C(t) == <<"c", Utf8(t)>>
Simple == {C("a"), C("b"), C("/"), <<"one">>, <<"star">>, <<"class", FALSE, << <<Utf8("a"), Utf8("a")>> >> >>,
           <<"class", TRUE, << <<Utf8("a"), Utf8("a")>> >> >>, <<"class", FALSE, << <<Utf8("."), Utf8("a")>> >> >>,
           <<"alt", << <<C("a")>>, <<C("a"), C("/"), C("b")>> >> >>, <<"alt", << << <<"star">>, C("b")>>, <<C("/"), <<"one">> >> >> >>}
Rests == {s \in Upto(Simple, Bound) : \A k \in 1..(Len(s) - 1) : ~(s[k] = <<"star">> /\ s[k + 1] = <<"star">>)}
Patterns ==
    {s \in Rests : s # <<>>}
    \cup {<< <<"prefix">> >> \o s : s \in {r \in Rests : Len(r) < Bound}}
    \cup {s \o << <<"suffix">> >> : s \in {r \in Rests : Len(r) < Bound /\ r # <<>>}}
    \cup {<<s[1], <<"between">> >> \o Tail(s) : s \in {r \in Rests : Len(r) = Bound}}
Pattern(g, h) == [kind |-> "pattern", glob |-> g, type |-> <<>>, headers |-> << <<"x-from", h>> >>, encodings |-> <<>>]
Paths == <<"a", "b", "aa", "ab", "ba", "a/b", "b/a", "a/a/b", "abb", "a/ab", ".a", "a.b", "b/b/b/a">>
Globs ==
    {[assets |-> [k \in 1..Len(Paths) |-> [path |-> Utf8(Paths[k]), len |-> 1, more |-> k]], configs |-> <<>>,
      ops |-> << <<"certify", [k \in 1..Len(Paths) |-> k], cs>> >>, urls |-> <<"/a">>, headers |-> << <<>> >>, most |-> 0]
     : cs \in {<<Pattern(g, "1")>> : g \in Patterns}
          \cup {<<Pattern(<<C("a"), <<"star">> >>, "0"), File("ba", <<>>, <<"t">>, <<>>, <<>>), Pattern(g, "1")>> : g \in Patterns}}

All == CASE Kind = "encodings" -> Encodings [] Kind = "chunks" -> Chunks [] Kind = "globs" -> Globs
Init == x \in All
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.VH_OUT)
=============================================================================
