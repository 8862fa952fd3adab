------------------------------- MODULE CelText -------------------------------
(***************************************************************************)
(* Certification expressions as sequences of tokens, and the ways a text   *)
(* can differ from a well formed one: every base expression below, with    *)
(* any kind of space between its tokens, and with tokens dropped, doubled, *)
(* exchanged or replaced.                                                  *)
(***************************************************************************)
EXTENDS Cel, FiniteSets

(* trees of tokens *)
S(name) == <<"\"", name, "\"">>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Commas(_)
Commas(ss) == IF Len(ss) <= 1 THEN Flat(ss) ELSE Head(ss) \o <<",">> \o Commas(Tail(ss))
Obj(name, props) == <<name, "{">> \o Commas(props) \o <<"}">>
Fun(name, args) == <<name, "(">> \o Commas(args) \o <<")">>
Arr(items) == <<"[">> \o Commas(items) \o <<"]">>
P(name, v) == <<name, ":">> \o v
Names(ns) == Arr([i \in 1..Len(ns) |-> S(ns[i])])

Default(a) == Fun("default_certification", a)
Args(ps) == Obj("ValidationArgs", ps)
Nothing == Obj("Empty", <<>>)
NoCert == P("no_certification", Nothing)
Cert(ps) == P("certification", Obj("Certification", ps))
NoRequest == P("no_request_certification", Nothing)
Request(ps) == P("request_certification", Obj("RequestCertification", ps))
RqHeaders(ns) == P("certified_request_headers", Names(ns))
RqParams(ns) == P("certified_query_parameters", Names(ns))
Response(ps) == P("response_certification", Obj("ResponseCertification", ps))
HeaderNames(ns) == Obj("ResponseHeaderList", <<P("headers", Names(ns))>>)
Included(ns) == P("certified_response_headers", HeaderNames(ns))
Left(ns) == P("response_header_exclusions", HeaderNames(ns))

(* Well formed ones, with what they mean. *)
Good == <<
    <<Default(<<Args(<<NoCert>>)>>), <<"skip">>>>,
    <<Default(<<Args(<<Cert(<<NoRequest, Response(<<Included(<<"x-one">>)>>)>>)>>)>>),
      <<"response", <<"certified", <<"x-one">>>>>>>>,
    <<Default(<<Args(<<Cert(<<Response(<<Left(<<"X-One", "x-two">>)>>), NoRequest>>)>>)>>),
      <<"response", <<"excluded", <<"X-One", "x-two">>>>>>>>,
    <<Default(<<Args(<<Cert(<<Request(<<RqHeaders(<<"host">>), RqParams(<<"p">>)>>),
                              Response(<<Included(<<"x-one", "x-two">>)>>)>>)>>)>>),
      <<"full", <<"host">>, <<"p">>, <<"certified", <<"x-one", "x-two">>>>>>>>,
    <<Default(<<Args(<<Cert(<<Response(<<Left(<<>>)>>), Request(<<RqParams(<<>>), RqHeaders(<<"host">>)>>)>>)>>)>>),
      <<"full", <<"host">>, <<>>, <<"excluded", <<>>>>>>>>
    >>
(* Others: contradictory, incomplete, of the wrong type, or with more than needed. *)
R1 == Response(<<Included(<<"x-one">>)>>)
Q1 == Request(<<RqHeaders(<<"host">>), RqParams(<<"p">>)>>)
Odd == {
    <<>>,
    Default(<<>>),
    Default(<<Args(<<>>)>>),
    Default(<<Args(<<NoCert, Cert(<<NoRequest, R1>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, R1>>), NoCert>>)>>),
    Default(<<Args(<<NoCert, NoCert>>)>>),
    Default(<<Args(<<NoCert>>), Args(<<Cert(<<NoRequest, R1>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, R1>>)>>), Args(<<NoCert>>)>>),
    Default(<<S("x"), Args(<<NoCert>>)>>),
    Default(<<Args(<<NoCert, P("other", Nothing)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, R1>>), P("other", S("x"))>>)>>),
    Default(<<Args(<<P("no_certification", S("x"))>>)>>),
    Default(<<Args(<<P("no_certification", Names(<<>>))>>)>>),
    Default(<<Args(<<P("no_certification", Obj("Empty", <<NoCert>>))>>)>>),
    Default(<<Args(<<P("no_certification", Obj("", <<>>))>>)>>),
    Default(<<Args(<<P("certification", S("x"))>>)>>),
    Default(<<Args(<<P("certification", Nothing)>>)>>),
    Default(<<Names(<<"x">>)>>),
    Default(<<Default(<<Args(<<NoCert>>)>>)>>),
    Args(<<NoCert>>),
    Names(<<"default_certification">>),
    S("default_certification"),
    Default(<<Args(<<Cert(<<NoRequest, Q1, R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Q1, NoRequest, R1>>)>>)>>),
    Default(<<Args(<<Cert(<<R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Q1>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest>>)>>)>>),
    Default(<<Args(<<Cert(<<Q1, R1, Response(<<Left(<<>>)>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<Q1, Request(<<RqHeaders(<<>>), RqParams(<<>>)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<P("no_request_certification", S("x")), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<P("request_certification", Nothing), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<RqHeaders(<<"host">>)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<RqParams(<<"p">>)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<RqHeaders(<<"host">>), RqParams(<<"p">>), RqHeaders(<<>>)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<P("certified_request_headers", S("host")), RqParams(<<"p">>)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<RqHeaders(<<"host">>), P("certified_query_parameters", Nothing)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<P("certified_request_headers", Arr(<<Names(<<"host">>)>>)), RqParams(<<"p">>)>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<Request(<<RqHeaders(<<"host">>), RqParams(<<"p">>), P("other", S("x"))>>), R1>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<Included(<<"x-one">>), Left(<<"x-two">>)>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<Included(<<>>), Left(<<>>)>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<Included(<<"x-one">>), Included(<<"x-two">>)>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<Included(<<"x-one">>), P("response_header_exclusions", S("x"))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("certified_response_headers", Names(<<"x-one">>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("certified_response_headers", Obj("ResponseHeaderList", <<>>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("certified_response_headers", Obj("Empty", <<P("headers", Names(<<"x-one">>))>>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("certified_response_headers", Obj("ResponseHeaderList", <<P("headers", S("x-one"))>>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("certified_response_headers", Obj("ResponseHeaderList", <<P("headers", Arr(<<Names(<<"x-one">>)>>))>>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("certified_response_headers", Obj("ResponseHeaderList", <<P("headers", Names(<<"x-one">>)), P("other", Nothing)>>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, Response(<<P("headers", Names(<<"x-one">>))>>)>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, P("response_certification", S("x"))>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, R1, P("other", Names(<<>>))>>)>>)>>),
    Default(<<Args(<<Cert(<<NoRequest, R1, P("", Names(<<>>))>>)>>)>>),
    Fun("Default_certification", <<Args(<<NoCert>>)>>),
    Fun("", <<Args(<<NoCert>>)>>),
    Obj("default_certification", <<NoCert>>),
    Default(<<Obj("Validationargs", <<NoCert>>)>>),
    Default(<<Obj("", <<NoCert>>)>>),
    Default(<<Args(<<P("No_certification", Nothing)>>)>>),
    Default(<<Args(<<P("certification", Obj("certification", <<NoRequest, R1>>))>>)>>)
    }

Brackets == {"(", ")", "[", "]", "{", "}"}
Punctuation == Brackets \cup {"\"", ":", ","}
Junk == Punctuation \cup {"x", "host", "x-one", "x one", "p", "", "\\", "\\\"", "a\\nb", "!#$%&'*+-.^_`|~", "0", "_", "/",
          "no_certification", "certification", "Empty", "no_request_certification", "certified_response_headers",
          "response_header_exclusions", "'"}
Spaces == {"", " ", "\n", "\t", "\r\n", "  \n\t", "\f", "/**/"}

(* The text of a sequence of tokens with the space between them. *)
RECURSIVE Joined(_, _)
Joined(ts, sp) == IF Len(ts) = 0 THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sp \o Joined(Tail(ts), sp)
(* Inside quotes space counts, so none is put there. *)
RECURSIVE Quote(_)
Quote(ts) ==
    IF ts = <<>> THEN <<>>
    ELSE IF Len(ts) >= 3 /\ ts[1] = "\"" /\ ts[3] = "\""
         THEN <<"\"" \o ts[2] \o "\"">> \o Quote(SubSeq(ts, 4, Len(ts)))
         ELSE <<Head(ts)>> \o Quote(Tail(ts))
Spaced(ts, sp) == Joined(Quote(ts), sp)

Drop(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
Twice(ts, i) == SubSeq(ts, 1, i) \o SubSeq(ts, i, Len(ts))
Swap(ts, i) == [ts EXCEPT ![i] = ts[i + 1], ![i + 1] = ts[i]]
Put(ts, i, t) == [ts EXCEPT ![i] = t]
Insert(ts, i, t) == SubSeq(ts, 1, i - 1) \o <<t>> \o SubSeq(ts, i, Len(ts))
=============================================================================
