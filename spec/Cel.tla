--------------------------------- MODULE Cel --------------------------------
(***************************************************************************)
(* Certification expressions: the text the library writes for one, and the *)
(* meaning the verifier gives to a text.                                   *)
(*                                                                         *)
(* Meanings:  <<"skip">>  <<"response", rc>>  <<"full", headers, params,   *)
(* rc>>  or <<"err">>, where rc is <<"certified", names>> or               *)
(* <<"excluded", names>>.                                                  *)
(*                                                                         *)
(* Syntax:  value  = ws ( name ws "{" props "}" | name ws "(" values ")"   *)
(*                      | ws "[" values "]" | ws quote chars ws quote )    *)
(*          props  = [ ws name ws ":" value ] (ws "," ...)*                *)
(* with no trailing commas, names of letters, digits and "_" (possibly     *)
(* empty), strings of header name characters only, no property given       *)
(* twice, brackets nested at most 32 deep, and nothing after the value.    *)
(***************************************************************************)
EXTENDS Rih
LOCAL INSTANCE SequencesExt

CelSpace == {" ", "\t", "\r", "\n"}
LettersDigits == {"0","1","2","3","4","5","6","7","8","9",
    "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
    "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
NameChars == LettersDigits \cup {"_"}
StringChars == LettersDigits \cup
    {"!", "#", "$", "%", "&", "'", "*", "+", "-", ".", "^", "_", "`", "|", "~"}
MaxNesting == 32

RECURSIVE SkipIn(_, _, _)
SkipIn(s, p, S) == IF p <= Len(s) /\ s[p] \in S THEN SkipIn(s, p + 1, S) ELSE p
Ws(s, p) == SkipIn(s, p, CelSpace)
At(s, p, c) == p <= Len(s) /\ s[p] = c
Text(s, p, q) == ConcatAll(SubSeq(s, p, q - 1))

(* brackets open at most this deep, closing ones without an opening one ignored *)
TooDeep(s) ==
    LET Next(d, c) ==
            IF d > MaxNesting THEN d
            ELSE CASE c \in {"(", "[", "{"} -> d + 1
                   [] c \in {")", "]", "}"} -> (IF d = 0 THEN 0 ELSE d - 1)
                   [] OTHER -> d
    IN FoldLeft(Next, 0, s) > MaxNesting

CErr == <<<<"err">>, 0>>
(* Each returns <<node, position after it>>.  Nodes: <<"obj", name, props>>*)
(* <<"fun", name, args>> <<"arr", items>> <<"str", text>> <<"err">>.       *)
RECURSIVE Value(_, _), Values(_, _, _, _), Props(_, _, _)
Value(s, p0) ==
    LET p == Ws(s, p0)
        q == SkipIn(s, p, NameChars)
        name == Text(s, p, q)
        o == Ws(s, q)
    IN CASE At(s, o, "{") ->
              LET r == Props(s, o + 1, <<>>)
              IN IF r[2] = 0 THEN CErr ELSE <<<<"obj", name, r[1]>>, r[2]>>
         [] At(s, o, "(") ->
              LET r == Values(s, o + 1, <<>>, ")")
              IN IF r[2] = 0 THEN CErr ELSE <<<<"fun", name, r[1]>>, r[2]>>
         [] At(s, p, "[") ->
              LET r == Values(s, p + 1, <<>>, "]")
              IN IF r[2] = 0 THEN CErr ELSE <<<<"arr", r[1]>>, r[2]>>
         [] At(s, p, "\"") ->
              LET e == SkipIn(s, p + 1, StringChars)
                  c == Ws(s, e)
              IN IF At(s, c, "\"") THEN <<<<"str", Text(s, p + 1, e)>>, c + 1>> ELSE CErr
         [] OTHER -> CErr
(* the values up to the closing bracket, which is consumed *)
Values(s, p, acc, close) ==
    IF acc = <<>> /\ At(s, Ws(s, p), close) THEN <<acc, Ws(s, p) + 1>>
    ELSE LET v == Value(s, p)
             e == Ws(s, v[2])
         IN IF v[2] = 0 THEN CErr
            ELSE IF At(s, e, close) THEN <<Append(acc, v[1]), e + 1>>
            ELSE IF At(s, e, ",") THEN Values(s, e + 1, Append(acc, v[1]), close)
            ELSE CErr
Props(s, p, acc) ==
    IF acc = <<>> /\ At(s, Ws(s, p), "}") THEN <<acc, Ws(s, p) + 1>>
    ELSE LET n == Ws(s, p)
             q == SkipIn(s, n, NameChars)
             name == Text(s, n, q)
             c == Ws(s, q)
         IN IF ~At(s, c, ":") THEN CErr
            ELSE LET v == Value(s, c + 1)
                     e == Ws(s, v[2])
                     acc2 == Append(acc, <<name, v[1]>>)
                 IN IF v[2] = 0 \/ \E i \in 1..Len(acc) : acc[i][1] = name THEN CErr
                    ELSE IF At(s, e, "}") THEN <<acc2, e + 1>>
                    ELSE IF At(s, e, ",") THEN Props(s, e + 1, acc2)
                    ELSE CErr

Parse(text) ==
    LET s == Chars(text)
    IN IF TooDeep(s) THEN <<"err">>
       ELSE LET v == Value(s, 1)
            IN IF v[2] # 0 /\ Ws(s, v[2]) > Len(s) THEN v[1] ELSE <<"err">>

(***************************************************************************)
(* Meaning.                                                                *)
(***************************************************************************)
IsObj(v, name) == v[1] = "obj" /\ v[2] = name
HasProp(o, k) == \E i \in 1..Len(o[3]) : o[3][i][1] = k
Prop(o, k) == o[3][CHOOSE i \in 1..Len(o[3]) : o[3][i][1] = k][2]
(* <<"ok", texts>> or <<"err">> *)
Strings(v) ==
    IF v[1] # "arr" THEN <<"err">>
    ELSE IF \E i \in 1..Len(v[2]) : v[2][i][1] # "str" THEN <<"err">>
    ELSE <<"ok", [i \in 1..Len(v[2]) |-> v[2][i][2]]>>
StringsProp(o, k) == IF HasProp(o, k) THEN Strings(Prop(o, k)) ELSE <<"err">>
HeaderList(o, k) ==
    LET l == Prop(o, k) IN IF IsObj(l, "ResponseHeaderList") THEN StringsProp(l, "headers") ELSE <<"err">>

ResponseMeaning(c) ==
    IF ~HasProp(c, "response_certification") THEN <<"err">>
    ELSE LET r == Prop(c, "response_certification")
         IN IF ~IsObj(r, "ResponseCertification") THEN <<"err">>
            ELSE LET inc == HasProp(r, "certified_response_headers")
                     exc == HasProp(r, "response_header_exclusions")
                     names == HeaderList(r, IF inc THEN "certified_response_headers"
                                            ELSE "response_header_exclusions")
                 IN IF inc = exc \/ names[1] = "err" THEN <<"err">>
                    ELSE <<"ok", <<IF inc THEN "certified" ELSE "excluded", names[2]>>>>

CertificationMeaning(c) ==
    LET none == HasProp(c, "no_request_certification")
        some == HasProp(c, "request_certification")
        rc == ResponseMeaning(c)
    IN IF none = some \/ rc[1] = "err" THEN <<"err">>
       ELSE IF none
            THEN IF IsObj(Prop(c, "no_request_certification"), "Empty")
                 THEN <<"response", rc[2]>> ELSE <<"err">>
            ELSE LET q == Prop(c, "request_certification")
                 IN IF ~IsObj(q, "RequestCertification") THEN <<"err">>
                    ELSE LET hs == StringsProp(q, "certified_request_headers")
                             ps == StringsProp(q, "certified_query_parameters")
                         IN IF hs[1] = "err" \/ ps[1] = "err" THEN <<"err">>
                            ELSE <<"full", hs[2], ps[2], rc[2]>>

MeaningOf(v) ==
    IF ~(v[1] = "fun" /\ v[2] = "default_certification") THEN <<"err">>
    ELSE IF v[3] = <<>> THEN <<"err">>
    ELSE LET a == v[3][1]
         IN IF ~IsObj(a, "ValidationArgs") THEN <<"err">>
            ELSE LET no == HasProp(a, "no_certification")
                     yes == HasProp(a, "certification")
                 IN IF no = yes THEN <<"err">>
                    ELSE IF no THEN IF IsObj(Prop(a, "no_certification"), "Empty") THEN <<"skip">> ELSE <<"err">>
                    ELSE IF IsObj(Prop(a, "certification"), "Certification")
                         THEN CertificationMeaning(Prop(a, "certification"))
                         ELSE <<"err">>
Meaning(text) == LET v == Parse(text) IN IF v[1] = "err" THEN <<"err">> ELSE MeaningOf(v)

(***************************************************************************)
(* The text of a meaning.                                                  *)
(***************************************************************************)
Quoted(names) == IF names = <<>> THEN "" ELSE "\"" \o JoinWith(names, "\",\"") \o "\""
WriteResponse(rc) ==
    "response_certification:ResponseCertification{"
    \o (IF rc[1] = "certified" THEN "certified_response_headers" ELSE "response_header_exclusions")
    \o ":ResponseHeaderList{headers:[" \o Quoted(rc[2]) \o "]}}"
Write(m) ==
    CASE m[1] = "skip" -> "default_certification(ValidationArgs{no_certification:Empty{}})"
      [] m[1] = "response" ->
            "default_certification(ValidationArgs{certification:Certification{no_request_certification:Empty{},"
            \o WriteResponse(m[2]) \o "}})"
      [] m[1] = "full" ->
            "default_certification(ValidationArgs{certification:Certification{request_certification:RequestCertification{certified_request_headers:["
            \o Quoted(m[2]) \o "],certified_query_parameters:[" \o Quoted(m[3]) \o "]},"
            \o WriteResponse(m[4]) \o "}})"
=============================================================================
