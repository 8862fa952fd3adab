----------------------------- MODULE GEN_CertTree ---------------------------
(* One history for every transition of the certification tree. *)
EXTENDS MC_CertTree, Json, CSV, IOUtils
VARIABLE hist
Shape == m
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Specs == SeqOf({<<Utf8(p), TRUE, 0>> : p \in Paths} \cup {<<Utf8(p), FALSE, 0>> : p \in Paths \ {""}}
               \cup {<<Utf8("/a"), w, 1>> : w \in {TRUE, FALSE}})
Entry(s) == Append(Append(RequestSegments(s[1]), IF s[2] THEN Wild ELSE Exact), IF s[3] = 0 THEN "c1" ELSE "c2")
EntriesJson == [k \in 1..Len(Specs) |-> [path |-> Specs[k][1], wild |-> Specs[k][2], cert |-> Specs[k][3]]]
UrlSeq == SeqOf({Utf8(u) : u \in Urls})
Ops == {<<"ins", k>> : k \in 1..Len(Specs)} \cup {<<"del", k>> : k \in 1..Len(Specs)} \cup {<<"clear">>}
Do(op) ==
    m' = CASE op[1] = "ins" -> NestedApply(m, <<"ins", Entry(Specs[op[2]]), "">>)
           [] op[1] = "del" -> NestedApply(m, <<"del", Entry(Specs[op[2]])>>)
           [] op[1] = "clear" -> NothingNested
GenInit == Init /\ hist = <<>>
GenNext ==
    \E op \in Ops :
        /\ op[1] = "ins" => Cardinality(DOMAIN m) < MaxHeld
        /\ Do(op)
        /\ hist' = Append(hist, op)
        /\ CSVWrite("%1$s", <<ToJson([ops |-> hist', entries |-> EntriesJson, urls |-> UrlSeq])>>, IOEnv.VH_OUT)
GenSpec == GenInit /\ [][GenNext]_<<m, hist>>
=============================================================================
