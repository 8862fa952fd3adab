-------------------------------- MODULE MC_Cel --------------------------------
(***************************************************************************)
(* Certification expressions in the specification:                         *)
(*   - what the library writes for a meaning reads back as that meaning    *)
(*   - space between tokens never matters, other characters always do      *)
(*   - a text that lacks a bracket, quote, colon or comma, or has one too  *)
(*     many, has no meaning                                                *)
(*   - nothing is read as "no certification" unless it says so, and not if *)
(*     it says anything else too                                           *)
(* As an enumeration (Emit) it writes the texts for the implementation.    *)
(***************************************************************************)
EXTENDS CelText, TLC, Json, CSV, IOUtils
CONSTANTS MaxEdits, Bases, AllSpaces, Swaps
VARIABLES base, ts, sp, edits

GoodBases == {i \in 1..Len(Good) : i \in Bases}
Init ==
    \/ /\ base \in GoodBases /\ ts = Good[base][1] /\ sp \in Spaces /\ edits = 0
    \/ /\ base = 0 /\ ts \in Odd /\ sp \in {"", " "} /\ edits = 0
Edit ==
    /\ base # 0 /\ edits < MaxEdits
    /\ AllSpaces \/ sp = ""
    /\ \E i \in 1..Len(ts) :
          \/ ts' = Drop(ts, i)
          \/ ts' = Twice(ts, i)
          \/ Swaps /\ i < Len(ts) /\ ts' = Swap(ts, i)
          \/ Swaps /\ \E t \in Junk : ts' = Put(ts, i, t)
    /\ edits' = edits + 1 /\ UNCHANGED <<base, sp>>
Spec == Init /\ [][Edit]_<<base, ts, sp, edits>>

Lists == {<<>>, <<"a">>, <<"a", "B-!#$%&'*+.^_`|~9">>, <<"a", "a">>, <<"">>}
Rcs == {"certified", "excluded"} \X Lists
Meanings == {<<"skip">>} \cup {<<"response", r>> : r \in Rcs} \cup {<<"full", h, p, r>> : h \in Lists, p \in Lists, r \in Rcs}
ReadsBack == \A m \in Meanings : Meaning(Write(m)) = m
ASSUME ReadsBack
(* different meanings are written differently *)
ASSUME Cardinality({Write(m) : m \in Meanings}) = Cardinality(Meanings)
(* an empty name and no name differ; each of the texts means what it should *)
ASSUME \A i \in 1..Len(Good) : Meaning(Spaced(Good[i][1], "")) = Good[i][2]

IsSpace == sp \notin {"\f", "/**/"}
Count(t) == Cardinality({i \in 1..Len(ts) : ts[i] = t})
Balanced == /\ Count("(") = Count(")") /\ Count("[") = Count("]") /\ Count("{") = Count("}")
            /\ Count("\"") % 2 = 0
Sound ==
    LET m == Meaning(Spaced(ts, sp))
    IN /\ (edits = 0 /\ base # 0) => m = (IF IsSpace THEN Good[base][2] ELSE <<"err">>)
       /\ ~Balanced => m = <<"err">>
       /\ m[1] = "skip" => Count("no_certification") >= 1
       /\ m[1] = "response" => Count("no_request_certification") >= 1 /\ Count("response_certification") >= 1
       /\ m[1] = "full" => Count("request_certification") >= 1 /\ Count("response_certification") >= 1

Emit == CSVWrite("%1$s", <<ToJson([text |-> Spaced(ts, sp)])>>, IOEnv.VH_OUT)
=============================================================================
