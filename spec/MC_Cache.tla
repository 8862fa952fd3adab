------------------------------ MODULE MC_Cache ------------------------------
(***************************************************************************)
(* The signature cache.  A verification of (key, message, signature) looks *)
(* the whole triple up, verifies it if it is not there, and remembers it   *)
(* only if it is valid; the cache drops its oldest entries when full.      *)
(* The verdict must be that of the signature alone, whatever came before.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Msgs, Capacity, MaxSteps
VARIABLES cache, steps, verdict
vars == <<cache, steps, verdict>>

(* A signature is <<key, message>> of its making, or <<"forged", m>>. *)
Sigs == {<<k, m>> : k \in Keys \cup {"forged"}, m \in Msgs}
Valid(k, m, s) == s = <<k, m>>
Entry(k, m, s) == <<k, m, s>>
InCache(e) == \E i \in 1..Len(cache) : cache[i] = e
Insert(e) == LET c == SelectSeq(cache, LAMBDA x : x # e)
             IN IF Len(c) < Capacity THEN <<e>> \o c ELSE <<e>> \o SubSeq(c, 1, Capacity - 1)

Init == cache = <<>> /\ steps = <<>> /\ verdict = <<>>
Verify(k, m, s) ==
    LET ok == InCache(Entry(k, m, s)) \/ Valid(k, m, s)
    IN /\ Len(steps) < MaxSteps
       /\ steps' = Append(steps, [key |-> k, msg |-> m, sig |-> s])
       /\ verdict' = Append(verdict, ok)
       /\ cache' = IF ok THEN Insert(Entry(k, m, s)) ELSE cache
Next == \E k \in Keys, m \in Msgs, s \in Sigs : Verify(k, m, s)
Spec == Init /\ [][Next]_vars

HistoryFree == \A i \in 1..Len(steps) : verdict[i] = Valid(steps[i].key, steps[i].msg, steps[i].sig)
OnlyValid == \A i \in 1..Len(cache) : Valid(cache[i][1], cache[i][2], cache[i][3])
Bounded == Len(cache) <= Capacity
=============================================================================
