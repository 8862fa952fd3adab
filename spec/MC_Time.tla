------------------------------- MODULE MC_Time -------------------------------
(***************************************************************************)
(* The time window: a certificate's time is acceptable exactly if it lies  *)
(* within the allowed offset of the verifier's clock.                      *)
(***************************************************************************)
EXTENDS Cert, TLC
CONSTANT N
VARIABLES t, now, offset
vars == <<t, now, offset>>
Init == t = 0 /\ now = 0 /\ offset = 0
Next == \/ t < N /\ t' = t + 1 /\ UNCHANGED <<now, offset>>
        \/ now < N /\ now' = now + 1 /\ UNCHANGED <<t, offset>>
        \/ offset < N /\ offset' = offset + 1 /\ UNCHANGED <<t, now>>
Spec == Init /\ [][Next]_vars
TimeTree(leaf) == Labeled(Utf8("time"), leaf)
Window == TimeOK(TimeTree(Leaf(Leb128(ToString(t)))), ToString(now), ToString(offset))
          <=> t <= now + offset /\ now <= t + offset
NoTime == /\ ~TimeOK(TimeTree(Pruned(Digest(Leaf("00")))), ToString(now), ToString(offset))
          /\ ~TimeOK(TimeTree(Empty), ToString(now), ToString(offset))
          /\ ~TimeOK(TimeTree(Leaf("80")), ToString(now), ToString(offset))
          /\ ~TimeOK(Empty, ToString(now), ToString(offset))
RoundTrip == LebDecode(Leb128(ToString(t))) = ToString(t)
=============================================================================
