-------------------------------- MODULE Cert --------------------------------
(***************************************************************************)
(* Certificates: signatures, delegations, canister ranges, time, certified *)
(* data.  A certificate is <<tree, signature, delegation>>, the delegation *)
(* <<>> or <<subnet id, encoded certificate>>.                             *)
(*                                                                         *)
(* Signed is the set of all signatures ever made, as records [k, s, m]:    *)
(* key k (96 bytes) made signature s on message m.  Anything else is       *)
(* forged and does not verify (unforgeability of BLS signatures).          *)
(***************************************************************************)
EXTENDS Header

DerPrefix == "308182301d060d2b0601040182dc7c0503010201060c2b0601040182dc7c05030201036100"
StateRoot == "0d" \o Utf8("ic-state-root")

SignatureOK(Signed, der, cert) ==
    /\ NBytes(der) = 133
    /\ SubSeq(der, 1, 74) = DerPrefix
    /\ [k |-> SubSeq(der, 75, 266), s |-> cert[2], m |-> StateRoot \o Digest(cert[1])] \in Signed

(* Principals are ordered by length, then bytes. *)
PrincipalLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ HexLeq(a, b))
InRanges(id, ranges) ==
    \E i \in 1..Len(ranges) : PrincipalLeq(ranges[i][1], id) /\ PrincipalLeq(id, ranges[i][2])

(* The key of the subnet a delegation names: <<"ok", der>> or <<"err">>. *)
DelegatedKey(Signed, deleg, id, root) ==
    LET c == DecodeCertificate(deleg[2])
        cert == <<c[2], c[3], c[4]>>
        at(l) == LookupPath(<<Utf8("subnet"), deleg[1], Utf8(l)>>, cert[1])
        rs == at("canister_ranges")
        key == at("public_key")
    IN IF c[1] = "err" THEN <<"err">>
       ELSE IF cert[3] # <<>> THEN <<"err">>
       ELSE IF ~SignatureOK(Signed, root, cert) THEN <<"err">>
       ELSE IF rs[1] # "found" \/ key[1] # "found" \/ ~IsPrincipal(id) THEN <<"err">>
       ELSE LET r == DecodeRanges(rs[2])
            IN IF r[1] = "ok" /\ InRanges(id, r[2]) THEN <<"ok", key[2]>> ELSE <<"err">>

(* now, offset: decimal numbers *)
TimeOK(tree, now, offset) ==
    LET t == LookupPath(<<Utf8("time")>>, tree)
        n == LebDecode(t[2])
    IN /\ t[1] = "found"
       /\ n # ""
       /\ DecLeq(n, DecAdd(now, offset))
       /\ DecLeq(now, DecAdd(n, offset))

CertOK(Signed, cert, id, root, now, offset) ==
    /\ TimeOK(cert[1], now, offset)
    /\ IF cert[3] = <<>> THEN SignatureOK(Signed, root, cert)
       ELSE LET k == DelegatedKey(Signed, cert[3], id, root)
            IN k[1] = "ok" /\ SignatureOK(Signed, k[2], cert)

(* Does the certificate commit the canister to the given tree? *)
CommitsTo(cert, id, tree) ==
    LookupPath(<<Utf8("canister"), id, Utf8("certified_data")>>, cert[1]) = <<"found", Digest(tree)>>
=============================================================================
