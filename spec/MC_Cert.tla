------------------------------- MODULE MC_Cert -------------------------------
(***************************************************************************)
(* Certificates against an attacker.  The network holds two subnets, each  *)
(* signing its own state tree; the root signs the network's tree (which    *)
(* names the subnets' keys and ranges) and a tree of its own.  An attacker *)
(* with its own key takes any of these trees, prunes or tampers with them, *)
(* signs what it likes, and puts certificates together from all the parts, *)
(* one part at a time.                                                     *)
(***************************************************************************)
EXTENDS Cert, FiniteSets, TLC
VARIABLES tree, sig, deleg, id
vars == <<tree, sig, deleg, id>>

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
KeyBytes(b) == Rep(b, 96)
Der(b) == DerPrefix \o KeyBytes(b)
RootKey == "0a"  Sub1 == "0b"  Sub2 == "0c"  Evil == "0d"
S1 == Utf8("s1")  S2 == Utf8("s2")
Can1 == "0105"  Can2 == "0206"  Can3 == "0105ff"
Ids == {Can1, Can2, Can3, "0104", "0107"}
(* the ranges the network assigns, both ends included *)
Owner(c) == CASE c \in {"0105", "0106"} -> {S1} [] c = "0206" -> {S2} [] OTHER -> {}
Ranges1 == << <<"0105", "0106">> >>
Ranges2 == << <<"0206", "0206">> >>

StateTree(c, data) ==
    Fork(Labeled(Utf8("canister"), Labeled(c, Labeled(Utf8("certified_data"), Leaf(data)))),
         Labeled(Utf8("time"), Leaf("05")))
Good1 == StateTree(Can1, Digest(Leaf("aa")))
Good2 == StateTree(Can2, Digest(Leaf("bb")))
RootTree == StateTree(Can3, Digest(Leaf("cc")))
EvilTree(c) == StateTree(c, Digest(Leaf("66")))
SubnetTree(r, k) == Fork(Labeled(Utf8("canister_ranges"), Leaf(EncodeRanges(r))),
                         Labeled(Utf8("public_key"), Leaf(k)))
Network == Labeled(Utf8("subnet"), Fork(Labeled(S1, SubnetTree(Ranges1, Der(Sub1))),
                                        Labeled(S2, SubnetTree(Ranges2, Der(Sub2)))))
EvilNetwork == Labeled(Utf8("subnet"), Labeled(S1, SubnetTree(<< <<"0000", "ffff">> >>, Der(Evil))))

Msg(t) == StateRoot \o Digest(t)
Sign(b, t) == Sha256("99" \o b \o Digest(t))
Made(b, t) == [k |-> KeyBytes(b), s |-> Sign(b, t), m |-> Msg(t)]
EvilTrees == {EvilTree(c) : c \in {Can1, Can3}} \cup {EvilNetwork}
Honest == {Made(RootKey, Network), Made(RootKey, RootTree), Made(Sub1, Good1), Made(Sub2, Good2)}
AllSigned == Honest \cup {Made(Evil, t) : t \in EvilTrees \cup {Good1, Network}}
Sigs == {x.s : x \in AllSigned} \cup {"ee", ""}

PrunedTime(t) == Fork(t[2], Labeled(Utf8("time"), Pruned(Digest(Leaf("05")))))
PrunedCanister(t) == Fork(Pruned(Digest(t[2])), t[3])
TreesA == {Good1, Good2, RootTree, PrunedTime(Good1), PrunedCanister(Good1), Network, EvilTree(Can1), EvilTree(Can3)}
HideSub(k) == IF k = 1
    THEN Labeled(Utf8("subnet"), Fork(Labeled(S1, Pruned(Digest(Network[3][2][3]))), Network[3][3]))
    ELSE Labeled(Utf8("subnet"), Fork(Network[3][2], Pruned(Digest(Network[3][3]))))
HideKey == Labeled(Utf8("subnet"), Fork(Labeled(S1, Fork(Network[3][2][3][2],
                    Pruned(Digest(Network[3][2][3][3])))), Network[3][3]))
NetTrees == {Network, HideSub(1), HideSub(2), HideKey, EvilNetwork}
NetSigs == {Sign(RootKey, Network), Sign(Evil, EvilNetwork), Sign(Evil, Network), "ee"}
Inner(t, s) == EncodeCertificate(t, s, <<>>)
Delegs == {<<>>} \cup {<<s, Inner(t, g)>> : s \in {S1, S2}, t \in NetTrees, g \in NetSigs}
          \cup {<<S1, EncodeCertificate(EvilNetwork, Sign(Evil, EvilNetwork), <<S1, Inner(Network, Sign(RootKey, Network))>>)>>,
                <<S1, EncodeCertificate(Network, Sign(RootKey, Network), <<S1, Inner(Network, Sign(RootKey, Network))>>)>>}

None == <<"none">>
NoText == "none"
Init == tree = None /\ sig = NoText /\ deleg = None /\ id = NoText
PickTree == tree = None /\ tree' \in TreesA /\ UNCHANGED <<sig, deleg, id>>
PickSig == tree # None /\ sig = NoText /\ sig' \in Sigs /\ UNCHANGED <<tree, deleg, id>>
PickDeleg == sig # NoText /\ deleg = None /\ deleg' \in Delegs /\ UNCHANGED <<tree, sig, id>>
PickId == deleg # None /\ id = NoText /\ id' \in Ids /\ UNCHANGED <<tree, sig, deleg>>
Next == PickTree \/ PickSig \/ PickDeleg \/ PickId
Spec == Init /\ [][Next]_vars

Ready == id # NoText
Accepted == CertOK(AllSigned, <<tree, sig, deleg>>, id, Der(RootKey), "5", "1")
SignedBy(b) == Digest(tree) \in {Digest(t) : t \in CASE b = RootKey -> {Network, RootTree}
                                                   [] b = Sub1 -> {Good1} [] b = Sub2 -> {Good2}}
(* Only trees the root signed itself, or that the subnet owning the        *)
(* canister signed, are accepted.                                          *)
Sound == Ready /\ Accepted =>
    IF deleg = <<>> THEN SignedBy(RootKey)
    ELSE \/ deleg[1] = S1 /\ SignedBy(Sub1) /\ S1 \in Owner(id)
         \/ deleg[1] = S2 /\ SignedBy(Sub2) /\ S2 \in Owner(id)
(* No canister is ever held to data it did not certify. *)
NoForgedData == Ready /\ Accepted => ~CommitsTo(<<tree, sig, deleg>>, id, Leaf("66"))
(* Untampered certificates are accepted. *)
Complete ==
    (/\ Ready
     /\ \/ tree \in {Good1, PrunedCanister(Good1)} /\ sig = Sign(Sub1, Good1) /\ id = Can1
           /\ deleg \in {<<S1, Inner(t, Sign(RootKey, Network))>> : t \in {Network, HideSub(2)}}
        \/ tree = Good2 /\ sig = Sign(Sub2, Good2) /\ id = Can2
           /\ deleg \in {<<S2, Inner(t, Sign(RootKey, Network))>> : t \in {Network, HideSub(1), HideKey}}
        \/ tree = RootTree /\ sig = Sign(RootKey, RootTree) /\ deleg = <<>>)
    => Accepted
=============================================================================
