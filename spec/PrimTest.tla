------------------------------ MODULE PrimTest ------------------------------
(* Agreement of the TLA+ definitions in Prim with their Java equivalents:  *)
(* run once with and once without the class; the printed values (other     *)
(* than of Sha256) must be the same.                                       *)
EXTENDS Prim, TLC
VARIABLE x
Probe == << Utf8("aZ~ %2F"), Lower("IC-Certificate_9"), HexLess("", "00"), HexLess("61", "6100"),
            HexLess("ff", "7f"), HexLess("61", "61"), SplitOn("a,b,,c", ","), SplitOn("", ","),
            HexSplit("2f612f2f62", "2f"), HexSplit("2f", "2f"), HexSplit("1f2f", "f2"),
            SortHex(<<"62", "", "61", "6161", "61">>), ConcatAll(<<"a", "b">>), JoinWith(<<"a", "b", "">>, "&"),
            DecLeq("99", "100"), DecLeq("100", "99"), DecLeq("5", "5"),
            DecAdd("999", "1"), DecAdd("0", "0"), DecAdd("340282366920938463463374607431768211455", "1"),
            Leb128("0"), Leb128("127"), Leb128("128"), Leb128("624485"), Leb128("18446744073709551615"),
            PercentDecode(Utf8("/a%2Fb%2")), PercentDecode(Utf8("%41%zz%7e%")), IsUtf8("61"), IsUtf8("ff"),
            LebDecode("00"), LebDecode("7f"), LebDecode("8001"), LebDecode("e58e26ff"), LebDecode("80"), LebDecode(""),
            LebDecode("ffffffffffffffffff01"), LebDecode("ffffffffffffffffff02"), LebDecode("80808080808080808000"),
            LebDecode("8080808080808080808000"), Chars("ab\"c"), Chars(""),
            Bytes("00ff7f"), OfBytes(<<0, 255, 16>>), ByteAt("00ff7f", 1), Slice("00ff7f", 1, 1), Trim(" \ta b\n "), Trim("  "),
            Base64("QUJD"), Base64("QUI="), Base64("QUI"), Base64("QQ=="), Base64("QQ="), Base64("Q"), Base64("QUJD="), Base64("QR"),
            Base64("Q=Q="), Base64("+/8"), Base64("Q-"), Base64("QQ==="), Base64("") >>
Init == x = 0 /\ PrintT(Probe)
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================
