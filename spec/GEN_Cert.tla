------------------------------ MODULE GEN_Cert ------------------------------
(***************************************************************************)
(* Enumerates every way in which a certificate can deviate from a valid    *)
(* one in at most MaxDev of the dimensions in Focus.  An absent dimension  *)
(* has its valid value.                                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Focus, MaxDev, Bases
VARIABLE o

Values(d) ==
    CASE d = "deleg" -> {"nested", "nested_self", "garbage", "empty"}
      [] d = "signer" -> {"other", "root", "subnet", "subnet2"}
      [] d = "domain" -> {"missing", "request", "shifted"}
      [] d = "sig" -> {"flip", "short", "long", "empty", "othertree", "infinity", "zero", "swap"}
      [] d = "tree" -> {"tampered", "pruned", "extra", "swapped"}
      [] d = "rootkey" -> {"other", "prefix", "short", "long", "raw", "empty", "subnet", "bitflip"}
      [] d = "dsigner" -> {"other", "subnet", "subnet2"}
      [] d = "dsig" -> {"flip", "short", "empty", "othertree"}
      [] d = "dtree" -> {"tampered", "pruned_other", "pruned_subnet", "pruned_ranges", "pruned_key"}
      [] d = "ddomain" -> {"missing"}
      [] d = "ranges" -> {"low", "high", "below", "above", "second", "between", "shorter", "longer", "empty",
                          "missing", "foreign", "malformed", "reversed", "single", "excess", "toolong", "subtree", "many1", "many2",
                          "many3", "many4", "many5", "many6", "many7", "many8"}
      [] d = "skey" -> {"other", "missing", "prefix", "short", "foreign", "root"}
      [] d = "subnet" -> {"second", "unknown", "prefix", "empty"}
      [] d = "canister" -> {"short", "long29", "long30", "empty", "other"}
      [] d = "time" -> {"future_edge", "future_over", "past_edge", "past_over", "missing", "pruned", "empty",
                        "truncated", "overlong", "overflow", "trailing", "subtree", "zero", "max"}
      [] d = "clock" -> {"zero", "max128", "max64", "small", "over64", "wide"}
      [] d = "offset" -> {"zero", "max", "one"}
      [] d = "dtime" -> {"future", "missing"}

Init == o \in {[deleg |-> b] : b \in Bases}
Deviate == /\ Cardinality(DOMAIN o) <= MaxDev
           /\ \E d \in Focus : \E v \in Values(d) :
                 /\ d = "deleg" => o.deleg = "yes"
                 /\ d # "deleg" => d \notin DOMAIN o
                 /\ o' = (d :> v) @@ o
Spec == Init /\ [][Deviate]_o
Emit == CSVWrite("%1$s", <<ToJson(o)>>, IOEnv.VH_OUT)
=============================================================================
