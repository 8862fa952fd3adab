---------------------------- MODULE GEN_Exchange ----------------------------
(***************************************************************************)
(* Enumerates every way in which an exchange of each kind, at each kind of *)
(* place, can deviate from an honestly certified one in at most MaxDev of  *)
(* the dimensions in Focus.  An absent dimension has its honest value.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Focus, MaxDev, Kinds, Places
VARIABLE o

Values(d) ==
    CASE d = "kind" -> {"response", "excluded", "full", "full_excluded", "skip",
                           "v1"}
      [] d = "place" -> {"exact", "wild", "dir", "root", "rootwild", "odd",
                           "absolute"}
      [] d = "method" -> {"changed", "case"}
      [] d = "rqheader" -> {"value", "missing", "case", "added", "repeated", "free",
                           "free_added", "order", "moved"}
      [] d = "rqquery" -> {"value", "missing", "added", "case", "order", "free",
                           "free_added", "none", "fragment", "bare"}
      [] d = "rqbody" -> {"changed", "empty", "extended"}
      [] d = "rqpath" -> {"other", "slash", "encoded", "longer", "double", "bad",
                           "nonutf8", "badurl", "similar"}
      [] d = "status" -> {"changed", "zero"}
      [] d = "body" -> {"changed", "empty", "truncated", "extended"}
      [] d = "rsheader" -> {"value", "missing", "case", "added", "repeated", "free",
                           "free_added", "order", "moved", "swap"}
      [] d = "expr" -> {"other_kind", "other_list", "spaces", "trailing", "skip",
                           "garbage", "wrongtype", "certifies_both"}
      [] d = "exprhdr" -> {"missing", "case", "twice_same", "twice_other_first",
                           "twice_other_last", "empty"}
      [] d = "tree" -> {"leaf", "noentry", "otherpath", "otherexpr", "pruned_expr",
                           "pruned_request", "pruned_response", "full", "norequest",
                           "deeper", "noresponse", "random", "pruned_leaf", "empty",
                           "skip_too", "more_specific", "exact_too"}
      [] d = "epath" -> {"other", "noprefix", "noend", "exactend", "wildend",
                           "shorter", "longer", "slash", "empty", "root"}
      [] d = "cdata" -> {"other", "missing", "pruned", "othercanister", "longer",
                           "subtree"}
      [] d = "cert" -> {"forged", "stale", "othercanister", "delegated", "otherroot",
                           "ranges"}
      [] d = "header" -> {"missing", "nocert", "notree", "nopath", "noversion",
                           "order", "blanks", "plain", "extra", "case", "twice",
                           "badcert", "badtree", "badpath", "emptycert", "emptypath",
                           "nonsense", "semicolons", "halfquoted", "dup_version_first",
                           "dup_version_last", "dup_tree_first", "dup_path_first",
                           "commas", "unpadded", "urlsafe", "upper", "truncated",
                           "innerspace", "other_first", "other_last", "nearname", "trailing",
                           "equals", "newline", "pathtype"}
      [] d = "version" -> {"0", "1", "3", "02", "+2", "-2", "256", "258", "2.0", "x", "2 ", "2x", "002", "1,", ":2:", ":1:", "", ": 2:", ":2 :", "0x2"}
      [] d = "min" -> {"0", "1", "3", "255"}
      [] d = "enc" -> {"gzip", "deflate", "odd", "odd_raw", "gzip_raw", "deflate_raw", "gzip_bad",
                           "deflate_bad", "br", "upper", "identity", "gzip_twice",
                           "gzip_trailing", "gzip_plain", "gzip_truncated",
                           "deflate_gzip", "zlib", "repeated", "empty", "br_raw"}
      [] d = "v1path" -> {"fallback", "absent", "pruned", "pruned_fallback", "other",
                           "subtree", "short", "fallback_other", "rootlabel", "encoded"}

Init == o \in {[kind |-> k, place |-> p] : k \in Kinds, p \in Places}
Deviate == /\ Cardinality(DOMAIN o) <= MaxDev + 1
           /\ \E d \in Focus \ DOMAIN o : \E v \in Values(d) : o' = (d :> v) @@ o
Spec == Init /\ [][Deviate]_o
Emit == CSVWrite("%1$s", <<ToJson(o)>>, IOEnv.VH_OUT)
=============================================================================
