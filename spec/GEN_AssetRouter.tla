--------------------------- MODULE GEN_AssetRouter --------------------------
(* One history for every transition of the asset router. *)
EXTENDS MC_AssetRouter, Json, CSV, IOUtils
Lens == <<1, 3, 5, 2>>
AssetsJson == [k \in 1..Len(Pool) |-> [path |-> Pool[k].path, len |-> Lens[k]]]
UrlSeq == <<"/", "/a", "/a/", "/a.br", "/d", "/d/", "/d/b", "/d/x", "/x">>
HeaderSeq == << <<>>, << <<"accept-encoding", "gzip, BR">> >>, << <<"Accept-Encoding", "br;q=0,gzip">> >>, << <<"range", "chunk:0+0">> >>,
                << <<"range", "chunk:1+0">> >>, << <<"range", "chunk:1+1">> >>, << <<"range", "chunk:1+0">>, <<"accept-encoding", "br">> >> >>
GenNext ==
    /\ Next
    /\ CSVWrite("%1$s", <<ToJson([assets |-> AssetsJson, configs |-> Configs, ops |-> ops', urls |-> UrlSeq, headers |-> HeaderSeq])>>,
                IOEnv.VH_OUT)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
