"""What each check runs: models, scenario enumerations, and traces of the real code."""
BLS = "BLS12-381 signatures cannot be forged: the specification takes a signature to be valid exactly if the harness made it with that key on that message"
PLAN = {
    "C01": {"stages": [
        {"module": "MC_Cert"},
        {"area": "cert", "trace": "T_Verify", "n": (1000, 20000),
         "scen": "GEN_Cert", "scen_cfg": ("GEN_Signature_big.cfg", "GEN_Signature_big.cfg")},
    ], "assumptions": [BLS]},
    "C02": {"stages": [
        {"module": "MC_Cert"},
        {"area": "cert", "trace": "T_Verify", "n": (500, 20000),
         "scen": "GEN_Cert", "scen_cfg": ("GEN_Deleg.cfg", "GEN_Deleg_big.cfg")},
    ], "assumptions": [BLS]},
    "C03": {"stages": [
        {"module": "MC_Time", "cfg": ("MC_Time.cfg", "MC_Time_big.cfg")},
        {"area": "cert", "trace": "T_Verify", "n": (500, 20000),
         "scen": "GEN_Cert", "scen_cfg": ("GEN_Time.cfg", "GEN_Time_big.cfg")},
    ], "assumptions": [BLS]},
    "C04": {"stages": [
        {"module": "MC_Cache", "cfg": ("MC_Cache.cfg", "MC_Cache_big.cfg"), "real_hash": False},
        {"area": "history", "trace": "T_Verify", "n": (60, 3000),
         "scen": "GEN_Cache", "scen_cfg": ("GEN_Cache.cfg", "GEN_Cache_big.cfg")},
    ], "assumptions": [BLS]},
    "C05": {"stages": [
        {"module": "MC_Verify", "cfg": ("MC_Verify.cfg", "MC_Verify_big.cfg")},
        {"area": "verify", "trace": "T_Verify", "n": (1500, 30000), "args": {"label": "content", "reps": (1, 3)},
         "scen": "GEN_Exchange", "scen_cfg": ("GEN_Content.cfg", "GEN_Content_big.cfg")},
    ], "assumptions": [BLS]},
    "C06": {"stages": [
        {"module": "MC_ExprPath", "cfg": ("MC_ExprPath.cfg", "MC_ExprPath_big.cfg")},
        {"area": "paths", "trace": "T_Verify", "n": (2000, 30000), "args": {"take": (9000, 0)},
         "scen": "GEN_ExprPath", "scen_cfg": ("GEN_ExprPath.cfg", "GEN_ExprPath_3.cfg")},
        {"area": "paths", "trace": "T_Verify", "n": (0, 0), "args": {"take": (1500, 0)},
         "scen": "GEN_ExprPath", "scen_cfg": ("GEN_ExprPath_odd.cfg", "GEN_ExprPath_odd.cfg")},
    ], "assumptions": [BLS]},
    "C07": {"stages": [
        {"area": "verify", "trace": "T_Verify", "n": (1500, 30000), "args": {"label": "v1", "reps": (1, 1)},
         "scen": "GEN_Exchange", "scen_cfg": ("GEN_V1.cfg", "GEN_V1_big.cfg")},
    ], "assumptions": [BLS]},
    "C08": {"stages": [
        {"area": "verify", "trace": "T_Verify", "n": (1500, 30000), "args": {"label": "header", "reps": (1, 2)},
         "scen": "GEN_Exchange", "scen_cfg": ("GEN_Header.cfg", "GEN_Header_big.cfg")},
    ], "assumptions": [BLS]},
    "C09": {"stages": [
        {"module": "MC_Verify", "cfg": ("MC_Verify.cfg", "MC_Verify_big.cfg")},
        {"area": "verify", "trace": "T_Verify", "n": (500, 30000), "args": {"label": "skip", "reps": (1, 2)},
         "scen": "GEN_Exchange", "scen_cfg": ("GEN_Skip.cfg", "GEN_Skip_big.cfg")},
    ], "assumptions": [BLS]},
    "C10": {"stages": [
        {"module": "MC_Verify", "cfg": ("MC_Verify.cfg", "MC_Verify_big.cfg")},
        {"area": "verify", "trace": "T_Verify", "n": (500, 30000), "args": {"label": "reported", "reps": (3, 4)},
         "scen": "GEN_Exchange", "scen_cfg": ("GEN_Reported.cfg", "GEN_Reported_big.cfg")},
    ], "assumptions": [BLS]},
    "C12": {"stages": [
        {"module": "MC_HashTree", "cfg": ("MC_HashTree.cfg", "MC_HashTree_big.cfg")},
        {"area": "lookup", "trace": "T_Lookup", "n": (400, 6000),
         "scen": "GEN_HashTree", "scen_cfg": ("GEN_Lookup.cfg", "GEN_Lookup_big.cfg")},
    ]},
    "C13": {"stages": [
        {"module": "MC_HashTree", "cfg": ("MC_Digest.cfg", "MC_Digest.cfg")},
        {"area": "digest", "trace": "T_Digest", "n": (400, 6000),
         "scen": "GEN_HashTree", "scen_cfg": ("GEN_Digest.cfg", "GEN_Digest_big.cfg")},
    ]},
    "C14": {"stages": [
        {"module": "MC_RbTree", "cfg": ("MC_RbTree.cfg", "MC_RbTree_big.cfg")},
        {"area": "map", "trace": "T_Map", "n": (400, 2000), "args": {"take": (0, 1500)},
         "scen": "GEN_Map", "scen_cfg": ("GEN_Map.cfg", "GEN_Map_big.cfg"), "scen_workers": 1},
    ]},
    "C15": {"stages": [
        {"module": "MC_Nested"},
        {"area": "nested", "trace": "T_Nested", "n": (500, 8000), "args": {"take": (1500, 12000)},
         "scen": "GEN_Nested", "scen_cfg": ("GEN_Nested.cfg", "GEN_Nested_big.cfg"), "scen_workers": 1},
    ]},
    "C16": {"stages": [
        {"module": "MC_CertTree", "cfg": ("MC_CertTree.cfg", "MC_CertTree_big.cfg")},
        {"area": "certtree", "trace": "T_CertTree", "n": (300, 6000), "args": {"take": (400, 6000)},
         "scen": "GEN_CertTree", "scen_cfg": ("GEN_CertTree.cfg", "GEN_CertTree_big.cfg"), "scen_workers": 1},
    ]},
    "C17": {"stages": [
        {"module": "MC_CertTree", "cfg": ("MC_CertTree.cfg", "MC_CertTree_big.cfg")},
        {"area": "certtree", "trace": "T_CertTree", "trace_cfg": "T_Acceptance.cfg", "n": (150, 3000),
         "args": {"take": (250, 4000), "verify": (40, 40)},
         "scen": "GEN_CertTree", "scen_cfg": ("GEN_CertTree.cfg", "GEN_CertTree_big.cfg"), "scen_workers": 1},
        {"area": "certtree", "trace": "T_CertTree", "trace_cfg": "T_Acceptance.cfg", "n": (0, 0),
         "args": {"take": (200, 1500), "verify": (60, 100)},
         "scen": "GEN_CertTree", "scen_cfg": ("GEN_CertTree_odd.cfg", "GEN_CertTree_odd.cfg"), "scen_workers": 1},
    ], "assumptions": [BLS]},
    "C18": {"stages": [
        {"module": "MC_Hashes", "cfg": ("MC_Hashes_request.cfg", "MC_Hashes_request_big.cfg")},
        {"area": "request", "trace": "T_Hashes", "n": (1000, 20000), "args": {"take": (4000, 0)},
         "scen": "GEN_Hashes", "scen_cfg": ("GEN_Hashes_request1.cfg", "GEN_Hashes_request2.cfg")},
    ]},
    "C19": {"stages": [
        {"module": "MC_Hashes", "cfg": ("MC_Hashes_response.cfg", "MC_Hashes_response_big.cfg")},
        {"area": "response", "trace": "T_Hashes", "n": (1000, 20000),
         "scen": "GEN_Hashes", "scen_cfg": ("GEN_Hashes_response2.cfg", "GEN_Hashes_response3.cfg")},
    ]},
    "C20": {"stages": [
        {"module": "MC_Hashes", "cfg": ("MC_Hashes_map.cfg", "MC_Hashes_map.cfg")},
        {"area": "rih", "trace": "T_Hashes", "n": (1500, 30000),
         "scen": "GEN_Hashes", "scen_cfg": ("GEN_Hashes_map2.cfg", "GEN_Hashes_map3.cfg")},
    ]},
    "C29": {"stages": [
        {"module": "MC_Url", "cfg": ("MC_Url2.cfg", "MC_Url3.cfg")},
        {"area": "url", "trace": "T_Hashes", "n": (2000, 40000),
         "scen": "MC_Url", "scen_cfg": ("GEN_Url2.cfg", "GEN_Url3.cfg")},
    ]},
    "C30": {"stages": [
        {"area": "candid", "trace": "T_Http", "n": (2000, 30000),
         "scen": "GEN_Http", "scen_cfg": ("GEN_Http2.cfg", "GEN_Http3.cfg")},
    ]},
    "C21": {"stages": [
        {"module": "MC_Cel", "cfg": ("MC_Cel.cfg", "MC_Cel_big.cfg")},
        {"area": "cel", "trace": "T_Cel", "n": (1000, 20000), "args": {"take": (2500, 0)},
         "scen": "MC_Cel", "scen_cfg": ("GEN_Cel.cfg", "GEN_Cel_big.cfg")},
    ], "assumptions": [BLS]},
    "C23": {"stages": [
        {"module": "MC_AssetRouter", "cfg": ("MC_AssetRouter.cfg", "MC_AssetRouter_big.cfg")},
        {"area": "asset", "trace": "T_AssetRouter", "n": (500, 12000), "args": {"take": (450, 6000)},
         "scen": "GEN_AssetRouter", "scen_cfg": ("GEN_AssetRouter3.cfg", "GEN_AssetRouter4.cfg"), "scen_workers": 1},
    ]},
    "C24": {"stages": [
        {"module": "MC_AssetRouter", "cfg": ("MC_AssetRouter.cfg", "MC_AssetRouter_big.cfg")},
        {"area": "asset", "trace": "T_AssetRouter", "trace_cfg": "T_AssetRouter_verified.cfg", "n": (500, 12000),
         "args": {"take": (350, 6000), "label": "verified"},
         "scen": "GEN_AssetRouter", "scen_cfg": ("GEN_AssetRouter3.cfg", "GEN_AssetRouter4.cfg"), "scen_workers": 1},
        {"area": "asset", "trace": "T_AssetRouter", "trace_cfg": "T_AssetRouter_verified.cfg", "n": (0, 0),
         "scen": "GEN_AssetServe", "scen_cfg": ("GEN_Encodings.cfg", "GEN_Encodings_big.cfg")},
    ], "assumptions": [BLS]},
    "C25": {"stages": [
        {"area": "asset", "trace": "T_AssetRouter", "n": (300, 10000), "args": {"label": "encodings"},
         "scen": "GEN_AssetServe", "scen_cfg": ("GEN_Encodings.cfg", "GEN_Encodings_big.cfg")},
    ]},
    "C26": {"stages": [
        {"area": "asset", "trace": "T_AssetRouter", "trace_cfg": "T_AssetRouter_all.cfg", "n": (150, 6000), "args": {"label": "chunks"},
         "scen": "GEN_AssetServe", "scen_cfg": ("GEN_Chunks.cfg", "GEN_Chunks_big.cfg")},
    ], "assumptions": [BLS]},
    "C27": {"stages": [
        {"area": "asset", "trace": "T_AssetRouter", "n": (500, 15000), "args": {"label": "config", "take": (2000, 0)},
         "scen": "GEN_AssetServe", "scen_cfg": ("GEN_Globs.cfg", "GEN_Globs_big.cfg")},
    ]},
    "C28": {"stages": [
        {"module": "MC_Cbor", "cfg": ("MC_Cbor.cfg", "MC_Cbor_big.cfg")},
        {"area": "cbor", "trace": "T_Cbor", "n": (4000, 100000),
         "scen": "GEN_Cbor", "scen_cfg": ("GEN_Cbor_tokens.cfg", "GEN_Cbor_tokens_big.cfg")},
        {"area": "cbor", "trace": "T_Cbor", "n": (0, 0), "args": {"take": (0, 250000)},
         "scen": "GEN_Cbor", "scen_cfg": ("GEN_Cbor_nodes.cfg", "GEN_Cbor_nodes_big.cfg")},
        {"area": "cbor", "trace": "T_Cbor", "n": (0, 0), "args": {"take": (0, 250000)},
         "scen": "GEN_Cbor", "scen_cfg": ("GEN_Cbor_maps.cfg", "GEN_Cbor_maps_big.cfg")},
        {"area": "cbor", "trace": "T_Cbor", "n": (0, 0),
         "scen": "GEN_Cbor", "scen_cfg": ("GEN_Cbor_ranges.cfg", "GEN_Cbor_ranges.cfg")},
    ]},
    "C11": {"stages": [
        {"area": "total", "trace": "T_Total", "n": (40, 1500),
         "scen": "GEN_Total", "scen_cfg": ("GEN_Total.cfg", "GEN_Total_big.cfg")},
        {"area": "verify", "trace": "T_Total", "n": (1500, 30000), "args": {"reps": (1, 1)}},
        {"area": "cert", "trace": "T_Total", "n": (500, 10000)},
        {"area": "cbor", "trace": "T_Total", "n": (3000, 100000),
         "scen": "GEN_Cbor", "scen_cfg": ("GEN_Cbor_tokens.cfg", "GEN_Cbor_tokens_big.cfg")},
    ], "assumptions": [BLS]},
    "C22": {"stages": [
        {"area": "certify", "trace": "T_Certify", "n": (600, 10000), "args": {"take": (0, 6000)},
         "scen": "GEN_Certify", "scen_cfg": ("GEN_Certify.cfg", "GEN_Certify_big.cfg")},
    ]},
}

TECHNIQUE = "TLA+ specification checked with TLC; TLC-enumerated scenarios replayed on the code and recorded runs of the code validated against the specification by TLC"
NOTE = ("TLC explores the specification exhaustively within the bounds of its configuration; the implementation is bound to it by "
        "exact validation of every recorded run (enumerated and seeded ones), so the implementation is covered for those runs only. "
        "Trusts TLC, the harness that records runs, and SHA-256 (and, where certificates are signed, BLS12-381) as provided.")
NOT_APPLICABLE = {}
