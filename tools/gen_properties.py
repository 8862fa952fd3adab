#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = "packages/"
V = P + "ic-response-verification/src/"
H = P + "ic-http-certification/src/"
C = P + "ic-certification/src/"
K = P + "ic-certificate-verification/src/"
A = P + "ic-asset-certification/src/"
B = P + "ic-cbor/src/"
R = P + "ic-representation-independent-hash/src/"
props = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Only certificates signed by the root, directly or by one delegation, pass",
  "A certificate is accepted only if the root hash of its tree is validly signed, under the Internet Computer state-root domain, by the given root key or by the subnet key named in a delegation that is itself signed by the root key. Altering the signature, the tree, the key or any part of the delegation makes it rejected, a delegation may not itself be delegated, and an untampered certificate that satisfies the other rules is accepted.",
  ["inputs"], "every certificate (tree, signature, delegation), every root key and every tampering of them",
  "The tests that sign certificates need crates which exercise only one tampered key and one nested delegation; the combinations of who signed what, and what was altered, are never enumerated.",
  [K + "certificate_verification.rs", K + "signature_verification/mod.rs"],
  [("verify", K + "certificate_verification.rs"), ("verify_delegation", K + "certificate_verification.rs"), ("extract_der", K + "certificate_verification.rs"), ("verify_signature", K + "signature_verification")],
  ["VerifyCertificate::verify"])
p("C02", "A delegation only authorises canisters inside its signed ranges",
  "A delegated certificate is accepted for a canister only if the canister id lies within one of the ranges (both ends included) that the root-signed delegation lists for exactly the delegated subnet, and it is checked with exactly the public key listed for that subnet. Missing, pruned, malformed or foreign-subnet ranges and keys lead to rejection.",
  ["inputs"], "every canister id, every list of ranges (empty, touching, reversed, several), every subnet layout of the delegation tree",
  "Tests sample one canister inside and one outside a single range; boundaries, several ranges, several subnets and pruned range data are not covered.",
  [K + "certificate_verification.rs", B + "cbor_parser.rs"],
  [("principal_is_within_ranges", K + "certificate_verification.rs"), ("verify_delegation", K + "certificate_verification.rs")],
  ["VerifyCertificate::verify"])
p("C03", "A certificate is accepted exactly within the allowed time window",
  "A certificate whose time differs from the verifier's current time by more than the allowed offset, in either direction, is rejected, and one whose time lies within the window (both ends included) is not rejected for its time, whatever the magnitudes of the three values. A certificate whose time is missing, pruned or undecodable is rejected.",
  ["inputs"], "every certificate time, current time and allowed offset, including the extremes of their ranges",
  "Tests use a few offsets around the present; boundary equality and arithmetic extremes are not reached.",
  [K + "certificate_verification.rs"], [("verify_certificate_time", K + "certificate_verification.rs")],
  ["VerifyCertificate::verify"])
p("C04", "Earlier verifications never influence later verdicts",
  "The verdict on a certificate depends only on that certificate, canister id, root key and times, and is the same whatever sequence of verifications (successful or failed, of related or unrelated certificates) the same process has performed before. In particular neither a past success nor a past failure for another key, message or signature changes an answer.",
  ["histories"], "every history of earlier verifications in one process",
  "The existing cache tests look at single hits and misses; histories mixing valid and invalid combinations of the same keys, messages and signatures are not explored.",
  [K + "signature_verification/signature_cache.rs", K + "signature_verification/mod.rs"],
  [("SignatureCache", K + "signature_verification/signature_cache.rs"), ("verify_signature", K + "signature_verification/mod.rs")],
  ["VerifyCertificate::verify"],
  [("signature cache", "signatures already found valid", K + "signature_verification/signature_cache.rs")])
p("C05", "A v2 response verifies only if the canister certified it for that request",
  "Under version 2 a response is reported as verified only if the tree committed to by the canister's certified data contains, at the claimed expression path, this exact certification expression together with the hash of this request (if the expression certifies requests) and of this response, so that changing the status, body, a certified header, the method, a certified request header or query parameter, the request body or the expression makes verification fail. Parts the expression leaves uncertified may vary freely, and an untampered certified exchange is accepted.",
  ["inputs"], "every request, response, expression, certification tree, certificate and single or combined alteration of them",
  "Tests sample a handful of responses; the product of expression kinds, certified parts, altered parts and tree shapes is not covered, and pass/fail there is decided by hashes a few fixtures cannot generalise.",
  [V + "verification/verify_request_response_pair.rs", V + "validation/v2_validation.rs", V + "validation/common_validation.rs"],
  [("v2_verification", V + "verification/verify_request_response_pair.rs"), ("validate_hashes", V + "validation/v2_validation.rs"), ("validate_tree", V + "validation/common_validation.rs")],
  ["verify_request_response_pair"])
p("C06", "Only the most specific certified path may answer a request",
  "Under version 2 an expression path is accepted for a request only if it is present in the tree and is the most specific one that matches: the exact path of the request if given, otherwise a wildcard that is a segment-wise prefix of the request path while the tree proves that neither the exact path nor any longer matching wildcard exists. Pruned (unknown) parts never count as proof of absence, a directory (trailing slash) and a file are different paths, and a proven most specific path is never rejected.",
  ["inputs"], "every set of certified paths, request path, claimed expression path and pruning of the tree",
  "Tests list a few dozen hand-made trees; specificity is a relation over all prefixes, slashes and prunings.",
  [V + "validation/v2_validation.rs", H + "utils/wildcard_paths.rs"],
  [("validate_expr_path", V + "validation/v2_validation.rs"), ("more_specific_wildcards_for", H + "utils/wildcard_paths.rs"), ("is_wildcard_path_valid_for_request_path", H + "utils/wildcard_paths.rs")],
  ["verify_request_response_pair"])
p("C07", "A v1 response verifies only if its body is the certified asset",
  "Under version 1 a response is accepted only if the SHA-256 of its body (after undoing gzip or deflate content encoding, or of the raw encoded body) equals the hash stored in the canister's certified tree for the request path, or for the index fallback when the request path has no entry. Another asset's body, a tree that the canister's certified data does not commit to, or an undecodable body is rejected, and only the body - no status or header - is reported as verified.",
  ["inputs"], "every asset tree (full or pruned), request path, body and content encoding",
  "Tests cover single-asset trees with one encoding each.",
  [V + "verification/verify_request_response_pair.rs", V + "validation/v1_validation.rs", V + "verification/body.rs"],
  [("v1_verification", V + "verification/verify_request_response_pair.rs"), ("validate_body", V + "validation/v1_validation.rs"), ("decode_body", V + "verification/body.rs")],
  ["verify_request_response_pair"])
p("C08", "Certificate headers fail closed and cannot be downgraded",
  "A response whose certificate header is absent, lacks or has an undecodable certificate, tree or (for version 2) expression path or certificate expression, names a version below the caller's minimum, or names an unsupported version, is never reported as verified. A well formed header is read the same way whatever the order of its fields, surrounding blanks, letter case of the header name and unknown extra fields, repeated fields keep the first value, and a missing version means version 1.",
  ["inputs"], "every header value, field order, repetition, version number and minimum version",
  "Tests parse a few literal headers; version and field combinations are not enumerated end to end.",
  [V + "verification/certificate_header.rs", V + "verification/certificate_header_field.rs", V + "verification/verify_request_response_pair.rs"],
  [("CertificateHeader::from", V + "verification/certificate_header.rs"), ("version dispatch", V + "verification/verify_request_response_pair.rs")],
  ["verify_request_response_pair"])
p("C09", "Certification is skipped only where the canister certified that it may be",
  "A response is let through without checking its content only if its expression says no certification and that same expression is present in the canister's certified tree at the accepted path, under a valid certificate for that canister. Such a response is reported with no verified content at all, and any other expression is never treated as a skip.",
  ["inputs"], "every expression, tree, path and response",
  "One or two positive samples exist; the forged-skip space (wrong path, pruned, other canister, look-alike expressions) is open ended.",
  [V + "verification/verify_request_response_pair.rs", V + "cel/ast_mapping.rs", V + "validation/v2_validation.rs", H + "utils/skip_certification.rs"],
  [("skip branch", V + "verification/verify_request_response_pair.rs"), ("validate_expr_hash", V + "validation/v2_validation.rs")],
  ["verify_request_response_pair"])
p("C10", "Only certified content is reported as verified",
  "When a version 2 response verifies, the reported status and body are those received, and the reported headers are exactly those the certification expression covers (listed ones, or all but the excluded ones, compared case-insensitively), with their values and order, plus the certificate expression and certificate headers; no uncertified header is ever reported as verified.",
  ["inputs"], "every set of response headers (case variants, repetitions) and every inclusion or exclusion list",
  "Tests check two small header lists in isolation.",
  [V + "verification/verify_request_response_pair.rs", H + "hash/response_hash.rs"],
  [("filter_response_headers", H + "hash/response_hash.rs"), ("v2_verification", V + "verification/verify_request_response_pair.rs")],
  ["verify_request_response_pair", "filter_response_headers"])
p("C11", "No untrusted input can crash or hang the verifier",
  "Verifying any request and response, and decoding any certificate, tree, expression path or certification expression, always terminates with a result: never a panic, an abort, stack or memory exhaustion, or an endless loop, even for malformed, truncated, oversized-length or deeply nested input.",
  ["inputs"], "every byte string in every header, body, URL and certificate",
  "Tests contain a handful of malformed samples.",
  [B + "cbor_parser.rs", B + "cbor_parse_hash_tree.rs", B + "cbor_parse_certificate.rs", V + "cel/parser.rs", V + "verification/certificate_header.rs", H + "http/http_request.rs"],
  [("parser", B + "cbor_parser.rs"), ("parsed_cbor_to_tree", B + "cbor_parse_hash_tree.rs"), ("parse_cel_expression", V + "cel/parser.rs")],
  ["verify_request_response_pair", "Certificate::from_cbor", "HashTree::from_cbor"])
p("C12", "Lookups in a pruned tree never contradict the full tree",
  "For a sorted tree and any pruning of it, looking up a path or subtree answers found only with the value the full tree has there, answers absent only if the full tree has nothing there, and otherwise answers unknown (or error for a path through a leaf). On the unpruned tree every present path is found, every other is not found, and listing the paths of a tree names exactly its unpruned leaves.",
  ["inputs"], "every labelled tree, every pruning, every path, including labels that are prefixes of each other, empty labels and non-UTF-8 labels",
  "Tests use one or two fixed trees.",
  [C + "hash_tree/mod.rs"], [("lookup_path / lookup_subtree / lookup_label", C + "hash_tree/mod.rs"), ("list_paths", C + "hash_tree/mod.rs")],
  ["HashTree::lookup_path", "HashTree::lookup_subtree", "HashTree::list_paths"])
p("C13", "A tree's digest commits to its content and survives pruning and encoding",
  "The digest of a tree is the one the Internet Computer specification defines: it is unchanged when any subtree is replaced by its pruned form, and differs when any label, leaf, node kind or structure differs. Encoding a tree and decoding it, by any of the provided decoders, returns the same tree.",
  ["inputs"], "every tree (any nesting, label, leaf) and every pruning",
  "Tests pin a few digests; separation of all shapes and preservation under all prunings cannot be sampled.",
  [C + "hash_tree/mod.rs", B + "cbor_parse_hash_tree.rs"], [("digest", C + "hash_tree/mod.rs"), ("fork_hash / leaf_hash / labeled_hash", C + "hash_tree/mod.rs"), ("serde", C + "hash_tree/mod.rs")],
  ["HashTree::digest", "HashTree::from_cbor"])
p("C14", "The ordered authenticated map behaves as a map and its proofs are exact",
  "After any sequence of inserts, deletes and in-place modifications, the ordered map holds exactly the last value written for each key, iterates in key order, compares with other maps by its entries alone, its root hash equals the digest of its full tree, and the depth of that tree stays logarithmic in the number of keys. Every witness (single key, key range, value range, key prefix, key list) has that same root hash, proves presence with the right value or absence for the queried keys, and leaves other values pruned and other keys hidden, except the nearest one on either side of what was asked for.",
  ["histories", "inputs"], "every operation history and every query",
  "Property tests of a few operations exist, but witnesses after mixed insert/delete/modify histories and range/prefix boundaries are sampled thinly and do not check absence proofs.",
  [C + "rb_tree/mod.rs"], [("insert / delete / modify", C + "rb_tree/mod.rs"), ("witness, key_range, value_range, keys_with_prefix", C + "rb_tree/mod.rs"), ("subtree_hash", C + "rb_tree/mod.rs")],
  ["RbTree public API"], [("RbTree", "left-leaning red-black tree with cached hashes", C + "rb_tree/mod.rs")])
p("C15", "The nested authenticated map behaves as a map over paths",
  "After any sequence of inserts, deletes and clears, a nested tree answers membership and value queries like a map from paths to leaves in which a leaf replaces a subtree and vice versa, keeps no empty branches, and its root hash equals the digest of its full tree. The witness for any path has the same root hash and proves presence with the right content or absence.",
  ["histories", "inputs"], "every operation history over paths of any depth, and every queried path",
  "Tests cover short histories of two or three paths.",
  [C + "nested_rb_tree.rs"], [("insert / delete / clear", C + "nested_rb_tree.rs"), ("witness", C + "nested_rb_tree.rs"), ("merge_hash_trees", C + "nested_rb_tree.rs")],
  ["NestedTree public API"], [("NestedTree", "tree of nested maps", C + "nested_rb_tree.rs")])
p("C16", "The certification tree proves exactly the entries currently in it",
  "After any history of inserting, deleting and clearing entries, the certification tree's root hash depends only on commitment to the current entries (an entry deleted or cleared is no longer provable, re-inserting restores it, and other entries are unaffected), and any witness has exactly that root hash. A witness for an entry and request URL proves the entry's presence together with the absence of the exact path and of every more specific wildcard for that URL, whenever they are in fact absent.",
  ["histories", "inputs"], "every history of entries (exact, wildcard, several per path) and every request URL",
  "Tests walk one insert/delete story; the interplay of shared prefixes, several entries per path and arbitrary URLs is not covered.",
  [H + "tree/certification_tree.rs", H + "tree/certification_tree_path.rs", H + "tree/certification_tree_entry.rs", H + "utils/wildcard_paths.rs"],
  [("insert / delete / clear / witness", H + "tree/certification_tree.rs"), ("to_tree_path", H + "tree/certification_tree_path.rs")],
  ["HttpCertificationTree public API"], [("HttpCertificationTree", "paths of current entries", H + "tree/certification_tree.rs")])
p("C17", "Whatever a canister certifies with the library, the verifier accepts",
  "If a canister inserts a certification for a request and response at an exact or wildcard path, publishes the tree's root hash, and serves the response with the tree's witness, the expression path and its certificate attached by the library's helper, then the verifier accepts it for every request that the entry answers and is the most specific match for, and returns the certified content. This holds in every state of the tree, including after other entries were added or removed.",
  ["histories", "inputs"], "every tree history, entry, request URL and response",
  "Producer and verifier live in different crates and are tested together on a few fixtures only.",
  [H + "tree/certification_tree.rs", H + "utils/response_header.rs", H + "tree/certification.rs", V + "verification/verify_request_response_pair.rs"],
  [("witness", H + "tree/certification_tree.rs"), ("add_v2_certificate_header", H + "utils/response_header.rs"), ("to_expr_path", H + "tree/certification_tree_path.rs")],
  ["add_v2_certificate_header", "verify_request_response_pair"])
p("C18", "The request hash covers exactly the certified parts of a request",
  "The request hash is the representation independent hash of the method, the certified headers (names compared case-insensitively) and, if the URL has a query, the certified query parameters in their original order, combined with the hash of the body. It changes when one of these changes and does not depend on header order, header-name case, or anything else in the request.",
  ["inputs"], "every request and every list of certified headers and query parameters",
  "Tests pin a few hashes.",
  [H + "hash/request_hash.rs", H + "http/http_request.rs"], [("request_hash", H + "hash/request_hash.rs"), ("get_filtered_query", H + "hash/request_hash.rs")], ["request_hash"])
p("C19", "The response hash covers exactly the certified parts of a response",
  "The response hash is the representation independent hash of the status code and of the certified headers (always including the certificate expression header, never the certificate header), combined with the hash of the body or the given body hash. It changes when one of these changes and does not depend on header order, header-name case, or uncertified headers.",
  ["inputs"], "every response and every inclusion or exclusion list",
  "Tests pin a few hashes.",
  [H + "hash/response_hash.rs"], [("response_hash", H + "hash/response_hash.rs"), ("response_headers_hash", H + "hash/response_hash.rs")], ["response_hash", "response_headers_hash"])
p("C20", "The representation independent hash is canonical",
  "The hash of a list of key-value pairs is the one the Internet Computer specification defines for maps of strings, numbers, bytes and nested arrays: independent of the order of the pairs, keeping repeated keys, and different for different contents.",
  ["inputs"], "every list of pairs, including large numbers, empty strings, repeated keys and nested arrays",
  "Tests pin half a dozen vectors.",
  [R + "representation_independent_hash.rs"], [("representation_independent_hash", R + "representation_independent_hash.rs")], ["representation_independent_hash"])
p("C21", "Certification expressions mean the same to the canister and to the verifier",
  "Every certification expression the library can build, with header and parameter names made of the characters of HTTP header names, is written as text that the verifier reads back as the same kind of certification with the same lists. Text that is not a well formed expression - malformed, or with missing, repeated, contradictory or wrongly typed parts, or followed by other text - is rejected rather than given some meaning, and insignificant white space does not change the meaning.",
  ["inputs"], "every expression, every layout of it and every malformed variant",
  "Tests parse a few fixtures; writer and reader live in different crates and are never compared systematically.",
  [H + "cel/create_cel_expr.rs", H + "cel/cel_builder.rs", V + "cel/parser.rs", V + "cel/ast_mapping.rs"],
  [("create_cel_expr", H + "cel/create_cel_expr.rs"), ("parse_cel_expression", V + "cel/parser.rs"), ("map_cel_ast", V + "cel/ast_mapping.rs")], ["create_cel_expr", "cel parse entry points"])
p("C22", "A certification can only be created for a response that carries its expression",
  "Creating a response-only or full certification succeeds only if the response has exactly one certificate expression header (name compared case-insensitively) and its value is exactly the text of the given expression; otherwise it fails and says why. A successful certification commits to that expression, the request (if full) and the response, and certifications are equal only if these are.",
  ["inputs"], "every response header list and expression",
  "Tests cover one example per error.",
  [H + "tree/certification.rs"], [("validate_response", H + "tree/certification.rs"), ("full / response_only / skip", H + "tree/certification.rs")], ["HttpCertification constructors"])
p("C23", "The asset router serves exactly the assets currently certified",
  "After any history of certifying, re-certifying and deleting assets, aliases, fallbacks and redirects, a request is answered with the response most recently certified for its path, and nothing is served or remains provable for what has been deleted; a path with no entry is answered by the fallback of the longest matching scope that has one, or refused. Status, headers, body and the list of assets reported by the router all follow the same state.",
  ["histories", "inputs"], "every history of certify and delete calls with any configuration, and every request path",
  "Tests follow fixed sequences over one fixture set; re-certification, partial deletion and overlapping aliases, scopes and redirects are not explored.",
  [A + "asset_router.rs", A + "asset_config.rs", A + "asset_map.rs"],
  [("certify_assets / delete_assets / delete_all_assets", A + "asset_router.rs"), ("get_asset_for_request", A + "asset_router.rs")],
  ["AssetRouter public API"], [("responses, fallback_responses, tree", "what is currently certified", A + "asset_router.rs")])
p("C24", "Every response the asset router serves can be verified",
  "In every state the router can reach, for every GET request without a query string that it answers (and whose range header, if any, is the plain form `bytes=N-` for an asset served in chunks), the served response with its attached certificate header passes verification against the router's current root hash for that same request, and verification returns the served status, headers and body.",
  ["histories", "inputs"], "every router state, request path, accept-encoding header and, where supported, range header",
  "The serving tests compare witnesses with the same code's own output and never run the verifier.",
  [A + "asset_router.rs", V + "verification/verify_request_response_pair.rs"],
  [("serve_asset", A + "asset_router.rs"), ("verify_request_response_pair", V + "verification/verify_request_response_pair.rs")],
  ["AssetRouter::serve_asset"])
p("C25", "Content encoding negotiation honours the client and the available encodings",
  "The encoding of a served asset is always one the router holds for that asset and the request's first accept-encoding header lists (names compared without case, and not with quality 0), or none at all; among those the router's own order of preference decides: brotli, zstd, gzip, deflate, identity, whatever the order and the other quality values in the header. Spacing, parameters and unknown encodings do not disturb the choice, and a request that accepts nothing the router holds gets the unencoded response or is refused.",
  ["inputs"], "every accept-encoding header and every set of available encodings",
  "Tests sample a few headers.",
  [A + "asset_router.rs"], [("prioritized_encodings", A + "asset_router.rs"), ("get_encoded_asset", A + "asset_router.rs")], ["AssetRouter::serve_asset"])
p("C26", "Large assets are served as chunks that reassemble exactly",
  "An asset larger than the chunk size is served as partial-content responses whose content-range states exactly the bytes they carry, and following the chunks from the start yields the asset once, completely and in order, for every encoding it is stored in; smaller assets are served whole. A range starting at no chunk boundary is refused. (Fallback responses are served whole.)",
  ["inputs", "histories"], "every asset length (around multiples of the chunk size), encoding and range header",
  "Tests use two or three sizes.",
  [A + "asset_router.rs"], [("insert_static_asset chunks", A + "asset_router.rs"), ("get_range_header", A + "asset_router.rs")], ["AssetRouter::serve_asset"])
p("C27", "Asset configuration selects and rewrites assets as configured",
  "Each asset is certified with the first configuration that matches it (by path, or by glob pattern), which alone determines its content type, extra headers, encodings, aliases and fallback scopes; invalid patterns are reported, and an asset whose configuration brings its own certificate expression is refused and leaves what was certified untouched. A redirect is answered with the configured location and the permanent or temporary status.",
  ["inputs", "configurations"], "every asset path, configuration list and order",
  "Tests use one fixture configuration.",
  [A + "asset_config.rs", A + "asset_router.rs", A + "asset.rs"], [("matches_asset", A + "asset_config.rs"), ("certify_asset_impl", A + "asset_router.rs")], ["AssetRouter public API"])
p("C28", "Certificates, trees and lists are decoded faithfully or refused",
  "Decoding a CBOR certificate, delegation, hash tree, principal-range list or string list yields exactly the encoded content, and input that is truncated, of the wrong type, or with missing fields is refused rather than completed with made-up content.",
  ["inputs"], "every encoded value of any size and every truncation or type change of it",
  "Tests decode a few fixtures and assert a few errors.",
  [B + "cbor_parser.rs", B + "cbor_parse_certificate.rs", B + "cbor_parse_hash_tree.rs"],
  [("parse_cbor", B + "cbor_parser.rs"), ("from_cbor", B + "cbor_parse_certificate.rs")], ["Certificate::from_cbor", "HashTree::from_cbor", "parse_cbor_principals_array", "parse_cbor_string_array"])
p("C29", "Request path and query are extracted consistently",
  "The path of a request is the percent-decoded path of its URL without scheme, host, query or fragment, and the query is the undecoded text after the first question mark, if any; malformed URLs and undecodable paths are reported as errors. Relative and absolute URLs with the same path give the same result.",
  ["inputs"], "every URL",
  "Tests sample a few URLs.",
  [H + "http/http_request.rs"], [("get_path / get_query", H + "http/http_request.rs")], ["HttpRequest::get_path", "HttpRequest::get_query"])
p("C30", "Requests and responses survive the canister interface unchanged",
  "A request or response built with the library, encoded for the canister interface and decoded again, is equal to the original in method, URL, headers (repetitions included), body, status and upgrade flag, and converting between plain and update forms changes nothing else. Two requests, or two responses, compare as equal exactly if they agree in all of these (responses regardless of the order of their headers).",
  ["inputs"], "every request and response",
  "Tests round trip one or two values.",
  [H + "http/http_request.rs", H + "http/http_response.rs"], [("CandidType implementations", H + "http/http_request.rs"), ("CandidType implementations", H + "http/http_response.rs")], ["candid encode/decode of the public types"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
for x in props:
    assert len(x["title"]) <= 80, x["title"]
