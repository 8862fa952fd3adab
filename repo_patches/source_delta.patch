From 8f72dbf0519b3a47f5aeb43ef953c23ffaf57554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 01/30] fix: an empty subtree says nothing about a looked up
 label

When forks are flattened an empty subtree disappears. Treating it as proof of
absence made lookups answer absent for labels that exist or may have been
pruned on the other side of the fork.
---
 packages/ic-certification/src/hash_tree/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..06b706b 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -305,6 +305,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// The label was not found, but could still be to the right.
     Greater,
 
+    /// The tree is empty, so it says nothing about the label.
+    Empty,
+
     /// The label was found. Contains a reference to the [HashTreeNode].
     Found(&'node HashTreeNode<Storage>),
 }
@@ -446,20 +449,26 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
+                    // An empty left side disappears when the forks are flattened.
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     result => result,
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +500,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Greater | LLR::Less | LLR::Empty), _) => Absent,
         }
     }
 }
@@ -517,7 +526,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Greater | LLR::Less | LLR::Empty) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From ceaabd3c910bdd8681dfd1f8842f081d0213f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 02/30] fix: reject signatures and keys that are not compressed
 curve points

core_verify panics on inputs shorter than a point and accepts inputs
with excess bytes or a stray infinity flag.
---
 .../src/signature_verification/mod.rs           | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..04b4879 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -10,11 +10,28 @@ mod reproducible_rng;
 #[cfg(test)]
 mod tests;
 
+/// Length of a compressed G1 point.
+const SIGNATURE_LENGTH: usize = 48;
+
+/// Length of a compressed G2 point.
+const KEY_LENGTH: usize = 96;
+
+/// Whether the bytes have the form of a compressed curve point other than infinity: the exact length,
+/// the compression flag set and the infinity flag clear.
+fn is_compressed_point(bytes: &[u8], length: usize) -> bool {
+    bytes.len() == length && bytes[0] & 0b1100_0000 == 0b1000_0000
+}
+
 pub fn verify_signature(
     pk: &[u8],
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    // `core_verify` reads past the end of shorter inputs, and ignores any excess bytes.
+    if !is_compressed_point(sig, SIGNATURE_LENGTH) || !is_compressed_point(pk, KEY_LENGTH) {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From 84597630d16a674fa1e4480ab2b90b5f4900a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 03/30] fix: do not overflow when computing the certificate
 time window

---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From 20c7f6eb86c02e205cc86720ee1fa1d95b51bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 04/30] fix: report invalid principals instead of panicking on
 them

---
 packages/ic-cbor/src/cbor_parser.rs                   | 11 +++++++----
 .../src/certificate_verification.rs                   |  6 +++++-
 packages/ic-certificate-verification/src/error.rs     |  7 +++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..05ec85b 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -223,10 +223,13 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-            Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
-            ))
+            match (
+                Principal::try_from_slice(first_principal),
+                Principal::try_from_slice(second_principal),
+            ) {
+                (Ok(a), Ok(b)) => Ok((a, b)),
+                _ => Err(CborError::MalformedCborCanisterRanges),
+            }
         })
         .collect::<Result<_, _>>()
 }
diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index f31096d..46889ca 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -95,7 +95,11 @@ fn verify_delegation(
         );
     };
 
-    let canister_id = Principal::from_slice(canister_id);
+    let canister_id = Principal::try_from_slice(canister_id).map_err(|_| {
+        CertificateVerificationError::InvalidCanisterId {
+            canister_id: canister_id.to_vec(),
+        }
+    })?;
     let canister_ranges: Vec<(Principal, Principal)> = parse_cbor_principals_array(canister_range)?;
     if !principal_is_within_ranges(&canister_id, &canister_ranges[..]) {
         // the certificate is not authorized to answer calls for this canister
diff --git a/packages/ic-certificate-verification/src/error.rs b/packages/ic-certificate-verification/src/error.rs
index a7c014e..e91faed 100644
--- a/packages/ic-certificate-verification/src/error.rs
+++ b/packages/ic-certificate-verification/src/error.rs
@@ -54,6 +54,13 @@ pub enum CertificateVerificationError {
         canister_ranges: Vec<(Principal, Principal)>,
     },
 
+    /// The canister ID is not a valid principal
+    #[error("Invalid canister ID: {canister_id:?}")]
+    InvalidCanisterId {
+        /// The bytes that are not a valid principal
+        canister_id: Vec<u8>,
+    },
+
     /// Certificate delegation is missing the required canister range
     #[error("Subnet canister ID ranges not found in certificate at path: {path:?}")]
     SubnetCanisterIdRangesNotFound {
-- 
2.43.0


From 942982fc68d196b537ace4c49dafcc360b0a6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 05/30] fix: require a CBOR map to have as many pairs as it
 declares

The declared size is also no longer trusted for the initial allocation.
---
 packages/ic-cbor/src/cbor_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 05ec85b..a5ec38c 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -177,10 +177,10 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         5 => {
             let data_len = cbor_value.to_usize();
             let (i, data) = fold_many_m_n(
-                0,
+                data_len,
                 data_len,
                 extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
-- 
2.43.0


From 105546b403c51163d74333e62c0d82d88249f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 06/30] fix: limit the nesting depth of decoded CBOR

The decoder is recursive, so deeply nested input exhausted the stack.
---
 packages/ic-cbor/src/cbor_parser.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index a5ec38c..c0e8743 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -121,8 +121,8 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -132,12 +132,20 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+/// The deepest nesting of arrays, maps and tags that is accepted.
+/// The parser is recursive, so that deeper input could exhaust the stack.
+const MAX_NESTING_DEPTH: usize = 256;
+
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(Err::Failure(Error::new(i, ErrorKind::TooLarge)));
+    }
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -169,7 +177,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
@@ -179,7 +187,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             let (i, data) = fold_many_m_n(
                 data_len,
                 data_len,
-                extract_key_val_pair,
+                |i| extract_key_val_pair(i, depth + 1),
                 HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
@@ -191,15 +199,15 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         }
 
         // ignore custom data tags and floats, we don't currently need them
-        6 => parser(i),
-        7 => parser(i),
+        6 => parser(i, depth + 1),
+        7 => parser(i, depth + 1),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, 0), eof)(i)?;
 
     Ok(result)
 }
-- 
2.43.0


From bdd8baee7a70921a379b3efe222c26d9c7867f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 07/30] fix: refuse a certificate whose delegation is not a map

Such a delegation was ignored.
---
 .../ic-cbor/src/cbor_parse_certificate.rs     | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parse_certificate.rs b/packages/ic-cbor/src/cbor_parse_certificate.rs
index 293a39c..845fe40 100644
--- a/packages/ic-cbor/src/cbor_parse_certificate.rs
+++ b/packages/ic-cbor/src/cbor_parse_certificate.rs
@@ -36,27 +36,33 @@ fn parsed_cbor_to_certificate(parsed_cbor: CborValue) -> CborResult<Certificate>
         ));
     };
 
-    let delegation = if let Some(CborValue::Map(delegation_map)) = map.get("delegation") {
-        let Some(CborValue::ByteString(subnet_id)) = delegation_map.get("subnet_id") else {
+    let delegation = match map.get("delegation") {
+        Some(CborValue::Map(delegation_map)) => {
+            let Some(CborValue::ByteString(subnet_id)) = delegation_map.get("subnet_id") else {
+                return Err(CborError::MalformedCertificate(
+                    "Expected Delegation Map to contain a Subnet ID when parsing Certificate Cbor"
+                        .into(),
+                ));
+            };
+
+            let Some(CborValue::ByteString(certificate)) = delegation_map.get("certificate") else {
+                return Err(CborError::MalformedCertificate(
+                    "Expected Delegation Map to contain a Certificate when parsing Certificate Cbor"
+                        .into(),
+                ));
+            };
+
+            Some(Delegation {
+                subnet_id: subnet_id.to_owned(),
+                certificate: certificate.to_owned(),
+            })
+        }
+        Some(_) => {
             return Err(CborError::MalformedCertificate(
-                "Expected Delegation Map to contain a Subnet ID when parsing Certificate Cbor"
-                    .into(),
+                "Expected Delegation to be a Map when parsing Certificate Cbor".into(),
             ));
-        };
-
-        let Some(CborValue::ByteString(certificate)) = delegation_map.get("certificate") else {
-            return Err(CborError::MalformedCertificate(
-                "Expected Delegation Map to contain a Certificate when parsing Certificate Cbor"
-                    .into(),
-            ));
-        };
-
-        Some(Delegation {
-            subnet_id: subnet_id.to_owned(),
-            certificate: certificate.to_owned(),
-        })
-    } else {
-        None
+        }
+        None => None,
     };
 
     Ok(Certificate {
-- 
2.43.0


From b8a8d725f906a023d2c6c036c6d85de24ee8fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 08/30] fix: refuse hash tree nodes and canister ranges with
 excess elements

---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 12 ++++++++++++
 packages/ic-cbor/src/cbor_parser.rs          |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 19df10c..257a751 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -21,6 +21,18 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
         cbor_tags.reverse();
 
         if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.pop() {
+            let expected_elements = match hash_tree_tag {
+                CborHashTree::Empty => 0,
+                CborHashTree::Leaf | CborHashTree::Pruned => 1,
+                CborHashTree::Labelled | CborHashTree::Fork => 2,
+            };
+
+            if cbor_tags.len() > expected_elements {
+                return Err(CborError::MalformedHashTree(String::from(
+                    "Too many elements for node",
+                )));
+            }
+
             match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index c0e8743..7413b4f 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -226,8 +226,8 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 return Err(CborError::MalformedCborCanisterRanges);
             };
 
-            let (first_principal, second_principal) = match (range.first(), range.get(1)) {
-                (Some(CborValue::ByteString(a)), Some(CborValue::ByteString(b))) => (a, b),
+            let (first_principal, second_principal) = match range.as_slice() {
+                [CborValue::ByteString(a), CborValue::ByteString(b)] => (a, b),
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-- 
2.43.0


From 64d9d47150262b19a2acf86975c619905a70445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 09/30] fix: limit the nesting depth of parsed CEL expressions

The parser is recursive, so deeply nested input exhausted the stack.
---
 .../src/cel/parser.rs                         | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..2c276a2 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -161,7 +161,31 @@ fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     )(i)
 }
 
+/// The deepest nesting of functions, objects and arrays that is accepted.
+/// The parser is recursive, so that deeper input could exhaust the stack.
+const MAX_NESTING_DEPTH: usize = 32;
+
+fn is_nested_too_deeply(i: &str) -> bool {
+    let mut depth = 0usize;
+
+    i.bytes().any(|e| {
+        match e {
+            b'(' | b'[' | b'{' => depth += 1,
+            b')' | b']' | b'}' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+
+        depth > MAX_NESTING_DEPTH
+    })
+}
+
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
+    if is_nested_too_deeply(i) {
+        return Err(CelParserError::CelSyntaxException(
+            "the expression is nested too deeply".into(),
+        ));
+    }
+
     let result = cel_value::<nom::error::Error<&str>>(i);
 
     match result {
-- 
2.43.0


From 4def7a02fd774844bcfc2e7601e05321c58040f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 10/30] fix: refuse CEL expressions followed by other text

---
 packages/ic-response-verification/src/cel/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 2c276a2..7d2429c 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -3,7 +3,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, take_while};
 use nom::character::complete::{char, multispace0, one_of};
 use nom::character::is_alphanumeric;
-use nom::combinator::{cut, map};
+use nom::combinator::{all_consuming, cut, map};
 use nom::error::{context, ContextError, ParseError};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, separated_pair, terminated, tuple};
@@ -186,7 +186,10 @@ pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
         ));
     }
 
-    let result = cel_value::<nom::error::Error<&str>>(i);
+    let result = all_consuming(terminated(
+        cel_value::<nom::error::Error<&str>>,
+        multispace0,
+    ))(i);
 
     match result {
         Err(e) => Err(CelParserError::CelSyntaxException(e.to_string())),
-- 
2.43.0


From 7a3b3b959c0ac46e8385212efbc905c07cf51cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 11/30] fix: refuse a CEL response header list without headers

Such a list was treated as if the whole property were missing, so that
an expression could name both kinds of list.
---
 .../ic-response-verification/src/cel/ast_mapping.rs    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/cel/ast_mapping.rs b/packages/ic-response-verification/src/cel/ast_mapping.rs
index cbba636..207cf07 100644
--- a/packages/ic-response-verification/src/cel/ast_mapping.rs
+++ b/packages/ic-response-verification/src/cel/ast_mapping.rs
@@ -148,7 +148,15 @@ fn validate_response_certification<'a>(
                     validate_object(certified_response_headers, "ResponseHeaderList")
                 })
                 .transpose()?
-                .and_then(|certified_response_headers| certified_response_headers.get("headers"))
+                .map(|certified_response_headers| {
+                    certified_response_headers.get("headers").ok_or_else(|| {
+                        CelParserError::MissingObjectProperty {
+                            object_name: "ResponseHeaderList".into(),
+                            expected_property_name: "headers".into(),
+                        }
+                    })
+                })
+                .transpose()?
                 .map(|headers| validate_string_array(headers, property_name))
                 .transpose()
         };
-- 
2.43.0


From 48c1612a8d71521556b631da8213e92a97a1e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 12/30] fix: refuse CEL no_certification properties that are
 not Empty

---
 .../ic-response-verification/src/cel/ast_mapping.rs  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/ast_mapping.rs b/packages/ic-response-verification/src/cel/ast_mapping.rs
index 207cf07..82ad9e8 100644
--- a/packages/ic-response-verification/src/cel/ast_mapping.rs
+++ b/packages/ic-response-verification/src/cel/ast_mapping.rs
@@ -94,7 +94,11 @@ fn validate_request_certification<'a>(
     return match (no_request_certification, request_certification) {
         (Some(_), Some(_)) => Err(CelParserError::ExtraneousRequestCertificationProperty),
         (None, None) => Err(CelParserError::MissingRequestCertificationProperty),
-        (Some(_), None) => Ok(None),
+        (Some(no_request_certification), None) => {
+            validate_object(no_request_certification, "Empty")?;
+
+            Ok(None)
+        }
         (None, Some(request_certification)) => {
             let request_certification =
                 validate_object(request_certification, "RequestCertification")?;
@@ -199,7 +203,11 @@ pub(crate) fn map_cel_ast<'a>(cel: &'a CelValue<'a>) -> CelParserResult<CelExpre
     match (no_certification, certification) {
         (Some(_), Some(_)) => Err(CelParserError::ExtraneousValidationArgsProperty),
         (None, None) => Err(CelParserError::MissingValidationArgsProperty),
-        (Some(_), None) => Ok(CelExpression::Default(DefaultCelExpression::Skip)),
+        (Some(no_certification), None) => {
+            validate_object(no_certification, "Empty")?;
+
+            Ok(CelExpression::Default(DefaultCelExpression::Skip))
+        }
         (None, Some(certification)) => {
             let certification = validate_object(certification, "Certification")?;
 
-- 
2.43.0


From 1cdc8d2b843f0bf5ecfc4cbbc28dd1804852b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 13/30] fix: refuse CEL objects that repeat a property

---
 packages/ic-response-verification/src/cel/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 7d2429c..b111bf5 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -3,7 +3,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, take_while};
 use nom::character::complete::{char, multispace0, one_of};
 use nom::character::is_alphanumeric;
-use nom::combinator::{all_consuming, cut, map};
+use nom::combinator::{all_consuming, cut, map, map_opt};
 use nom::error::{context, ContextError, ParseError};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, separated_pair, terminated, tuple};
@@ -119,9 +119,15 @@ fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             drop_separators(
                 '{',
                 '}',
-                map(
+                map_opt(
                     separated_list0(trim_whitespace(char(',')), key_value),
-                    |tuple_vec| tuple_vec.into_iter().collect(),
+                    |tuple_vec| {
+                        let properties = tuple_vec.len();
+                        let map: HashMap<_, _> = tuple_vec.into_iter().collect();
+
+                        // a repeated property would contradict itself
+                        (map.len() == properties).then_some(map)
+                    },
                 ),
             ),
         )),
-- 
2.43.0


From b93b6ef08583a15dd39804d75349060e657f101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 14/30] fix: accept all header name characters in CEL strings

Certification expressions naming, for example, a query parameter with an
underscore could be certified but not verified.
---
 packages/ic-response-verification/src/cel/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index b111bf5..76fa569 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -65,7 +65,8 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
+    // the characters of HTTP header names, see RFC 9110
+    let acceptable_special_chars = "!#$%&'*+-.^_`|~";
 
     context(
         "parse_str",
-- 
2.43.0


From 23f0e13ecac5808086363aa37969e196c3b54518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 15/30] fix: do not take some non-ASCII characters for
 alphanumeric ones in CEL

---
 packages/ic-response-verification/src/cel/parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 76fa569..64917d1 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -2,7 +2,6 @@ use crate::cel::error::{CelParserError, CelParserResult};
 use nom::branch::alt;
 use nom::bytes::complete::{escaped, take_while};
 use nom::character::complete::{char, multispace0, one_of};
-use nom::character::is_alphanumeric;
 use nom::combinator::{all_consuming, cut, map, map_opt};
 use nom::error::{context, ContextError, ParseError};
 use nom::multi::separated_list0;
@@ -58,7 +57,7 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
     context(
         "parse_ident",
-        take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
+        take_while(move |e: char| acceptable_special_chars.contains(e) || e.is_ascii_alphanumeric()),
     )(i)
 }
 
@@ -71,7 +70,7 @@ fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     context(
         "parse_str",
         escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
+            take_while(move |e: char| acceptable_special_chars.contains(e) || e.is_ascii_alphanumeric()),
             '\\',
             one_of("\"n\\"),
         ),
-- 
2.43.0


From e0c1cd9e11530473a7aa3eb93d57c409f45b6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 16/30] fix: check all more specific wildcards for paths ending
 in a terminator

The last segment of a request for, say, /a/<*> was dropped before
looking for more specific wildcards.
---
 .../ic-response-verification/src/validation/v2_validation.rs   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..25a6b65 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -115,6 +115,9 @@ pub fn validate_expr_path(
         });
     }
 
+    // keep a request path segment that looks like a terminator from being taken for one
+    request_url_path.push(EXACT_PATH_TERMINATOR_BYTES.to_vec());
+
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
     for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
-- 
2.43.0


From 4d56e5e677fbcf3e6d2e5340eb1a286a88d10b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 17/30] fix: witness all more specific wildcards for paths
 starting with http_expr

The first segment of a request for, say, /http_expr/a was dropped before
looking for more specific wildcards, so that the response could not be
verified.
---
 .../src/tree/certification_tree.rs            | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..a72323f 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -1,6 +1,6 @@
 use super::{
     certification_tree_entry::HttpCertificationTreeEntry,
-    certification_tree_path::CertificationTreePathSegment,
+    certification_tree_path::{CertificationTreePathSegment, InnerTreePath},
 };
 use crate::{
     tree::HttpCertificationPathType,
@@ -13,6 +13,11 @@ use std::fmt::{Debug, Formatter};
 
 type CertificationTree = NestedTree<CertificationTreePathSegment, Vec<u8>>;
 
+fn with_path_prefix(mut path: InnerTreePath) -> InnerTreePath {
+    path.insert(0, PATH_PREFIX_BYTES.to_vec());
+    path
+}
+
 /// A certification tree for generic HTTP requests.
 #[derive(Clone)]
 pub struct HttpCertificationTree {
@@ -98,12 +103,16 @@ impl HttpCertificationTree {
                 let witness = merge_hash_trees(witness, self.tree.witness(&responding_tree_path));
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
-                // matches the request URL.
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                // matches the request URL. The prefix keeps a first segment that looks like the prefix
+                // from being taken for it.
+                more_specific_wildcards_for(
+                    &with_path_prefix(requested_tree_path),
+                    &with_path_prefix(responding_tree_path),
+                )
+                .iter()
+                .fold(witness, |acc, path| {
+                    merge_hash_trees(acc, self.tree.witness(path))
+                })
             }
         };
 
-- 
2.43.0


From 160e4ff7d47b23953d31359f328b2c362121b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 18/30] fix: refuse CBOR floats and simple values instead of
 skipping them

A skipped value was missing from the array or map that contained it, and
the item after it took its place.
---
 packages/ic-cbor/src/cbor_parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 7413b4f..f7a2e60 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -198,9 +198,8 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
             Ok((i, CborValue::Map(data)))
         }
 
-        // ignore custom data tags and floats, we don't currently need them
+        // ignore custom data tags, we don't currently need them
         6 => parser(i, depth + 1),
-        7 => parser(i, depth + 1),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
-- 
2.43.0


From 8e3ee6c6cc6b4886e94fe6afc9b38138aa43b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 19/30] fix: remove everything certified for an asset when it
 is deleted or replaced

Deleting an asset of more than one chunk left its chunks in the certification
tree, and certifying an asset again left the previous response in the tree and
the previous chunks to be served. What is removed is now what is held.
---
 .../src/asset_router.rs                       | 164 +++++-------------
 1 file changed, 47 insertions(+), 117 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..65f850c 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -359,16 +359,16 @@ impl<'content> AssetRouter<'content> {
                 if let Some(mut encoded_asset) = encoded_asset {
                     encoded_asset.url.clone_from(&asset.url);
 
-                    self.delete_asset_impl(encoded_asset, asset_config, Some(encoding))?;
+                    self.delete_asset_impl(encoded_asset, asset_config, Some(encoding));
                 }
             }
 
-            self.delete_asset_impl(asset.clone(), asset_config, None)?;
+            self.delete_asset_impl(asset.clone(), asset_config, None);
         }
 
         for asset_config in asset_configs {
-            if let NormalizedAssetConfig::Redirect { from, to, kind } = asset_config {
-                self.delete_redirect(from, to, kind)?;
+            if let NormalizedAssetConfig::Redirect { from, .. } = asset_config {
+                self.remove_responses(&from, None);
             }
         }
 
@@ -520,57 +520,23 @@ impl<'content> AssetRouter<'content> {
         asset: Asset<'content, 'path>,
         asset_config: Option<&NormalizedAssetConfig>,
         encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult {
-        match asset_config {
-            Some(NormalizedAssetConfig::Pattern {
-                content_type,
-                headers,
-                ..
-            }) => {
-                self.delete_static_asset(asset, content_type.clone(), headers.clone(), encoding)?;
-            }
-            Some(NormalizedAssetConfig::File {
-                content_type,
-                headers,
-                fallback_for,
-                aliased_by,
-                ..
-            }) => {
-                self.delete_static_asset(
-                    asset.clone(),
-                    content_type.clone(),
-                    headers.clone(),
-                    encoding,
-                )?;
-
-                for fallback_for in fallback_for.iter() {
-                    self.delete_fallback_asset(
-                        asset.clone(),
-                        content_type.clone(),
-                        headers.clone(),
-                        fallback_for.clone(),
-                        encoding,
-                    )?;
-                }
-
-                for aliased_by in aliased_by.iter() {
-                    let mut aliased_asset = asset.clone();
-                    aliased_asset.url = Cow::Owned(aliased_by.clone());
+    ) {
+        self.remove_responses(&asset.url, encoding);
 
-                    self.delete_static_asset(
-                        aliased_asset,
-                        content_type.clone(),
-                        headers.clone(),
-                        encoding,
-                    )?;
-                }
+        if let Some(NormalizedAssetConfig::File {
+            fallback_for,
+            aliased_by,
+            ..
+        }) = asset_config
+        {
+            for fallback_for in fallback_for.iter() {
+                self.remove_fallback_response(&fallback_for.scope, encoding);
             }
-            _ => {
-                self.delete_static_asset(asset, None, vec![], encoding)?;
+
+            for aliased_by in aliased_by.iter() {
+                self.remove_responses(aliased_by, encoding);
             }
         }
-
-        Ok(())
     }
 
     fn insert_static_asset<'path>(
@@ -582,6 +548,7 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let asset_url = asset.url.to_string();
         let total_length = asset.content.len();
+        let mut chunk_responses = vec![];
 
         if total_length > ASSET_CHUNK_SIZE {
             let mut range_begin = 0;
@@ -593,11 +560,10 @@ impl<'content> AssetRouter<'content> {
                     encoding,
                     Some(range_begin),
                 )?;
-                self.tree.borrow_mut().insert(&response.tree_entry);
-                self.responses.insert(
+                chunk_responses.push((
                     RequestKey::new(&asset_url, encoding_str(encoding), Some(range_begin)),
                     response,
-                );
+                ));
                 range_begin += ASSET_CHUNK_SIZE;
             }
         }
@@ -605,6 +571,11 @@ impl<'content> AssetRouter<'content> {
         let response =
             Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
 
+        self.remove_responses(&asset_url, encoding);
+        for (key, chunk_response) in chunk_responses {
+            self.tree.borrow_mut().insert(&chunk_response.tree_entry);
+            self.responses.insert(key, chunk_response);
+        }
         self.tree.borrow_mut().insert(&response.tree_entry);
         self.responses.insert(
             RequestKey::new(&asset_url, encoding_str(encoding), None),
@@ -613,35 +584,31 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_static_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let asset_url = asset.url.to_string();
-        let response =
-            Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
+    /// Removes the response for a URL and an encoding, all of its chunks, and everything that
+    /// is certified for them.
+    fn remove_responses(&mut self, url: &str, encoding: Option<AssetEncoding>) {
+        let key = RequestKey::new(url, encoding_str(encoding), None);
+        if let Some(response) = self.responses.remove(&key) {
+            self.tree.borrow_mut().delete(&response.tree_entry);
 
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses
-            .remove(&RequestKey::new(&asset_url, encoding_str(encoding), None));
-
-        if response.response.body().len() > ASSET_CHUNK_SIZE {
-            // Delete also chunks.
-            let mut range_begin: usize = 0;
-            while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
-                    &asset_url,
-                    encoding_str(encoding),
-                    Some(range_begin),
-                ));
+            let mut range_begin = 0;
+            while let Some(chunk_response) = self.responses.remove(&RequestKey::new(
+                url,
+                encoding_str(encoding),
+                Some(range_begin),
+            )) {
+                self.tree.borrow_mut().delete(&chunk_response.tree_entry);
                 range_begin += ASSET_CHUNK_SIZE;
             }
         }
+    }
 
-        Ok(())
+    /// Removes the fallback response for a scope and an encoding, and its certification.
+    fn remove_fallback_response(&mut self, scope: &str, encoding: Option<AssetEncoding>) {
+        let key = RequestKey::new(scope, encoding_str(encoding), None);
+        if let Some(response) = self.fallback_responses.remove(&key) {
+            self.tree.borrow_mut().delete(&response.tree_entry);
+        }
     }
 
     fn prepare_static_asset<'path>(
@@ -687,6 +654,7 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
+        self.remove_fallback_response(&fallback_for.scope, encoding);
         self.tree.borrow_mut().insert(&response.tree_entry);
         self.fallback_responses.insert(
             RequestKey::new(&fallback_for.scope, encoding_str(encoding), None),
@@ -695,31 +663,6 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_fallback_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        fallback_for: AssetFallbackConfig,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_fallback_asset(
-            asset,
-            additional_headers,
-            content_type,
-            fallback_for.clone(),
-            encoding,
-        )?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.fallback_responses.remove(&RequestKey::new(
-            &fallback_for.scope,
-            encoding_str(encoding),
-            None,
-        ));
-        Ok(())
-    }
-
     fn prepare_fallback_asset<'path>(
         asset: Asset<'content, 'path>,
         additional_headers: Vec<(String, String)>,
@@ -755,6 +698,7 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
+        self.remove_responses(&from, None);
         self.tree.borrow_mut().insert(&response.tree_entry);
 
         self.responses
@@ -763,20 +707,6 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_redirect(
-        &mut self,
-        from: String,
-        to: String,
-        kind: AssetRedirectKind,
-    ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_redirect(from.clone(), to, kind)?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses.remove(&RequestKey::new(&from, None, None));
-
-        Ok(())
-    }
-
     fn prepare_redirect(
         from: String,
         to: String,
-- 
2.43.0


From 38dbf9dc2d13e72f8ac353c76596dee5d5e9907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 20/30] fix: certify the chunks of an asset for the requests
 they answer

The chunks were certified as responses to a request without a range header, so
the answers to the range requests that fetch them did not verify.  The first
chunk answers both a request for its range and one without a range.
---
 .../src/asset_router.rs                       | 68 ++++++++++++++-----
 packages/ic-asset-certification/src/types.rs  | 10 +++
 2 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 65f850c..9ac0b6c 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -225,9 +225,8 @@ impl<'content> AssetRouter<'content> {
         let preferred_encodings = self.get_preferred_encodings(request);
         let request_url = request.get_path()?;
         let maybe_range_begin = Self::maybe_get_range_begin(request)?;
-        let mut cert_response = self
-            .get_asset_for_request(&request_url, preferred_encodings, maybe_range_begin)
-            .cloned()?;
+        let mut cert_response =
+            self.get_asset_for_request(&request_url, preferred_encodings, maybe_range_begin)?;
         let witness = self
             .tree
             .borrow()
@@ -396,7 +395,7 @@ impl<'content> AssetRouter<'content> {
         req_path: &'a str,
         preferred_encodings: Vec<&'a str>,
         maybe_range_begin: Option<usize>,
-    ) -> AssetCertificationResult<&CertifiedAssetResponse<'content>> {
+    ) -> AssetCertificationResult<CertifiedAssetResponse<'content>> {
         if let Some(response) =
             self.get_encoded_asset(&preferred_encodings, req_path, maybe_range_begin)
         {
@@ -412,10 +411,10 @@ impl<'content> AssetRouter<'content> {
                     self.responses
                         .get(&RequestKey::new(req_path, None, Some(0)))
                 {
-                    return Ok(first_chunk_response);
+                    return Ok(first_chunk_response.with_certification_of(response));
                 }
             } else {
-                return Ok(response);
+                return Ok(response.clone());
             }
         }
 
@@ -427,27 +426,27 @@ impl<'content> AssetRouter<'content> {
             scope.push('/');
 
             if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, &scope) {
-                return Ok(response);
+                return Ok(response.clone());
             }
 
             if let Some(response) = self
                 .fallback_responses
                 .get(&RequestKey::new(&scope, None, None))
             {
-                return Ok(response);
+                return Ok(response.clone());
             }
 
             scope.pop();
 
             if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, &scope) {
-                return Ok(response);
+                return Ok(response.clone());
             }
 
             if let Some(response) = self
                 .fallback_responses
                 .get(&RequestKey::new(&scope, None, None))
             {
-                return Ok(response);
+                return Ok(response.clone());
             }
 
             url_scopes.pop();
@@ -559,6 +558,7 @@ impl<'content> AssetRouter<'content> {
                     additional_headers.clone(),
                     encoding,
                     Some(range_begin),
+                    true,
                 )?;
                 chunk_responses.push((
                     RequestKey::new(&asset_url, encoding_str(encoding), Some(range_begin)),
@@ -568,8 +568,28 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
-        let response =
-            Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
+        let mut response = Self::prepare_static_asset(
+            asset.clone(),
+            content_type.clone(),
+            additional_headers.clone(),
+            encoding,
+            None,
+            false,
+        )?;
+
+        if total_length > ASSET_CHUNK_SIZE {
+            // A request for the whole asset, that does not ask for a range, is answered with the
+            // first chunk, so that is what is certified for it.
+            response.tree_entry = Self::prepare_static_asset(
+                asset,
+                content_type,
+                additional_headers,
+                encoding,
+                Some(0),
+                false,
+            )?
+            .tree_entry;
+        }
 
         self.remove_responses(&asset_url, encoding);
         for (key, chunk_response) in chunk_responses {
@@ -617,6 +637,7 @@ impl<'content> AssetRouter<'content> {
         additional_headers: Vec<(String, String)>,
         encoding: Option<AssetEncoding>,
         range_begin: Option<usize>,
+        is_range_requested: bool,
     ) -> AssetCertificationResult<CertifiedAssetResponse<'content>> {
         let asset_url = asset.url.to_string();
 
@@ -626,6 +647,7 @@ impl<'content> AssetRouter<'content> {
             content_type,
             encoding,
             range_begin,
+            is_range_requested,
             None,
         )?;
 
@@ -676,6 +698,7 @@ impl<'content> AssetRouter<'content> {
             content_type,
             encoding,
             None,
+            false,
             fallback_for.status_code,
         )?;
 
@@ -725,6 +748,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -742,6 +766,7 @@ impl<'content> AssetRouter<'content> {
         content_type: Option<String>,
         encoding: Option<AssetEncoding>,
         range_begin: Option<usize>,
+        is_range_requested: bool,
         status_code: Option<StatusCode>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut content = asset.content;
@@ -757,6 +782,7 @@ impl<'content> AssetRouter<'content> {
             headers.push(("content-encoding".to_string(), encoding.to_string()));
         }
 
+        let mut certified_request_headers = vec![];
         let mut request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
@@ -767,7 +793,13 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            certified_request_headers.push(http::header::RANGE.to_string());
+            if is_range_requested {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
         Self::prepare_response_and_certification(
@@ -775,6 +807,7 @@ impl<'content> AssetRouter<'content> {
             status_code,
             content,
             headers,
+            certified_request_headers,
             request_headers,
         )
     }
@@ -785,6 +818,7 @@ impl<'content> AssetRouter<'content> {
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
+        request_headers: Vec<(String, String)>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
 
@@ -803,7 +837,7 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        let request = HttpRequest::get(url).with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
@@ -821,7 +855,7 @@ impl<'content> AssetRouter<'content> {
         preferred_encodings: &[&str],
         url: &str,
         maybe_range_begin: Option<usize>,
-    ) -> Option<&CertifiedAssetResponse<'content>> {
+    ) -> Option<CertifiedAssetResponse<'content>> {
         for encoding in preferred_encodings {
             if let Some(response) = self.responses.get(&RequestKey::new(
                 url,
@@ -834,12 +868,12 @@ impl<'content> AssetRouter<'content> {
                         Some(encoding.to_string()),
                         Some(0),
                     )) {
-                        return Some(first_chunk_response);
+                        return Some(first_chunk_response.with_certification_of(response));
                     } else {
                         return None;
                     }
                 } else {
-                    return Some(response);
+                    return Some(response.clone());
                 }
             }
         }
diff --git a/packages/ic-asset-certification/src/types.rs b/packages/ic-asset-certification/src/types.rs
index 8f9682d..0df0ea3 100644
--- a/packages/ic-asset-certification/src/types.rs
+++ b/packages/ic-asset-certification/src/types.rs
@@ -6,6 +6,16 @@ pub(crate) struct CertifiedAssetResponse<'a> {
     pub(crate) tree_entry: HttpCertificationTreeEntry<'a>,
 }
 
+impl<'a> CertifiedAssetResponse<'a> {
+    /// This response, certified by the tree entry of another one.
+    pub(crate) fn with_certification_of(&self, other: &CertifiedAssetResponse<'a>) -> Self {
+        Self {
+            response: self.response.clone(),
+            tree_entry: other.tree_entry.clone(),
+        }
+    }
+}
+
 /// A key created from request data, to retrieve the corresponding response.
 #[derive(Debug, Eq, Hash, PartialEq, Clone)]
 pub(crate) struct RequestKey {
-- 
2.43.0


From 0d3b818def23151596a8b834c47d99b4507a2491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 21/30] fix: answer range requests for assets that are not
 split into chunks

They were answered with a fallback, which does not verify, or refused.
---
 .../src/asset_router.rs                       | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 9ac0b6c..37ff498 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -402,10 +402,7 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
-        if let Some(response) =
-            self.responses
-                .get(&RequestKey::new(req_path, None, maybe_range_begin))
-        {
+        if let Some(response) = self.get_response(req_path, None, maybe_range_begin) {
             if response.response.body().len() > ASSET_CHUNK_SIZE {
                 if let Some(first_chunk_response) =
                     self.responses
@@ -850,6 +847,23 @@ impl<'content> AssetRouter<'content> {
         Ok((response, certification))
     }
 
+    /// The response for a path and an encoding. A response that is not split into chunks
+    /// answers requests for any range.
+    fn get_response(
+        &self,
+        path: &str,
+        encoding: Option<String>,
+        maybe_range_begin: Option<usize>,
+    ) -> Option<&CertifiedAssetResponse<'content>> {
+        self.responses
+            .get(&RequestKey::new(path, encoding.clone(), maybe_range_begin))
+            .or_else(|| {
+                self.responses
+                    .get(&RequestKey::new(path, encoding, None))
+                    .filter(|e| e.response.body().len() <= ASSET_CHUNK_SIZE)
+            })
+    }
+
     fn get_encoded_asset(
         &self,
         preferred_encodings: &[&str],
@@ -857,11 +871,9 @@ impl<'content> AssetRouter<'content> {
         maybe_range_begin: Option<usize>,
     ) -> Option<CertifiedAssetResponse<'content>> {
         for encoding in preferred_encodings {
-            if let Some(response) = self.responses.get(&RequestKey::new(
-                url,
-                Some(encoding.to_string()),
-                maybe_range_begin,
-            )) {
+            if let Some(response) =
+                self.get_response(url, Some(encoding.to_string()), maybe_range_begin)
+            {
                 if response.response.body().len() > ASSET_CHUNK_SIZE {
                     if let Some(first_chunk_response) = self.responses.get(&RequestKey::new(
                         url,
-- 
2.43.0


From a89e2fbe07e330dc97fec4dae658f80caa1ac9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 22/30] fix: do not answer with a fallback for a path that has
 a certified response

Such an answer does not verify. It was given to requests for a range that no chunk
starts at, and for assets that are only held in encodings that the client does not accept.
---
 .../src/asset_router.rs                       | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 37ff498..9f5398a 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -415,6 +415,13 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // A fallback is not valid for a path that anything else is certified for.
+        if self.has_responses(req_path) {
+            return Err(AssetCertificationError::NoAssetMatchingRequestUrl {
+                request_url: req_path.to_string(),
+            });
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
@@ -864,6 +871,22 @@ impl<'content> AssetRouter<'content> {
             })
     }
 
+    fn has_responses(&self, path: &str) -> bool {
+        [
+            None,
+            Some(AssetEncoding::Identity),
+            Some(AssetEncoding::Brotli),
+            Some(AssetEncoding::Zstd),
+            Some(AssetEncoding::Gzip),
+            Some(AssetEncoding::Deflate),
+        ]
+        .into_iter()
+        .any(|encoding| {
+            self.responses
+                .contains_key(&RequestKey::new(path, encoding_str(encoding), None))
+        })
+    }
+
     fn get_encoded_asset(
         &self,
         preferred_encodings: &[&str],
-- 
2.43.0


From 15c8a3b0ea8d92250b4e0294c2528c90e78a24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 23/30] fix: use the fallback whose scope is the requested path
 itself

A less specific fallback does not verify while that one exists.
---
 packages/ic-asset-certification/src/asset_router.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 9f5398a..969de27 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -422,6 +422,16 @@ impl<'content> AssetRouter<'content> {
             });
         }
 
+        if let Some(response) = self
+            .get_encoded_fallback_asset(&preferred_encodings, req_path)
+            .or_else(|| {
+                self.fallback_responses
+                    .get(&RequestKey::new(req_path, None, None))
+            })
+        {
+            return Ok(response.clone());
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From 1a8efc3e644fa1953ec4aa68372c8bf971c0e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 24/30] fix: find assets and fallbacks by the path they are
 certified for

Repeated and missing leading slashes do not matter in what is certified, but did in what
was found, so that the answer did not verify.
---
 packages/ic-asset-certification/src/types.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/packages/ic-asset-certification/src/types.rs b/packages/ic-asset-certification/src/types.rs
index 0df0ea3..7b300e6 100644
--- a/packages/ic-asset-certification/src/types.rs
+++ b/packages/ic-asset-certification/src/types.rs
@@ -34,9 +34,27 @@ impl RequestKey {
         range_begin: Option<usize>,
     ) -> Self {
         Self {
-            path: path.into(),
+            path: normalize_path(path.into()),
             encoding,
             range_begin,
         }
     }
 }
+
+/// Paths that are certified as the same path get the same key: they may differ in a missing
+/// leading slash and in repeated slashes.
+fn normalize_path(path: String) -> String {
+    if path.is_empty() || (path.starts_with('/') && !path.contains("//")) {
+        return path;
+    }
+
+    let mut normalized_path = String::with_capacity(path.len() + 1);
+    for segment in path.split('/').filter(|segment| !segment.is_empty()) {
+        normalized_path.push('/');
+        normalized_path.push_str(segment);
+    }
+    if path.ends_with('/') {
+        normalized_path.push('/');
+    }
+    normalized_path
+}
-- 
2.43.0


From a104b1eb6289cfb5fec90e688890a958a609c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 25/30] fix: certify assets whose path is not a valid URL

The path of an asset was parsed as a URL, which failed for some characters, and took
what follows a question mark for a query.
---
 packages/ic-asset-certification/src/asset_router.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 969de27..1db70ca 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -757,7 +757,6 @@ impl<'content> AssetRouter<'content> {
         let headers = vec![("location".to_string(), to)];
 
         let (response, certification) = Self::prepare_response_and_certification(
-            from.clone(),
             status_code,
             Cow::Owned(vec![]),
             headers,
@@ -817,7 +816,6 @@ impl<'content> AssetRouter<'content> {
         };
 
         Self::prepare_response_and_certification(
-            asset.url.to_string(),
             status_code,
             content,
             headers,
@@ -827,7 +825,6 @@ impl<'content> AssetRouter<'content> {
     }
 
     fn prepare_response_and_certification(
-        url: String,
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
@@ -851,7 +848,8 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).with_headers(request_headers).build();
+        // The path is certified by the position in the tree, and no query is certified.
+        let request = HttpRequest::get("/").with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 05cf0044d96d50013603839b62d1c18978ed851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 26/30] fix: ignore the case of accepted encodings and
 encodings that are not acceptable

The priority of encodings already ignored their case, but not the choice among those
that are held. An encoding with a quality of zero is one the client does not accept.
---
 .../ic-asset-certification/src/asset_router.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 1db70ca..9bb9932 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -903,12 +903,12 @@ impl<'content> AssetRouter<'content> {
     ) -> Option<CertifiedAssetResponse<'content>> {
         for encoding in preferred_encodings {
             if let Some(response) =
-                self.get_response(url, Some(encoding.to_string()), maybe_range_begin)
+                self.get_response(url, Some(encoding.to_ascii_lowercase()), maybe_range_begin)
             {
                 if response.response.body().len() > ASSET_CHUNK_SIZE {
                     if let Some(first_chunk_response) = self.responses.get(&RequestKey::new(
                         url,
-                        Some(encoding.to_string()),
+                        Some(encoding.to_ascii_lowercase()),
                         Some(0),
                     )) {
                         return Some(first_chunk_response.with_certification_of(response));
@@ -932,7 +932,7 @@ impl<'content> AssetRouter<'content> {
         for encoding in preferred_encodings {
             if let Some(response) = self.fallback_responses.get(&RequestKey::new(
                 scope,
-                Some(encoding.to_string()),
+                Some(encoding.to_ascii_lowercase()),
                 None,
             )) {
                 return Some(response);
@@ -967,6 +967,7 @@ impl<'content> AssetRouter<'content> {
     fn prioritized_encodings(encodings: &str) -> Vec<(&str, f32)> {
         let mut encodings = encodings
             .split(',')
+            .filter(|encoding| !Self::is_not_acceptable(encoding))
             .filter_map(|encoding| {
                 encoding
                     .split(';')
@@ -984,6 +985,17 @@ impl<'content> AssetRouter<'content> {
         encodings
     }
 
+    /// Whether an encoding is listed with a quality of zero.
+    fn is_not_acceptable(encoding: &str) -> bool {
+        encoding
+            .split(';')
+            .skip(1)
+            .filter_map(|parameter| parameter.split_once('='))
+            .any(|(name, value)| {
+                name.trim().eq_ignore_ascii_case("q") && value.trim().parse() == Ok(0.0_f32)
+            })
+    }
+
     fn default_encoding_quality(encoding: &str) -> f32 {
         if encoding.eq_ignore_ascii_case("br") {
             return 1.0;
-- 
2.43.0


From 198ebc23c6c4e30057b10849c1d9621ae24b7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 27/30] fix: do not serve a fallback of a less specific scope
 than one that has fallbacks

A client that accepts none of the encodings held for the most specific
fallback scope of a path was served the fallback of a wider scope, whose
response does not verify for that path.
---
 .../src/asset_router.rs                       | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 9bb9932..d366a03 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -432,6 +432,13 @@ impl<'content> AssetRouter<'content> {
             return Ok(response.clone());
         }
 
+        // A fallback is not valid either if there is one for a more specific scope.
+        if self.has_fallback_responses(req_path) {
+            return Err(AssetCertificationError::NoAssetMatchingRequestUrl {
+                request_url: req_path.to_string(),
+            });
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
@@ -450,6 +457,10 @@ impl<'content> AssetRouter<'content> {
                 return Ok(response.clone());
             }
 
+            if self.has_fallback_responses(&scope) {
+                break;
+            }
+
             scope.pop();
 
             if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, &scope) {
@@ -463,6 +474,10 @@ impl<'content> AssetRouter<'content> {
                 return Ok(response.clone());
             }
 
+            if self.has_fallback_responses(&scope) {
+                break;
+            }
+
             url_scopes.pop();
         }
         Err(AssetCertificationError::NoAssetMatchingRequestUrl {
@@ -880,6 +895,17 @@ impl<'content> AssetRouter<'content> {
     }
 
     fn has_responses(&self, path: &str) -> bool {
+        Self::has_any_encoding(&self.responses, path)
+    }
+
+    fn has_fallback_responses(&self, scope: &str) -> bool {
+        Self::has_any_encoding(&self.fallback_responses, scope)
+    }
+
+    fn has_any_encoding(
+        responses: &HashMap<RequestKey, CertifiedAssetResponse<'content>>,
+        path: &str,
+    ) -> bool {
         [
             None,
             Some(AssetEncoding::Identity),
@@ -890,8 +916,7 @@ impl<'content> AssetRouter<'content> {
         ]
         .into_iter()
         .any(|encoding| {
-            self.responses
-                .contains_key(&RequestKey::new(path, encoding_str(encoding), None))
+            responses.contains_key(&RequestKey::new(path, encoding_str(encoding), None))
         })
     }
 
-- 
2.43.0


From 2460629ed78de2c6e7b5f95542333605b4afa5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 28/30] fix: check long request paths against wildcards without
 listing them all

---
 .../src/utils/wildcard_paths.rs               | 42 +++++++++++++++----
 .../src/validation/v2_validation.rs           | 34 ++++++++-------
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/packages/ic-http-certification/src/utils/wildcard_paths.rs b/packages/ic-http-certification/src/utils/wildcard_paths.rs
index 050d9dd..ce77cd8 100644
--- a/packages/ic-http-certification/src/utils/wildcard_paths.rs
+++ b/packages/ic-http-certification/src/utils/wildcard_paths.rs
@@ -85,6 +85,25 @@ pub fn more_specific_wildcards_for(
 ) -> Vec<Vec<Vec<u8>>> {
     let mut valid_wildcards: Vec<Vec<Vec<u8>>> = vec![];
 
+    find_more_specific_wildcard(&[], requested_path, responding_wildcard_path, |path| {
+        valid_wildcards.push(path.to_vec());
+        false
+    });
+
+    valid_wildcards
+}
+
+/// Visits the wildcard paths returned by [more_specific_wildcards_for], each preceded by
+/// the given prefix, and returns the first that satisfies the predicate.
+///
+/// Together, these paths take memory quadratic in the number of segments of the requested
+/// path, so they are visited one at a time when the requested path is not trusted.
+pub fn find_more_specific_wildcard(
+    prefix: &[Vec<u8>],
+    requested_path: &[Vec<u8>],
+    responding_wildcard_path: &[Vec<u8>],
+    mut predicate: impl FnMut(&[Vec<u8>]) -> bool,
+) -> Option<Vec<Vec<u8>>> {
     let mut potential_path = requested_path.to_vec();
     strip_path_affixes(&mut potential_path);
 
@@ -97,24 +116,31 @@ pub fn more_specific_wildcards_for(
         responding_wildcard_path = vec![];
     }
 
-    while potential_path.len() > responding_wildcard_path.len()
-        || potential_path.last() != responding_wildcard_path.last()
+    potential_path.splice(0..0, prefix.iter().cloned());
+
+    while potential_path.len() > prefix.len() + responding_wildcard_path.len()
+        || potential_path[prefix.len()..].last() != responding_wildcard_path.last()
     {
         potential_path.push(WILDCARD_PATH_TERMINATOR_BYTES.to_vec());
-        valid_wildcards.push(potential_path.clone());
+        if predicate(&potential_path) {
+            return Some(potential_path);
+        }
         potential_path.pop(); // remove the wildcard terminator
 
+        // remove the last segment of the path,
         // if we didn't have a trailing slash in this round,
         // add it so we can handle it in the next round
-        if potential_path.ends_with(&[PATH_DIR_SEPARATOR_BYTES.to_vec()]) {
-            potential_path.pop(); // remove the last segment of the path
-        } else {
-            potential_path.pop(); // remove the last segment of the path
+        let path = &potential_path[prefix.len()..];
+        let is_directory = path.ends_with(&[PATH_DIR_SEPARATOR_BYTES.to_vec()]);
+        if !path.is_empty() {
+            potential_path.pop();
+        }
+        if !is_directory {
             potential_path.push(PATH_DIR_SEPARATOR_BYTES.to_vec());
         }
     }
 
-    valid_wildcards
+    None
 }
 
 #[cfg(test)]
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index 25a6b65..798ce7c 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -3,7 +3,7 @@ use ic_certification::hash_tree::HashTreeNode;
 use ic_certification::{hash_tree::Hash, HashTree, Label, SubtreeLookupResult};
 use ic_http_certification::cel::DefaultCelExpression;
 use ic_http_certification::utils::{
-    is_wildcard_path_valid_for_request_path, more_specific_wildcards_for,
+    find_more_specific_wildcard, is_wildcard_path_valid_for_request_path,
     EXACT_PATH_TERMINATOR_BYTES, PATH_PREFIX_BYTES,
 };
 use ic_http_certification::CelExpression;
@@ -119,21 +119,23 @@ pub fn validate_expr_path(
     request_url_path.push(EXACT_PATH_TERMINATOR_BYTES.to_vec());
 
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
-    for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
-        wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
-
-        if path_might_exist_in_tree(wildcard_path, tree) {
-            return Err(
-                ResponseVerificationError::MoreSpecificWildcardExpressionMightExistInTree {
-                    provided_expr_path: expr_path.to_vec(),
-                    more_specific_expr_path: wildcard_path
-                        .iter()
-                        .map(|e| String::from_utf8_lossy(e).to_string())
-                        .collect(),
-                    request_path: request_path.to_string(),
-                },
-            );
-        }
+    let more_specific_path = find_more_specific_wildcard(
+        &[PATH_PREFIX_BYTES.to_vec()],
+        &request_url_path,
+        &original_path,
+        |wildcard_path| path_might_exist_in_tree(wildcard_path, tree),
+    );
+    if let Some(wildcard_path) = more_specific_path {
+        return Err(
+            ResponseVerificationError::MoreSpecificWildcardExpressionMightExistInTree {
+                provided_expr_path: expr_path.to_vec(),
+                more_specific_expr_path: wildcard_path
+                    .iter()
+                    .map(|e| String::from_utf8_lossy(e).to_string())
+                    .collect(),
+                request_path: request_path.to_string(),
+            },
+        );
     }
 
     // if we haven't found a more specific path in the tree,
-- 
2.43.0


From 7808b44c1ab50fc8263008b35375435d421e3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 29/30] fix: do not hold the decoded body of a response in
 memory

---
 .../src/verification/body.rs                  | 39 +++++++++++++++----
 .../verify_request_response_pair.rs           |  5 +--
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/packages/ic-response-verification/src/verification/body.rs b/packages/ic-response-verification/src/verification/body.rs
index 211d8a0..85eb9ad 100644
--- a/packages/ic-response-verification/src/verification/body.rs
+++ b/packages/ic-response-verification/src/verification/body.rs
@@ -1,29 +1,54 @@
 use crate::error::ResponseVerificationResult;
 use flate2::read::{DeflateDecoder, GzDecoder};
+use ic_certification::hash_tree::Hash;
+use sha2::{Digest, Sha256};
 use std::io::Read;
 
 const MAX_CHUNK_SIZE_TO_DECOMPRESS: usize = 1_024;
 
+/// Hashes the decoded body. The decoded body can be much larger than the encoded one,
+/// so it is never held in memory as a whole.
+pub fn hash_decoded_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Hash> {
+    let mut hasher = Sha256::new();
+    for_each_decoded_chunk(body, encoding, |chunk| hasher.update(chunk))?;
+
+    Ok(hasher.finalize().into())
+}
+
+#[cfg(test)]
 pub fn decode_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Vec<u8>> {
+    let mut decoded = Vec::new();
+    for_each_decoded_chunk(body, encoding, |chunk| decoded.extend_from_slice(chunk))?;
+
+    Ok(decoded)
+}
+
+fn for_each_decoded_chunk(
+    body: &[u8],
+    encoding: Option<&str>,
+    on_chunk: impl FnMut(&[u8]),
+) -> ResponseVerificationResult {
     match encoding {
-        Some("gzip") => body_from_decoder(GzDecoder::new(body)),
-        Some("deflate") => body_from_decoder(DeflateDecoder::new(body)),
-        _ => Ok(body.to_owned()),
+        Some("gzip") => read_chunks(GzDecoder::new(body), on_chunk),
+        Some("deflate") => read_chunks(DeflateDecoder::new(body), on_chunk),
+        _ => read_chunks(body, on_chunk),
     }
 }
 
-fn body_from_decoder<D: Read>(mut decoder: D) -> ResponseVerificationResult<Vec<u8>> {
-    let mut decoded = Vec::new();
+fn read_chunks<D: Read>(
+    mut decoder: D,
+    mut on_chunk: impl FnMut(&[u8]),
+) -> ResponseVerificationResult {
     let mut buffer = [0u8; MAX_CHUNK_SIZE_TO_DECOMPRESS];
 
     loop {
         let bytes = decoder.read(&mut buffer)?;
 
         if bytes == 0 {
-            return Ok(decoded);
+            return Ok(());
         }
 
-        decoded.extend_from_slice(&buffer[..bytes]);
+        on_chunk(&buffer[..bytes]);
     }
 }
 
diff --git a/packages/ic-response-verification/src/verification/verify_request_response_pair.rs b/packages/ic-response-verification/src/verification/verify_request_response_pair.rs
index e7ad10b..c31bf0b 100644
--- a/packages/ic-response-verification/src/verification/verify_request_response_pair.rs
+++ b/packages/ic-response-verification/src/verification/verify_request_response_pair.rs
@@ -1,4 +1,4 @@
-use super::{body::decode_body, certificate_header::CertificateHeader};
+use super::{body::hash_decoded_body, certificate_header::CertificateHeader};
 use crate::{
     cel::{map_cel_ast, parse_cel_expression},
     error::{ResponseVerificationError, ResponseVerificationResult},
@@ -139,8 +139,7 @@ fn v1_verification(
     )?;
 
     let request_path = request.get_path()?;
-    let decoded_body = decode_body(response.body(), encoding)?;
-    let decoded_body_sha = hash(decoded_body.as_slice());
+    let decoded_body_sha = hash_decoded_body(response.body(), encoding)?;
 
     if !validate_tree(canister_id, &certificate, &tree) {
         return Err(ResponseVerificationError::InvalidTree);
-- 
2.43.0


From 9dc2c6316efab8162d37b048be72144b04c95c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 30/30] fix: do not wrap negative CBOR integers

---
 packages/ic-cbor/src/cbor_parser.rs | 32 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index f7a2e60..e1b0a78 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -42,13 +42,26 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
-        match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
-        }
+    // A value that does not fit the signed integer of the same size is held by a larger one
+    fn to_negative(self) -> Result<CborNegativeInt, String> {
+        Ok(match self {
+            CborUnsignedInt::UInt8(n) => match i8::try_from(n) {
+                Ok(n) => CborNegativeInt::Int8(-1 - n),
+                Err(_) => CborNegativeInt::Int16(-1 - i16::from(n)),
+            },
+            CborUnsignedInt::UInt16(n) => match i16::try_from(n) {
+                Ok(n) => CborNegativeInt::Int16(-1 - n),
+                Err(_) => CborNegativeInt::Int32(-1 - i32::from(n)),
+            },
+            CborUnsignedInt::UInt32(n) => match i32::try_from(n) {
+                Ok(n) => CborNegativeInt::Int32(-1 - n),
+                Err(_) => CborNegativeInt::Int64(-1 - i64::from(n)),
+            },
+            CborUnsignedInt::UInt64(n) => match i64::try_from(n) {
+                Ok(n) => CborNegativeInt::Int64(-1 - n),
+                Err(_) => return Err(String::from("Expected i64")),
+            },
+        })
     }
 
     fn to_u8(self) -> Result<u8, String> {
@@ -166,7 +179,10 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Ok(value) => Ok((i, CborValue::Signed(value))),
+            Err(_) => Err(Err::Error(Error::new(i, ErrorKind::TooLarge))),
+        },
 
         2 | 3 => {
             let data_len = cbor_value.to_usize();
-- 
2.43.0

