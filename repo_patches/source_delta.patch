From 19687c5ab61bbac728f5b8ce4d4268ee613b06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 01/29] fix: TxResp encodes and decodes all of its eight fields

---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From c019d4dfef19a7a3850de3502d08c3b5e36d3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 02/29] fix: decoding an empty transaction is an error, not a
 panic

---
 protocol/src/codec/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..2bc310c 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,7 +312,7 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
-        let header = raw[0];
+        let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
         if (header & 0x80) != 0x00 {
             return LegacyTransaction::rlp_decode(r);
-- 
2.43.0


From 8c3d3c51c87e432b82c3f5e21f08be5e879a21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 03/29] fix: an interoperation signature with an empty r is an
 error, not a panic

---
 protocol/src/types/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..73783e4 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -406,7 +406,7 @@ impl SignatureComponents {
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
         // Only call CKB-VM mode is supported now
-        if self.r[0] == 0 {
+        if *self.r.first().ok_or(TypesError::SignatureRIsEmpty)? == 0 {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
                 .map_err(TypesError::DecodeInteroperationSigR)?;
 
-- 
2.43.0


From b5468cd9968bffe18afc02f53af293df0d6470c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 04/29] fix: reject a signed transaction whose encoding is not
 canonical

---
 protocol/src/codec/transaction.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 2bc310c..de06d03 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -335,6 +335,8 @@ impl Encodable for SignedTransaction {
 impl Decodable for SignedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let utx = UnverifiedTransaction::decode(&Rlp::new(r.data()?))?;
+        utx.check_hash()
+            .map_err(|_| DecoderError::Custom("transaction hash mismatch"))?;
         let sig = utx
             .signature
             .as_ref()
-- 
2.43.0


From 275074274c0721bd1af69d70aa7a0293ebb12a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 05/29] fix: a hex string has one prefix, not two

---
 protocol/src/types/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..a84021f 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -144,7 +144,7 @@ impl FromStr for Hex {
             return Err(TypesError::HexPrefix.into());
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
-- 
2.43.0


From 5a2fcdacca2a17aba2534ced6db6c3d4dbb587f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 06/29] fix: an address text has one prefix, not two

---
 protocol/src/types/primitive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index a84021f..66d0457 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -250,8 +250,8 @@ impl Address {
     }
 
     pub fn from_hex(s: &str) -> ProtocolResult<Self> {
-        let s = clean_0x(s)?;
-        let bytes = Bytes::from(hex_decode(s)?);
+        let s = HEX_PREFIX.to_string() + clean_0x(s)?;
+        let bytes = Bytes::from(hex_decode(&s)?);
         Self::from_bytes(bytes)
     }
 
-- 
2.43.0


From dac7acbea99c74ded0b5fe4a7907889c70770f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 07/29] fix: parsing an overlong address is an error, not a
 panic

---
 protocol/src/types/primitive.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 66d0457..9ba3213 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -264,6 +264,7 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        ensure_len(s.len(), HEX_PREFIX.len() + ADDRESS_LEN * 2)?;
         if checksum(s) != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
-- 
2.43.0


From dafe9a9ac8c97bb1d95ab31934d243dacb6312b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 08/29] fix: count a signed transaction once when it is encoded
 inside a list

---
 protocol/src/codec/transaction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index de06d03..a1ccd6e 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -328,7 +328,8 @@ impl Decodable for UnverifiedTransaction {
 
 impl Encodable for SignedTransaction {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.append(&self.transaction.rlp_bytes());
+        // `append` would count the item twice when it is inside a list
+        s.encoder().encode_value(&self.transaction.rlp_bytes());
     }
 }
 
-- 
2.43.0


From dc4c11877b2b021fcc587c2f03efc2e8af669ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 09/29] fix: axon-tools hex text with the prefix twice is
 refused

---
 devtools/axon-tools/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..70c0ac0 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -99,7 +99,8 @@ impl FromStr for Hex {
             return Err(crate::Error::HexPrefix);
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        // `hex_decode` strips the prefix
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
-- 
2.43.0


From b1408a564425e814b8cc62cca3f42a58afd44dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 10/29] fix: axon-tools hex numbers out of range or malformed
 are refused instead of truncated or a panic

---
 devtools/axon-tools/src/types.rs | 51 +++++++-------------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 70c0ac0..58b2f85 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -633,46 +633,27 @@ mod encode {
 
 #[cfg(all(feature = "impl-serde", feature = "std"))]
 mod decode {
-    use ethereum_types::U256;
     use serde::de::{Deserialize, Deserializer};
 
-    pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
-        let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
-
-        let mut start_i = 0;
-        if hex.len() % 2 != 0 {
-            let byte =
-                u8::from_str_radix(&hex[0..1], 16).map_err(|_| "Failed to parse hex string")?;
-            bytes.push(byte);
-            start_i = 1;
+    fn parse_hex(s: &str) -> Result<u64, &'static str> {
+        let digits = s.strip_prefix("0x").ok_or("Invalid format")?;
+        if digits.is_empty() {
+            return Ok(0);
         }
-
-        for i in (start_i..hex.len()).step_by(2) {
-            let end_i = if i + 2 > hex.len() { i + 1 } else { i + 2 };
-            let byte =
-                u8::from_str_radix(&hex[i..end_i], 16).map_err(|_| "Failed to parse hex string")?;
-            bytes.push(byte);
+        // `from_str_radix` accepts a leading plus sign
+        if digits.starts_with('+') {
+            return Err("Failed to parse hex string");
         }
 
-        Ok(bytes)
+        u64::from_str_radix(digits, 16).map_err(|_| "Failed to parse hex string")
     }
 
     pub fn deserialize_hex_u32<'de, D>(deserializer: D) -> Result<u32, D::Error>
     where
         D: Deserializer<'de>,
     {
-        let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        let val = deserialize_hex_u64(deserializer)?;
+        u32::try_from(val).map_err(serde::de::Error::custom)
     }
 
     pub fn deserialize_hex_u64<'de, D>(deserializer: D) -> Result<u64, D::Error>
@@ -680,17 +661,7 @@ mod decode {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        parse_hex(&s).map_err(serde::de::Error::custom)
     }
 
     #[cfg(test)]
-- 
2.43.0


From 8b9ae5cbd876a8efe1b10e7cb0c95e16e8d9ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 11/29] fix: axon-tools consensus configuration carries the
 node's contract size limit

---
 devtools/axon-tools/src/types.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 58b2f85..39ef93f 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -493,6 +493,20 @@ pub struct ConsensusConfig {
         serde(deserialize_with = "decode::deserialize_hex_u64")
     )]
     pub max_tx_size: u64,
+
+    #[cfg_attr(
+        all(feature = "impl-serde", feature = "std"),
+        serde(
+            default = "default_max_contract_limit",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
+    )]
+    pub max_contract_limit: u64,
+}
+
+#[cfg(all(feature = "impl-serde", feature = "std"))]
+fn default_max_contract_limit() -> u64 {
+    0x6000
 }
 
 #[derive(Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From 056b9034fb1ea92c4e13f1856a38e7f026fc13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 12/29] fix: an incomplete trie proof is refused instead of
 proving the absence of its keys

---
 devtools/axon-tools/src/proof.rs | 49 +++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 2c7d796..e3e5da7 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -1,9 +1,13 @@
+#[cfg(all(feature = "proof", feature = "std"))]
+use alloc::sync::Arc;
 use alloc::vec::Vec;
 
 use bit_vec::BitVec;
 use blst::min_pk::{AggregatePublicKey, PublicKey, Signature};
 use blst::BLST_ERROR;
 use bytes::Bytes;
+#[cfg(all(feature = "proof", feature = "std"))]
+use cita_trie::{MemoryDB, PatriciaTrie, Trie, TrieError, DB};
 use ethereum_types::H256;
 use rlp::Encodable;
 
@@ -14,13 +18,56 @@ use crate::{error::Error, keccak_256};
 
 const DST: &str = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";
 
+/// The nodes of a trie proof. A node which is left out of the proof is an
+/// error, otherwise an incomplete proof would prove the absence of every key
+/// below that node.
+#[cfg(all(feature = "proof", feature = "std"))]
+struct ProofNodes(MemoryDB);
+
+#[cfg(all(feature = "proof", feature = "std"))]
+impl DB for ProofNodes {
+    type Error = std::io::Error;
+
+    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Self::Error> {
+        match self.0.get(key)? {
+            Some(node) => Ok(Some(node)),
+            None => Err(std::io::ErrorKind::NotFound.into()),
+        }
+    }
+
+    fn contains(&self, key: &[u8]) -> Result<bool, Self::Error> {
+        self.0.contains(key)
+    }
+
+    fn insert(&self, key: Vec<u8>, value: Vec<u8>) -> Result<(), Self::Error> {
+        self.0.insert(key, value)
+    }
+
+    fn remove(&self, key: &[u8]) -> Result<(), Self::Error> {
+        self.0.remove(key)
+    }
+
+    fn flush(&self) -> Result<(), Self::Error> {
+        self.0.flush()
+    }
+}
+
 #[cfg(all(feature = "proof", feature = "std"))]
 pub fn verify_trie_proof(
     root: H256,
     key: &[u8],
     proof: Vec<Vec<u8>>,
 ) -> Result<Option<Vec<u8>>, Error> {
-    let value = cita_trie::verify_proof(&root.0, key, proof, InnerKeccak)?;
+    let nodes = ProofNodes(MemoryDB::new(true));
+    for node in proof.into_iter() {
+        nodes
+            .insert(keccak_256(&node).to_vec(), node)
+            .map_err(|e| TrieError::DB(e.to_string()))?;
+    }
+
+    let value = PatriciaTrie::from(Arc::new(nodes), Arc::new(InnerKeccak), &root.0)
+        .and_then(|trie| trie.get(key))
+        .map_err(|_| TrieError::InvalidProof)?;
     log::debug!("key: {:?}, value: {:?}", key, value);
     Ok(value)
 }
-- 
2.43.0


From f3d5028ed918bc5f1f723d8808f0bcf9ced8c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 13/29] fix: a CKB proof with the greatest index is refused
 instead of overflowing

---
 core/executor/src/precompiles/ckb_mbt_verify.rs | 6 ++++++
 devtools/axon-tools/src/precompile.rs           | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/core/executor/src/precompiles/ckb_mbt_verify.rs b/core/executor/src/precompiles/ckb_mbt_verify.rs
index 5b9c95b..be92dab 100644
--- a/core/executor/src/precompiles/ckb_mbt_verify.rs
+++ b/core/executor/src/precompiles/ckb_mbt_verify.rs
@@ -83,6 +83,12 @@ fn inner_verify_proof(payload: VerifyProofPayload) -> Result<(), PrecompileFailu
         return Err(err!(_, "verify transactions_root fail"));
     }
 
+    // The position of a sibling is not representable for the greatest index, which
+    // is out of any tree.
+    if payload.proof.indices.contains(&u32::MAX) {
+        return Err(err!(_, "proof index out of range"));
+    }
+
     // Then, verify the given indices and lemmas can prove the leaves contains in
     // the raw_transactions_root or the witnesses_root.
     // If the verify_type is 0, the leaves should be in the raw_transactions_root,
diff --git a/devtools/axon-tools/src/precompile.rs b/devtools/axon-tools/src/precompile.rs
index ccfe4ca..2a5ac78 100644
--- a/devtools/axon-tools/src/precompile.rs
+++ b/devtools/axon-tools/src/precompile.rs
@@ -62,6 +62,12 @@ pub fn verify_proof(payload: VerifyProofPayload) -> Result<(), String> {
         return Err(String::from("verify transactions_root fail"));
     }
 
+    // The position of a sibling is not representable for the greatest index, which
+    // is out of any tree.
+    if payload.proof.indices.contains(&u32::MAX) {
+        return Err(String::from("proof index out of range"));
+    }
+
     // Then, verify the given indices and lemmas can prove the leaves contains in
     // the raw_transactions_root or the witnesses_root.
     // If the verify_type is 0, the leaves should be in the raw_transactions_root,
-- 
2.43.0


From a57db7070bbed3c07c938cef12f73a8cfa788e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 14/29] fix: flushing a system transaction gives back the room
 of all with its payload

---
 core/mempool/src/pool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..bf94541 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -365,8 +365,11 @@ impl BuiltInContractTxBucket {
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
             if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+                if let Some((_, txs)) = self.tx_buckets.remove(&data.1) {
+                    *reduce_len += txs.len();
+                    for hash in txs.keys() {
+                        self.hash_data_map.remove(hash);
+                    }
                 }
             }
         }
-- 
2.43.0


From fcf30d805d3c019dd94c470c22e7b91dcadf4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 15/29] fix: a sender's transactions are packaged in the order
 of their nonces

---
 core/mempool/src/pool.rs       | 26 ++++++++++++++++++++++++--
 core/mempool/src/tx_wrapper.rs | 17 +----------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index bf94541..dcf0929 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -1,4 +1,5 @@
-use std::collections::{hash_map::Entry, BTreeMap, HashMap, HashSet};
+use std::cmp::Reverse;
+use std::collections::{hash_map::Entry, BTreeMap, BinaryHeap, HashMap, HashSet};
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
     Arc,
@@ -163,7 +164,7 @@ impl PriorityPool {
         }
         let mut q = self.real_queue.lock();
 
-        q.sort_unstable();
+        sort_for_package(&mut q);
 
         hashes.extend(
             q.iter()
@@ -391,6 +392,27 @@ impl BuiltInContractTxBucket {
     }
 }
 
+/// Sort by gas price, and let the transactions of one sender take the places of
+/// that sender in the order of their nonces.
+fn sort_for_package(q: &mut [TxPtr]) {
+    q.sort_by_key(|ptr| ptr.gas_price());
+
+    let mut by_sender: HashMap<H160, BinaryHeap<Reverse<(U64, usize)>>> = HashMap::new();
+    for (i, ptr) in q.iter().enumerate() {
+        by_sender
+            .entry(ptr.sender())
+            .or_default()
+            .push(Reverse((*ptr.nonce(), i)));
+    }
+
+    let sorted = q
+        .iter()
+        .filter_map(|ptr| by_sender.get_mut(&ptr.sender())?.pop())
+        .map(|Reverse((_, i))| Arc::clone(&q[i]))
+        .collect::<Vec<_>>();
+    q.clone_from_slice(&sorted);
+}
+
 fn pop_all_item<T>(queue: Arc<ArrayQueue<T>>) -> impl Iterator<Item = T> {
     (0..queue.len()).map(move |_| queue.pop().unwrap())
 }
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 08c358c..3226647 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -1,4 +1,4 @@
-use std::cmp::{Eq, Ord, Ordering, PartialEq, PartialOrd};
+use std::cmp::{Eq, PartialEq};
 use std::collections::{btree_map::Entry, BTreeMap};
 use std::ops::Bound::{Included, Unbounded};
 use std::sync::atomic::{AtomicU8, Ordering as AtomicOrdering};
@@ -26,15 +26,6 @@ impl From<SignedTransaction> for TxWrapper {
     }
 }
 
-impl Ord for TxWrapper {
-    fn cmp(&self, other: &Self) -> Ordering {
-        if self.sender() != other.sender() {
-            return self.gas_price().cmp(&other.gas_price());
-        }
-        self.nonce().cmp(other.nonce())
-    }
-}
-
 impl PartialEq for TxWrapper {
     fn eq(&self, other: &Self) -> bool {
         self.hash() == other.hash()
@@ -43,12 +34,6 @@ impl PartialEq for TxWrapper {
 
 impl Eq for TxWrapper {}
 
-impl PartialOrd for TxWrapper {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
 impl TxWrapper {
     pub fn hash(&self) -> Hash {
         self.tx.transaction.hash
-- 
2.43.0


From 5835315e8a6baa09e47d8725134acbcf38e9e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 16/29] fix: a gap left in a sender's transactions holds back
 those behind it

---
 core/mempool/src/pool.rs       |  7 ++++---
 core/mempool/src/tx_wrapper.rs | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index dcf0929..68c7281 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -297,12 +297,13 @@ impl PriorityPool {
 
         timeout_gap.entry(number).or_default().extend(retain_keys);
 
-        q.retain(|ptr| !ptr.is_dropped());
-
         self.pending_queue.retain(|_, v| {
             v.clear_droped();
+            v.try_search_package_list(&mut q);
             !v.need_remove()
-        })
+        });
+
+        q.retain(|ptr| !ptr.is_dropped() && ptr.is_package());
     }
 
     pub fn real_queue_len(&self) -> usize {
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 3226647..02f159c 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -67,7 +67,11 @@ impl TxWrapper {
         self.state.fetch_or(0x01, AtomicOrdering::AcqRel);
     }
 
-    fn is_package(&self) -> bool {
+    fn unset_package(&self) {
+        self.state.fetch_and(!0x01, AtomicOrdering::AcqRel);
+    }
+
+    pub fn is_package(&self) -> bool {
         self.state.load(AtomicOrdering::Acquire) & 0x01 == 0x01
     }
 }
@@ -138,6 +142,17 @@ impl PendingQueue {
             self.need_remove = true
         }
         self.queue.retain(|_, v| !v.is_dropped());
+
+        // A dropped transaction leaves a gap: those behind it have to wait again
+        let mut current = self.current_tip_nonce;
+        for (k, v) in self.queue.range((Included(current), Unbounded)) {
+            if k == &current {
+                current = current + 1;
+            } else {
+                v.unset_package();
+            }
+        }
+        self.pop_tip_nonce = self.current_tip_nonce;
     }
 
     pub fn set_drop_by_nonce_tip(&mut self, nonce: U64) {
-- 
2.43.0


From cd814292bab552ad502d38162d12f76661492d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 17/29] fix: the pool returns the transactions it is asked for
 in the order asked

---
 core/mempool/src/lib.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 97165c2..2011392 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -247,28 +247,31 @@ where
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let len = tx_hashes.len();
         let mut missing_hashes = vec![];
-        let mut full_txs = Vec::with_capacity(len);
+        let mut txs = Vec::with_capacity(len);
 
         for tx_hash in tx_hashes.iter() {
-            if let Some(tx) = self.pool.get_by_hash(tx_hash) {
-                full_txs.push(tx);
-            } else {
+            let tx = self.pool.get_by_hash(tx_hash);
+            if tx.is_none() {
                 missing_hashes.push(*tx_hash);
             }
+            txs.push(tx);
         }
 
         // for push txs when local mempool is flushed, but the remote node still fetch
         // full block
         if !missing_hashes.is_empty() {
-            full_txs.extend(
-                self.adapter
-                    .get_transactions_from_storage(ctx, height, &missing_hashes)
-                    .await?
-                    .into_iter()
-                    .flatten(),
-            );
+            let mut stored = self
+                .adapter
+                .get_transactions_from_storage(ctx, height, &missing_hashes)
+                .await?
+                .into_iter();
+            for tx in txs.iter_mut().filter(|tx| tx.is_none()) {
+                *tx = stored.next().flatten();
+            }
         }
 
+        let full_txs = txs.into_iter().flatten().collect::<Vec<_>>();
+
         if full_txs.len() != len {
             Err(MemPoolError::MisMatch {
                 require:  len,
-- 
2.43.0


From 47fd9d725ae759447c709473a6f27f45390ddb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 18/29] fix: a proposal whose transactions the peer did not
 deliver is refused

---
 core/mempool/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 2011392..4e92403 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -296,7 +296,7 @@ where
             let unknown_len = unknown_hashes.len();
             let txs = self
                 .adapter
-                .pull_txs(ctx.clone(), height, unknown_hashes)
+                .pull_txs(ctx.clone(), height, unknown_hashes.clone())
                 .await?;
 
             // Make sure response signed_txs is the same size of request hashes.
@@ -308,6 +308,15 @@ where
                 .into());
             }
 
+            // Make sure the response has every requested transaction.
+            let pulled = txs
+                .iter()
+                .map(|tx| tx.transaction.hash)
+                .collect::<HashSet<_>>();
+            if let Some(hash) = unknown_hashes.iter().find(|hash| !pulled.contains(hash)) {
+                return Err(MemPoolError::Insert(*hash).into());
+            }
+
             let check_nonces = self.verify_tx_in_parallel(ctx.clone(), txs.clone()).await?;
 
             for (signed_tx, check_nonce) in txs.into_iter().zip(check_nonces.into_iter()) {
-- 
2.43.0


From 980c9e52aba71a17369c8c270336e6aa6bde0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 19/29] fix: loading the consensus wal passes over a file cut
 short instead of looping on it

---
 core/consensus/src/wal.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..8341165 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -269,6 +269,7 @@ impl ConsensusWal {
             }
 
             let file_name_timestamp = file_names_timestamps[index];
+            index += 1;
 
             let mut log_path = dir_path.clone();
             log_path.push(file_name_timestamp.to_string());
@@ -290,8 +291,6 @@ impl ConsensusWal {
 
             if info == Hasher::digest(&content).as_bytes() {
                 break Some(content);
-            } else {
-                index += 1;
             }
         };
 
-- 
2.43.0


From eb0a4edd2c8dca3e2d8f9d6bdab50f8fefa0028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 20/29] fix: batches of transactions in the wal are kept under
 their whole hash

---
 core/consensus/src/wal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 8341165..02efe4c 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -37,7 +37,8 @@ impl SignedTxsWAL {
             fs::create_dir(&wal_path).map_err(ConsensusError::WALErr)?;
         }
 
-        wal_path.push(ordered_signed_transactions_hash.to_string());
+        // `to_string()` of a hash is abbreviated and not unique
+        wal_path.push(format!("{:?}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
@@ -89,7 +90,7 @@ impl SignedTxsWAL {
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let mut file_path = self.path.clone();
         file_path.push(number.to_string());
-        file_path.push(ordered_signed_transactions_hash.to_string());
+        file_path.push(format!("{:?}", ordered_signed_transactions_hash));
         file_path.set_extension("txt");
 
         self.recover_stxs(file_path)
-- 
2.43.0


From 81f3ba8d5b3fe72ba0774487452dedbc8fb14937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 21/29] fix: a consensus wal written after the clock went back
 is not hidden by an older one

---
 core/consensus/src/wal.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 02efe4c..bd8c942 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -178,22 +178,23 @@ impl ConsensusWal {
         content.put(check_sum.as_bytes());
         content.put(info);
 
+        // The name is greater than that of any older file even if the clock went back.
         let (data_path, timestamp) = {
-            loop {
-                let timestamp = SystemTime::now()
-                    .duration_since(SystemTime::UNIX_EPOCH)
-                    .map_err(ConsensusError::SystemTime)?;
+            let now = SystemTime::now()
+                .duration_since(SystemTime::UNIX_EPOCH)
+                .map_err(ConsensusError::SystemTime)?
+                .as_millis();
 
-                let timestamp = timestamp.as_millis();
+            let newest = fs::read_dir(&dir_path)
+                .map_err(ConsensusError::WALErr)?
+                .filter_map(|item| u128::from_str(item.ok()?.file_name().to_str()?).ok())
+                .max();
 
-                let mut data_path = dir_path.clone();
+            let timestamp = newest.map_or(now, |newest| now.max(newest + 1));
 
-                data_path.push(timestamp.to_string());
-
-                if !data_path.exists() {
-                    break (data_path, timestamp);
-                }
-            }
+            let mut data_path = dir_path.clone();
+            data_path.push(timestamp.to_string());
+            (data_path, timestamp)
         };
 
         let mut data_file = match fs::OpenOptions::new()
-- 
2.43.0


From c7aa1f426635865405435f3de750910e5879de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 22/29] fix: the consensus wal is on disk before the older ones
 are removed

---
 core/consensus/src/wal.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index bd8c942..3395cf9 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -216,6 +216,7 @@ impl ConsensusWal {
         data_file
             .write_all(content.as_ref())
             .map_err(ConsensusError::WALErr)?;
+        data_file.sync_all().map_err(ConsensusError::WALErr)?;
 
         // 3rd, we can safely clean other old wal files
         for item in fs::read_dir(dir_path).map_err(ConsensusError::WALErr)? {
-- 
2.43.0


From cedb29089e6230e3a9f6acb59247b5b99600c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 23/29] fix: a batch of transactions or blocks cut short is
 refused instead of read as fewer

---
 protocol/src/types/batch.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/batch.rs b/protocol/src/types/batch.rs
index a4c93e0..10a05a9 100644
--- a/protocol/src/types/batch.rs
+++ b/protocol/src/types/batch.rs
@@ -12,7 +12,22 @@ macro_rules! batch_msg_type {
             }
 
             fn decode_msg(bytes: Bytes) -> crate::ProtocolResult<Self> {
-                let inner: Vec<$ty> = rlp::Rlp::new(bytes.as_ref())
+                let rlp = rlp::Rlp::new(bytes.as_ref());
+                let info = rlp
+                    .payload_info()
+                    .map_err(|e| crate::codec::error::CodecError::Rlp(e.to_string()))?;
+
+                // The items must make up the whole message, `as_list()` stops at the first
+                // one cut short.
+                let items_len: usize = rlp.iter().map(|item| item.as_raw().len()).sum();
+                if !rlp.is_list() || info.total() != bytes.len() || items_len != info.value_len {
+                    return Err(crate::codec::error::CodecError::Rlp(
+                        rlp::DecoderError::RlpInconsistentLengthAndData.to_string(),
+                    )
+                    .into());
+                }
+
+                let inner: Vec<$ty> = rlp
                     .as_list()
                     .map_err(|e| crate::codec::error::CodecError::Rlp(e.to_string()))?;
                 Ok(Self(inner))
-- 
2.43.0


From bab32dfe998cbb12732565e66847a40f857c5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 24/29] fix: a proposal whose proof has the greatest number is
 refused without a panic

---
 core/consensus/src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..aeee27b 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -128,9 +128,9 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             tx_hashes:                txs.hashes,
         };
 
-        if proposal.number != proposal.proof.number + 1 {
+        if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
@@ -159,9 +159,9 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
-        if proposal.number != proposal.proof.number + 1 {
+        if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
-- 
2.43.0


From 8a8ef68968b5978d4386681584750b01985d49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 25/29] fix: a proposal sent under another hash than its own is
 refused

---
 core/consensus/src/engine.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index aeee27b..c89a57a 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -159,6 +159,15 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
+        // The votes are for the hash, and overlord does not know how it is made.
+        let proposal_hash = proposal.hash();
+        if hash.as_ref() != proposal_hash.as_bytes() {
+            return Err(ProtocolError::from(ConsensusError::Other(
+                "proposal hash mismatch".to_string(),
+            ))
+            .into());
+        }
+
         if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
                 expect: proposal.number.saturating_sub(1),
@@ -196,11 +205,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
 
         let tx_hashes = proposal.tx_hashes.clone();
         let tx_hashes_len = tx_hashes.len();
-        let exemption = {
-            self.exemption_hash
-                .read()
-                .contains(&Hash::from_slice(hash.as_ref()))
-        };
+        let exemption = { self.exemption_hash.read().contains(&proposal_hash) };
 
         gauge_txs_len(&proposal);
 
-- 
2.43.0


From 6ef12bfdd2f3e3436f335341fe2126a05c54aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 26/29] fix: a proposal of another height than the one being
 decided is refused

---
 core/consensus/src/engine.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index c89a57a..54f2f40 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -168,6 +168,14 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             .into());
         }
 
+        if proposal.number != next_number {
+            return Err(ProtocolError::from(ConsensusError::Other(format!(
+                "proposal number mismatch, expect {}, actual {}",
+                next_number, proposal.number
+            )))
+            .into());
+        }
+
         if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
                 expect: proposal.number.saturating_sub(1),
-- 
2.43.0


From ce95af612cc2914314668e698ee8938424da3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 27/29] fix: a proposal upon another state than the previous
 block's is refused

---
 core/consensus/src/engine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 54f2f40..1c2e1cb 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -576,6 +576,16 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        // The proof of this proposal is verified with the state root of the previous
+        // block, a proposal with another one can never be built upon.
+        if proposal.prev_state_root != previous_block.header.state_root {
+            return Err(ConsensusError::InvalidStateRoot {
+                expect: previous_block.header.state_root,
+                actual: proposal.prev_state_root,
+            }
+            .into());
+        }
+
         // verify block timestamp.
         if !validate_timestamp(
             current_timestamp,
-- 
2.43.0


From 543f857431a1aa144287e44d1d1544b78de2449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 28/29] fix: a proposal with another chain id, gas limit or
 base fee is refused

---
 core/consensus/src/engine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 1c2e1cb..c55f00e 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -576,6 +576,16 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        if proposal.chain_id != self.node_info.chain_id
+            || proposal.gas_limit != MAX_BLOCK_GAS_LIMIT.into()
+            || proposal.base_fee_per_gas != BASE_FEE_PER_GAS.into()
+        {
+            return Err(ConsensusError::Other(
+                "invalid chain id, gas limit or base fee per gas".to_string(),
+            )
+            .into());
+        }
+
         // The proof of this proposal is verified with the state root of the previous
         // block, a proposal with another one can never be built upon.
         if proposal.prev_state_root != previous_block.header.state_root {
-- 
2.43.0


From 63aaf5a3b961a2617d52a72a538028ac3de714c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 29/29] fix: an empty or unknown answer to a pull is refused
 without a panic

---
 core/consensus/src/types.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/types.rs b/core/consensus/src/types.rs
index cd4a73e..f139672 100644
--- a/core/consensus/src/types.rs
+++ b/core/consensus/src/types.rs
@@ -37,8 +37,7 @@ impl MessageCodec for ConsensusRpcResponse {
     }
 
     fn decode_msg(mut bytes: Bytes) -> ProtocolResult<Self> {
-        let len = bytes.len();
-        let flag = bytes.split_off(len - 1);
+        let flag = bytes.split_off(bytes.len().saturating_sub(1));
 
         match flag.as_ref() {
             b"a" => {
@@ -51,7 +50,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(ConsensusType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(ConsensusType::RpcPullBlocks).into()),
         }
     }
 }
-- 
2.43.0

