From c0e24d08c8926f14b815b50ca2a1a4d64712be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 01/61] fix: Address::from_str rejects overlong texts instead
 of panicking

---
 src/data/basics/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 563888c..9f92f1b 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -85,7 +85,7 @@ impl FromStr for Address {
         };
 
         let mut short = Address([0; 32]);
-        if decoded.len() < short.0.len() {
+        if decoded.len() != short.0.len() + CHECKSUM_LEN {
             return Err(AddressError::WrongLength);
         }
 
-- 
2.43.0


From 1105171d2c19c31faac56b054411a45026813829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 02/61] fix: Trie::add reports length mismatches and storage
 errors instead of panicking

---
 src/crypto/merkletrie/trie.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index ff0e65e..903054a 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -78,12 +78,14 @@ impl Trie {
     pub fn add(&mut self, d: &[u8]) -> Result<bool, TrieError> {
         if self.root == None {
             let (mut pnode, id) = self.cache.allocate_new_node();
-            self.root = Some(id);
-            //self.cache.commit_transaction();
             pnode.hash = d.to_vec();
-            self.cache.set_node(id, pnode).unwrap();
+            self.cache.set_node(id, pnode)?;
+            //self.cache.commit_transaction();
+            self.root = Some(id);
             self.element_length = d.len() as u32;
             return Ok(true);
+        } else if d.len() != self.element_length as usize {
+            return Err(TrieError::ElementLengthMismatch);
         }
 
         let pnode = self.cache.get_node(self.root.unwrap())?;
-- 
2.43.0


From e31b6098244d49d4eed1069db01fa79682b24369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 03/61] fix: Node::deserialize does not allocate from an
 untrusted length

---
 src/crypto/merkletrie/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crypto/merkletrie/node.rs b/src/crypto/merkletrie/node.rs
index 4a70297..565d810 100644
--- a/src/crypto/merkletrie/node.rs
+++ b/src/crypto/merkletrie/node.rs
@@ -235,7 +235,10 @@ impl Node {
     pub fn deserialize(buf: &[u8]) -> Option<Node> {
         let mut cursor = std::io::Cursor::new(buf);
         let mut n = Node::default();
-        let hash_length = cursor.read_varint().ok()?;
+        let hash_length: usize = cursor.read_varint().ok()?;
+        if hash_length > buf.len() {
+            return None;
+        }
         n.hash = vec![0; hash_length];
         cursor.read_exact(&mut n.hash).ok()?;
         let mut is_inner = 0_u8;
-- 
2.43.0


From d8af8aee59238e1b2bc8b3296743aa377d302d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 04/61] verification hooks (cfg algorsand_verif): basics,
 transactions

---
 src/data/basics/teal.rs              | 29 ++++++++++++++
 src/data/basics/units.rs             | 13 +++++++
 src/data/basics/user_balance.rs      | 56 ++++++++++++++++++++++++++++
 src/data/signed_tx_group.rs          |  6 +++
 src/data/transactions/application.rs | 12 ++++++
 src/data/transactions/transaction.rs | 48 ++++++++++++++++++++++++
 src/lib.rs                           |  2 +
 7 files changed, 166 insertions(+)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 542a050..e1433cd 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -250,3 +250,32 @@ impl TealKeyValue {
         schema
     }
 }
+
+#[cfg(algorsand_verif)]
+impl StateDelta {
+    /// Verification hook: builds a delta from its entries.
+    pub fn verif_new(entries: Vec<(String, ValueDelta)>) -> Self {
+        Self(entries.into_iter().collect())
+    }
+
+    /// Verification hook: the entries of this delta.
+    pub fn verif_entries(&self) -> Vec<(String, ValueDelta)> {
+        self.0.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl TealKeyValue {
+    /// Verification hook: builds a key/value store from its entries.
+    pub fn verif_new(entries: Vec<(String, TealValue)>) -> Self {
+        Self(entries.into_iter().collect())
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl ValueDelta {
+    /// Verification hook: see `to_teal_value`.
+    pub fn verif_to_teal_value(&self) -> Option<TealValue> {
+        self.to_teal_value()
+    }
+}
diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 3be9100..303e638 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -100,6 +100,19 @@ impl Add for Round {
     }
 }
 
+#[cfg(algorsand_verif)]
+impl Round {
+    /// Verification hook: see `sub_capped`.
+    pub fn verif_sub_capped(&self, r: Self) -> Self {
+        self.sub_capped(r)
+    }
+
+    /// Verification hook: see `round_up_to_multiple_of`.
+    pub fn verif_round_up_to_multiple_of(&self, r: Self) -> Self {
+        self.round_up_to_multiple_of(r)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 26ae790..a256b80 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -551,6 +551,62 @@ impl Hashable for BalanceRecord {
     }
 }
 
+#[cfg(algorsand_verif)]
+impl AppIndex {
+    /// Verification hook: see `address`.
+    pub fn verif_address(&self) -> Address {
+        self.address()
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl AccountData {
+    /// Verification hook: see `money`.
+    pub fn verif_money(&self, proto: &config::ConsensusParams, level: u64) -> (MicroAlgos, MicroAlgos) {
+        self.money(proto, level)
+    }
+
+    /// Verification hook: see `pending_rewards`.
+    pub fn verif_pending_rewards(
+        &self,
+        proto: &config::ConsensusParams,
+        micro_algos: MicroAlgos,
+        rewards_base: u64,
+        rewards_level: u64,
+    ) -> MicroAlgos {
+        self.pending_rewards(proto.clone(), micro_algos, rewards_base, rewards_level)
+    }
+
+    /// Verification hook: see `with_updated_rewards`.
+    pub fn verif_with_updated_rewards(&self, proto: &config::ConsensusParams, level: u64) -> AccountData {
+        self.with_updated_rewards(proto, level)
+    }
+
+    /// Verification hook: see `min_balance`.
+    pub fn verif_min_balance(&self, proto: &config::ConsensusParams) -> MicroAlgos {
+        self.min_balance(proto)
+    }
+
+    /// Verification hook: see `key_dilution`.
+    pub fn verif_key_dilution(&self, proto: &config::ConsensusParams) -> u64 {
+        self.key_dilution(proto.clone())
+    }
+
+    /// Verification hook: see `normalized_online_balance`.
+    pub fn verif_normalized_online_balance(&self, proto: &config::ConsensusParams) -> u64 {
+        self.normalized_online_balance(proto.clone())
+    }
+}
+
+/// Verification hook: the bytes a balance record is hashed from.
+#[cfg(algorsand_verif)]
+pub fn verif_balance_record_hash_input(
+    addr: Address,
+    account_data: AccountData,
+) -> (protocol::HashID, Vec<u8>) {
+    BalanceRecord { addr, account_data }.to_be_hashed()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/signed_tx_group.rs b/src/data/signed_tx_group.rs
index 73366d7..0615eee 100644
--- a/src/data/signed_tx_group.rs
+++ b/src/data/signed_tx_group.rs
@@ -45,3 +45,9 @@ impl SignedTxVec {
 /// Represents an invalid GroupCounter value.
 /// It's being used to indicate the absence of an entry within a Vec<SignedTxGroup> with a particular GroupCounter value.
 const INVALID_SIGNED_TX_GROUP_COUNTER: u64 = u64::MAX;
+
+/// Verification hook: the identifier of a group of signed transactions.
+#[cfg(algorsand_verif)]
+pub fn verif_signed_group_id(txs: Vec<SignedTx>) -> TxID {
+    SignedTxVec(txs).id()
+}
diff --git a/src/data/transactions/application.rs b/src/data/transactions/application.rs
index edd80a6..c8e2553 100644
--- a/src/data/transactions/application.rs
+++ b/src/data/transactions/application.rs
@@ -236,3 +236,15 @@ impl AppCallFields {
         }
     }
 }
+
+#[cfg(algorsand_verif)]
+impl AppCallFields {
+    /// Verification hook: see `address_by_index`.
+    pub fn verif_address_by_index(
+        &self,
+        account_idx: u64,
+        sender: basics::Address,
+    ) -> Result<basics::Address, ()> {
+        self.address_by_index(account_idx, sender)
+    }
+}
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index abdcaea..46ebb43 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -612,3 +612,51 @@ impl TxContext for ExplicitTxContext {
         self.gen_hash.clone()
     }
 }
+
+#[cfg(algorsand_verif)]
+impl Header {
+    /// Verification hook: see `alive`.
+    pub fn verif_alive(
+        &self,
+        round: basics::Round,
+        proto: &config::ConsensusParams,
+        gen_id: &str,
+        gen_hash: &CryptoHash,
+    ) -> Result<(), InvalidTx> {
+        self.alive(&ExplicitTxContext {
+            explicit_round: round,
+            proto: proto.clone(),
+            gen_id: gen_id.to_owned(),
+            gen_hash: gen_hash.clone(),
+        })
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl Transaction {
+    /// Verification hook: see `match_address`.
+    pub fn verif_match_address(&self, addr: &basics::Address, spec: &SpecialAddresses) -> bool {
+        self.match_address(addr, spec)
+    }
+
+    /// Verification hook: see `relevant_addrs`.
+    pub fn verif_relevant_addrs(&self, spec: &SpecialAddresses) -> Vec<basics::Address> {
+        self.relevant_addrs(spec)
+    }
+
+    /// Verification hook: see `tx_amount`.
+    pub fn verif_tx_amount(&self) -> basics::MicroAlgos {
+        self.tx_amount()
+    }
+
+    /// Verification hook: see `get_receiver_address`.
+    pub fn verif_get_receiver_address(&self) -> Option<basics::Address> {
+        self.get_receiver_address()
+    }
+}
+
+/// Verification hook: the digest of a transaction group with these member hashes.
+#[cfg(algorsand_verif)]
+pub fn verif_tx_group_hash(tx_group_hashes: Vec<CryptoHash>) -> CryptoHash {
+    hash_obj(&TxGroup { tx_group_hashes })
+}
diff --git a/src/lib.rs b/src/lib.rs
index 120c61a..b4ce241 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod config;
 pub mod crypto;
 pub mod data;
-- 
2.43.0


From fb7a8db979765e9a4b963d50d055e0e01c4f6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 05/61] verification hooks (cfg algorsand_verif): multisig,
 ots, vrf, committee

---
 src/crypto/multisig.rs           | 62 ++++++++++++++++++++++++++++++++
 src/crypto/ots.rs                | 20 +++++++++++
 src/crypto/vrf.rs                | 26 ++++++++++++++
 src/data/committee/credential.rs | 61 +++++++++++++++++++++++++++++++
 4 files changed, 169 insertions(+)

diff --git a/src/crypto/multisig.rs b/src/crypto/multisig.rs
index ca46aa3..e963901 100644
--- a/src/crypto/multisig.rs
+++ b/src/crypto/multisig.rs
@@ -345,6 +345,68 @@ impl MultisigSignature {
     }
 }
 
+#[cfg(algorsand_verif)]
+impl MultisigAddr {
+    /// Verification hook: see `from_pks`.
+    pub fn verif_from_pks(
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+    ) -> Result<Self, MultisigError> {
+        Self::from_pks(version, threshold, pks)
+    }
+
+    /// Verification hook: see `sign`.
+    pub fn verif_sign(
+        &self,
+        msg: &[u8],
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+        kp: &Keypair,
+    ) -> Result<MultisigSignature, MultisigError> {
+        self.sign(msg, version, threshold, pks, kp)
+    }
+
+    /// Verification hook: the raw address.
+    pub fn verif_bytes(&self) -> [u8; 32] {
+        self.0
+    }
+
+    /// Verification hook: an address with these bytes.
+    pub fn verif_from_bytes(bytes: [u8; 32]) -> Self {
+        Self(bytes)
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl MultisigSignature {
+    /// Verification hook: see `assemble`.
+    pub fn verif_assemble(unisig: &[Self]) -> Result<Self, MultisigError> {
+        Self::assemble(unisig)
+    }
+
+    /// Verification hook: see `batch_verify`.
+    pub fn verif_batch_verify(
+        &self,
+        msg: &[u8],
+        addr: &MultisigAddr,
+        batch_verifier: &mut BatchVerifier,
+    ) -> Result<bool, MultisigError> {
+        self.batch_verify(msg, addr, batch_verifier)
+    }
+
+    /// Verification hook: see `add_sigs`.
+    pub fn verif_add_sigs(&mut self, unisigs: Vec<Self>) -> Result<(), MultisigError> {
+        self.add_sigs(unisigs)
+    }
+
+    /// Verification hook: see `merge`.
+    pub fn verif_merge(&self, other: &MultisigSignature) -> Result<Self, MultisigError> {
+        self.merge(other)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/crypto/ots.rs b/src/crypto/ots.rs
index ce4002b..91a39bf 100644
--- a/src/crypto/ots.rs
+++ b/src/crypto/ots.rs
@@ -373,6 +373,26 @@ impl Clone for EphemeralSubkey {
     }
 }
 
+#[cfg(algorsand_verif)]
+impl OTSSecrets {
+    /// Verification hook: the secret key bytes currently held,
+    /// as (batch, offset if the key is bound to one, secret).
+    pub fn verif_held_secrets(&self) -> Vec<(u64, Option<u64>, [u8; 32])> {
+        let mut held = Vec::new();
+        for (i, k) in self.offsets.iter().enumerate() {
+            held.push((
+                self.first_batch.wrapping_sub(1),
+                Some(self.first_offset + i as u64),
+                k.kp.secret.to_bytes(),
+            ));
+        }
+        for (i, k) in self.batches.iter().enumerate() {
+            held.push((self.first_batch + i as u64, None, k.kp.secret.to_bytes()));
+        }
+        held
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index aa0477e..7fc395c 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -283,6 +283,32 @@ fn hash_points(points: &[EdwardsPoint]) -> Scalar {
     Scalar::from_bytes_mod_order(out_bytes)
 }
 
+#[cfg(algorsand_verif)]
+impl VrfProof {
+    /// Verification hook: the encoded proof.
+    pub fn verif_bytes(&self) -> [u8; 80] {
+        self.0
+    }
+
+    /// Verification hook: a proof with this encoding.
+    pub fn verif_from_bytes(bytes: [u8; 80]) -> Self {
+        Self(bytes)
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl VrfPublicKey {
+    /// Verification hook: the encoded public key.
+    pub fn verif_bytes(&self) -> [u8; 32] {
+        self.0
+    }
+
+    /// Verification hook: a public key with this encoding.
+    pub fn verif_from_bytes(bytes: [u8; 32]) -> Self {
+        Self(bytes)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index fe2db50..f892301 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -230,3 +230,64 @@ impl Hashable for HashableCredential {
         (protocol::CREDENTIAL, protocol::encode(&self))
     }
 }
+
+/// Verification hook: proves membership under `sel`.
+#[cfg(algorsand_verif)]
+pub fn verif_prove_credential(
+    secrets: &crypto::VrfKeypair,
+    sel: &impl Selector,
+) -> crypto::VrfProof {
+    UnauthenticatedCredential::new(secrets, sel).proof
+}
+
+/// Verification hook: verifies a credential received with this proof.
+#[cfg(algorsand_verif)]
+pub fn verif_verify_credential<S: Selector>(
+    proof: crypto::VrfProof,
+    proto: &config::ConsensusParams,
+    record: super::BalanceRecord,
+    selector: S,
+    total_money: basics::MicroAlgos,
+) -> Result<Credential, Error> {
+    UnauthenticatedCredential { proof }.verify(
+        proto,
+        &Membership {
+            record,
+            selector,
+            total_money,
+        },
+    )
+}
+
+#[cfg(algorsand_verif)]
+impl Credential {
+    /// Verification hook: the weight of this credential.
+    pub fn verif_weight(&self) -> u64 {
+        self.weight
+    }
+
+    /// Verification hook: the cached output, with the address hashed in.
+    pub fn verif_output(&self) -> crypto::CryptoHash {
+        self.vrf_out.clone()
+    }
+
+    /// Verification hook: see `selected`.
+    pub fn verif_selected(&self) -> bool {
+        self.selected()
+    }
+
+    /// Verification hook: see `lowest_output`.
+    pub fn verif_lowest_output(&mut self) -> BigInt {
+        self.lowest_output()
+    }
+
+    /// Verification hook: see `lowest_output_digest`.
+    pub fn verif_lowest_output_digest(&mut self) -> crypto::CryptoHash {
+        self.lowest_output_digest()
+    }
+
+    /// Verification hook: see `lt`.
+    pub fn verif_lt(&mut self, other: &mut Credential) -> bool {
+        self.lt(other)
+    }
+}
-- 
2.43.0


From 36a20a6b918b0c507b0018f2d6b0c9ab260d043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 06/61] fix: one-time signature identifiers at the end of the
 u64 range do not overflow

---
 src/crypto/ots.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crypto/ots.rs b/src/crypto/ots.rs
index 91a39bf..ad85ff3 100644
--- a/src/crypto/ots.rs
+++ b/src/crypto/ots.rs
@@ -150,7 +150,7 @@ impl OTSSecrets {
         let _guard = self.lock.read();
 
         // Check if we already have a partial batch of subkeys.
-        if id.batch + 1 == self.first_batch
+        if id.batch.checked_add(1) == Some(self.first_batch)
             && id.offset >= self.first_offset
             && id.offset - self.first_offset < self.offsets.len() as u64
         {
@@ -201,7 +201,9 @@ impl OTSSecrets {
         // This might still trigger a false warning if we're out-of-range by just one
         // and it happens to be a batch boundary, but we don't have the batch
         // size (key dilution) parameter accessible here easily.
-        if self.first_batch == id.batch + 1 && self.first_offset == id.offset + 1 {
+        if id.batch.checked_add(1) == Some(self.first_batch)
+            && id.offset.checked_add(1) == Some(self.first_offset)
+        {
             info!("{}", msg);
         } else {
             warn!("{}", msg);
@@ -224,7 +226,7 @@ impl OTSSecrets {
         let _guard = self.lock.write().unwrap();
 
         // If we are just advancing in the same batch, simply delete some offset subkeys.
-        if current.batch + 1 == self.first_batch {
+        if current.batch.checked_add(1) == Some(self.first_batch) {
             if current.offset > self.first_offset {
                 let mut jump = current.offset - self.first_offset;
                 if jump > self.offsets.len() as u64 {
@@ -239,7 +241,7 @@ impl OTSSecrets {
         }
 
         // If we are trying to forget something earlier, there's nothing to do.
-        if current.batch + 1 < self.first_batch {
+        if current.batch.saturating_add(1) < self.first_batch {
             return;
         }
 
-- 
2.43.0


From e5f2b5c0bfbfa3339ecb1fc7ef575fc037c7c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 07/61] fix: VRF verification rejects invalid and small-order
 public keys instead of panicking or accepting

---
 src/crypto/vrf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 7fc395c..76d2074 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -142,9 +142,10 @@ impl VrfPublicKey {
         }
 
         let (gamma, c, s) = decoded.unwrap();
+        let public_point = self.to_point().ok_or(VrfError::InvalidProof)?;
         let hash_point = hash_to_curve(self, bytes);
 
-        let u = s * constants::ED25519_BASEPOINT_POINT - c * self.to_point();
+        let u = s * constants::ED25519_BASEPOINT_POINT - c * public_point;
         let v = s * hash_point - c * gamma;
         let c_calculated = hash_points(&[hash_point, gamma, u, v]);
 
@@ -156,11 +157,12 @@ impl VrfPublicKey {
     }
 
     /// Converts the public key, which is a compressed point representation, to the curve point.
-    /// Panics if the public key does not correspond to a valid curve point.
-    fn to_point(&self) -> EdwardsPoint {
+    /// Returns None if the public key does not correspond to a valid curve point,
+    /// or if that point has small order (anyone could make proofs for such a key).
+    fn to_point(&self) -> Option<EdwardsPoint> {
         CompressedEdwardsY::from_slice(&self.0)
             .decompress()
-            .unwrap()
+            .filter(|p| !p.is_small_order())
     }
 }
 
-- 
2.43.0


From 676978d96fc636022ca8cc6c083876756123ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:46 +0000
Subject: [PATCH 08/61] fix: sortition sums the binomial CDF term by term, as
 the library formula is wrong for large stakes

---
 src/data/committee/sortition.rs | 42 ++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/data/committee/sortition.rs b/src/data/committee/sortition.rs
index 5e70a73..f92cfa4 100644
--- a/src/data/committee/sortition.rs
+++ b/src/data/committee/sortition.rs
@@ -6,7 +6,6 @@ use num::{
     rational::BigRational,
     ToPrimitive,
 };
-use statrs::distribution::{Binomial, DiscreteCDF};
 
 use crate::crypto;
 
@@ -38,12 +37,43 @@ pub fn select(
     sortition_binomial_cdf_walk(money, p, cratio)
 }
 
+/// Finds the lowest `i` for which the CDF of the binomial distribution reaches `ratio`, or `n`.
+///
+/// The CDF is summed up term by term, starting from `P(X = 0) = (1 - p)^n`. This stays accurate
+/// for any `n`, unlike formulas based on `ln_gamma(n)`, which lose all precision for large stakes.
 fn sortition_binomial_cdf_walk(n: u64, p: f64, ratio: f64) -> u64 {
-    let bin = Binomial::new(p, n).unwrap();
-    (0..n)
-        .into_iter()
-        .find(|&i| bin.cdf(i) >= ratio)
-        .unwrap_or(n)
+    /// Above this the running term is rescaled, because `(1 - p)^n` alone may be too small for a float.
+    const RESCALE: f64 = 1e200;
+
+    assert!((0.0..=1.0).contains(&p), "invalid probability {}", p);
+    if p == 1.0 {
+        // All of the probability mass is on `n`.
+        return if ratio > 0.0 { n } else { 0 };
+    }
+
+    let odds = p / (1.0 - p);
+    // P(X = i) = term * exp(ln_scale)
+    let mut ln_scale = n as f64 * (-p).ln_1p();
+    let mut term = 1.0;
+    let mut cdf = 0.0;
+
+    for i in 0..n {
+        let prob = term * ln_scale.exp();
+        // Past the mean terms only get smaller, so once they vanish the CDF will not grow any more.
+        let converged = i as f64 > n as f64 * p && cdf + prob == cdf;
+        cdf += prob;
+        if cdf >= ratio || converged {
+            return i;
+        }
+
+        term *= (n - i) as f64 / (i + 1) as f64 * odds;
+        if term > RESCALE {
+            term /= RESCALE;
+            ln_scale += RESCALE.ln();
+        }
+    }
+
+    n
 }
 
 #[cfg(test)]
-- 
2.43.0


From 24c576d7c9e9c2440a9375950e433a51569a408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 09/61] fix: Address decodes from the byte string it encodes to

---
 src/data/basics/address.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 9f92f1b..8767952 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -1,11 +1,12 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fmt;
 use std::str::FromStr;
 
 use data_encoding::BASE32_NOPAD;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 use sha2::{Digest, Sha512Trunc256};
 use thiserror::Error;
 
@@ -23,7 +24,7 @@ pub enum AddressError {
     InvalidChecksum,
 }
 
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Deserialize)]
+#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
 pub struct Address(pub [u8; 32]);
 
 impl Serialize for Address {
@@ -32,6 +33,39 @@ impl Serialize for Address {
     }
 }
 
+impl<'de> Deserialize<'de> for Address {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_bytes(AddressVisitor)
+    }
+}
+
+struct AddressVisitor;
+
+impl<'de> de::Visitor<'de> for AddressVisitor {
+    type Value = Address;
+
+    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("32 bytes")
+    }
+
+    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Address, E> {
+        let bytes = v
+            .try_into()
+            .map_err(|_| E::invalid_length(v.len(), &self))?;
+        Ok(Address(bytes))
+    }
+
+    fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Address, A::Error> {
+        let mut bytes = [0; 32];
+        for (i, b) in bytes.iter_mut().enumerate() {
+            *b = seq
+                .next_element()?
+                .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+        }
+        Ok(Address(bytes))
+    }
+}
+
 impl Address {
     pub fn new(hash: crypto::CryptoHash) -> Self {
         Self(hash.0)
-- 
2.43.0


From fd7006172e83a24bba60036eea0a4bae534e2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 10/61] fix: SignedTx without a plain signature decodes from
 its own encoding

---
 src/data/transactions/signed_tx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 9186ff9..073cffe 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -16,13 +16,17 @@ fn is_empty(s: &crypto::Signature) -> bool {
     s.to_bytes() == [0; crypto::SIGNATURE_LENGTH]
 }
 
+fn empty_signature() -> crypto::Signature {
+    crypto::Signature::new([0; crypto::SIGNATURE_LENGTH])
+}
+
 /// Wraps a transaction and a signature.
 /// It exposes a `verify()` method that verifies the signature
 /// and checks that the underlying transaction is well-formed.
 // TODO: update this documentation now that there's multisig
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct SignedTx {
-    #[serde(skip_serializing_if = "is_empty")]
+    #[serde(default = "empty_signature", skip_serializing_if = "is_empty")]
     pub sig: crypto::Signature,
     #[serde(default, skip_serializing_if = "is_default")]
     pub msig: Option<crypto::MultisigSignature>,
-- 
2.43.0


From 9372524595dadb3d0b303b1e9b6eb65aea13b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 11/61] fix: encode structs with field names, as omitted fields
 make positional encodings ambiguous

---
 src/protocol/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index c8cabef..4c21f79 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -4,7 +4,7 @@
 use serde::{Deserialize, Serialize};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
-    rmp_serde::to_vec(x).unwrap()
+    rmp_serde::to_vec_named(x).unwrap()
 }
 
 pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::decode::Error> {
-- 
2.43.0


From af4fe05ed97345e061f12c3491586d6c096d73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 12/61] fix: maps encode in key order, so that equal values
 have equal encodings and hashes

---
 src/data/basics/teal.rs         |  9 +++++++--
 src/data/basics/user_balance.rs |  8 +++++++-
 src/data/transactions/teal.rs   |  2 ++
 src/protocol/codec.rs           | 15 ++++++++++++++-
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index e1433cd..ccaf720 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -9,6 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::config;
 use crate::data::basics::MicroAlgos;
+use crate::protocol;
 
 /// Actions that may be performed when applying a delta to a TEAL key/value store.
 #[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
@@ -45,7 +46,9 @@ impl ValueDelta {
 /// Map from key/value store keys to `ValueDelta`s, indicating what should happen for that key.
 //msgp:allocbound StateDelta config.MaxStateDeltaKeys
 #[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
-pub struct StateDelta(HashMap<String, ValueDelta>);
+pub struct StateDelta(
+    #[serde(serialize_with = "protocol::sorted_map")] HashMap<String, ValueDelta>,
+);
 
 /*
 /// Equal checks whether two StateDeltas are equal. We don't check for nilness
@@ -235,7 +238,9 @@ impl fmt::Display for TealValue {
 /// Represents a key/value store for use in an application's local or global state.
 //msgp:allocbound TealKeyValue EncodedMaxKeyValueEntries
 #[derive(Clone, Serialize, Deserialize)]
-pub struct TealKeyValue(HashMap<String, TealValue>);
+pub struct TealKeyValue(
+    #[serde(serialize_with = "protocol::sorted_map")] HashMap<String, TealValue>,
+);
 
 impl TealKeyValue {
     /// Calculates the number of each value type in a `TealKeyValue` and represents the result as a `StateSchema`.
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index a256b80..ccd579c 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -151,6 +151,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead. AccountData
     /// is expected to have copy-by-value semantics.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub asset_params: HashMap<AssetIndex, AssetParams>,
 
     /// Set of assets that can be held by this account.
@@ -168,6 +169,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead.  AccountData
     /// is expected to have copy-by-value semantics.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub assets: HashMap<AssetIndex, AssetHolding>,
 
     /// Address against which signatures/multisigs/logicsigs should be checked.
@@ -177,9 +179,11 @@ pub struct AccountData {
     pub auth_addr: Address,
 
     /// Stores the local states associated with any applications that this account has opted in to.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub app_local_states: HashMap<AppIndex, AppLocalState>,
 
     /// Stores the global parameters and state associated with any applications that this account has created.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub app_params: HashMap<AppIndex, AppParams>,
 
     /// Stores the sum of all of the local `StateSchema`s and global `StateSchema`s in this account
@@ -268,7 +272,9 @@ pub type AssetIndex = u64;
 
 /// Unique integer index of an application that can be used to look up the creator of the application,
 /// whose balance record contains the `AppParams`.
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(
+    Clone, Copy, Debug, Default, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize,
+)]
 pub struct AppIndex(pub u64);
 
 /// Represents either an `AssetIndex` or `AppIndex`, which come from the same namespace of indices as each other
diff --git a/src/data/transactions/teal.rs b/src/data/transactions/teal.rs
index 3444e8c..7e68136 100644
--- a/src/data/transactions/teal.rs
+++ b/src/data/transactions/teal.rs
@@ -7,6 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use super::SignedTxWithAD;
 use crate::data::basics;
+use crate::protocol;
 
 /// Stores `StateDelta`s for an application's global key/value store, as well as
 /// `StateDelta`s for some number of accounts holding local state for that application
@@ -16,6 +17,7 @@ pub struct EvalDelta {
 
     /// When decoding EvalDeltas, the integer key represents an offset into
     /// `[txn.Sender, txn.Accounts[0], txn.Accounts[1], ...]`.
+    #[serde(serialize_with = "protocol::sorted_map")]
     pub local_deltas: HashMap<u64, basics::StateDelta>,
 
     pub logs: Vec<String>,
diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index 4c21f79..ae99d51 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -1,7 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use serde::{Deserialize, Serialize};
+use std::collections::{BTreeMap, HashMap};
+
+use serde::{Deserialize, Serialize, Serializer};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
     rmp_serde::to_vec_named(x).unwrap()
@@ -11,6 +13,17 @@ pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::d
     rmp_serde::decode::from_slice::<T>(bytes)
 }
 
+/// Serializes a map in the order of its keys, so that equal maps always have equal encodings.
+/// To be used as `#[serde(serialize_with = "...")]`.
+pub fn sorted_map<K, V, S>(map: &HashMap<K, V>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    K: Ord + Serialize,
+    V: Serialize,
+    S: Serializer,
+{
+    map.iter().collect::<BTreeMap<_, _>>().serialize(serializer)
+}
+
 fn is_default<T: Default + PartialEq>(t: &T) -> bool {
     t == &T::default()
 }
-- 
2.43.0


From 4d065fc3339c713a5c69d215bc186c67d778a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 13/61] fix: block headers encode the upgrade state, so that
 the block hash commits to it

---
 src/data/bookkeeping/block.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 692859d..27f12a1 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -96,7 +96,6 @@ pub struct BlockHeader {
     /// Once a block proposer determines its UpgradeVote, then UpdateState
     /// is updated deterministically based on the previous UpdateState and
     /// the new block's UpgradeVote.
-    #[serde(skip)]
     pub upgrade_state: UpgradeState,
     pub upgrade_vote: UpgradeVote,
 
@@ -155,7 +154,7 @@ pub struct UpgradeVote {
 /// strictly speaking, computable from the history of all UpgradeVotes
 /// but we keep it in the block for explicitness and convenience
 /// (instead of materializing it separately, like balances).
-#[derive(Clone, Default, PartialEq, Eq)]
+#[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
 pub struct UpgradeState {
     pub current_protocol: protocol::ConsensusVersion,
     pub next_protocol: Option<protocol::ConsensusVersion>,
-- 
2.43.0


From e535342889348895820e5e01f537136c2d74d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 14/61] fix: the credential hash commits to the VRF output

---
 src/crypto/vrf.rs                | 30 +++++++++++++++++++++++++++++-
 src/data/committee/credential.rs |  1 -
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 76d2074..b93c696 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -15,7 +15,7 @@ use curve25519_dalek::{
 use data_encoding::BASE64;
 use ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey};
 use generic_array::GenericArray;
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 use sha2::{Digest, Sha512};
 use thiserror::Error;
 
@@ -198,6 +198,34 @@ impl AsRef<[u8]> for VrfProof {
     }
 }
 
+impl Serialize for VrfOutput {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_bytes(&self.0)
+    }
+}
+
+impl<'de> Deserialize<'de> for VrfOutput {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        struct VrfOutputVisitor;
+
+        impl<'de> de::Visitor<'de> for VrfOutputVisitor {
+            type Value = VrfOutput;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                f.write_str("64 bytes")
+            }
+
+            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<VrfOutput, E> {
+                v.try_into()
+                    .map(VrfOutput)
+                    .map_err(|_| E::invalid_length(v.len(), &self))
+            }
+        }
+
+        deserializer.deserialize_bytes(VrfOutputVisitor)
+    }
+}
+
 impl Default for VrfOutput {
     fn default() -> Self {
         VrfOutput([0; 64])
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index f892301..7be78e7 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -49,7 +49,6 @@ pub struct Credential {
 #[derive(Serialize, Deserialize)]
 struct HashableCredential {
     //_struct struct{}         `codec:",omitempty,omitemptyarray"`
-    #[serde(skip)]
     raw_out: crypto::VrfOutput,
     member: basics::Address,
     iter: u64,
-- 
2.43.0


From 4e3d1424b61bde3843c989ad43d00a52d8949be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 15/61] fix: lowest_output considers all sub-users, including
 the last

---
 src/data/committee/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 7be78e7..3848d39 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -169,7 +169,7 @@ impl Credential {
         // significant disadvantage because UnauthenticatedCredential.Verify
         // wants the hash to be large but tiebreaking between proposals wants
         // the hash to be small.
-        for i in 1..self.weight {
+        for i in 1..=self.weight {
             let h: crypto::CryptoHash;
             if self.domain_separation_enabled {
                 self.hashable.as_mut().unwrap().iter = i;
-- 
2.43.0


From 6d63e838bb92286c7c524d1743a9773d42a6bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 16/61] fix: fee_credit charges the minimum fee to every
 transaction but compact certificates

---
 src/data/transactions/signed_tx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 073cffe..9a135d4 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -113,8 +113,10 @@ pub fn fee_credit(tx_group: &[SignedTx], min_fee: u64) -> Result<u64, ()> {
     let mut min_fee_count = 0;
     let mut fees_paid = 0_u64;
     for stxn in tx_group {
-        if let TxFields::CompactCert(_) = stxn.tx.fields {
-            min_fee_count += 1;
+        match stxn.tx.fields {
+            // Zero fee allowed for compact cert txn.
+            TxFields::CompactCert(_) => {}
+            _ => min_fee_count += 1,
         }
         fees_paid = fees_paid.saturating_add(stxn.tx.header.fee.0);
     }
-- 
2.43.0


From 51e1461117197b3526915446e95d2e108743c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 17/61] fix: keyreg coherency check does not overflow at the
 last round

---
 src/data/transactions/keyreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/keyreg.rs b/src/data/transactions/keyreg.rs
index ec6c419..149d7a2 100644
--- a/src/data/transactions/keyreg.rs
+++ b/src/data/transactions/keyreg.rs
@@ -45,7 +45,7 @@ impl KeyregFields {
             // going online
             if self.vote_last == basics::Round(0) {
                 return Err(InvalidTx::KeyregGoingOnlineWithZeroVoteLast);
-            } else if self.vote_first.0 > header.last_valid.0 + 1 {
+            } else if self.vote_first.0 > header.last_valid.0.saturating_add(1) {
                 return Err(InvalidTx::KeyregGoingOnlineWithFirstVoteAfterLastValid);
             }
         }
-- 
2.43.0


From 02c814b97f8daec597c5bd7f37d70c6e8d56664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 18/61] fix: a fee of exactly the minimum is enough

---
 src/data/transactions/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index 46ebb43..fd9c985 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -448,7 +448,7 @@ impl Transaction {
         }
         */
 
-        if !proto.enable_fee_pooling && self.header.fee <= basics::MicroAlgos(proto.min_tx_fee) {
+        if !proto.enable_fee_pooling && self.header.fee < basics::MicroAlgos(proto.min_tx_fee) {
             if let TxFields::CompactCert(_) = &self.fields {
                 // Zero fee allowed for compact cert txn.
             } else {
-- 
2.43.0


From f72e5e6cffaf41bd620acc85bbfc46196d26058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 19/61] fix: a transaction from the rewards pool is refused
 instead of a panic

---
 src/data/transactions/errors.rs      | 2 ++
 src/data/transactions/transaction.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/transactions/errors.rs b/src/data/transactions/errors.rs
index e7c4234..8844222 100644
--- a/src/data/transactions/errors.rs
+++ b/src/data/transactions/errors.rs
@@ -44,6 +44,8 @@ pub enum InvalidTx {
     FeeLessThanMin(basics::MicroAlgos, basics::MicroAlgos),
     #[error("transaction sender not set (set to zero)")]
     ZeroSender,
+    #[error("transaction from incentive pool is invalid")]
+    SenderIsRewardsPool,
 
     #[error("bad validty range of {0}-{1}")]
     BadValidityRange(basics::Round, basics::Round),
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index fd9c985..a0ddc3b 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -501,8 +501,8 @@ impl Transaction {
         }
 
         if self.header.sender == spec.rewards_pool {
-            // this check is just to be safe, but reaching here seems impossible, since it requires computing a preimage of rwpool
-            unreachable!("transaction from incentive pool");
+            // this check is just to be safe, but nobody can sign for it, since that requires computing a preimage of rwpool
+            Err(InvalidTx::SenderIsRewardsPool)
         } else if self.header.sender.is_zero() {
             Err(InvalidTx::ZeroSender)
         } else if !proto.support_transaction_leases && (self.header.lease != [0; 32]) {
-- 
2.43.0


From 5e3fe1884f650a9e11093e99910895dcd4d4f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 20/61] verification hooks (cfg algorsand_verif): bookkeeping

---
 src/data/bookkeeping/block.rs   | 20 ++++++++
 src/data/bookkeeping/genesis.rs | 90 +++++++++++++++++++++++++++++++++
 2 files changed, 110 insertions(+)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 27f12a1..1cd8331 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -772,3 +772,23 @@ impl Hashable for BlockHeader {
         (protocol::BLOCK_HEADER, protocol::encode(&self))
     }
 }
+
+#[cfg(algorsand_verif)]
+impl Block {
+    /// Verification hook: see `contents_match_header`.
+    pub fn verif_contents_match_header(&self) -> bool {
+        self.contents_match_header()
+    }
+}
+
+#[cfg(algorsand_verif)]
+impl UpgradeState {
+    /// Verification hook: see `apply_upgrade_vote`; works on a copy.
+    pub fn verif_apply_upgrade_vote(
+        &self,
+        round: basics::Round,
+        vote: &UpgradeVote,
+    ) -> Result<UpgradeState, InvalidBlock> {
+        self.clone().apply_upgrade_vote(round, vote)
+    }
+}
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 12b0b70..3052766 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -193,3 +193,93 @@ impl GenesisBalances {
         }
     }
 }
+
+/// Verification hook: makes the block for a genesis with these balances and this time.
+#[cfg(algorsand_verif)]
+pub fn verif_genesis_block(
+    proto: protocol::ConsensusVersion,
+    balances: HashMap<basics::Address, basics::AccountData>,
+    fee_sink: basics::Address,
+    rewards_pool: basics::Address,
+    timestamp: u64,
+    id: &str,
+    hash: crypto::CryptoHash,
+) -> Result<Block, ()> {
+    let gen_bal = GenesisBalances::with_timestamp(balances, fee_sink, rewards_pool, timestamp);
+    Genesis::create_block(proto, gen_bal, id, hash)
+}
+
+/// Verification hook: makes the block for a genesis with these balances at the current time.
+#[cfg(algorsand_verif)]
+pub fn verif_genesis_block_now(
+    proto: protocol::ConsensusVersion,
+    balances: HashMap<basics::Address, basics::AccountData>,
+    fee_sink: basics::Address,
+    rewards_pool: basics::Address,
+    id: &str,
+    hash: crypto::CryptoHash,
+) -> Result<Block, ()> {
+    let gen_bal = GenesisBalances::new(balances, fee_sink, rewards_pool);
+    Genesis::create_block(proto, gen_bal, id, hash)
+}
+
+/// Verification hook: a genesis description.
+#[cfg(algorsand_verif)]
+pub struct VerifGenesis(Genesis);
+
+#[cfg(algorsand_verif)]
+impl VerifGenesis {
+    /// Verification hook: builds a description from its fields;
+    /// `allocation` lists address, comment and state.
+    #[allow(clippy::too_many_arguments)]
+    pub fn new(
+        schema_id: String,
+        network: String,
+        proto: protocol::ConsensusVersion,
+        allocation: Vec<(String, String, basics::AccountData)>,
+        rewards_pool: String,
+        fee_sink: String,
+        timestamp: u64,
+        comment: String,
+        dev_mode: bool,
+    ) -> Self {
+        VerifGenesis(Genesis {
+            schema_id,
+            network,
+            proto,
+            allocation: allocation
+                .into_iter()
+                .map(|(address, comment, state)| GenesisAllocation {
+                    address,
+                    comment,
+                    state,
+                })
+                .collect(),
+            rewards_pool,
+            fee_sink,
+            timestamp,
+            comment,
+            dev_mode,
+        })
+    }
+
+    /// Verification hook: see `Genesis::load_from_file`.
+    pub fn load_from_file<P: AsRef<std::path::Path>>(path: P) -> Result<Self, ()> {
+        Genesis::load_from_file(path).map(VerifGenesis)
+    }
+
+    /// Verification hook: the encoding of the description.
+    pub fn encode(&self) -> Vec<u8> {
+        protocol::encode(&self.0)
+    }
+
+    /// Verification hook: see `Genesis::id`.
+    pub fn id(&self) -> String {
+        self.0.id()
+    }
+
+    /// Verification hook: the hash of the description.
+    pub fn hash(&self) -> crypto::CryptoHash {
+        crypto::hash_obj(&self.0)
+    }
+}
-- 
2.43.0


From 4e67e23be8b0a9ea04fe20dc5e477601074846d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 21/61] fix: upgrade votes: a proposal is active when there is
 one, and a vote does not change the previous state

---
 src/data/bookkeeping/block.rs | 50 +++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 1cd8331..202d968 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -620,16 +620,18 @@ impl UpgradeState {
     /// that is, if UpgradePropose shows up when there is already an active proposal,
     /// or if UpgradeApprove shows up if there is no active proposal being voted on.
     fn apply_upgrade_vote(
-        &mut self,
+        &self,
         round: basics::Round,
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
         // Locate the config parameters for current protocol
         let params = &config::CONSENSUS.0[&self.current_protocol];
 
+        let mut state = self.clone();
+
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
-            if self.next_protocol != Some(self.current_protocol) {
+            if state.next_protocol.is_some() {
                 return Err(InvalidBlock::CompetingProposal);
             }
 
@@ -652,10 +654,10 @@ impl UpgradeState {
                 upgrade_delay = params.default_upgrade_wait_rounds;
             }
 
-            self.next_protocol = Some(vote.upgrade_propose);
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(round.0 + params.upgrade_vote_rounds);
-            self.next_protocol_switch_on =
+            state.next_protocol = Some(vote.upgrade_propose);
+            state.next_protocol_approvals = 0;
+            state.next_protocol_vote_before = basics::Round(round.0 + params.upgrade_vote_rounds);
+            state.next_protocol_switch_on =
                 basics::Round(round.0 + params.upgrade_vote_rounds + upgrade_delay);
         } else if vote.upgrade_delay != basics::Round(0) {
             return Err(InvalidBlock::NonZeroDelayWithoutProposal);
@@ -663,40 +665,42 @@ impl UpgradeState {
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if self.next_protocol == Some(self.current_protocol) {
+            if state.next_protocol.is_none() {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
-            if round >= self.next_protocol_vote_before {
+            if round >= state.next_protocol_vote_before {
                 return Err(InvalidBlock::ApprovalAfterDeadline(
                     round,
-                    self.next_protocol_vote_before,
+                    state.next_protocol_vote_before,
                 ));
             }
 
-            self.next_protocol_approvals += 1;
+            state.next_protocol_approvals += 1;
         }
 
         // Clear out failed proposal
-        if round == self.next_protocol_vote_before
-            && self.next_protocol_approvals < params.upgrade_threshold
+        if round == state.next_protocol_vote_before
+            && state.next_protocol_approvals < params.upgrade_threshold
         {
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+            state.next_protocol = None;
+            state.next_protocol_approvals = 0;
+            state.next_protocol_vote_before = basics::Round(0);
+            state.next_protocol_switch_on = basics::Round(0);
         }
 
         // Switch over to new approved protocol
-        if round == self.next_protocol_switch_on {
-            self.current_protocol = self.next_protocol.unwrap();
-            self.next_protocol = None;
-            self.next_protocol_approvals = 0;
-            self.next_protocol_vote_before = basics::Round(0);
-            self.next_protocol_switch_on = basics::Round(0);
+        if round == state.next_protocol_switch_on {
+            if let Some(next_protocol) = state.next_protocol {
+                state.current_protocol = next_protocol;
+                state.next_protocol = None;
+                state.next_protocol_approvals = 0;
+                state.next_protocol_vote_before = basics::Round(0);
+                state.next_protocol_switch_on = basics::Round(0);
+            }
         }
 
-        Ok(self.clone())
+        Ok(state)
     }
 }
 
-- 
2.43.0


From 79781fffb8d491ee9c5241690f164b1f17a08fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 22/61] fix: the own upgrade vote without a proposal names the
 current protocol

---
 src/data/bookkeeping/block.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 202d968..8049951 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -713,7 +713,11 @@ pub fn process_upgrade_params(
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
 
     // Decide on the votes for protocol upgrades
-    let mut upgrade_vote = UpgradeVote::default();
+    // (naming the current protocol means that there is no proposal)
+    let mut upgrade_vote = UpgradeVote {
+        upgrade_propose: prev.upgrade_state.current_protocol,
+        ..UpgradeVote::default()
+    };
 
     // If there is no upgrade proposal, see if we can make one
     if prev.upgrade_state.next_protocol.is_none() {
@@ -727,9 +731,10 @@ pub fn process_upgrade_params(
     // If there is a proposal being voted on, see if we approve it
     let round = prev.round + basics::Round(1);
     if round < prev.upgrade_state.next_protocol_vote_before {
-        upgrade_vote.upgrade_approve = prev_params
-            .approved_upgrades
-            .contains_key(&prev.upgrade_state.next_protocol.unwrap());
+        upgrade_vote.upgrade_approve = prev
+            .upgrade_state
+            .next_protocol
+            .map_or(false, |p| prev_params.approved_upgrades.contains_key(&p));
     }
 
     let upgrade_state = prev
-- 
2.43.0


From 4ba15742daa03f2f958497651c16d8f93ff84ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 23/61] fix: headers of unsupported protocols are refused
 instead of a panic

---
 src/data/bookkeeping/block.rs  | 22 ++++++++++++++++------
 src/data/bookkeeping/errors.rs |  3 +++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 8049951..3b6d52e 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -354,7 +354,7 @@ impl BlockHeader {
     // TODO document possible errors
     pub fn pre_check(&self, prev: &mut BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
-        let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let params = supported_params(self.upgrade_state.current_protocol)?;
 
         // check round
         let round = basics::Round(prev.round.0 + 1);
@@ -455,7 +455,7 @@ impl BlockHeader {
     ) -> Result<transactions::SignedTxWithAD, InvalidBlock> {
         let mut stad = stb.tx.clone();
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let proto = supported_params(self.upgrade_state.current_protocol)?;
         if !proto.support_signed_tx_in_block {
             return Ok(stad);
         }
@@ -493,7 +493,7 @@ impl BlockHeader {
         let mut has_genesis_id = false;
         let mut has_genesis_hash = false;
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let proto = supported_params(self.upgrade_state.current_protocol)?;
         if !proto.support_signed_tx_in_block {
             let stad = transactions::SignedTxWithAD { tx: st, ad };
             return Ok(transactions::SignedTxInBlock {
@@ -625,7 +625,7 @@ impl UpgradeState {
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
         // Locate the config parameters for current protocol
-        let params = &config::CONSENSUS.0[&self.current_protocol];
+        let params = supported_params(self.current_protocol)?;
 
         let mut state = self.clone();
 
@@ -704,13 +704,23 @@ impl UpgradeState {
     }
 }
 
+/// Returns the parameters of a consensus protocol, or an error if it is not supported.
+fn supported_params(
+    version: protocol::ConsensusVersion,
+) -> Result<&'static config::ConsensusParams, InvalidBlock> {
+    config::CONSENSUS
+        .0
+        .get(&version)
+        .ok_or(InvalidBlock::UnsupportedProtocol(version))
+}
+
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
 // TODO should `prev` be mut, ref, or mut ref
 pub fn process_upgrade_params(
     prev: &mut BlockHeader,
 ) -> Result<(UpgradeVote, UpgradeState), InvalidBlock> {
-    // Find parameters for current protocol; panic if not supported
-    let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
+    // Find parameters for current protocol
+    let prev_params = supported_params(prev.upgrade_state.current_protocol)?;
 
     // Decide on the votes for protocol upgrades
     // (naming the current protocol means that there is no proposal)
diff --git a/src/data/bookkeeping/errors.rs b/src/data/bookkeeping/errors.rs
index 7fc2aef..4a013cb 100644
--- a/src/data/bookkeeping/errors.rs
+++ b/src/data/bookkeeping/errors.rs
@@ -5,6 +5,7 @@ use thiserror::Error;
 
 use crate::crypto::CryptoHash;
 use crate::data::basics;
+use crate::protocol;
 
 #[derive(Debug, PartialEq, Eq, Error)]
 pub enum InvalidBlock {
@@ -16,6 +17,8 @@ pub enum InvalidBlock {
         last_valid: basics::Round,
     },
 
+    #[error("consensus protocol {0} not supported")]
+    UnsupportedProtocol(protocol::ConsensusVersion),
     #[error("block is for round {0}, expected round {1}")]
     WrongRound(basics::Round, basics::Round),
     #[error("block is following block with hash {0}, expected prev to be {1}")]
-- 
2.43.0


From 68197c802a5f0a59eb8cc027f8166e160d87f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 24/61] fix: the bound on a block's timestamp does not overflow

---
 src/data/bookkeeping/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 3b6d52e..08b6fe7 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -241,10 +241,13 @@ impl Block {
             .unwrap()
             .as_secs();
         if prev.timestamp > 0 {
+            let latest = prev
+                .timestamp
+                .saturating_add(params.max_timestamp_increment);
             if timestamp < prev.timestamp {
                 timestamp = prev.timestamp;
-            } else if timestamp > prev.timestamp + params.max_timestamp_increment {
-                timestamp = prev.timestamp + params.max_timestamp_increment;
+            } else if timestamp > latest {
+                timestamp = latest;
             }
         }
 
@@ -388,7 +391,11 @@ impl BlockHeader {
                     self.timestamp,
                     prev.timestamp,
                 ));
-            } else if self.timestamp > prev.timestamp + params.max_timestamp_increment {
+            } else if self.timestamp
+                > prev
+                    .timestamp
+                    .saturating_add(params.max_timestamp_increment)
+            {
                 return Err(InvalidBlock::BadLateTimestamp(
                     self.timestamp,
                     prev.timestamp,
-- 
2.43.0


From ea5797fe9776ea6be582db4c135f37be1e432e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 25/61] fix: the rewards rate is refreshed from what the pool
 can spend above its minimum balance

---
 src/data/bookkeeping/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 08b6fe7..f4415e7 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -573,7 +573,7 @@ impl RewardsState {
             }
 
             // it is time to refresh the rewards rate
-            let new_rate = match incentive_pool_balance.0.checked_add(max_spent_over) {
+            let new_rate = match incentive_pool_balance.0.checked_sub(max_spent_over) {
                 Some(n) => n,
                 None => {
                     error!(
-- 
2.43.0


From 3e95739738006bd30dc22963e914c7f20e07c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 26/61] fix: committing to an undecodable or unsupported payset
 is an error instead of a panic

---
 src/crypto/merklearray/merkle.rs | 6 +++---
 src/data/bookkeeping/block.rs    | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/crypto/merklearray/merkle.rs b/src/crypto/merklearray/merkle.rs
index ca72f2c..5612cb2 100644
--- a/src/crypto/merklearray/merkle.rs
+++ b/src/crypto/merklearray/merkle.rs
@@ -42,7 +42,7 @@ impl Tree {
             .0
             .par_iter()
             .map(|stib| {
-                let stad = block.header.decode_signed_tx(stib).unwrap();
+                let stad = block.header.decode_signed_tx(stib).map_err(|_| ())?;
                 let txid = stad.tx.tx.id();
                 let stib = hash_obj(stib);
 
@@ -50,9 +50,9 @@ impl Tree {
                 buf[..HASH_LEN].copy_from_slice(&txid.0 .0);
                 buf[HASH_LEN..].copy_from_slice(&stib.0);
 
-                hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat())
+                Ok(hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat()))
             })
-            .collect();
+            .collect::<Result<Vec<_>, ()>>()?;
 
         let mut tree = Self {
             levels: vec![Layer(leaves)],
diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index f4415e7..08e86f8 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -278,14 +278,13 @@ impl Block {
     /// Computes the commitment to the payset,
     /// using the appropriate commitment plan based on the block's protocol.
     pub fn payset_commit(&self) -> Result<CryptoHash, ()> {
-        let params = &config::CONSENSUS.0[&self.header.upgrade_state.current_protocol];
+        let params =
+            supported_params(self.header.upgrade_state.current_protocol).map_err(|_| ())?;
 
         match params.payset_commit {
             config::PaysetCommitType::Flat => Ok(self.payset.commit_flat()),
             config::PaysetCommitType::Merkle => Ok(self.tx_merkle_tree()?.root()),
-            config::PaysetCommitType::Unsupported => {
-                panic!("encountered unsuppported payset commit type")
-            }
+            config::PaysetCommitType::Unsupported => Err(()),
         }
     }
 
-- 
2.43.0


From 7c195440814a253aedbadcf4972fd1b9f9398b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 27/61] fix: next_version_info tells whether the version is
 supported

---
 src/data/bookkeeping/block.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 08e86f8..ff79b2a 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -435,21 +435,23 @@ impl BlockHeader {
     /// (the ConsensusVersion object, the round in whichh it is supposed to switch on, and whether it is supported).
     /// If no upgrade is scheduled, return the current protocol.
     pub fn next_version_info(&self) -> (Option<protocol::ConsensusVersion>, basics::Round, bool) {
-        // TODO handle supported check with enum (maybe introduce `Unsupported` enum variant
-        //_, supported = config.Consensus[ver]
+        let is_supported = |version| config::CONSENSUS.0.contains_key(version);
         if self.round >= self.upgrade_state.next_protocol_vote_before
             && self.round < self.upgrade_state.next_protocol_switch_on
         {
             (
                 self.upgrade_state.next_protocol,
                 self.upgrade_state.next_protocol_switch_on,
-                true,
+                self.upgrade_state
+                    .next_protocol
+                    .as_ref()
+                    .map_or(false, is_supported),
             )
         } else {
             (
                 Some(self.upgrade_state.current_protocol),
                 basics::Round(self.round.0 + 1),
-                true,
+                is_supported(&self.upgrade_state.current_protocol),
             )
         }
     }
-- 
2.43.0


From cab02287157fd313032e1776fe0d2eeff7e7d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 28/61] fix: a genesis without a rewards pool or with an
 unsupported protocol is refused instead of a panic

---
 src/data/bookkeeping/genesis.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 3052766..93a3a53 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -73,7 +73,7 @@ impl Genesis {
         id: &str,
         hash: crypto::CryptoHash,
     ) -> Result<Block, ()> {
-        let params = &config::CONSENSUS.0[&proto];
+        let params = config::CONSENSUS.0.get(&proto).ok_or(())?;
 
         let mut genesis_rewards_state = RewardsState {
             fee_sink: gen_bal.fee_sink,
@@ -84,7 +84,12 @@ impl Genesis {
             rewards_recalculation_round: basics::Round(params.rewards_rate_refresh_interval),
         };
 
-        let initial_rewards = gen_bal.balances[&gen_bal.rewards_pool].micro_algos.0;
+        let initial_rewards = gen_bal
+            .balances
+            .get(&gen_bal.rewards_pool)
+            .ok_or(())?
+            .micro_algos
+            .0;
         if params.initial_rewards_rate_calculation {
             genesis_rewards_state.rewards_rate = initial_rewards.saturating_sub(params.min_balance)
                 / params.rewards_rate_refresh_interval;
-- 
2.43.0


From 50c365b376733d19db929e6db1f65e812473ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 29/61] fix: a missing or malformed genesis file is an error
 instead of a panic

---
 src/data/bookkeeping/genesis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 93a3a53..9330d39 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -128,8 +128,8 @@ impl Genesis {
     // TODO update once actual JSON encoding is implemented
     fn load_from_file<P: AsRef<std::path::Path>>(genesis_file: P) -> Result<Genesis, ()> {
         // Load genesis.json
-        let file = std::fs::File::open(&genesis_file).unwrap();
-        let genesis: Genesis = rmp_serde::decode::from_read(file).unwrap();
+        let file = std::fs::File::open(&genesis_file).map_err(|_| ())?;
+        let genesis: Genesis = rmp_serde::decode::from_read(file).map_err(|_| ())?;
         Ok(genesis)
     }
 
-- 
2.43.0


From 45b7c406e1d7a9be0a5a1c66f49cd90528affe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 30/61] verification hooks: formatting

---
 src/data/basics/user_balance.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index ccd579c..76d950b 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -568,7 +568,11 @@ impl AppIndex {
 #[cfg(algorsand_verif)]
 impl AccountData {
     /// Verification hook: see `money`.
-    pub fn verif_money(&self, proto: &config::ConsensusParams, level: u64) -> (MicroAlgos, MicroAlgos) {
+    pub fn verif_money(
+        &self,
+        proto: &config::ConsensusParams,
+        level: u64,
+    ) -> (MicroAlgos, MicroAlgos) {
         self.money(proto, level)
     }
 
@@ -584,7 +588,11 @@ impl AccountData {
     }
 
     /// Verification hook: see `with_updated_rewards`.
-    pub fn verif_with_updated_rewards(&self, proto: &config::ConsensusParams, level: u64) -> AccountData {
+    pub fn verif_with_updated_rewards(
+        &self,
+        proto: &config::ConsensusParams,
+        level: u64,
+    ) -> AccountData {
         self.with_updated_rewards(proto, level)
     }
 
-- 
2.43.0


From 3d5f2515ee227bb93c7e0425231d2a7cf8447851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 31/61] fix: rounding up to a multiple does not overflow for
 representable results

---
 src/data/basics/units.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 303e638..46ded38 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -88,7 +88,10 @@ impl Round {
 
     /// Rounds up round number to the next multiple of r.
     fn round_up_to_multiple_of(&self, r: Self) -> Self {
-        Self((self.0 + r.0 - 1) / r.0 * r.0)
+        match self.0 % r.0 {
+            0 => *self,
+            past => Self(self.0 - past + r.0),
+        }
     }
 }
 
-- 
2.43.0


From c574496deccd0830c7bb9f6c763171c7f6d02f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 32/61] fix: the normalized balance of large accounts does not
 overflow

---
 src/data/basics/user_balance.rs | 36 +++++----------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 76d950b..edb9021 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -508,37 +508,11 @@ impl AccountData {
         // To normalize, we compute, mathematically,
         // `u.MicroAlgos / perRewardUnit * proto.RewardUnit`, as
         // `(u.MicroAlgos * proto.RewardUnit) / perRewardUnit`.
-        //norm, overflowed = Muldiv(self.micro_algos.to_u64(), proto.reward_unit, per_reward_unit)?
-        let norm = self.micro_algos.to_u64().checked_mul(proto.reward_unit);
-
-        // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-        // as long as `self.reward_base` isn't huge enough to cause overflow.
-        if norm.is_none() {
-            // TODO use logger
-            panic!(
-                "overflow computing normalized balance {} * {} / ({} + {})",
-                self.micro_algos.to_u64(),
-                proto.reward_unit,
-                self.rewards_base,
-                proto.reward_unit
-            );
-        }
-
-        match norm.unwrap().checked_div(per_reward_unit) {
-            // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-            // as long as `self.reward_base` isn't huge enough to cause overflow.
-            None => {
-                // TODO use logger
-                panic!(
-                    "overflow computing normalized balance {} * {} / ({} + {})",
-                    self.micro_algos.to_u64(),
-                    proto.reward_unit,
-                    self.rewards_base,
-                    proto.reward_unit
-                );
-            }
-            Some(n) => n,
-        }
+        // Impossible to overflow because `per_reward_unit >= proto.reward_unit`,
+        // as long as the product is computed with enough precision.
+        let norm = u128::from(self.micro_algos.to_u64()) * u128::from(proto.reward_unit)
+            / u128::from(per_reward_unit);
+        norm as u64
     }
 }
 
-- 
2.43.0


From 29e0831cf9324e3cc58e15ce7011770c2fcae673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:20 +0000
Subject: [PATCH 33/61] fix: the hash of a balance record commits to the
 account

---
 src/data/basics/user_balance.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index edb9021..87a7f65 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -525,9 +525,7 @@ struct BalanceRecord {
 
 impl Hashable for BalanceRecord {
     fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
-        // TODO implement protocol::codec
-        //(protocol::BALANCE_RECORD, protocol::encode(&self))
-        (protocol::BALANCE_RECORD, Vec::new())
+        (protocol::BALANCE_RECORD, protocol::encode(&self))
     }
 }
 
-- 
2.43.0


From c8c4bb70d428015759ba2d04f7d5337ddc15d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:36 +0000
Subject: [PATCH 34/61] fix: key file names are recognised by their own kind
 and lose one suffix only

---
 src/config/keyfile.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index ca2a63e..268bac2 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -33,7 +33,7 @@ pub fn matches_part_key_filename(account: &str, filename: &str) -> bool {
 
 /// Returns true iff the given filename is a valid root key filename.
 pub fn is_root_key_filename(filename: &str) -> bool {
-    let n = account_name_from_part_key_filename(filename);
+    let n = account_name_from_root_key_filename(filename);
     matches_root_key_filename(&n, filename)
 }
 
@@ -47,7 +47,10 @@ pub fn is_part_key_filename(filename: &str) -> bool {
 ///
 /// If filename is not a valid root key filename, this returns the filename unchanged.
 pub fn account_name_from_root_key_filename(filename: &str) -> String {
-    filename.trim_end_matches(".rootkey").to_owned()
+    filename
+        .strip_suffix(".rootkey")
+        .unwrap_or(filename)
+        .to_owned()
 }
 
 /// Returns the account name given a participation key filename.
@@ -56,7 +59,10 @@ pub fn account_name_from_root_key_filename(filename: &str) -> String {
 pub fn account_name_from_part_key_filename(filename: &str) -> String {
     if let Some((first, last)) = extract_part_valid_interval(filename) {
         let suffix = format!(".{}.{}.partkey", first.0, last.0);
-        filename.trim_end_matches(&suffix).to_owned()
+        filename
+            .strip_suffix(suffix.as_str())
+            .unwrap_or(filename)
+            .to_owned()
     } else {
         filename.to_owned()
     }
-- 
2.43.0


From b1b1350519b518b6e6dad1b5c661133fe5f16940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 35/61] fix: saving no consensus protocols deletes the file
 instead of writing an empty one

---
 src/config/consensus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index 08e3ba0..ebbc70c 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -496,7 +496,10 @@ pub fn save_configurable_consensus(data_dir: &str, params: ConsensusProtocols) -
     if params.is_empty() {
         // We have no consensus params to write.
         // In this case, delete the existing file (if any).
-        std::fs::remove_file(&consensus_protocol_path)?;
+        return match std::fs::remove_file(&consensus_protocol_path) {
+            Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e.into()),
+            _ => Ok(()),
+        };
     }
     let f = std::fs::OpenOptions::new()
         .write(true)
-- 
2.43.0


From ebabeaedd573d6e6bc6f1911ab9b1b37c78950ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 36/61] fix: merging protocols keeps final versions and leaves
 no upgrade path to deleted ones

---
 src/config/consensus.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index ebbc70c..5a44a30 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -15,7 +15,7 @@ use super::Result;
 use crate::data::basics;
 
 /// Specifies settings that might vary based on the particular version of the consensus protocol.
-#[derive(Clone, Default, Serialize, Deserialize)]
+#[derive(Clone, Default, PartialEq, Serialize, Deserialize)]
 pub struct ConsensusParams {
     // Consensus protocol upgrades.
     // Votes for upgrades are collected for `upgrade_vote_rounds`.
@@ -525,29 +525,26 @@ impl ConsensusProtocols {
     pub fn merge(&mut self, configurable_consensus: Self) -> Self {
         let mut static_consensus = self.clone();
 
+        let mut deleted = Vec::new();
         for (version, params) in configurable_consensus.0 {
-            if params.approved_upgrades.is_empty() {
+            if params == ConsensusParams::default() {
                 // if we were provided with an empty ConsensusParams,
                 // delete the existing reference to this consensus version
-                for (ver, par) in &self.0 {
-                    if *ver == version {
-                        static_consensus.0.remove(ver);
-                    } else if par.approved_upgrades.contains_key(&version) {
-                        // delete upgrade to deleted version
-                        static_consensus
-                            .0
-                            .get_mut(ver)
-                            .unwrap()
-                            .approved_upgrades
-                            .remove(&version);
-                    }
-                }
+                static_consensus.0.remove(&version);
+                deleted.push(version);
             } else {
                 // need to add/update entry
                 static_consensus.0.insert(version, params);
             }
         }
 
+        // delete upgrades to deleted versions
+        for params in static_consensus.0.values_mut() {
+            for version in &deleted {
+                params.approved_upgrades.remove(version);
+            }
+        }
+
         static_consensus
     }
 }
-- 
2.43.0


From 9f8690a0fba22d796b0b4651b467649594996af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 37/61] fix: settings missing from the configuration file keep
 their defaults

---
 src/config/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09e2001..5f3b0ff 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -522,7 +522,13 @@ impl Local {
     }
 
     fn load(&mut self, content: &str) -> io::Result<()> {
-        *self = serde_json::from_str(content)?;
+        // Settings missing from the file keep their current value.
+        let settings: serde_json::Map<String, serde_json::Value> = serde_json::from_str(content)?;
+        let mut merged = serde_json::to_value(&*self)?;
+        for (name, value) in settings {
+            merged[name.as_str()] = value;
+        }
+        *self = serde_json::from_value(merged)?;
         Ok(())
     }
 
-- 
2.43.0


From d82f5f318c3cd80104526bac82cf2ee575f3461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:24 +0000
Subject: [PATCH 38/61] fix: saving the configuration writes it to the file

---
 src/config/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 5f3b0ff..2f8fb0b 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -563,21 +563,21 @@ impl Local {
     pub fn save_to_disk(&self, root: &str) -> io::Result<()> {
         let configpath = Path::new(root).join(CONFIG_FILENAME);
         let configpath_str = configpath.into_os_string().into_string().unwrap();
-        let expanded_path = shellexpand::env(&configpath_str);
-        self.save_to_file(&expanded_path.unwrap())
+        let expanded_path = shellexpand::env(&configpath_str)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+        self.save_to_file(&expanded_path)
     }
 
     /// Saves the config to a specific filename, allowing overriding the default name.
-    // TODO actually write to file once util/codecs is implemented
+    ///
+    /// Only the version and settings that differ from their default are written.
     pub fn save_to_file(&self, filename: &str) -> io::Result<()> {
-        Ok(())
-        /*return codecs.SaveNonDefaultValuesToFile(
-            filename,
-            cfg,
-            DEFAULT_LOCAL,
-            vec!["Version".to_owned()],
-            true,
-        );*/
+        let defaults = serde_json::to_value(Self::default())?;
+        let mut settings = serde_json::to_value(self)?;
+        if let Some(settings) = settings.as_object_mut() {
+            settings.retain(|name, value| name == "version" || defaults[name.as_str()] != *value);
+        }
+        fs::write(filename, serde_json::to_vec_pretty(&settings)?)
     }
 
     /// Returns true iff SRV response verification enforced.
-- 
2.43.0


From b8ceb3e7edf3b962bcd0c05cf78c12d4966186bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:24 +0000
Subject: [PATCH 39/61] fix: loading a phonebook returns its entries

---
 src/config/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 2f8fb0b..5e8d473 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -635,32 +635,27 @@ struct PhonebookBlackWhiteList {
 /// Returns a phonebook loaded from the provided directory, if it exists.
 // NOTE: We no longer use phonebook for anything but tests, but users should be able to use it
 pub fn load_phonebook(datadir: &str) -> io::Result<Vec<String>> {
-    let entries = Vec::new();
     let path = Path::new(datadir).join(PHONEBOOK_FILENAME);
     let content = fs::read_to_string(path)?;
-    //if os.IsNotExist(rootErr) {
-    //	//don't return error
-    //} else {
-    //phonebook := PhonebookBlackWhiteList{}
-    serde_json::from_str(&content)?;
-    //entries = phonebook.include
+    let phonebook: PhonebookBlackWhiteList = serde_json::from_str(&content)?;
 
     // get an initial list of peers
-    Ok(entries)
+    Ok(phonebook.include)
 }
 
 /// Writes the phonebook into a root/PhonebookFilename file.
 pub fn save_phonebook_to_disk(entries: Vec<String>, root: &str) -> Result<()> {
     let configpath = Path::new(root).join(PHONEBOOK_FILENAME);
     let configpath_str = configpath.into_os_string().into_string().unwrap();
-    let expanded_path = shellexpand::env(&configpath_str);
+    let expanded_path = shellexpand::env(&configpath_str)
+        .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
     let mut f = fs::OpenOptions::new()
         .write(true)
         .read(false)
         .create(true)
         .truncate(true)
         .mode(0o600)
-        .open(&*expanded_path.unwrap())?;
+        .open(&*expanded_path)?;
     save_phonebook(entries, &mut f)?;
     Ok(())
 }
-- 
2.43.0


From 677fa4c476e53d7711e397ffed646c56a1112b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:24 +0000
Subject: [PATCH 40/61] fix: an existing global configuration directory is
 reused

---
 src/config/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 5e8d473..578a017 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -681,9 +681,10 @@ pub fn get_config_file_path(file: &str) -> Result<PathBuf> {
 pub fn get_global_config_file_root() -> io::Result<PathBuf> {
     let mut gcfr = GLOBAL_CONFIG_FILE_ROOT.write().unwrap();
     if gcfr.as_os_str().is_empty() {
-        *gcfr = get_default_config_file_path()?;
+        let default_root = get_default_config_file_path()?;
         // TODO use permissions 0o777
-        fs::create_dir(gcfr.clone())?;
+        fs::create_dir_all(&default_root)?;
+        *gcfr = default_root;
     }
     Ok(gcfr.clone())
 }
-- 
2.43.0


From 59ec96e1f8582dc4e050c7cf39aa6c4d0c1a7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 41/61] verification hooks: configuration

---
 src/config/mod.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 578a017..9ed4ab4 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -710,3 +710,37 @@ pub fn get_default_config_file_path() -> io::Result<PathBuf> {
         )),
     }
 }
+
+/// Verification hook: functions on key file names.
+#[cfg(algorsand_verif)]
+pub mod verif_keyfile {
+    pub use super::keyfile::*;
+}
+
+#[cfg(algorsand_verif)]
+impl Local {
+    /// Verification hook: see `load_from_disk`.
+    pub fn verif_load_from_disk(custom: &str) -> Result<Self> {
+        Self::load_from_disk(&custom)
+    }
+
+    /// Verification hook: see `load_from_file`.
+    pub fn verif_load_from_file(file: &Path) -> Result<Self> {
+        Self::load_from_file(&file)
+    }
+
+    /// Verification hook: see `merge_from_dir`.
+    pub fn verif_merge_from_dir(&mut self, root: &str) -> Result<()> {
+        self.merge_from_dir(&root)
+    }
+
+    /// Verification hook: see `dns_bootsrap_array`.
+    pub fn verif_dns_bootstrap_array(&self, network: &str) -> Vec<String> {
+        self.dns_bootsrap_array(network)
+    }
+
+    /// Verification hook: see `dns_bootstrap`.
+    pub fn verif_dns_bootstrap(&self, network: &str) -> String {
+        self.dns_bootstrap(network)
+    }
+}
-- 
2.43.0


From 9df5ca91bf188d93103b40916d2bd87558d19f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:55 +0000
Subject: [PATCH 42/61] verification hooks: round range of a key file name

---
 src/config/keyfile.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index 268bac2..dc797fe 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -83,3 +83,9 @@ fn extract_part_valid_interval(filename: &str) -> Option<(basics::Round, basics:
         _ => None,
     }
 }
+
+/// Verification hook: see `extract_part_valid_interval`.
+#[cfg(algorsand_verif)]
+pub fn verif_part_valid_interval(filename: &str) -> Option<(basics::Round, basics::Round)> {
+    extract_part_valid_interval(filename)
+}
-- 
2.43.0


From b2e28331005aa74866f6a4ca8af234d28489bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 43/61] fix: generating a root account does not panic

---
 src/data/account.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 5d145b2..0b52098 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -3,6 +3,7 @@
 
 use std::convert::TryInto;
 
+use ed25519_dalek::{PublicKey, SecretKey};
 use lazy_static::lazy_static;
 use rand::{rngs::OsRng, RngCore};
 use sled::Db;
@@ -74,7 +75,9 @@ impl Root {
 
     /// Instantiate a key based on the given seed.
     fn import(seed: [u8; 32]) -> Result<Root, Error> {
-        let kp = crypto::Keypair::from_bytes(&seed).unwrap();
+        let secret = SecretKey::from_bytes(&seed).unwrap();
+        let public = PublicKey::from(&secret);
+        let kp = crypto::Keypair { secret, public };
         let raw = protocol::encode(&kp);
 
         KEY_STORE.insert("root", raw)?;
-- 
2.43.0


From 6d18732e45e59feaa872871d436cc0592ae61c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 44/61] fix: restoring missing or malformed participation keys
 is an error instead of a panic

---
 src/data/account.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 0b52098..b157f46 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -60,6 +60,8 @@ pub enum Error {
     InvalidRoundInterval(basics::Round, basics::Round),
     #[error("failed to access account storage")]
     StorageError(#[from] sled::Error),
+    #[error("malformed entry in account storage ({0})")]
+    MalformedEntry(&'static str),
     #[error("failed to decode data type")]
     DecodeError(#[from] rmp_serde::decode::Error),
 }
@@ -179,28 +181,24 @@ impl Participation {
     }
 
     pub fn restore() -> Result<Self, Error> {
-        let raw_parent = KEY_STORE.get("part-parent")?;
-        let raw_vrf = KEY_STORE.get("part-vrf")?;
-        let raw_voting = KEY_STORE.get("part-voting")?;
-        let raw_first_valid = KEY_STORE.get("part-first_valid")?;
-        let raw_last_valid = KEY_STORE.get("part-last_valid")?;
-        let raw_key_dilution = KEY_STORE.get("part-key_dilution")?;
-
-        let parent = raw_parent.unwrap().as_ref().try_into().unwrap();
-        let vrf = protocol::decode(&raw_vrf.unwrap())?;
-        let voting = protocol::decode(&raw_voting.unwrap())?;
-        let first_valid = u64::from_be_bytes(raw_first_valid.unwrap().as_ref().try_into().unwrap());
-        let last_valid = u64::from_be_bytes(raw_last_valid.unwrap().as_ref().try_into().unwrap());
-        let key_dilution =
-            u64::from_be_bytes(raw_key_dilution.unwrap().as_ref().try_into().unwrap());
+        let load = |key: &'static str| KEY_STORE.get(key)?.ok_or(Error::NotFound);
+        let load_u64 = |key| match load(key)?.as_ref().try_into() {
+            Ok(raw) => Ok(u64::from_be_bytes(raw)),
+            Err(_) => Err(Error::MalformedEntry(key)),
+        };
+
+        let parent = match load("part-parent")?.as_ref().try_into() {
+            Ok(raw) => basics::Address(raw),
+            Err(_) => return Err(Error::MalformedEntry("part-parent")),
+        };
 
         Ok(Self {
-            parent: basics::Address(parent),
-            vrf,
-            voting,
-            first_valid: basics::Round(first_valid),
-            last_valid: basics::Round(last_valid),
-            key_dilution,
+            parent,
+            vrf: protocol::decode(&load("part-vrf")?)?,
+            voting: protocol::decode(&load("part-voting")?)?,
+            first_valid: basics::Round(load_u64("part-first_valid")?),
+            last_valid: basics::Round(load_u64("part-last_valid")?),
+            key_dilution: load_u64("part-key_dilution")?,
         })
     }
 
-- 
2.43.0


From 47159d87dd45be9e16e48c52a0d45fa1fb284b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 45/61] fix: creating participation keys reports a zero
 dilution and storage errors instead of panicking

---
 src/data/account.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index b157f46..05403b5 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -58,6 +58,8 @@ pub enum Error {
     NotFound,
     #[error("invalid round interval ({0}-{1})")]
     InvalidRoundInterval(basics::Round, basics::Round),
+    #[error("key dilution must not be zero")]
+    InvalidKeyDilution,
     #[error("failed to access account storage")]
     StorageError(#[from] sled::Error),
     #[error("malformed entry in account storage ({0})")]
@@ -240,6 +242,10 @@ impl Participation {
             return Err(Error::InvalidRoundInterval(first_valid, last_valid));
         }
 
+        if key_dilution == 0 {
+            return Err(Error::InvalidKeyDilution);
+        }
+
         // Compute how many distinct participation keys we should generate
         let first_id = first_valid.ots_id(key_dilution);
         let last_id = last_valid.ots_id(key_dilution);
@@ -264,8 +270,7 @@ impl Participation {
             key_dilution,
         };
         // Persist the Participation into the database
-        // TODO pass Error up
-        part.persist().unwrap();
+        part.persist()?;
         Ok(part)
     }
 
-- 
2.43.0


From a7d0a51e45bc09cd61e06fa24d23aa715b163279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 46/61] fix: participation keys are stored in one atomic batch

---
 src/data/account.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 05403b5..8fcc233 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -280,12 +280,15 @@ impl Participation {
         let voting = self.voting.snapshot();
         let voting_enc = protocol::encode(&voting);
 
-        KEY_STORE.insert("part-parent", &self.parent.0[..])?;
-        KEY_STORE.insert("part-vrf", vrf_enc)?;
-        KEY_STORE.insert("part-voting", voting_enc)?;
-        KEY_STORE.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..])?;
+        // All entries are written together, so that a crash can not leave a mix of two keys behind.
+        let mut batch = sled::Batch::default();
+        batch.insert("part-parent", &self.parent.0[..]);
+        batch.insert("part-vrf", vrf_enc);
+        batch.insert("part-voting", voting_enc);
+        batch.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..]);
+        batch.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..]);
+        batch.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..]);
+        KEY_STORE.apply_batch(batch)?;
         KEY_STORE.flush()?;
 
         Ok(())
-- 
2.43.0


From 11e8d2d5d118ebe3eee73d8aa07b22d7657d8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 47/61] fix: deleting old keys never mixes the stored entries
 of two participations

---
 src/data/account.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 8fcc233..2c1a128 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -217,11 +217,9 @@ impl Participation {
 
         self.voting
             .delete_before(current.ots_id(key_dilution), key_dilution);
-        let voting = self.voting.snapshot();
-        let voting_enc = protocol::encode(&voting);
-        KEY_STORE.insert("part-voting", voting_enc)?;
-        KEY_STORE.flush()?;
-        Ok(())
+
+        // The store may hold another participation by now, whose entries must not be mixed with ours.
+        self.persist()
     }
 
     /// Writes a new parent address to the partkey database.
-- 
2.43.0


From 7765eeded96b18203e2e0fd73281b7f2c21aae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 48/61] fix: a key store that can not be opened is an error
 instead of a panic

---
 src/data/account.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 2c1a128..7702a1e 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -15,7 +15,11 @@ use crate::data::*;
 use crate::protocol;
 
 lazy_static! {
-    static ref KEY_STORE: Db = sled::open("keystore.db").unwrap();
+    static ref KEY_STORE: Result<Db, sled::Error> = sled::open("keystore.db");
+}
+
+fn key_store() -> Result<&'static Db, Error> {
+    KEY_STORE.as_ref().map_err(|e| e.clone().into())
 }
 
 /// Encapsulates a set of secrets which controls some store of money.
@@ -84,15 +88,16 @@ impl Root {
         let kp = crypto::Keypair { secret, public };
         let raw = protocol::encode(&kp);
 
-        KEY_STORE.insert("root", raw)?;
-        KEY_STORE.flush()?;
+        let store = key_store()?;
+        store.insert("root", raw)?;
+        store.flush()?;
 
         Ok(Root { kp })
     }
 
     /// Restores a Root from a database handle.
     pub fn restore() -> Result<Root, Error> {
-        let res = KEY_STORE.get("root")?;
+        let res = key_store()?.get("root")?;
         if res.is_none() {
             return Err(Error::NotFound);
         }
@@ -183,7 +188,8 @@ impl Participation {
     }
 
     pub fn restore() -> Result<Self, Error> {
-        let load = |key: &'static str| KEY_STORE.get(key)?.ok_or(Error::NotFound);
+        let store = key_store()?;
+        let load = |key: &'static str| store.get(key)?.ok_or(Error::NotFound);
         let load_u64 = |key| match load(key)?.as_ref().try_into() {
             Ok(raw) => Ok(u64::from_be_bytes(raw)),
             Err(_) => Err(Error::MalformedEntry(key)),
@@ -224,8 +230,9 @@ impl Participation {
 
     /// Writes a new parent address to the partkey database.
     pub fn persist_new_parent(&self) -> Result<(), Error> {
-        KEY_STORE.insert("part-parent", &self.parent.0[..])?;
-        KEY_STORE.flush()?;
+        let store = key_store()?;
+        store.insert("part-parent", &self.parent.0[..])?;
+        store.flush()?;
         Ok(())
     }
 
@@ -286,8 +293,9 @@ impl Participation {
         batch.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..]);
         batch.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..]);
         batch.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..]);
-        KEY_STORE.apply_batch(batch)?;
-        KEY_STORE.flush()?;
+        let store = key_store()?;
+        store.apply_batch(batch)?;
+        store.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 0b290636526db2e32e41432ab0b4d0ca12612a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 49/61] fix: deleting old keys does not panic without
 certificate state or an unknown protocol

---
 src/data/account_manager.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index 2bcdbe2..d5f1f91 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -104,26 +104,30 @@ impl AccountManager {
         agreement_proto: config::ConsensusParams,
     ) {
         let _guard = self.mu.lock();
-        let latest_proto = &config::CONSENSUS.0[&latest_header.upgrade_state.current_protocol];
+        let compact_cert_rounds = config::CONSENSUS
+            .0
+            .get(&latest_header.upgrade_state.current_protocol)
+            .map_or(0, |proto| proto.compact_cert_rounds);
+        let compact_cert_next_round = latest_header
+            .compact_certs
+            .get(&protocol::CompactCertType::Basic)
+            .map_or(basics::Round(0), |state| state.compactcert_next_round);
 
         for part in self.part_keys.values_mut() {
             // We need a key for round r+1 for agreement.
             let mut next_round = latest_header.round + basics::Round(1);
 
-            if latest_header.compact_certs[&protocol::CompactCertType::Basic].compactcert_next_round
-                > basics::Round(0)
-            {
+            if compact_cert_next_round > basics::Round(0) {
                 // We need a key for the next compact cert round.
                 // This would be CompactCertNextRound+1 (+1 because compact
                 // cert code uses the next round's ephemeral key), except
                 // if we already used that key to produce a signature (as
                 // reported in ccSigs).
-                let mut next_cc = latest_header.compact_certs[&protocol::CompactCertType::Basic]
-                    .compactcert_next_round
-                    + basics::Round(1);
-                if cc_sigs.get(&part.parent).unwrap() >= &next_cc {
-                    next_cc = *cc_sigs.get(&part.parent).unwrap()
-                        + basics::Round(latest_proto.compact_cert_rounds + 1);
+                let mut next_cc = compact_cert_next_round + basics::Round(1);
+                if let Some(&cc_sig) = cc_sigs.get(&part.parent) {
+                    if cc_sig >= next_cc {
+                        next_cc = cc_sig + basics::Round(compact_cert_rounds + 1);
+                    }
                 }
 
                 if next_cc < next_round {
-- 
2.43.0


From 34117803abbd7183cbe23592fad23449124e41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 50/61] verification hooks: accounts and their manager

---
 src/data/account.rs         |  8 ++++++++
 src/data/account_manager.rs | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/data/account.rs b/src/data/account.rs
index 7702a1e..2f63caa 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -310,3 +310,11 @@ impl Participation {
     }
     */
 }
+
+#[cfg(algorsand_verif)]
+impl Root {
+    /// Verification hook: see `import`.
+    pub fn verif_import(seed: [u8; 32]) -> Result<Root, Error> {
+        Self::import(seed)
+    }
+}
diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index d5f1f91..ac8cc1b 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -173,3 +173,37 @@ impl PartialEq for ParticipationKeyIdentity {
 }
 
 impl Eq for ParticipationKeyIdentity {}
+
+/// Verification hook: drives an `AccountManager`.
+#[cfg(algorsand_verif)]
+#[derive(Default)]
+pub struct VerifAccountManager(AccountManager);
+
+#[cfg(algorsand_verif)]
+impl VerifAccountManager {
+    /// Verification hook: see `AccountManager::keys`.
+    pub fn keys(&self, round: basics::Round) -> Vec<&account::Participation> {
+        self.0.keys(round)
+    }
+
+    /// Verification hook: see `AccountManager::has_live_keys`.
+    pub fn has_live_keys(&self, from: basics::Round, to: basics::Round) -> bool {
+        self.0.has_live_keys(from, to)
+    }
+
+    /// Verification hook: see `AccountManager::add_participation`.
+    pub fn add_participation(&mut self, participation: account::Participation) -> bool {
+        self.0.add_participation(participation)
+    }
+
+    /// Verification hook: see `AccountManager::delete_old_keys`.
+    pub fn delete_old_keys(
+        &mut self,
+        latest_header: bookkeeping::BlockHeader,
+        cc_sigs: HashMap<basics::Address, basics::Round>,
+        agreement_proto: config::ConsensusParams,
+    ) {
+        self.0
+            .delete_old_keys(latest_header, cc_sigs, agreement_proto)
+    }
+}
-- 
2.43.0


From 69bc5865a482534cdf917b32a8033b1437b709cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 51/61] fix: optional arguments of the key tool are optional

---
 src/bin/algokey/export.rs   |  2 +-
 src/bin/algokey/generate.rs |  4 ++--
 src/bin/algokey/import.rs   |  2 +-
 src/bin/algokey/part.rs     | 14 +++++++++++---
 src/bin/algokey/sign.rs     |  4 ++--
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 83bbe99..4cb2239 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -19,7 +19,7 @@ pub struct ExportCmd {
     #[clap(short = 'f', long = "keyfile", required = true)]
     sk_file: String,
     /// Public key filename
-    #[clap(short = 'p', long = "pubkeyfile", required = false)]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index b77e96d..85e0eae 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -17,10 +17,10 @@ use algorsand::data::basics::address::Address;
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
 pub struct GenerateCmd {
     /// Private key filename
-    #[clap(short = 'f', long = "keyfile")]
+    #[clap(short = 'f', long = "keyfile", default_value = "")]
     sk_file: String,
     /// Public key filename
-    #[clap(short = 'p', long = "pubkeyfile")]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 799d009..12cbd98 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -22,7 +22,7 @@ pub struct ImportCmd {
     #[clap(short = 'f', long = "keyfile", required = true)]
     sk_file: String,
     /// Public key filename to write to
-    #[clap(short = 'p', long = "pubkeyfile", required = false)]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index e83a3d3..49b4bb5 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -39,10 +39,10 @@ pub struct PartGenerateCmd {
     #[clap(short, long, required = true)]
     last: u64,
     /// Key dilution (default: sqrt(last-first))
-    #[clap(short, long)]
+    #[clap(short, long, default_value = "0")]
     dilution: u64,
     /// Address of parent account
-    #[clap(short, long)]
+    #[clap(short, long, default_value = "")]
     parent: String,
 }
 
@@ -77,13 +77,21 @@ impl PartCmd {
 
 impl PartGenerateCmd {
     pub fn entrypoint(&self) {
+        let parent = match self.parent.as_str() {
+            "" => Address([0; 32]),
+            addr => Address::from_str(addr).unwrap_or_else(|e| {
+                eprintln!("Failed to parse parent address: {}", e);
+                std::process::exit(1);
+            }),
+        };
+
         let key_dilution = match self.dilution {
             0 => 1 + ((self.last - self.first) as f64).sqrt() as u64,
             _ => self.dilution,
         };
 
         let res = account::Participation::fill_db_with_participation_keys(
-            Address::from_str(&self.parent).unwrap(),
+            parent,
             Round(self.first),
             Round(self.last),
             key_dilution,
diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 1abe857..96606c2 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -15,10 +15,10 @@ use algorsand::data::{basics, transactions::Transaction};
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
 pub struct SignCmd {
     /// Private key filename
-    #[clap(short = 'f', long = "keyfile")]
+    #[clap(short = 'f', long = "keyfile", default_value = "")]
     sk_file: String,
     /// Private mnemonic phrase
-    #[clap(short = 'm', long = "mnemonic")]
+    #[clap(short = 'm', long = "mnemonic", default_value = "")]
     mnemonic: String,
     /// Transaction input filename
     #[clap(short = 't', long = "txfile", required = true)]
-- 
2.43.0


From 0062e416a12f03b90d02931da866ffa444705120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 52/61] fix: creating participation keys for a reversed round
 range is an error instead of a panic

---
 src/bin/algokey/part.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index 49b4bb5..6267a10 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -86,7 +86,7 @@ impl PartGenerateCmd {
         };
 
         let key_dilution = match self.dilution {
-            0 => 1 + ((self.last - self.first) as f64).sqrt() as u64,
+            0 => 1 + (self.last.saturating_sub(self.first) as f64).sqrt() as u64,
             _ => self.dilution,
         };
 
-- 
2.43.0


From 08c9b56f4aa6f5f6cb4feada9719758d57ef5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 53/61] fix: the key tool reports failures by its exit code

---
 src/bin/algokey/export.rs   |  8 ++++++--
 src/bin/algokey/generate.rs |  6 ++++--
 src/bin/algokey/import.rs   | 18 ++++++++++--------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 4cb2239..f99f571 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -25,7 +25,10 @@ pub struct ExportCmd {
 
 impl ExportCmd {
     pub fn entrypoint(&self) {
-        let seed = load_sk(&self.sk_file).unwrap();
+        let seed = load_sk(&self.sk_file).unwrap_or_else(|e| {
+            eprintln!("[Error] Could not read private key from file: {}", e);
+            std::process::exit(1);
+        });
         let words = mnemonic::key_to_mnemonic(seed);
 
         let key = SecretKey::from_bytes(&seed).unwrap();
@@ -37,7 +40,8 @@ impl ExportCmd {
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index 85e0eae..0566b03 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -41,13 +41,15 @@ impl GenerateCmd {
 
         if !self.sk_file.is_empty() {
             if let Err(e) = write_sk(&self.sk_file, &seed) {
-                println!("[Error] Could not write private key to file: {}", e);
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 12cbd98..36f361d 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -28,12 +28,12 @@ pub struct ImportCmd {
 
 impl ImportCmd {
     pub fn entrypoint(&self) {
-        let seed = mnemonic::phrase_to_key(&self.mnemonic);
-        if let Err(e) = seed.as_ref() {
-            println!("[Error] Invalid mnemonic provided: {}", e);
-        }
+        let seed = mnemonic::phrase_to_key(&self.mnemonic).unwrap_or_else(|e| {
+            eprintln!("[Error] Invalid mnemonic provided: {}", e);
+            std::process::exit(1);
+        });
 
-        let key = SecretKey::from_bytes(seed.as_ref().unwrap()).unwrap();
+        let key = SecretKey::from_bytes(&seed).unwrap();
         let pk: PublicKey = (&key).into();
         let pk_chk = Address(*pk.as_bytes()).to_string();
 
@@ -41,14 +41,16 @@ impl ImportCmd {
         println!("Public key: {}", pk_chk);
 
         if !self.sk_file.is_empty() {
-            if let Err(e) = write_sk(&self.sk_file, seed.as_ref().unwrap()) {
-                println!("[Error] Could not write private key to file: {}", e);
+            if let Err(e) = write_sk(&self.sk_file, &seed) {
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From 998cfdd02e821ed3d07f48ce1ba2fe38a6d4c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 54/61] fix: the key tool signs every transaction of a file

---
 src/bin/algokey/sign.rs | 46 ++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 96606c2..ae849ae 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -6,10 +6,11 @@ use std::io::{self, Read};
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
-use ed25519_dalek::{Keypair, SECRET_KEY_LENGTH};
+use ed25519_dalek::{Keypair, PublicKey, SecretKey, SECRET_KEY_LENGTH};
 
 use algorsand::crypto::mnemonic;
 use algorsand::data::{basics, transactions::Transaction};
+use algorsand::protocol;
 
 #[derive(Parser)]
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
@@ -31,21 +32,31 @@ pub struct SignCmd {
 impl SignCmd {
     pub fn entrypoint(&self) {
         let seed = load_keyfile_or_mnemonic(&self.sk_file, &self.mnemonic);
-        let kp = Keypair::from_bytes(&seed).unwrap();
+        let secret = SecretKey::from_bytes(&seed).unwrap();
+        let public = PublicKey::from(&secret);
+        let kp = Keypair { secret, public };
 
-        // load tx from file
-        let in_f = fs::File::open(&self.tx_file).unwrap();
-        let tx: Transaction = rmp_serde::decode::from_read(in_f).unwrap();
+        // load txs from file
+        let raw = fs::read(&self.tx_file)
+            .unwrap_or_else(|e| fail(&format!("Could not read transactions from file: {}", e)));
 
-        // sign tx
-        let mut sig_tx = tx.sign(&kp);
-        if sig_tx.tx.header.sender != basics::Address(kp.public.to_bytes()) {
-            sig_tx.auth_addr = basics::Address(kp.public.to_bytes());
+        // sign txs
+        let mut out = Vec::new();
+        let mut rest = &raw[..];
+        while !rest.is_empty() {
+            let tx: Transaction = rmp_serde::decode::from_read(&mut rest)
+                .unwrap_or_else(|e| fail(&format!("Could not decode transaction: {}", e)));
+            let mut sig_tx = tx.sign(&kp);
+            if sig_tx.tx.header.sender != basics::Address(kp.public.to_bytes()) {
+                sig_tx.auth_addr = basics::Address(kp.public.to_bytes());
+            }
+            out.extend_from_slice(&protocol::encode(&sig_tx));
         }
 
-        // write signed tx back to file
-        let mut out_f = fs::File::open(&self.out_file).unwrap();
-        rmp_serde::encode::write(&mut out_f, &sig_tx).unwrap();
+        // write signed txs to file
+        if let Err(e) = fs::write(&self.out_file, &out) {
+            fail(&format!("Could not write signed transactions: {}", e));
+        }
     }
 }
 
@@ -56,15 +67,22 @@ fn load_keyfile_or_mnemonic(keyfile: &str, mnemonic: &str) -> [u8; SECRET_KEY_LE
     }
 
     if !keyfile.is_empty() {
-        return load_sk(&keyfile).unwrap();
+        return load_sk(&keyfile)
+            .unwrap_or_else(|e| fail(&format!("Could not read private key from file: {}", e)));
     } else if !mnemonic.is_empty() {
-        return mnemonic::phrase_to_key(mnemonic).unwrap();
+        return mnemonic::phrase_to_key(mnemonic)
+            .unwrap_or_else(|e| fail(&format!("Invalid mnemonic provided: {}", e)));
     }
 
     eprintln!("Must specify one of keyfile or mnemonic");
     std::process::exit(1);
 }
 
+fn fail(msg: &str) -> ! {
+    eprintln!("[Error] {}", msg);
+    std::process::exit(1);
+}
+
 fn load_sk(filename: &impl AsRef<Path>) -> io::Result<[u8; SECRET_KEY_LENGTH]> {
     let mut buf = [0; SECRET_KEY_LENGTH];
     let mut f = fs::File::open(filename)?;
-- 
2.43.0


From 752924ba1dec1d72f2ca68a3b45412d4305b83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:43 +0000
Subject: [PATCH 55/61] fix: key files are made private even if they existed
 before

---
 src/bin/algokey/generate.rs | 6 +++++-
 src/bin/algokey/import.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index 0566b03..3d42c9e 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -3,7 +3,7 @@
 
 use std::fs;
 use std::io::{self, Write};
-use std::os::unix::fs::OpenOptionsExt;
+use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
@@ -63,6 +63,10 @@ fn write_sk(filename: &impl AsRef<Path>, data: &[u8]) -> io::Result<()> {
         .truncate(true)
         .mode(0o600)
         .open(filename)?;
+    // The file may have existed before, readable by others.
+    if f.metadata()?.is_file() {
+        f.set_permissions(fs::Permissions::from_mode(0o600))?;
+    }
     f.write_all(data)
 }
 
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 36f361d..3b27e85 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -3,7 +3,7 @@
 
 use std::fs;
 use std::io::{self, Write};
-use std::os::unix::fs::OpenOptionsExt;
+use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 use std::path::Path;
 
 use clap::Parser;
@@ -64,6 +64,10 @@ fn write_sk(filename: &impl AsRef<Path>, data: &[u8]) -> io::Result<()> {
         .truncate(true)
         .mode(0o600)
         .open(filename)?;
+    // The file may have existed before, readable by others.
+    if f.metadata()?.is_file() {
+        f.set_permissions(fs::Permissions::from_mode(0o600))?;
+    }
     f.write_all(data)
 }
 
-- 
2.43.0


From 3545a72d6b94e4875d3167909ef9b39d6aa26f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 56/61] fix: participation key commands use the key file they
 are given

---
 src/bin/algokey/part.rs | 12 ++++++++++++
 src/data/account.rs     | 11 ++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index 6267a10..ecbcdcd 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -1,6 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::path::Path;
 use std::str::FromStr;
 
 use clap::{AppSettings, Parser};
@@ -90,6 +91,7 @@ impl PartGenerateCmd {
             _ => self.dilution,
         };
 
+        account::use_key_store(&self.keyfile);
         let res = account::Participation::fill_db_with_participation_keys(
             parent,
             Round(self.first),
@@ -109,6 +111,7 @@ impl PartGenerateCmd {
 
 impl PartInfoCmd {
     pub fn entrypoint(&self) {
+        use_existing_key_store(&self.keyfile);
         let res = account::Participation::restore();
 
         match res {
@@ -128,6 +131,7 @@ impl PartReparentCmd {
             std::process::exit(1);
         });
 
+        use_existing_key_store(&self.keyfile);
         let mut part_key = account::Participation::restore().unwrap_or_else(|e| {
             eprintln!("Failed to load participiation key: {}", e);
             std::process::exit(1);
@@ -145,6 +149,14 @@ impl PartReparentCmd {
     }
 }
 
+fn use_existing_key_store(keyfile: &str) {
+    if !Path::new(keyfile).exists() {
+        eprintln!("Failed to load participation key: {} not found", keyfile);
+        std::process::exit(1);
+    }
+    account::use_key_store(keyfile);
+}
+
 fn print_participation_key(part_key: &account::Participation) {
     let voting_pk = BASE64.encode(part_key.voting.verifier.as_bytes());
     println!("Parent address: {}", part_key.parent);
diff --git a/src/data/account.rs b/src/data/account.rs
index 2f63caa..756d800 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -2,6 +2,8 @@
 // Distributed under terms of the MIT license.
 
 use std::convert::TryInto;
+use std::path::PathBuf;
+use std::sync::Mutex;
 
 use ed25519_dalek::{PublicKey, SecretKey};
 use lazy_static::lazy_static;
@@ -15,7 +17,14 @@ use crate::data::*;
 use crate::protocol;
 
 lazy_static! {
-    static ref KEY_STORE: Result<Db, sled::Error> = sled::open("keystore.db");
+    static ref KEY_STORE_PATH: Mutex<PathBuf> = Mutex::new("keystore.db".into());
+    static ref KEY_STORE: Result<Db, sled::Error> = sled::open(&*KEY_STORE_PATH.lock().unwrap());
+}
+
+/// Chooses where keys are stored, instead of "keystore.db" in the working directory.
+/// Has no effect once keys have been stored or restored.
+pub fn use_key_store(path: impl Into<PathBuf>) {
+    *KEY_STORE_PATH.lock().unwrap() = path.into();
 }
 
 fn key_store() -> Result<&'static Db, Error> {
-- 
2.43.0


From e8caebf27c5a329099872684639d41c159a4508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 57/61] fix: key stores are private

---
 src/data/account.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 756d800..8062072 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -2,6 +2,8 @@
 // Distributed under terms of the MIT license.
 
 use std::convert::TryInto;
+use std::fs::DirBuilder;
+use std::os::unix::fs::DirBuilderExt;
 use std::path::PathBuf;
 use std::sync::Mutex;
 
@@ -18,7 +20,17 @@ use crate::protocol;
 
 lazy_static! {
     static ref KEY_STORE_PATH: Mutex<PathBuf> = Mutex::new("keystore.db".into());
-    static ref KEY_STORE: Result<Db, sled::Error> = sled::open(&*KEY_STORE_PATH.lock().unwrap());
+    static ref KEY_STORE: Result<Db, sled::Error> = open_key_store();
+}
+
+fn open_key_store() -> Result<Db, sled::Error> {
+    let path = KEY_STORE_PATH.lock().unwrap();
+    // Nobody else should be able to read the keys.
+    DirBuilder::new()
+        .recursive(true)
+        .mode(0o700)
+        .create(&*path)?;
+    sled::open(&*path)
 }
 
 /// Chooses where keys are stored, instead of "keystore.db" in the working directory.
-- 
2.43.0


From 5aefb48d1bea9fc48a8f87605bcd54fc90cac819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 58/61] fix: concurrently replaced configuration directories
 are each returned once

---
 src/config/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 9ed4ab4..1bcd826 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -693,9 +693,8 @@ pub fn get_global_config_file_root() -> io::Result<PathBuf> {
 /// It returns the current one so it can be restored, if desired.
 /// This will likely only change for tests.
 pub fn set_global_config_file_root(root_path: &impl AsRef<PathBuf>) -> PathBuf {
-    let current_root = GLOBAL_CONFIG_FILE_ROOT.read().unwrap().clone();
-    *GLOBAL_CONFIG_FILE_ROOT.write().unwrap() = root_path.as_ref().clone();
-    current_root
+    let mut gcfr = GLOBAL_CONFIG_FILE_ROOT.write().unwrap();
+    std::mem::replace(&mut *gcfr, root_path.as_ref().clone())
 }
 
 /// Retrieves the default directory for global (not per-instance) config files.
-- 
2.43.0


From bb9fadddb5e858a5d6db6b57ad95b473841b9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 59/61] fix: participation keys restored during a save are
 never a mix

---
 src/data/account.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 8062072..d0a46f5 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -5,7 +5,7 @@ use std::convert::TryInto;
 use std::fs::DirBuilder;
 use std::os::unix::fs::DirBuilderExt;
 use std::path::PathBuf;
-use std::sync::Mutex;
+use std::sync::{Mutex, RwLock};
 
 use ed25519_dalek::{PublicKey, SecretKey};
 use lazy_static::lazy_static;
@@ -21,6 +21,8 @@ use crate::protocol;
 lazy_static! {
     static ref KEY_STORE_PATH: Mutex<PathBuf> = Mutex::new("keystore.db".into());
     static ref KEY_STORE: Result<Db, sled::Error> = open_key_store();
+    /// Guards against restoring entries of a `Participation` while another one is being persisted.
+    static ref PARTICIPATION_LOCK: RwLock<()> = RwLock::new(());
 }
 
 fn open_key_store() -> Result<Db, sled::Error> {
@@ -210,6 +212,7 @@ impl Participation {
 
     pub fn restore() -> Result<Self, Error> {
         let store = key_store()?;
+        let _guard = PARTICIPATION_LOCK.read().unwrap();
         let load = |key: &'static str| store.get(key)?.ok_or(Error::NotFound);
         let load_u64 = |key| match load(key)?.as_ref().try_into() {
             Ok(raw) => Ok(u64::from_be_bytes(raw)),
@@ -252,6 +255,7 @@ impl Participation {
     /// Writes a new parent address to the partkey database.
     pub fn persist_new_parent(&self) -> Result<(), Error> {
         let store = key_store()?;
+        let _guard = PARTICIPATION_LOCK.write().unwrap();
         store.insert("part-parent", &self.parent.0[..])?;
         store.flush()?;
         Ok(())
@@ -315,6 +319,7 @@ impl Participation {
         batch.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..]);
         batch.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..]);
         let store = key_store()?;
+        let _guard = PARTICIPATION_LOCK.write().unwrap();
         store.apply_batch(batch)?;
         store.flush()?;
 
-- 
2.43.0


From b8b48b1a40176424fd33484d142a707af40af070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:00 +0000
Subject: [PATCH 60/61] fix: assembling refuses two different signatures for
 one key

---
 src/crypto/multisig.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/multisig.rs b/src/crypto/multisig.rs
index e963901..bcf84f5 100644
--- a/src/crypto/multisig.rs
+++ b/src/crypto/multisig.rs
@@ -179,6 +179,9 @@ impl MultisigSignature {
         for i in 0..unisig.len() {
             for j in 0..unisig[0].subsigs.len() {
                 if let Some(s) = unisig[i].subsigs[j].sig {
+                    if msig.subsigs[j].sig.map_or(false, |other| other != s) {
+                        return Err(MultisigError::InvalidDuplicates);
+                    }
                     msig.subsigs[j].sig = Some(s);
                 }
             }
-- 
2.43.0


From bc20ed90195f72c7e07dcbb833e976c8efacaa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 61/61] fix: a failed add of signatures leaves the
 multisignature unchanged

---
 src/crypto/multisig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/multisig.rs b/src/crypto/multisig.rs
index bcf84f5..834adb4 100644
--- a/src/crypto/multisig.rs
+++ b/src/crypto/multisig.rs
@@ -268,9 +268,10 @@ impl MultisigSignature {
             self.matches(unisig, unisigs[0].subsigs.len())?;
         }
 
-        // update this msig
+        // update a copy of this msig's subsigs, in case of an error
+        let mut subsigs = self.subsigs.clone();
         for usig in unisigs {
-            for (i, mut subsig) in self.subsigs.iter_mut().enumerate() {
+            for (i, mut subsig) in subsigs.iter_mut().enumerate() {
                 if usig.subsigs[i].sig.is_some() {
                     if subsig.sig.is_none() {
                         // add the signature
@@ -282,6 +283,7 @@ impl MultisigSignature {
                 }
             }
         }
+        self.subsigs = subsigs;
 
         Ok(())
     }
-- 
2.43.0

