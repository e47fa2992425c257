From cc83bb66db4bc170afb2418d14076e495204621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 01/12] verif hook: form arbitrary multiproofs under
 cfg(signal_verif)

---
 ssz-multiproofs/src/lib.rs        |  1 +
 ssz-multiproofs/src/multiproof.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/ssz-multiproofs/src/lib.rs b/ssz-multiproofs/src/lib.rs
index b9364ef..fd57a71 100644
--- a/ssz-multiproofs/src/lib.rs
+++ b/ssz-multiproofs/src/lib.rs
@@ -15,6 +15,7 @@
 #[cfg(feature = "builder")]
 mod builder;
 mod error;
+#[allow(unexpected_cfgs)] // `signal_verif` guards verification hooks
 mod multiproof;
 
 #[cfg(all(test, feature = "builder"))]
diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..e073f24 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -95,6 +95,24 @@ impl Multiproof<'_> {
     }
 }
 
+/// Verification hook: lets a harness form arbitrary (also malformed) multiproofs.
+#[cfg(signal_verif)]
+impl<'a> Multiproof<'a> {
+    pub fn verif_from_parts(
+        data: Cow<'a, [u8]>,
+        value_mask: BitVec<u32, Lsb0>,
+        descriptor: BitVec<u32, Lsb0>,
+        max_stack_depth: usize,
+    ) -> Self {
+        Self {
+            data,
+            value_mask,
+            descriptor,
+            max_stack_depth,
+        }
+    }
+}
+
 /// An iterator over the values in a multiproof along with their gindices
 pub struct ValueIterator<'a, I, const CHUNK_SIZE: usize>
 where
-- 
2.43.0


From b6c52c2072188774477dfccac77f370e3f99e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 02/12] verif hook: shuffle data and proof indices under
 cfg(signal_verif)

---
 core/src/lib.rs         |  2 ++
 core/src/verif_hooks.rs | 55 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)
 create mode 100644 core/src/verif_hooks.rs

diff --git a/core/src/lib.rs b/core/src/lib.rs
index e904eb3..5e77497 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -31,6 +31,8 @@ mod guest_gindices;
 mod input_reader;
 pub mod serde_utils;
 mod state_patch;
+#[allow(unexpected_cfgs)] // `signal_verif` guards verification hooks
+pub mod verif_hooks;
 mod verify;
 
 pub use attestation::*;
diff --git a/core/src/verif_hooks.rs b/core/src/verif_hooks.rs
new file mode 100644
index 0000000..8041d4d
--- /dev/null
+++ b/core/src/verif_hooks.rs
@@ -0,0 +1,55 @@
+// Copyright 2026 Boundless Foundation, Inc.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Verification hooks; empty unless built with `--cfg signal_verif`.
+
+#[cfg(signal_verif)]
+pub fn shuffle_data(
+    seed: alloy_primitives::B256,
+    indices: Vec<crate::ValidatorIndex>,
+    committees_per_slot: usize,
+) -> crate::ShuffleData {
+    crate::ShuffleData {
+        seed,
+        indices,
+        committees_per_slot,
+    }
+}
+
+/// The guest's generalized index of the named field (of validator `i`, where it is a validator field).
+#[cfg(signal_verif)]
+pub fn gindex(name: &str, i: crate::ValidatorIndex) -> u64 {
+    use crate::guest_gindices::*;
+    match name {
+        "slot" => slot_gindex(),
+        "finalized_checkpoint_epoch" => finalized_checkpoint_epoch_gindex(),
+        "genesis_validators_root" => genesis_validators_root_gindex(),
+        "fork_previous_version" => fork_previous_version_gindex(),
+        "fork_current_version" => fork_current_version_gindex(),
+        "fork_epoch" => fork_epoch_gindex(),
+        "validators" => validators_gindex(),
+        "earliest_exit_epoch" => earliest_exit_epoch_gindex(),
+        "earliest_consolidation_epoch" => earliest_consolidation_epoch_gindex(),
+        "state_root" => state_root_gindex(),
+        "block_slot" => block_slot_gindex(),
+        "public_key_0" => public_key_0_gindex(i),
+        "public_key_1" => public_key_1_gindex(i),
+        "effective_balance" => effective_balance_gindex(i),
+        "activation_eligibility_epoch" => activation_eligibility_epoch_gindex(i),
+        "activation_epoch" => activation_epoch_gindex(i),
+        "exit_epoch" => exit_epoch_gindex(i),
+        "slashed" => slashed_gindex(i),
+        _ => panic!("unknown field {name}"),
+    }
+}
-- 
2.43.0


From 510a20010340115641bcff8b8b40729511b705f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 03/12] fix: reject multiproofs deeper than a generalized index
 can express

Beyond depth 63 the gindices reported by the iterators wrapped around, so a proof
accepted against the real root could report an arbitrary node under a small gindex.
---
 ssz-multiproofs/src/multiproof.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index e073f24..5daa0a3 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -22,6 +22,9 @@ use crate::error::{Error, Result};
 
 const CHUNK_SIZE: usize = 32; // Size of each chunk in bytes, used for SSZ serialization
 
+/// Depth of the deepest nodes whose generalized index still fits into a `u64`
+const MAX_DEPTH: usize = u64::BITS as usize - 1;
+
 /// An abstraction around a SSZ merkle multi-proof
 ///
 /// This is deserializable and borrows its data to supports zero-copy deserialization.
@@ -217,6 +220,7 @@ fn calculate_compact_multi_merkle_root(
 ) -> Result<[u8; CHUNK_SIZE]> {
     let mut stack = Vec::with_capacity(stack_depth_hint);
     let mut node_index = 0;
+    let mut depth = 0; // number of internal nodes on the stack, i.e. the depth of the next node
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
         if *bit {
@@ -234,6 +238,7 @@ fn calculate_compact_multi_merkle_root(
                 let right = stack.pop().unwrap();
                 let left = stack.pop().unwrap();
                 stack.pop(); // pop the internal node and replace with the hashed children
+                depth -= 1;
 
                 match left {
                     TreeNode::Leaf(node) => hasher.update(node),
@@ -249,7 +254,13 @@ fn calculate_compact_multi_merkle_root(
                 stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
             }
         } else {
+            // the children of this node must not be deeper than a gindex can express, otherwise
+            // their gindices would wrap around and alias other nodes
+            if depth == MAX_DEPTH {
+                return Err(Error::InvalidProof);
+            }
             stack.push(TreeNode::Internal);
+            depth += 1;
         }
     }
     assert_eq!(stack.len(), 1);
-- 
2.43.0


From ac518df673939dc31b9dd7c5a349203aedf8c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 04/12] fix: return an error instead of panicking when decoding
 an invalid consensus state

---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..3722b90 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -64,6 +64,21 @@ impl ConsensusState {
         state
     }
 
+    /// Constructs a new `ConsensusState`, returning an error if the provided checkpoints form an
+    /// invalid state.
+    #[inline]
+    pub(crate) fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
+        let state = Self {
+            current_justified_checkpoint,
+            finalized_checkpoint,
+        };
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
+    }
+
     /// Returns the finalized checkpoint of the consensus state.
     #[inline]
     pub fn finalized_checkpoint(&self) -> Checkpoint {
-- 
2.43.0


From 27742d7a2b03e9c4e6c46f835ad1c42b75a2fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 05/12] fix: reconstruct the link from the initial state to the
 first epoch

---
 core/src/consensus_state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 3722b90..22cf7a1 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -191,9 +191,12 @@ impl ConsensusState {
         }
 
         // Case 2: Justification only (skipped epoch).
-        // The source must be our previous `current_justified_checkpoint`.
+        // The source must be our previous `current_justified_checkpoint`. A link to the very next
+        // epoch finalizes its source, which leaves the finalized checkpoint unchanged only if the
+        // source was already finalized, i.e. in the all-zero initial state.
         ensure!(
-            target.epoch() - self.current_justified_checkpoint.epoch() > 1,
+            target.epoch() - self.current_justified_checkpoint.epoch() > 1
+                || self.finalized_checkpoint == self.current_justified_checkpoint,
             ConsensusError::InvalidTransition
         );
 
-- 
2.43.0


From 7f91dfc80267a6b167636cc0e3cb21d989dc9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 06/12] fix: do not let a state patch of the genesis epoch
 vouch for itself

---
 core/src/input_reader/guest_input_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..54658db 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,9 +285,11 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
-                let &prev_exit_epoch = self
-                    .patches
-                    .get(&(patch_epoch - 1))
+                // the genesis epoch has no preceding epoch
+                let &prev_exit_epoch = patch_epoch
+                    .as_u64()
+                    .checked_sub(1)
+                    .and_then(|e| self.patches.get(&Epoch::new(e)))
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
-- 
2.43.0


From e5a78227c47627ee23d83d3aa1ffd424f0668036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 07/12] fix: accept exits decided at the end of the trusted
 state's epoch

When the slots at the boundary of the trusted epoch are empty, the trusted
state is from an earlier epoch, and validators may be ejected at the end of
that epoch. Their exit epoch precedes the earliest one that was accepted.
---
 core/src/input_reader/guest_input_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index 54658db..504075f 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -254,11 +254,11 @@ impl<E: EthSpec> GuestInput<'_, E> {
             state.earliest_consolidation_epoch,
         );
 
-        // New exits (consolidations) can only occur with a new block. The earliest this can happen
-        // is during the trusted epoch after the boundary block of the epoch.
+        // New exits (consolidations) can only occur with a new block or when the epoch of the trusted
+        // state ends, i.e. before the trusted epoch if the slots at its boundary are empty.
         let mut earliest_exit_epoch = std::cmp::max(
             earliest_exit_epoch,
-            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
+            spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
 
         // validate the state patched
-- 
2.43.0


From a472e422621e33526e40e4cc2814c1c8964b5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 08/12] fix: check the exits of all state patches against one
 limit

Exits and consolidations have separate queues, so a patch may contain an exit
epoch earlier than one of a preceding patch. Such a patch was refused, because
the earliest accepted exit epoch was carried over from patch to patch.
---
 core/src/input_reader/guest_input_reader.rs | 43 ++++++++++++---------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index 504075f..9ef4af1 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -262,6 +262,7 @@ impl<E: EthSpec> GuestInput<'_, E> {
         );
 
         // validate the state patched
+        let mut new_exits = Vec::new();
         for (&patch_epoch, patch) in &self.patches {
             debug!("Validating state patch: {}", patch_epoch);
 
@@ -269,17 +270,7 @@ impl<E: EthSpec> GuestInput<'_, E> {
             // Therefore, no new epochs from earlier times must be patched.
             assert!(patch_epoch >= trusted_checkpoint.epoch());
 
-            // even at the earliest_exit_epoch additional exits can happen
-            // we could subtract state.exit_balance_to_consume and
-            // state.consolidation_balance_to_consume to make this more exact
-            let mut exit_balance_to_consume = churn;
-
-            // validate the patched exit epochs, this needs to be sorted by epoch
-            for (idx, &exit_epoch) in patch
-                .validator_exits
-                .iter()
-                .sorted_unstable_by_key(|v| v.1.as_u64())
-            {
+            for (idx, &exit_epoch) in &patch.validator_exits {
                 trace!("Validator {idx} exiting at: {exit_epoch}");
 
                 let validator = validators
@@ -301,17 +292,31 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 // exit_epoch must only change once
                 assert_eq!(prev_exit_epoch, spec.far_future_epoch);
 
-                // exit epoch must be in the future
-                assert!(exit_epoch >= earliest_exit_epoch);
-                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
-                earliest_exit_epoch = exit_epoch;
-
-                // churn limit must be respected
-                assert!(exit_balance_to_consume >= validator.effective_balance);
-                exit_balance_to_consume -= validator.effective_balance;
+                new_exits.push((exit_epoch, validator.effective_balance));
             }
         }
 
+        // even at the earliest_exit_epoch additional exits can happen
+        // we could subtract state.exit_balance_to_consume and
+        // state.consolidation_balance_to_consume to make this more exact
+        let mut exit_balance_to_consume = churn;
+
+        // validate the patched exit epochs, this needs to be sorted by epoch: exits and
+        // consolidations have separate queues, so a later patch may contain an earlier exit epoch
+        for (exit_epoch, effective_balance) in new_exits
+            .into_iter()
+            .sorted_unstable_by_key(|v| v.0.as_u64())
+        {
+            // exit epoch must be in the future
+            assert!(exit_epoch >= earliest_exit_epoch);
+            exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
+            earliest_exit_epoch = exit_epoch;
+
+            // churn limit must be respected
+            assert!(exit_balance_to_consume >= effective_balance);
+            exit_balance_to_consume -= effective_balance;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 4988186d468d6cc547459798c7ee643d8cd4d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 09/12] fix: collect attestations included until the end of the
 following epoch

Since EIP-7045 an attestation may be included until the end of the epoch after
its target epoch. Only the first block of that epoch was searched, so that the
votes for a late justification were missed.
---
 host/src/input_reader/host_input_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 059bcde..6aa2faf 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -299,8 +299,8 @@ async fn collect_attestations_for_links<E: EthSpec, CR: ChainReader>(
     // The attestation must be no newer than MIN_ATTESTATION_INCLUSION_DELAY slots.
     // It is safe to ignore this and assume MIN_ATTESTATION_INCLUSION_DELAY = 0
     let start_slot = min_epoch * E::slots_per_epoch();
-    // The attestation must be no older than SLOTS_PER_EPOCH slots.
-    let end_slot = (max_epoch + 1) * E::slots_per_epoch();
+    // The attestation must be from the current or the previous epoch of its block (EIP-7045).
+    let end_slot = (max_epoch + 2) * E::slots_per_epoch() - 1;
 
     // 1. Fetch all blocks concurrently
     let block_futs =
-- 
2.43.0


From 5c553889c7584d23b771f9312d357fbe91519381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 10/12] fix: save beacon states atomically

---
 host/src/state_provider/file_provider.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..4c52795 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -17,7 +17,7 @@ use crate::state_provider::{StateProvider, StateProviderError, StateRef};
 use anyhow::{Context, ensure};
 use beacon_types::EthSpec;
 use std::path::PathBuf;
-use std::{fs, marker::PhantomData};
+use std::{fs, io::Write, marker::PhantomData};
 use tracing::debug;
 use z_core::{Epoch, Slot};
 
@@ -48,7 +48,15 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
+        // write to a temporary file first, a crash or failure must not leave a partial state behind
+        let tmp_file = self.directory.join(format!(
+            "{slot}_beacon_state.ssz.{}.tmp",
+            std::process::id()
+        ));
+        let mut tmp = fs::File::create(&tmp_file)?;
+        tmp.write_all(&ssz_rs::serialize(state)?)?;
+        tmp.sync_all()?;
+        fs::rename(&tmp_file, &file)?;
         Ok(())
     }
 
-- 
2.43.0


From 7f8173984ea4cb6266d8cf48f0496dbdfe12ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 11/12] fix: keep the whole path of the beacon API endpoint

Url::join drops the last segment of a path without a trailing slash, so requests to an endpoint such as
https://node.example/api-key went to https://node.example/eth/...
---
 host/src/beacon_client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/host/src/beacon_client.rs b/host/src/beacon_client.rs
index 906db3d..b02bd74 100644
--- a/host/src/beacon_client.rs
+++ b/host/src/beacon_client.rs
@@ -148,7 +148,12 @@ pub struct BeaconClientBuilder {
 }
 
 impl BeaconClientBuilder {
-    pub fn new(endpoint: Url) -> Self {
+    pub fn new(mut endpoint: Url) -> Self {
+        // `Url::join` replaces the last path segment unless the path ends with a slash
+        if !endpoint.path().ends_with('/') {
+            let path = format!("{}/", endpoint.path());
+            endpoint.set_path(&path);
+        }
         let client = reqwest::Client::new();
         Self {
             endpoint,
-- 
2.43.0


From 433fdba86cf685b769357d8623aa2ede8e309521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 12/12] fix: give each save of a state its own temporary file

---
 host/src/state_provider/file_provider.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index 4c52795..6257414 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -17,6 +17,7 @@ use crate::state_provider::{StateProvider, StateProviderError, StateRef};
 use anyhow::{Context, ensure};
 use beacon_types::EthSpec;
 use std::path::PathBuf;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::{fs, io::Write, marker::PhantomData};
 use tracing::debug;
 use z_core::{Epoch, Slot};
@@ -48,10 +49,13 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        // write to a temporary file first, a crash or failure must not leave a partial state behind
+        // write to a temporary file first, a crash or failure must not leave a partial state behind;
+        // concurrent saves, also those of the same process, must not share it
+        static SAVES: AtomicU64 = AtomicU64::new(0);
         let tmp_file = self.directory.join(format!(
-            "{slot}_beacon_state.ssz.{}.tmp",
-            std::process::id()
+            "{slot}_beacon_state.ssz.{}.{}.tmp",
+            std::process::id(),
+            SAVES.fetch_add(1, Ordering::Relaxed)
         ));
         let mut tmp = fs::File::create(&tmp_file)?;
         tmp.write_all(&ssz_rs::serialize(state)?)?;
-- 
2.43.0

