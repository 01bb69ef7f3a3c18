From 32c2626673190801405a2fa4701b97384d01d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 01/11] fix: never give two pending requests of a queue the
 same id

---
 program/src/request_randomness.rs | 32 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..c8571bc 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -74,17 +74,27 @@ pub fn process_request_randomness(
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
-        // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
-        let combined_hash = hashv(&[
-            &args.caller_seed,
-            &slot.to_le_bytes(),
-            &slothash,
-            &args.callback_discriminator,
-            &args.callback_program_id.to_bytes(),
-            &time.to_le_bytes(),
-            &idx.to_le_bytes(),
-        ]);
+        // Compute a combined hash that includes a logical insertion index hint. Removals within the
+        // same slot can make the length repeat, so move the hint on while the id is already pending.
+        let mut idx = queue_acc.len() as u32;
+        let combined_hash = loop {
+            let combined_hash = hashv(&[
+                &args.caller_seed,
+                &slot.to_le_bytes(),
+                &slothash,
+                &args.callback_discriminator,
+                &args.callback_program_id.to_bytes(),
+                &time.to_le_bytes(),
+                &idx.to_le_bytes(),
+            ]);
+            if queue_acc
+                .find_item_by_id(&combined_hash.to_bytes())
+                .is_none()
+            {
+                break combined_hash;
+            }
+            idx = idx.wrapping_add(1);
+        };
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
         msg!("Idx: {}", idx);
-- 
2.43.0


From 0ed6ad8878e78cbf0efa6e9abb827d58e5786a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 02/11] fix: take requests only on initialized queues owned by
 the program

---
 program/src/request_randomness.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index c8571bc..acca4e4 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -64,12 +64,16 @@ pub fn process_request_randomness(
     let slot = Clock::get()?.slot;
     let time = Clock::get()?.unix_timestamp;
 
+    // The queue must be one of this program's accounts
+    oracle_queue_info
+        .is_writable()?
+        .has_owner(&ephemeral_vrf_api::ID)?;
+
     {
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        // Only initialized queues can take requests
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From d5c3d317f3d4c6e8371896e5a2a32df47f59a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 03/11] fix: purge and close only initialized queues

---
 program/src/close_oracle_queue.rs     | 1 +
 program/src/purge_expired_requests.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..952483d 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -59,6 +59,7 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
     {
         // Borrow data and load QueueAccount view to check emptiness
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
+        Queue::try_from_bytes(&data)?;
         let queue_data = &mut data[8..];
         let queue_acc = QueueAccount::load(queue_data)?;
         if !queue_acc.is_empty() {
diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..e249adc 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,7 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From b85fdba8a6181208087cae5df444f7eef74fbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 04/11] fix: accept only the delegation program's undelegate
 buffer

---
 program/src/process_undelegation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/program/src/process_undelegation.rs b/program/src/process_undelegation.rs
index f4d64f2..6a391b5 100644
--- a/program/src/process_undelegation.rs
+++ b/program/src/process_undelegation.rs
@@ -1,4 +1,5 @@
 use ephemeral_rollups_sdk::cpi::undelegate_account;
+use ephemeral_rollups_sdk::pda::undelegate_buffer_pda_from_delegated_account;
 use ephemeral_vrf_api::prelude::*;
 
 /// Process the undelegation of an Oracle queue from the delegation program
@@ -31,6 +32,11 @@ pub fn process_undelegation(accounts: &[AccountInfo<'_>], data: &[u8]) -> Progra
         return Err(ProgramError::NotEnoughAccountKeys);
     };
 
+    // Only the delegation program can sign with the undelegate buffer of this account
+    delegation_buffer.is_signer()?.has_address(
+        &undelegate_buffer_pda_from_delegated_account(oracle_queue_info.key),
+    )?;
+
     // Undelegate
     undelegate_account(
         oracle_queue_info,
-- 
2.43.0


From 5a1ae2107f5c5cc7a94c468ae0fe2c1ba688c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 05/11] verification hook: default queue of a test oracle under
 cfg(verif_default_queue)

---
 api/src/consts.rs | 4 ++++
 api/src/lib.rs    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/api/src/consts.rs b/api/src/consts.rs
index 34f82f9..12acfe3 100644
--- a/api/src/consts.rs
+++ b/api/src/consts.rs
@@ -30,4 +30,8 @@ pub const RISTRETTO_BASEPOINT_POINT: PodRistrettoPoint = PodRistrettoPoint([
 
 pub const MAGIC_PROGRAM_ID: Pubkey = pubkey!("Magic11111111111111111111111111111111111111");
 pub const MAGIC_CONTEXT_ID: Pubkey = pubkey!("MagicContext1111111111111111111111111111111");
+#[cfg(not(verif_default_queue))]
 pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = pubkey!("5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc");
+// Verification hook: a default queue that a test oracle's identity derives.
+#[cfg(verif_default_queue)]
+pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = pubkey!("8cDwtZx1aW6hK6p6TVPa7iJMeBCU1dvC1kbjf3AWcNgj");
diff --git a/api/src/lib.rs b/api/src/lib.rs
index ebb5efa..58e61e3 100644
--- a/api/src/lib.rs
+++ b/api/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #[macro_use]
 pub mod macros;
 
-- 
2.43.0


From 449de39be3e014a337e55f9c294d6488bd0f8016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 06/11] fix: sdk: random_u8_with_range panics for the full
 range 0..=255

---
 sdk/src/rnd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..d90218e 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,18 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    // u16 throughout: the full range has 256 values, which do not fit in a u8
+    let range = (max_value - min_value) as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
-        if b < threshold {
-            return min_value + (b % range as u8);
+        if (b as u16) < threshold {
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From 356004f18175ae098c1f6e80f048b0e75d45519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 07/11] fix: sdk: derive the delegation PDAs under the
 delegation program's id

---
 sdk/src/consts.rs |  3 +++
 sdk/src/pda.rs    | 25 ++++++++++++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/sdk/src/consts.rs b/sdk/src/consts.rs
index b519d75..849a0ec 100644
--- a/sdk/src/consts.rs
+++ b/sdk/src/consts.rs
@@ -14,3 +14,6 @@ pub const VRF_PROGRAM_IDENTITY: Pubkey = pubkey!("9irBy75QS2BN81FUgXuHcjqceJJRuc
 
 /// Seed of the identity PDA
 pub const IDENTITY: &[u8] = b"identity";
+
+/// Delegation program id, owner of the PDAs derived in [`crate::pda`]
+pub const DELEGATION_PROGRAM_ID: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
diff --git a/sdk/src/pda.rs b/sdk/src/pda.rs
index 800203e..a213ad5 100644
--- a/sdk/src/pda.rs
+++ b/sdk/src/pda.rs
@@ -75,7 +75,7 @@ pub fn delegation_record_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -85,7 +85,7 @@ pub fn delegation_metadata_pda_from_delegated_account(delegated_account: &Pubkey
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_metadata_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -95,7 +95,7 @@ pub fn commit_state_pda_from_delegated_account(delegated_account: &Pubkey) -> Pu
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_state_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -105,7 +105,7 @@ pub fn commit_record_pda_from_delegated_account(delegated_account: &Pubkey) -> P
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -129,23 +129,26 @@ pub fn undelegate_buffer_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         undelegate_buffer_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
 }
 
 pub fn fees_vault_pda() -> Pubkey {
-    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &crate::id().modern())
-        .0
-        .compat()
+    crate::compat::latest::Pubkey::find_program_address(
+        fees_vault_seeds!(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
+    )
+    .0
+    .compat()
 }
 
 pub fn validator_fees_vault_pda_from_validator(validator: &Pubkey) -> Pubkey {
     let validator = (*validator).modern();
     crate::compat::latest::Pubkey::find_program_address(
         validator_fees_vault_seeds_from_validator!(validator),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -155,7 +158,7 @@ pub fn program_config_from_program_id(program_id: &Pubkey) -> Pubkey {
     let program_id = (*program_id).modern();
     crate::compat::latest::Pubkey::find_program_address(
         program_config_seeds_from_program_id!(program_id),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -165,7 +168,7 @@ pub fn ephemeral_balance_pda_from_payer(payer: &Pubkey, index: u8) -> Pubkey {
     let payer = (*payer).modern();
     crate::compat::latest::Pubkey::find_program_address(
         ephemeral_balance_seeds_from_payer!(payer, index),
-        &crate::id().modern(),
+        &crate::consts::DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
-- 
2.43.0


From a195015d8f2f1273cf5c5b6ff1285469821a6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 08/11] fix: track an oracle request and its task's handle
 together

A queue snapshot processed between marking a request in flight and storing
the handle of its task could not cancel the task when the request had left
the queue: the task went on with its attempts for a request that was gone.
---
 vrf-oracle/src/oracle/processor.rs | 44 +++++++++++-------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..8573772 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -189,23 +189,17 @@ pub async fn process_oracle_queue(
             let oracle_client_for_proc = Arc::clone(&oracle_client);
             let oracle_client_for_cleanup = Arc::clone(&oracle_client);
 
-            // Only spawn a task if this request is not already in-flight for this queue
-            let should_spawn = {
-                let mut inflight_all = oracle_client.inflight_requests.write().await;
-                let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
-                if let std::collections::hash_map::Entry::Vacant(e) =
-                    inflight_for_queue.entry(item.id)
-                {
-                    e.insert(item.slot);
-                    true
-                } else {
-                    false
-                }
-            };
-
-            if !should_spawn {
+            // Only spawn a task if this request is not already in-flight for this queue. The request and the handle of
+            // its task are registered under the same locks: a snapshot processed concurrently, or the task itself when
+            // it ends, never sees one without the other.
+            let mut inflight_all = oracle_client.inflight_requests.write().await;
+            let mut tasks_all = oracle_client.active_tasks.write().await;
+            let inflight_for_queue = inflight_all.entry(queue_key_spawn.clone()).or_default();
+            let std::collections::hash_map::Entry::Vacant(e) = inflight_for_queue.entry(item.id)
+            else {
                 continue;
-            }
+            };
+            e.insert(item.slot);
 
             let handle = tokio::spawn(async move {
                 let mut attempts = 0;
@@ -283,16 +277,13 @@ pub async fn process_oracle_queue(
                 }
 
                 // Task finished. Remove from active_tasks. If not confirmed, also clear inflight to allow retry.
-                {
-                    let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
-                    if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
-                        tasks_for_queue.remove(&item.id);
-                    }
+                let mut inflight_all = oracle_client_for_cleanup.inflight_requests.write().await;
+                let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
+                if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
+                    tasks_for_queue.remove(&item.id);
                 }
 
                 if !confirmed_success {
-                    let mut inflight_all =
-                        oracle_client_for_cleanup.inflight_requests.write().await;
                     if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
                         inflight_for_queue.remove(&item.id);
                     }
@@ -300,11 +291,8 @@ pub async fn process_oracle_queue(
             });
 
             // Track the task handle for potential cancellation if the item disappears from the queue
-            {
-                let mut tasks_all = oracle_client.active_tasks.write().await;
-                let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
-                tasks_for_queue.insert(item.id, handle);
-            }
+            let tasks_for_queue = tasks_all.entry(queue_key.clone()).or_default();
+            tasks_for_queue.insert(item.id, handle);
         }
     }
 }
-- 
2.43.0


From fb8a60ce50b54b9a7775abc1675b5d6a0443bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 09/11] fix: cli: close-oracle-queue closes another queue when
 given one the signer does not own

---
 vrf-cli/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..1f6f2e4 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -185,6 +185,12 @@ async fn main() -> Result<()> {
             let queue = Pubkey::from_str(queue)?;
             let queue_account = rpc_client.get_account(&queue)?;
             let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
+            // The instruction closes the signer's own queue with this index.
+            anyhow::ensure!(
+                oracle_queue_pda(&signer.pubkey(), queue_struct.index).0 == queue,
+                "{queue} is not a queue of {}",
+                signer.pubkey()
+            );
             println!(
                 "Closing oracle queue: {} with index: {}",
                 queue, queue_struct.index
-- 
2.43.0


From 2fb12741630a11d9b682c4525e344bf549e3a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 10/11] fix: cli: list-queue takes a failed lookup for a
 missing queue

---
 vrf-cli/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1f6f2e4..1cc0f8f 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -206,9 +206,10 @@ async fn main() -> Result<()> {
         Commands::ListQueue {} => {
             for i in 0..20 {
                 let queue = oracle_queue_pda(&signer.pubkey(), i).0;
-                let acc = rpc_client.get_account(&queue);
-                if acc.is_ok() {
-                    let account = acc?;
+                let acc = rpc_client
+                    .get_account_with_commitment(&queue, rpc_client.commitment())?
+                    .value;
+                if let Some(account) = acc {
                     let queue_struct = match Queue::try_from_bytes(account.data.as_slice()) {
                         Ok(q) => q,
                         Err(_) => {
-- 
2.43.0


From 09badde08061b7de30ee1162ab6cd8d3a92c894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 11/11] fix: api: initialize_oracle_queue builds no instruction
 for a size of 0

---
 api/src/sdk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/src/sdk.rs b/api/src/sdk.rs
index 7866be9..9b488c2 100644
--- a/api/src/sdk.rs
+++ b/api/src/sdk.rs
@@ -79,7 +79,8 @@ pub fn initialize_oracle_queue(
         oracle_queue_pda(&identity, index).0.to_string()
     );
     let target_size = bytes_to_allocate.unwrap_or(9500);
-    let inits = target_size.div_ceil(10240);
+    // at least one, so that a size of 0 is rejected rather than taken for a success
+    let inits = target_size.div_ceil(10240).max(1);
     let mut ixs = Vec::with_capacity(inits as usize);
     for _ in 0..inits {
         ixs.push(Instruction {
-- 
2.43.0

