From 2008d1eb186753416bdf402a725dc0aee6f75f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 01/52] fix: keep the reputation cache and queue consistent in
 penalize_many

When one of the penalizations was rejected, or the same identity was penalized
twice in one call, the cache was decremented but the packets were not.
---
 reputation/src/trs.rs | 62 ++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..cb2eee7 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,41 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        // Calculate what has to be subtracted before modifying anything, so that an error leaves
+        // both the cache and the queue untouched
+        for (id, mut next_v) in ids_fs {
+            let mut old_v = self.get(id);
+            // The same identity may be penalized more than once
+            if let Some(ts) = to_subtract.get(id) {
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    *to_subtract.entry(id.clone()).or_default() += ts;
+                }
+            }
+        }
+
+        for (id, ts) in to_subtract.iter() {
+            // Update cache. Cannot fail because we just checked for overflow
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From c50096b09ba2967ce98363634896dde2884cba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 02/52] fix: reject SLIP-32 strings whose private key prefix is
 not zero

from_slip32 only had a debug assertion: debug builds panicked on such an
import and release builds accepted it.
---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..10fd879 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From e9f7304c63b18582a96a22d3bd0d74e3cd13c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 03/52] fix: export keys deeper than 47 levels to SLIP-32

The size of the serialized key was computed with u8 arithmetic.
---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 10fd879..5de3ba5 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -218,11 +218,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * usize::from(depth) // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 3e2498c7304c5ce9ede5c1f38a69796e62276a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 04/52] fix: census with the Evenly strategy panics if there
 are less entries than asked for

---
 data_structures/src/staking/stakes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..6a20d81 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -295,7 +295,8 @@ where
             CensusStrategy::Take(head) => Box::new(iterator.take(head)),
             CensusStrategy::Evenly(count) => {
                 let collected = iterator.collect::<Vec<_>>();
-                let step = collected.len() / count;
+                // The step is never zero, not even if there are less entries than asked for, or none is asked for
+                let step = (collected.len() / count.max(1)).max(1);
 
                 Box::new(collected.into_iter().step_by(step).take(count))
             }
-- 
2.43.0


From f69c7366a778c24e7a240b0e544e587dd5ae646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 05/52] fix: adding too little stake leaves an empty entry that
 no index refers to

---
 data_structures/src/staking/stakes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index 6a20d81..40dea4d 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -224,6 +224,14 @@ where
     {
         let key = key.into();
 
+        // Make sure that the amount is enough before creating any entry, so that a refused addition leaves no trace
+        if coins < minimum_stakeable {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: coins,
+                minimum: minimum_stakeable,
+            })?;
+        }
+
         // Find or create a matching stake entry
         let stake_found = self.by_key.contains_key(&key);
         let stake = self
-- 
2.43.0


From 1372636574757b8af057f3ce4a3fe61ec40e1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 06/52] fix: removing more stake than there is wraps the amount
 around

---
 data_structures/src/staking/stake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..838e95d 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // Nothing can remain after removing more coins than there are
+        if coins > self.coins {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: Coins::zero(),
+                minimum: minimum_stakeable,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From 4c3b8f7dd0c9721874a2d87e7816d5d29bffdee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 07/52] fix: stake entries compare equal whatever their epochs
 and nonces

---
 data_structures/src/staking/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/helpers.rs b/data_structures/src/staking/helpers.rs
index 673290a..9b662e7 100644
--- a/data_structures/src/staking/helpers.rs
+++ b/data_structures/src/staking/helpers.rs
@@ -164,8 +164,8 @@ where
         let other_stake = other.value.read().unwrap();
 
         self_stake.coins.eq(&other_stake.coins)
-            && other_stake.epochs.eq(&other_stake.epochs)
-            && other_stake.nonce.eq(&other_stake.nonce)
+            && self_stake.epochs.eq(&other_stake.epochs)
+            && self_stake.nonce.eq(&other_stake.nonce)
     }
 }
 
-- 
2.43.0


From 5eadd82a4e90de3536a15a3fb71939fa5280c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 08/52] fix: a failed write leaves the cache of UTXOs by
 address out of step with the database

---
 data_structures/src/utxo_pool/utxo_db.rs | 36 +++++++++++++++---------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/data_structures/src/utxo_pool/utxo_db.rs b/data_structures/src/utxo_pool/utxo_db.rs
index 67c1e69..37e5030 100644
--- a/data_structures/src/utxo_pool/utxo_db.rs
+++ b/data_structures/src/utxo_pool/utxo_db.rs
@@ -246,27 +246,37 @@ impl<S: UtxoDb> UtxoDb for CacheUtxosByPkh<S> {
     }
 
     fn write(&self, batch: UtxoWriteBatch) -> Result<(), Error> {
-        // Update self.cache taking into account batch
-        let mut cache = self.cache.write().unwrap();
-
+        // Find out how the batch changes the cache before writing it, because the owners of the
+        // deleted UTXOs cannot be known afterwards
+        let mut changes = Vec::with_capacity(batch.v.len());
         for item in &batch.v {
             match item {
-                UtxoWriteBatchItem::Put(k, v) => {
-                    cache.entry(v.0.pkh).or_default().insert(*k);
-                }
+                UtxoWriteBatchItem::Put(k, v) => changes.push((v.0.pkh, *k, true)),
                 UtxoWriteBatchItem::Delete(k) => {
                     let vto = self.db.get_utxo(k)?.unwrap();
-                    let hs = cache.get_mut(&vto.0.pkh).unwrap();
-                    hs.remove(k);
-                    // Remove entry from cache if hashset is empty
-                    if hs.is_empty() {
-                        cache.remove(&vto.0.pkh);
-                    }
+                    changes.push((vto.0.pkh, *k, false));
                 }
                 UtxoWriteBatchItem::Raw(_) => {}
             }
         }
 
-        self.db.write(batch)
+        // Update self.cache only if the batch was written, keeping it locked in the meantime
+        let mut cache = self.cache.write().unwrap();
+        self.db.write(batch)?;
+
+        for (pkh, k, put) in changes {
+            if put {
+                cache.entry(pkh).or_default().insert(k);
+            } else {
+                let hs = cache.get_mut(&pkh).unwrap();
+                hs.remove(&k);
+                // Remove entry from cache if hashset is empty
+                if hs.is_empty() {
+                    cache.remove(&pkh);
+                }
+            }
+        }
+
+        Ok(())
     }
 }
-- 
2.43.0


From f52913b185e2ed16b842636313a250afb3206ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 09/52] fix: a pool full of stake transactions panics instead
 of evicting

---
 data_structures/src/chain/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..7ab1b67 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3294,7 +3294,9 @@ impl TransactionsPool {
             #[allow(clippy::cast_precision_loss)]
             let more_vtts_than_drs =
                 self.total_vt_weight as f64 >= self.total_dr_weight as f64 * self.vt_to_dr_factor;
-            if more_vtts_than_drs {
+            if !self.sorted_vt_index.is_empty()
+                && (more_vtts_than_drs || self.sorted_dr_index.is_empty())
+            {
                 // Remove the value transfer transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_vt_index
@@ -3305,7 +3307,7 @@ impl TransactionsPool {
                     .unwrap();
                 let tx = self.vt_remove_inner(&tx_hash, false).unwrap();
                 removed_transactions.push(Transaction::ValueTransfer(tx));
-            } else {
+            } else if !self.sorted_dr_index.is_empty() {
                 // Remove the data request transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_dr_index
@@ -3316,6 +3318,17 @@ impl TransactionsPool {
                     .unwrap();
                 let tx = self.dr_remove_inner(&tx_hash, false).unwrap();
                 removed_transactions.push(Transaction::DataRequest(tx));
+            } else {
+                // Remove the stake transaction with the lowest fee/weight
+                let tx_hash = self
+                    .sorted_st_index
+                    .iter()
+                    .map(|(_fee_weight, tx_hash)| *tx_hash)
+                    .next()
+                    // There must be at least one transaction because the total weight is not zero
+                    .unwrap();
+                let tx = self.st_remove_inner(&tx_hash, false).unwrap();
+                removed_transactions.push(Transaction::Stake(tx));
             }
         }
 
-- 
2.43.0


From 981f72c334410f305b76baab3d4b33f374e0ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 10/52] fix: clearing stake transactions leaves their weight
 and inputs in the pool

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 7ab1b67..965d894 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2725,14 +2725,17 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
-        self.sorted_st_index.clear();
+        let hashes: Vec<Hash> = self.st_transactions.keys().copied().collect();
+        for hash in hashes {
+            self.st_remove_inner(&hash, false);
+        }
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From 8fc05c4c84b37f7b57af6c866d077d5afe3926dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 11/52] fix: removing an invalid stake transaction drops valid
 ones with the same inputs

---
 data_structures/src/chain/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 965d894..5ebaa7d 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3173,13 +3173,8 @@ impl TransactionsPool {
     /// Remove stake transactions that would result in overstaking on a validator
     pub fn remove_invalid_stake_transactions(&mut self, transactions: Vec<Hash>) {
         for st_tx_hash in transactions.iter() {
-            if let Some(st_tx) = self
-                .st_transactions
-                .get(st_tx_hash)
-                .map(|(_, st)| st.clone())
-            {
-                self.st_remove(&st_tx);
-            }
+            // The inputs have not been spent, so conflicting transactions are not affected
+            self.st_remove_inner(st_tx_hash, false);
         }
     }
 
-- 
2.43.0


From 0f194b7d1130043cf7a6094b286c4465d91e3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 12/52] fix: arguments of the reward to collateral ratio are
 swapped in the mempool

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 5ebaa7d..d8c43b6 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3379,8 +3379,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From f60f9aec14cd73bef27a4f4f816d567e7e0f0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 13/52] fix: a tally that is refused removes its data request
 from the pool

---
 data_structures/src/data_request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index f2cf5bb..f33c642 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -248,6 +248,13 @@ impl DataRequestPool {
     ) -> Result<DataRequestInfo, anyhow::Error> {
         let dr_pointer = tally_tx.dr_pointer;
 
+        // A tally that comes too early must not remove the data request from the pool
+        if let Some(dr_state) = data_request_pool.get(&dr_pointer)
+            && dr_state.stage != DataRequestStage::TALLY
+        {
+            return Err(DataRequestError::NotTallyStage.into());
+        }
+
         let dr_state: Result<DataRequestState, anyhow::Error> =
             data_request_pool.remove(&dr_pointer).ok_or_else(|| {
                 DataRequestError::AddTallyFail {
-- 
2.43.0


From af0efc6466e6465fa3f654b5a7ef217ec9d07977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 14/52] fix: outputs of a stake transaction overflow when
 computing its fee

---
 validations/src/validations.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..fafe749 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -122,10 +122,14 @@ pub fn st_transaction_fee(
         None => 0,
     };
 
-    if out_value + change_value > in_value {
+    let out_value = out_value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if out_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - out_value)
     }
 }
 
-- 
2.43.0


From 988ec5d268ec161c23dff9555071d69e3397ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 15/52] fix: withdrawal and fee of an unstake transaction
 overflow past the staked amount

---
 validations/src/validations.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index fafe749..2260498 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -145,7 +145,11 @@ pub fn ut_transaction_fee(
     let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
 
-    if out_value + fee_value > staked_amount {
+    let total_value = out_value
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
+
+    if total_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1476,7 +1480,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From 1c86bb2cbc8f97ccc962d0fe9fef9892bea44645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 16/52] fix: amount to stake overflows past the maximum stake

---
 validations/src/validations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 2260498..54f2fc2 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1421,10 +1421,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
-- 
2.43.0


From c49dadd5298720590f723ab02ffcf73e64c9a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 17/52] fix: proof of stake rules stop applying from protocol
 version 2.1 on

---
 node/src/actors/chain_manager/mining.rs | 4 ++--
 node/src/actors/chain_manager/mod.rs    | 2 +-
 node/src/actors/json_rpc/api.rs         | 2 +-
 validations/src/validations.rs          | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index 48d0b3f..92b210e 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -120,7 +120,7 @@ impl ChainManager {
         beacon.checkpoint = current_epoch;
         vrf_input.checkpoint = current_epoch;
 
-        let target_hash = if protocol_version == V2_0 {
+        let target_hash = if protocol_version >= V2_0 {
             let replication_factor = self.consensus_constants_wit2.get_replication_factor(
                 current_epoch,
                 chain_info.highest_block_checkpoint.checkpoint,
@@ -1310,7 +1310,7 @@ pub fn build_block(
     }
 
     // Include Mint Transaction by miner
-    let mint = if protocol_version == V2_0 {
+    let mint = if protocol_version >= V2_0 {
         let mut mint = MintTransaction::default();
         mint.epoch = epoch;
 
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 0f18bc5..e532b10 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -3023,7 +3023,7 @@ fn process_wit2_stakes_changes(
     let miner_pkh = block.block_header.proof.proof.pkh();
 
     // Reset the coin age of the miner for all staked coins
-    if ProtocolVersion::from_epoch(block_epoch) == ProtocolVersion::V2_0 {
+    if ProtocolVersion::from_epoch(block_epoch) >= ProtocolVersion::V2_0 {
         let minimum_stakeable =
             consensus_constants_wit2.get_validator_min_stake_nanowits(block_epoch);
 
diff --git a/node/src/actors/json_rpc/api.rs b/node/src/actors/json_rpc/api.rs
index 89e2630..c324d2a 100644
--- a/node/src/actors/json_rpc/api.rs
+++ b/node/src/actors/json_rpc/api.rs
@@ -835,7 +835,7 @@ pub async fn get_block(params: Params) -> Result<Value, Error> {
                     }
                 }
 
-                if ProtocolVersion::from_epoch(block_epoch) == ProtocolVersion::V2_0 {
+                if ProtocolVersion::from_epoch(block_epoch) >= ProtocolVersion::V2_0 {
                     let ut_hashes: Vec<_> = output
                         .txns
                         .unstake_txns
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 54f2fc2..05c04e8 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -299,7 +299,7 @@ pub fn validate_commit_collateral(
         .into())
     } else if in_value - out_value != required_collateral {
         let found_collateral = in_value - out_value;
-        if protocol_version != ProtocolVersion::V2_0 {
+        if protocol_version < ProtocolVersion::V2_0 {
             Err(TransactionError::IncorrectCollateral {
                 expected: required_collateral,
                 found: found_collateral,
@@ -2561,7 +2561,7 @@ pub fn validate_block(
         // with the genesis_block_hash
         validate_genesis_block(block, consensus_constants.genesis_hash).map_err(Into::into)
     } else {
-        let target_hash = if protocol_version == ProtocolVersion::V2_0 {
+        let target_hash = if protocol_version >= ProtocolVersion::V2_0 {
             let validator = block.block_sig.public_key.pkh();
             let eligibility = stakes.mining_eligibility(validator, block_epoch, replication_factor);
             if eligibility == Ok(Eligible::No(InsufficientPower))
@@ -2843,7 +2843,7 @@ pub fn compare_block_candidates(
     s: &VrfSlots,
     protocol_version: ProtocolVersion,
 ) -> Ordering {
-    if protocol_version == ProtocolVersion::V2_0 {
+    if protocol_version >= ProtocolVersion::V2_0 {
         match b1_power.cmp(&b2_power) {
             // Equal power, first compare VRF hash and finally the block hash
             Ordering::Equal => {
-- 
2.43.0


From fb5ec4513a51c5d0716caca67dc693378f73748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 18/52] fix: in wit/2 a tally can pay the change of the
 requester to a witness

---
 validations/src/validations.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 05c04e8..1e63485 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1284,6 +1284,16 @@ pub fn validate_tally_transaction<'a>(
                 }
             }
 
+            // Witnesses are not rewarded through the outputs of the tally in wit/2, hence the only
+            // output allowed is the change for the requester
+            if protocol_version >= ProtocolVersion::V2_0 {
+                return Err(TransactionError::InvalidTallyChange {
+                    change: 0,
+                    expected_change: expected_tally_change,
+                }
+                .into());
+            }
+
             // Validation of a honest witness would not be rewarded more than once
             if pkh_rewarded.contains(&output.pkh) {
                 return Err(TransactionError::MultipleRewards { pkh: output.pkh }.into());
-- 
2.43.0


From 44823c16e50feaefc977caac8442ca0ce80ba205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 19/52] fix: two stake transactions for the same validator fit
 in a block if their authorizations differ

---
 node/src/actors/chain_manager/mining.rs | 2 +-
 validations/src/validations.rs          | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index 92b210e..d69bcc7 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -1174,7 +1174,7 @@ pub fn build_block(
         let mut invalid_stake_transactions = Vec::<Hash>::new();
         let mut included_validators = HashSet::<PublicKeyHash>::new();
         for st_tx in transactions_pool.st_iter() {
-            let validator_pkh = st_tx.body.output.authorization.public_key.pkh();
+            let validator_pkh = st_tx.body.output.key.validator;
             if included_validators.contains(&validator_pkh) {
                 log::debug!(
                     "Cannot include more than one stake transaction for {validator_pkh} in a single block"
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 1e63485..5cb7459 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2358,15 +2358,12 @@ pub fn validate_block_transactions(
             .txns
             .stake_txns
             .iter()
-            .map(|stake_tx| &stake_tx.body.output.authorization.public_key)
+            .map(|stake_tx| stake_tx.body.output.key.validator)
             .duplicates()
             .next();
 
         if let Some(duplicate) = duplicate {
-            return Err(BlockError::RepeatedStakeOperator {
-                pkh: duplicate.pkh(),
-            }
-            .into());
+            return Err(BlockError::RepeatedStakeOperator { pkh: duplicate }.into());
         }
 
         let min_stake = consensus_constants_wit2.get_validator_min_stake_nanowits(epoch);
-- 
2.43.0


From 7815663a88bef41fdf36ac47cd8d423fb1261571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 20/52] fix: a witness that has unstaked everything makes nodes
 panic when its request is resolved

---
 node/src/actors/chain_manager/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index e532b10..4ce14de 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -3126,9 +3126,12 @@ fn process_wit2_stakes_changes(
                     collateral + reward,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
-                    .unwrap();
+                // A witness may have unstaked everything since it committed
+                if let Err(e) =
+                    stakes.add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
+                {
+                    log::warn!("Cannot refund and reward {honest_pkh}: {e}");
+                }
             }
 
             // Refund errored validators
@@ -3139,9 +3142,9 @@ fn process_wit2_stakes_changes(
                     collateral,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(*error_pkh, Wit::from(collateral), block_epoch)
-                    .unwrap();
+                if let Err(e) = stakes.add_reward(*error_pkh, Wit::from(collateral), block_epoch) {
+                    log::warn!("Cannot refund {error_pkh}: {e}");
+                }
             }
         }
 
@@ -3226,9 +3229,11 @@ fn process_wit2_stakes_changes(
                     liar_pkh,
                     ta_tx.dr_pointer,
                 );
-                stakes
-                    .reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
-                    .unwrap();
+                if let Err(e) =
+                    stakes.reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
+                {
+                    log::warn!("Cannot reset the witnessing age of {liar_pkh}: {e}");
+                }
             }
         }
     }
-- 
2.43.0


From 76ddc7bf40bbfb514f6c98a98d3439ebe28fc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:28 +0000
Subject: [PATCH 21/52] fix: coins unstaked by a validator that is rewarded in
 the same block are paid out and remain staked

---
 node/src/actors/chain_manager/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 4ce14de..955f770 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -1091,15 +1091,14 @@ impl ChainManager {
                     if unstake_txns_count > 0 {
                         log::debug!("Processing {unstake_txns_count} stake transactions");
 
-                        let minimum_stakeable = self
-                            .consensus_constants_wit2
-                            .get_validator_min_stake_nanowits(block_epoch);
-
+                        // What remains staked was compared to the minimum when validating the
+                        // block. Rewards and collateral of this very block have changed it since,
+                        // and an unstake that fails here pays out coins that remain staked.
                         let _ = process_unstake_transactions(
                             stakes,
                             block.txns.unstake_txns.iter(),
                             block_epoch,
-                            minimum_stakeable,
+                            0,
                         );
                     }
                 }
-- 
2.43.0


From 2b46d6516c3757c769c2923fb9dfdc6575845a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:28 +0000
Subject: [PATCH 22/52] fix: a miner builds an invalid block when its pool
 spends the collateral of a commit

---
 node/src/actors/chain_manager/mining.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index d69bcc7..3dd3fc0 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -978,6 +978,15 @@ pub fn build_block(
     let min_ut_weight =
         UnstakeTransactionBody::new(PublicKeyHash::default(), Default::default(), 0, 0).weight();
 
+    // Take the commits first, so that no other transaction in this block spends their collateral
+    let (commit_txns, commits_fees, solved_dr_pointers) = transactions_pool.remove_commits(dr_pool);
+    transaction_fees += commits_fees;
+    for commit_tx in &commit_txns {
+        for input in &commit_tx.body.collateral {
+            utxo_diff.remove_utxo(*input.output_pointer());
+        }
+    }
+
     for vt_tx in transactions_pool.vt_iter() {
         let transaction_weight = vt_tx.weight();
         let transaction_fee = match vt_transaction_fee(vt_tx, &utxo_diff, epoch, epoch_constants) {
@@ -1053,9 +1062,6 @@ pub fn build_block(
         }
     }
 
-    let (commit_txns, commits_fees, solved_dr_pointers) = transactions_pool.remove_commits(dr_pool);
-    transaction_fees += commits_fees;
-
     let (reveal_txns, reveals_fees) = transactions_pool.get_reveals(dr_pool);
     let reveal_txns: Vec<RevealTransaction> = reveal_txns.into_iter().cloned().collect();
     transaction_fees += reveals_fees;
-- 
2.43.0


From 53da28cc895cedbd2aeca957397f141665b85159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 23/52] fix: a reveal that came too late stays in the pool and
 makes the blocks of a miner invalid

---
 data_structures/src/chain/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index d8c43b6..43b8a33 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3231,7 +3231,12 @@ impl TransactionsPool {
             .fold(
                 Vec::with_capacity(20),
                 |mut reveals_vec, (dr_pointer, reveals)| {
-                    if let Some(dr_output) = dr_pool.get_dr_output(dr_pointer) {
+                    // A reveal that came too late is not valid in any block
+                    if let Some(dr_output) = dr_pool
+                        .data_request_state(dr_pointer)
+                        .filter(|dr_state| dr_state.stage != DataRequestStage::TALLY)
+                        .map(|dr_state| &dr_state.data_request)
+                    {
                         let n_reveals = reveals.len();
                         reveals_vec.extend(reveals.values().map(|r| re_hash_index.get(r).unwrap()));
 
-- 
2.43.0


From 4499ab0fe5b7aa17bf7254db0df3387be1c817e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 24/52] fix: do not panic when a member of the committee signs
 the same superblock vote twice and then votes for another one

A second vote of the same identity replaced the first one in votes_of_each_identity but not in
votes_on_each_superblock. The next vote for a different superblock then tried to remove a vote that
was not there, and the node panicked.
---
 data_structures/src/superblock.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..3b8d8a7 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,10 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time, so that `votes_of_each_identity`
+        // and `votes_on_each_superblock` always contain the same votes
+        if let Entry::Vacant(entry) = self.votes_of_each_identity.entry(pkh) {
+            entry.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From c5f3fb4dc9ed2fc704ce087eaf3e49160f1d9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 25/52] fix: keep a session that cannot be consolidated

---
 p2p/src/sessions/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..59a4f1a 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -292,9 +292,15 @@ where
         let cons_sessions = self.get_sessions(session_type, SessionStatus::Consolidated)?;
 
         // Register session into consolidated collection
-        cons_sessions.register_session(address, session_info.reference)?;
+        let result = cons_sessions.register_session(address, session_info.reference.clone());
 
-        Ok(())
+        // If the consolidated collection refuses the session, it remains unconsolidated
+        if result.is_err() {
+            self.get_sessions(session_type, SessionStatus::Unconsolidated)?
+                .register_session(address, session_info.reference)?;
+        }
+
+        result
     }
     /// Method to mark a session as consensus safe
     pub fn consensus_session(&mut self, address: SocketAddr) -> Result<(), SessionsError> {
-- 
2.43.0


From e421d7d6ab0640ec5e4607c1bfd434db1a8b440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 26/52] fix: keep the network range of an inbound session that
 still exists

---
 p2p/src/sessions/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 59a4f1a..3fcc586 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -226,6 +226,19 @@ where
         self.inbound_network_ranges.contains_address(addr)
     }
 
+    /// Check whether any of the existing inbound sessions is in the same network range as a socket
+    /// address.
+    fn is_inbound_range_in_use(&self, address: &SocketAddr) -> bool {
+        let range_limit = self.inbound_network_ranges.range_limit;
+        let range = get_range_address(address, range_limit);
+
+        self.inbound_unconsolidated
+            .collection
+            .keys()
+            .chain(self.inbound_consolidated.collection.keys())
+            .any(|other| get_range_address(other, range_limit) == range)
+    }
+
     /// Method to insert a new session
     pub fn register_session(
         &mut self,
@@ -269,8 +282,8 @@ where
         sessions.unregister_session(address)?;
 
         // Unegister network range to allow other peers in same network range as the one we are
-        // removing to take its place
-        if session_type == SessionType::Inbound {
+        // removing to take its place, unless there is still another inbound session in that range
+        if session_type == SessionType::Inbound && !self.is_inbound_range_in_use(&address) {
             self.inbound_network_ranges.remove_address(&address);
         }
 
-- 
2.43.0


From 50f5d89aef4a04f1eab03fff8881a4b3564a83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 27/52] fix: do not lock the outputs of a stake transaction
 that is refused for its weight

---
 data_structures/src/transaction_factory.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..12d11ea 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -837,13 +837,6 @@ pub fn build_st(
 
     let used_pointers = tx_info.inputs.pointers.iter().cloned().map(Input::new);
 
-    // Mark UTXOs as used so we don't double spend
-    // Save the timestamp after which the transaction will be considered timed out
-    // and the output will become available for spending it again
-    if !dry_run {
-        utxos.set_used_output_pointer(used_pointers.clone(), timestamp + tx_pending_timeout);
-    }
-
     // Only use a change output if there is value inserted by inputs that is not consumed by outputs
     // or fees
     let change_value = tx_info
@@ -861,7 +854,7 @@ pub fn build_st(
         None
     };
 
-    let inputs = used_pointers.collect::<Vec<_>>();
+    let inputs = used_pointers.clone().collect::<Vec<_>>();
     let body = StakeTransactionBody::new(inputs, output, change);
 
     let txn_weight = body.weight();
@@ -872,6 +865,13 @@ pub fn build_st(
         });
     }
 
+    // Mark UTXOs as used so we don't double spend
+    // Save the timestamp after which the transaction will be considered timed out
+    // and the output will become available for spending it again
+    if !dry_run {
+        utxos.set_used_output_pointer(used_pointers, timestamp + tx_pending_timeout);
+    }
+
     Ok(body)
 }
 
-- 
2.43.0


From 4b0dfc06d59ecca5d575fce92a6105adcf74abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 28/52] fix: work out the relative fee of a stake transaction
 from the weight it ends up with

---
 data_structures/src/transaction_factory.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index 12d11ea..f05f339 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -295,10 +295,9 @@ pub trait OutputsCollection {
                 })
             }
             Fee::Relative(priority) => {
-                let absolute_fee = priority.into_absolute(current_weight);
-
-                let max_iterations = 1 + ((max_weight - current_weight) / INPUT_SIZE);
+                let max_iterations = 1 + (max_weight.saturating_sub(current_weight) / INPUT_SIZE);
                 for _i in 0..max_iterations {
+                    let absolute_fee = priority.into_absolute(current_weight);
                     let amount = output_value
                         .checked_add(absolute_fee.as_nanowits())
                         .ok_or(TransactionError::FeeOverflow)?;
@@ -328,8 +327,15 @@ pub trait OutputsCollection {
                         }
                         TransactionOutputs::Stake((stake_output, change)) => {
                             let body = StakeTransactionBody::new(inputs, stake_output, change);
-
-                            body.weight()
+                            let weight = body.weight();
+                            if weight > max_weight {
+                                return Err(TransactionError::StakeWeightLimitExceeded {
+                                    weight,
+                                    max_weight,
+                                });
+                            }
+
+                            weight
                         }
                         TransactionOutputs::ValueTransfer(outputs) => {
                             let body = VTTransactionBody::new(inputs, outputs);
@@ -826,8 +832,9 @@ pub fn build_st(
         pkh: own_pkh,
     };
 
+    // When estimating the weight, assume that there will be a change output
     let tx_info = utxos.generic_transaction_factory(
-        TransactionOutputs::Stake((output.clone(), None)),
+        TransactionOutputs::Stake((output.clone(), Some(ValueTransferOutput::default()))),
         fee,
         timestamp,
         None,
-- 
2.43.0


From d38cd69c707b1f51e321ee8af8a4ddad06faa538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 29/52] fix: count more than 127 equal items in the mode
 reducer

---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..9d02923 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, usize> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 5ca351b3f7f21d9ad65d354c63b7d12a3060ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 30/52] fix: report a string slice that splits a character
 instead of panicking

---
 rad/src/operators/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..f40e4c4 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -503,10 +503,8 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
     let sliced_string = if output_length > 0 {
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..end as usize)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From b9ffb96d06040f31621ada923669a07aa434f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 31/52] fix: report missing arguments when getting a number
 instead of panicking

---
 rad/src/operators/array.rs | 5 +++--
 rad/src/operators/map.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..f5fee9a 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,8 +99,9 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    let (key, separators) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, key)?.value();
+    let (thousands_separator, decimal_separator) = string::read_separators_from_args(separators);
 
     Ok(RadonString::from(string::replace_separators(
         item,
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..588ee40 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,8 +57,9 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    let (key, separators) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, key)?.value();
+    let (thousands_separator, decimal_separator) = string::read_separators_from_args(separators);
 
     Ok(RadonString::from(string::replace_separators(
         item,
-- 
2.43.0


From d825c52c07422680119def1d8affe65b9e10b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 32/52] fix: refuse to sort by keys of different types instead
 of panicking

---
 rad/src/operators/array.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index f5fee9a..fe0dace 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -274,6 +274,13 @@ pub fn sort(
         });
     }
 
+    // Sort not applicable either if the keys to sort by are not homogeneous
+    if !mapped_array.is_homogeneous() {
+        return Err(RadError::UnsupportedSortOp {
+            array: input.clone(),
+        });
+    }
+
     // Distinguish depending the type
     match &mapped_array_value.first() {
         Some(RadonTypes::String(_)) => {
-- 
2.43.0


From a003a9a87e27f2770628a752968450c04eb23ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 33/52] fix: keep the sign of integers below the 64-bit range
 when decoding

---
 rad/src/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..54ed90d 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -440,8 +440,9 @@ impl TryFrom<CborValue> for RadonTypes {
             CborValue::I16(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I32(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I64(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
+            // CBOR writes negative integers as `-1 - x`
             CborValue::Int(Int::Neg(x)) => {
-                Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
+                Ok(RadonTypes::Integer(RadonInteger::from(-1 - i128::from(x))))
             }
             CborValue::Int(Int::Pos(x)) => {
                 Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
-- 
2.43.0


From 03bfea282dd178278d5a1787d98489a9b8b6783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 34/52] fix: tell apart values that can not be encoded when
 comparing them

---
 rad/src/types/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 54ed90d..f5c15f6 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -234,10 +234,17 @@ impl PartialEq for RadonTypes {
             return false;
         }
 
-        let vec1 = self.encode();
-        let vec2 = other.encode();
-
-        vec1 == vec2
+        match (self.encode(), other.encode()) {
+            (Ok(vec1), Ok(vec2)) => vec1 == vec2,
+            // Values that can not be encoded (e.g. integers beyond 64 bits) are compared directly
+            (Err(error1), Err(error2)) => match (self, other) {
+                (RadonTypes::Integer(a), RadonTypes::Integer(b)) => a == b,
+                (RadonTypes::Array(a), RadonTypes::Array(b)) => a == b,
+                (RadonTypes::Map(a), RadonTypes::Map(b)) => a == b,
+                _ => error1 == error2,
+            },
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From 268962f446283c0871dfaf209b53b91258b7f630 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 35/52] fix: outputs promised to a transaction on its way stay
 so when pending blocks are dropped

---
 wallet/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/model.rs b/wallet/src/model.rs
index b48e491..918f90b 100644
--- a/wallet/src/model.rs
+++ b/wallet/src/model.rs
@@ -420,7 +420,7 @@ pub fn clean_used_outputs(used_outputs: &UsedOutputs, utxo_set: &UtxoSet) -> Use
     let mut new_hm = UsedOutputs::default();
     let now = get_timestamp() as u64;
     for (o, &ts) in used_outputs.iter() {
-        if utxo_set.contains_key(o) && ts < now {
+        if utxo_set.contains_key(o) && ts > now {
             new_hm.insert(o.clone(), ts);
         }
     }
-- 
2.43.0


From 8d315b92fad2cf11b6f858f9b18c73908c692471 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 36/52] fix: staking again adds to the stake of the wallet

---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index eff07e7..b5abed0 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1495,7 +1495,7 @@ where
             let amount = if let Some(output) = output {
                 output
                     .value
-                    .checked_sub(stake_output_insert.amount)
+                    .checked_add(stake_output_insert.amount)
                     .ok_or(Error::TransactionValueOverflow)?
             } else {
                 stake_output_insert.amount
-- 
2.43.0


From c088e2d468abd4727fa70ad608f8dc14574cab00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 37/52] fix: a withdrawal takes its fee too from the stake of
 the wallet, and may take more than was staked

---
 wallet/src/repository/wallet/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index b5abed0..cf3bffe 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1471,16 +1471,15 @@ where
         for stake_output_remove in &account_mutation.stake_output_removals {
             let output = state.stake_output_set.get(&stake_output_remove.key);
             if let Some(output) = output {
-                if output.value == stake_output_remove.amount {
+                // Rewards are added to the stake but not seen by the wallet, so that more can be
+                // withdrawn than what was staked
+                if output.value <= stake_output_remove.amount {
                     state.stake_output_set.remove(&output.key.clone());
                 } else {
                     state.stake_output_set.insert(
                         output.key.clone(),
                         StakeOutput {
-                            value: output
-                                .value
-                                .checked_sub(stake_output_remove.amount)
-                                .ok_or(Error::TransactionValueOverflow)?,
+                            value: output.value - stake_output_remove.amount,
                             authorization: output.authorization.clone(),
                             key: output.key.clone(),
                         },
@@ -1852,7 +1851,13 @@ where
                     withdrawer: unstake.body.withdrawal.pkh,
                     validator: unstake.body.operator,
                 },
-                amount: unstake.body.withdrawal.value,
+                // The fee is also taken from the stake
+                amount: unstake
+                    .body
+                    .withdrawal
+                    .value
+                    .checked_add(unstake.body.fee)
+                    .ok_or(Error::TransactionValueOverflow)?,
             };
             stake_output_removals.push(stake_output_info);
         }
-- 
2.43.0


From c61730679f154df8602f9c497ee49e7f05a2cead Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 38/52] fix: dropping pending blocks drops their stakes,
 requests and local movements as well

---
 wallet/src/repository/wallet/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index cf3bffe..fdf81d6 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -273,10 +273,12 @@ where
         state.last_sync = state.last_confirmed;
         state.pending_blocks.clear();
         state.pending_movements.clear();
+        state.pending_dr_movements.clear();
         state.pending_transactions.clear();
         state.pending_addresses_by_path.clear();
         state.pending_addresses_by_block.clear();
         state.local_movements.clear();
+        state.balance.local = 0;
         state.db_movements_to_update.clear();
 
         // Restore state from database
@@ -284,6 +286,9 @@ where
             .db
             .get_or_default(&keys::transaction_next_id(account))?;
         state.utxo_set = self.db.get_or_default(&keys::account_utxo_set(account))?;
+        state.stake_output_set = self
+            .db
+            .get_or_default(&keys::account_stake_output_set(account))?;
         state.used_outputs = model::clean_used_outputs(&state.used_outputs, &state.utxo_set);
         state.balance.confirmed = self.db.get_or_default(&keys::account_balance(account))?;
         state.balance.unconfirmed = state.balance.confirmed;
-- 
2.43.0


From b8832e7173021a9104e8464ac3b0e8470193c52e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 39/52] fix: clearing the chain data of a wallet clears its
 outputs, stakes and balances on disk and in memory

---
 wallet/src/repository/wallet/mod.rs   | 7 +++++++
 wallet/src/repository/wallet/state.rs | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index fdf81d6..ad2cd0f 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2123,6 +2123,7 @@ where
     /// Resets synchronization status in database:
     /// - Last synchronization status set to the genesis block
     /// - Transaction index set to zero
+    /// - UTXO set, stakes and balances emptied
     /// - External and internal address indices set to zero
     pub fn clear_chain_data(&self) -> Result<()> {
         let mut state = self.state.write()?;
@@ -2131,6 +2132,12 @@ where
         let mut batch = self.db.batch();
         batch.put(&keys::wallet_last_sync(), state.birth_date)?;
         batch.put(&keys::transaction_next_id(0), 0)?;
+        batch.put(&keys::account_utxo_set(0), model::UtxoSet::default())?;
+        batch.put(
+            &keys::account_stake_output_set(0),
+            model::StakeOutputSet::default(),
+        )?;
+        batch.put(&keys::account_balance(0), model::BalanceInfo::default())?;
         batch.put(
             &keys::account_next_index(0, constants::EXTERNAL_KEYCHAIN),
             0,
diff --git a/wallet/src/repository/wallet/state.rs b/wallet/src/repository/wallet/state.rs
index 732b936..19f328f 100644
--- a/wallet/src/repository/wallet/state.rs
+++ b/wallet/src/repository/wallet/state.rs
@@ -101,6 +101,7 @@ impl State {
     ///
     pub fn clear_chain_data(&mut self) {
         self.balance = Default::default();
+        self.db_movements_to_update.clear();
         self.last_confirmed = self.birth_date;
         self.last_sync = self.birth_date;
         self.local_movements.clear();
@@ -112,6 +113,7 @@ impl State {
         self.pending_dr_movements.clear();
         self.pending_movements.clear();
         self.pending_transactions.clear();
+        self.stake_output_set.clear();
         self.transaction_next_id = Default::default();
         self.utxo_set.clear();
         self.used_outputs.clear();
-- 
2.43.0


From 9bb0e0764c3142b42f6cc8f5aa7fab07f21c603e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 40/52] fix: payments of confirmed blocks are not hidden by
 older pending information of an address

---
 wallet/src/repository/wallet/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index ad2cd0f..2dc7e09 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -978,7 +978,7 @@ where
             .map(|stake_output| stake_output.value)
             .sum();
 
-        let addresses = addresses.into_values().collect();
+        let addresses: Vec<Arc<model::Address>> = addresses.into_values().collect();
 
         // Persist into database
         if confirmed {
@@ -987,7 +987,7 @@ where
 
             self._persist_block_txns(
                 balance_movements_to_persist.clone(),
-                addresses,
+                addresses.clone(),
                 state.transaction_next_id,
                 state.utxo_set.clone(),
                 state.stake_output_set.clone(),
@@ -998,6 +998,11 @@ where
             // pending transactions
             state.pending_transactions.clear();
 
+            // The persisted addresses are newer than those that were pending
+            for address in &addresses {
+                state.pending_addresses_by_path.remove(&address.path);
+            }
+
             // Update pending DR movements if they were persisted
             // balance_movements_to_persist.
             balance_movements_to_persist.iter().for_each(|x| {
-- 
2.43.0


From 134a2ebe534a1279b3da3876fcd52c58809ea045 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 41/52] fix: a transaction submitted twice counts once in the
 local balance of a wallet

---
 wallet/src/repository/wallet/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 2dc7e09..8e6efdc 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1643,9 +1643,17 @@ where
                     .expect("Get timestamp should return a positive value");
             let protocol_version = self.params.protocol_info.current_version;
             let txn_hash = txn.transaction.versioned_hash(protocol_version);
-            state
+            if let Some(replaced) = state
                 .local_movements
-                .insert(txn_hash, account_mutation.balance_movement.clone());
+                .insert(txn_hash, account_mutation.balance_movement.clone())
+            {
+                // The same transaction was submitted before
+                state.balance.local = state
+                    .balance
+                    .local
+                    .checked_sub(replaced.amount)
+                    .ok_or(Error::TransactionValueOverflow)?;
+            }
             log::debug!("Local pending movement added for transaction id: {txn_hash})");
             state.balance.local = state
                 .balance
-- 
2.43.0


From 3704037fd3904835b6a6ed9387774a120e0f7d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:39 +0000
Subject: [PATCH 42/52] fix: a wallet sees the transactions that spend what it
 got in the same block

---
 wallet/src/actors/worker/methods.rs |  2 +-
 wallet/src/repository/wallet/mod.rs | 40 +++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index e2a2187..2570f60 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -442,7 +442,7 @@ impl Worker {
         // Note: this code can be further refactored by only updating the transient addresses
         wallet._sync_address_generation(txns.clone())?;
 
-        let filtered_txns = wallet.filter_wallet_transactions(txns)?;
+        let filtered_txns = wallet.filter_wallet_transactions(block_info, txns)?;
         log::debug!(
             "Indexing block #{} ({}) with {} transactions ({})",
             block_info.epoch,
diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 8e6efdc..0dcffc8 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -789,10 +789,19 @@ where
     /// Filter transactions in a block (received from a node) if they belong to wallet accounts.
     pub fn filter_wallet_transactions(
         &self,
+        block_info: &model::Beacon,
         txns: impl Iterator<Item = Transaction>,
     ) -> Result<Vec<Transaction>> {
         let state = self.state.read()?;
+        let protocol_version = self
+            .params
+            .protocol_info
+            .all_versions
+            .version_for_epoch(block_info.epoch);
 
+        // Outputs for this wallet that are created by previous transactions in the same block, and
+        // are therefore not in the UTXO set yet
+        let mut block_outputs: HashSet<model::OutPtr> = HashSet::new();
         let mut filtered_txns = vec![];
         for txn in txns {
             // Inputs and outputs from different transaction types
@@ -813,21 +822,19 @@ where
             };
 
             // Check if tally txn corresponds to a wallet sent data request
-            if let Transaction::Tally(tally) = &txn {
+            let is_own_tally = if let Transaction::Tally(tally) = &txn {
                 // There is a DR transaction persisted in database whose tally was found or
                 // there is a DR transaction in pending state whose tally was found
-                if state
+                state
                     .pending_dr_movements
                     .contains_key(&tally.dr_pointer.to_string())
                     || self
                         .db
                         .get(&keys::transactions_index(tally.dr_pointer.as_ref()))
                         .is_ok()
-                {
-                    filtered_txns.push(txn.clone());
-                    continue;
-                }
-            }
+            } else {
+                false
+            };
 
             let check_db_and_transient = |output: &ValueTransferOutput| {
                 self.db.get(&keys::pkh(&output.pkh)).is_ok()
@@ -835,11 +842,24 @@ where
                     || state.transient_internal_addresses.contains_key(&output.pkh)
             };
             // Check if any input or output is from the wallet (input is an UTXO or output points to any wallet's pkh)
-            if inputs
-                .iter()
-                .any(|input| state.utxo_set.contains_key(&input.output_pointer().into()))
+            if is_own_tally
+                || inputs
+                    .iter()
+                    .map(|input| input.output_pointer().into())
+                    .any(|pointer| {
+                        state.utxo_set.contains_key(&pointer) || block_outputs.contains(&pointer)
+                    })
                 || outputs.iter().any(check_db_and_transient)
             {
+                let txn_hash = txn.versioned_hash(protocol_version);
+                for (output_index, output) in (0u32..).zip(outputs) {
+                    if self.db.get(&keys::pkh(&output.pkh)).is_ok() {
+                        block_outputs.insert(model::OutPtr {
+                            txn_hash: txn_hash.as_ref().to_vec(),
+                            output_index,
+                        });
+                    }
+                }
                 filtered_txns.push(txn.clone());
             }
         }
-- 
2.43.0


From 72431f5420e3dd83c92092b7f76cf029c6dce1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 43/52] fix: the reveals that are out of consensus are reported
 as such in a wallet

---
 wallet/src/repository/wallet/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 0dcffc8..503ac05 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2387,8 +2387,7 @@ fn build_tally_report(
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-                let outlier = reveals.get_mut(pkh).cloned();
-                if let Some(mut reveal) = outlier {
+                if let Some(reveal) = reveals.get_mut(pkh) {
                     reveal.in_consensus = false;
                 } else {
                     reveals.insert(
-- 
2.43.0


From 7808bfba2ed3f6109ed58c92449ac9dfaef9a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:08 +0000
Subject: [PATCH 44/52] fix: the bridge polls the last query of every batch too

---
 bridges/centralized-ethereum/src/actors/eth_poller.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/bridges/centralized-ethereum/src/actors/eth_poller.rs b/bridges/centralized-ethereum/src/actors/eth_poller.rs
index e61171f..b70ed32 100644
--- a/bridges/centralized-ethereum/src/actors/eth_poller.rs
+++ b/bridges/centralized-ethereum/src/actors/eth_poller.rs
@@ -112,12 +112,8 @@ impl EthPoller {
                 }
                 while last_dr_id + 1 < next_dr_id {
                     let init_index = usize::try_from(last_dr_id + 1).unwrap();
-                    let last_index = match next_dr_id.cmp(&(last_dr_id + max_batch_size)) {
-                        std::cmp::Ordering::Greater => {
-                            usize::try_from(last_dr_id + max_batch_size).unwrap()
-                        }
-                        _ => usize::try_from(next_dr_id).unwrap(),
-                    };
+                    let last_index =
+                        usize::try_from(next_dr_id.min(last_dr_id + max_batch_size + 1)).unwrap();
                     let ids = init_index..last_index;
                     let ids: Vec<Token> = ids.map(|id| Token::Uint(id.into())).collect();
 
-- 
2.43.0


From 5ec6a5ce6685d10c5ab3e09e96824a3df234900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:08 +0000
Subject: [PATCH 45/52] fix: the bridge does not leave behind the queries it
 could not read

---
 .../centralized-ethereum/src/actors/eth_poller.rs    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bridges/centralized-ethereum/src/actors/eth_poller.rs b/bridges/centralized-ethereum/src/actors/eth_poller.rs
index b70ed32..76738af 100644
--- a/bridges/centralized-ethereum/src/actors/eth_poller.rs
+++ b/bridges/centralized-ethereum/src/actors/eth_poller.rs
@@ -131,13 +131,14 @@ impl EthPoller {
 
                     if let Ok(queries_status) = queries_status {
                         let mut posted_ids: Vec<Token> = vec![];
+                        let mut solved_ids: Vec<SetDrState> = vec![];
                         for (pos, status) in queries_status.iter().enumerate() {
                             let query_id = ids[pos].to_owned().into_uint().unwrap();
                             let status: u8 = status.to_string().parse().unwrap();
                             match WitnetQueryStatus::from_code(status) {
                                 WitnetQueryStatus::Unknown => {
                                     log::warn!("Skipped unavailable query [{query_id}]");
-                                    dr_database_addr.do_send(SetDrState {
+                                    solved_ids.push(SetDrState {
                                         dr_id: query_id,
                                         dr_state: DrState::Dismissed,
                                     });
@@ -148,7 +149,7 @@ impl EthPoller {
                                 }
                                 WitnetQueryStatus::Reported | WitnetQueryStatus::Finalized => {
                                     log::info!("Skipped already solved query [{query_id}]");
-                                    dr_database_addr.do_send(SetDrState {
+                                    solved_ids.push(SetDrState {
                                         dr_id: query_id,
                                         dr_state: DrState::Finished,
                                     });
@@ -180,8 +181,13 @@ impl EthPoller {
                                 log::error!(
                                     "Fail to extract Witnet request bytecodes from queries {posted_ids:?}"
                                 );
+                                // Going on would leave these queries behind for good: retry later
+                                break;
                             }
                         }
+                        for solved_id in solved_ids {
+                            dr_database_addr.do_send(solved_id);
+                        }
                     } else {
                         log::error!(
                             "Fail to get status of queries #{} to #{}: {}",
@@ -189,6 +195,8 @@ impl EthPoller {
                             next_dr_id,
                             queries_status.unwrap_err()
                         );
+                        // Going on would leave these queries behind for good: retry later
+                        break;
                     }
                 }
             }
-- 
2.43.0


From f82085d19f47dcaf1d265ea149cf69f14a19188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:08 +0000
Subject: [PATCH 46/52] fix: the bridge keeps the state that a data request is
 set to

---
 bridges/centralized-ethereum/src/actors/dr_database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bridges/centralized-ethereum/src/actors/dr_database.rs b/bridges/centralized-ethereum/src/actors/dr_database.rs
index 2f8ad24..43ca039 100644
--- a/bridges/centralized-ethereum/src/actors/dr_database.rs
+++ b/bridges/centralized-ethereum/src/actors/dr_database.rs
@@ -258,7 +258,7 @@ impl Handler<SetDrState> for DrDatabase {
         let SetDrState { dr_id, dr_state } = msg;
         match self.dr.entry(dr_id) {
             Entry::Occupied(entry) => {
-                entry.into_mut().dr_state = DrState::Finished;
+                entry.into_mut().dr_state = dr_state;
                 log::debug!("Data request #{dr_id} updated to state {dr_state}",);
             }
             Entry::Vacant(entry) => {
-- 
2.43.0


From 3c5d32a4db9a9aae9cdd88a38d07ec34c49cd747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:08 +0000
Subject: [PATCH 47/52] fix: the bridge settles only the data requests that a
 transaction reported

---
 .../src/actors/dr_reporter.rs                 | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bridges/centralized-ethereum/src/actors/dr_reporter.rs b/bridges/centralized-ethereum/src/actors/dr_reporter.rs
index ffefe73..63d92e0 100644
--- a/bridges/centralized-ethereum/src/actors/dr_reporter.rs
+++ b/bridges/centralized-ethereum/src/actors/dr_reporter.rs
@@ -269,7 +269,16 @@ impl Handler<DrReporterMsg> for DrReporter {
                                     }
                                 }
                                 let dr_database_addr = DrDatabase::from_registry();
-                                for report in &msg.reports {
+                                // Only the requests in this transaction have been reported so far
+                                let batched_dr_ids: HashSet<DrId> = batched_report
+                                    .iter()
+                                    .filter_map(report_dr_id)
+                                    .collect();
+                                for report in msg
+                                    .reports
+                                    .iter()
+                                    .filter(|report| batched_dr_ids.contains(&report.dr_id))
+                                {
                                     if dismissed_dr_reports.contains(&report.dr_id) {
                                         // Dismiss data requests that could not (or need not) get reported
                                         dr_database_addr
@@ -362,6 +371,14 @@ impl Handler<DrReporterMsg> for DrReporter {
     }
 }
 
+/// Get the data request id of a report, as found in the argument of reportResultBatch
+fn report_dr_id(report: &Token) -> Option<DrId> {
+    match report {
+        Token::Tuple(fields) => fields.first()?.to_owned().into_uint(),
+        _ => None,
+    }
+}
+
 /// Get the queryId of a PostedResult event, or return None if this is a different kind of event
 fn parse_batch_report_error_log(
     wrb_contract_abi: &web3::ethabi::Contract,
-- 
2.43.0


From 6595cb00a8017e50b692fd193cb385b8ba16658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:08 +0000
Subject: [PATCH 48/52] fix: the bridge does not send again a data request that
 is solved

---
 bridges/centralized-ethereum/src/actors/wit_poller.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bridges/centralized-ethereum/src/actors/wit_poller.rs b/bridges/centralized-ethereum/src/actors/wit_poller.rs
index b597ccb..4ea90ed 100644
--- a/bridges/centralized-ethereum/src/actors/wit_poller.rs
+++ b/bridges/centralized-ethereum/src/actors/wit_poller.rs
@@ -158,6 +158,9 @@ impl WitPoller {
                                     dr_tally_tx_hash: tally.hash(),
                                     result,
                                 });
+
+                                // The request is solved: it must not be sent again
+                                continue;
                             }
                             Ok(..) => {
                                 // the data request is being resolved, just not yet
-- 
2.43.0


From a6c82790765e56dcaed02df6af25876e14fb9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:08 +0000
Subject: [PATCH 49/52] fix: the bridge does not revive the data requests that
 are settled

---
 bridges/centralized-ethereum/src/actors/dr_database.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bridges/centralized-ethereum/src/actors/dr_database.rs b/bridges/centralized-ethereum/src/actors/dr_database.rs
index 43ca039..825c5d5 100644
--- a/bridges/centralized-ethereum/src/actors/dr_database.rs
+++ b/bridges/centralized-ethereum/src/actors/dr_database.rs
@@ -192,6 +192,14 @@ impl Handler<SetDrInfoBridge> for DrDatabase {
     fn handle(&mut self, msg: SetDrInfoBridge, ctx: &mut Self::Context) -> Self::Result {
         let SetDrInfoBridge(dr_id, dr_info) = msg;
         let dr_state = dr_info.dr_state;
+
+        // A data request that was settled in the meanwhile stays so
+        if let Some(DrState::Finished | DrState::Dismissed) =
+            self.dr.get(&dr_id).map(|dr_info| dr_info.dr_state)
+        {
+            log::debug!("Data request #{dr_id} not updated, as it is already settled");
+            return;
+        }
         self.dr.insert(dr_id, dr_info);
 
         self.max_dr_id = cmp::max(self.max_dr_id, dr_id);
-- 
2.43.0


From d3b86bcfa96f0f62b8469b46e05a6019a57cdb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:14 +0000
Subject: [PATCH 50/52] fix: the bridge never lowers the reward of a request
 when it raises its collateral

---
 bridges/centralized-ethereum/src/actors/dr_sender.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bridges/centralized-ethereum/src/actors/dr_sender.rs b/bridges/centralized-ethereum/src/actors/dr_sender.rs
index c9a7262..0dacefb 100644
--- a/bridges/centralized-ethereum/src/actors/dr_sender.rs
+++ b/bridges/centralized-ethereum/src/actors/dr_sender.rs
@@ -339,10 +339,14 @@ fn deserialize_and_validate_dr_bytes(
                 let dro_prev_collateral = dr_output.collateral;
                 let dro_prev_witness_reward = dr_output.witness_reward;
                 dr_output.collateral = dr_min_collateral_nanowits;
-                dr_output.witness_reward = calculate_reward_collateral_ratio(
-                    dr_min_collateral_nanowits,
-                    dr_min_collateral_nanowits,
-                    reward_collateral_ratio,
+                // the ratio is rounded up, which may never lower the reward that was posted
+                dr_output.witness_reward = std::cmp::max(
+                    dro_prev_witness_reward,
+                    calculate_reward_collateral_ratio(
+                        dr_min_collateral_nanowits,
+                        dr_min_collateral_nanowits,
+                        reward_collateral_ratio,
+                    ),
                 );
                 log::warn!(
                     "DRO [{dro_hash}]: witnessing collateral ({dro_prev_collateral}) increased to minimum ({dr_min_collateral_nanowits})"
-- 
2.43.0


From 915041d05e310ab99af5d9df91aac78a9464476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:47 +0000
Subject: [PATCH 51/52] fix: a malformed message of a peer is an error, not a
 panic

Messages that fit neither schema made the conversion from the legacy one
panic inside of the session actor, which died without unregistering.
---
 data_structures/src/proto/versioning.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..8f7859a 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -283,9 +283,9 @@ pub trait Versioned: ProtobufConvert {
     /// schema.
     fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error>
     where
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
-        Ok(Self::from(legacy))
+        Self::try_from(legacy)
     }
 
     /// Tries to deserialize a data structure from its regular protobuf schema, and if it fails, it
@@ -293,7 +293,7 @@ pub trait Versioned: ProtobufConvert {
     fn from_versioned_pb_bytes(bytes: &[u8]) -> Result<Self, Error>
     where
         <Self as ProtobufConvert>::ProtoStruct: protobuf::Message,
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
         let mut current = Self::ProtoStruct::new();
         let direct_attempt = current
@@ -307,7 +307,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::try_from(legacy)
         }
     }
 }
@@ -848,11 +848,13 @@ impl From<LegacyMessage> for crate::proto::schema::witnet::Message {
     }
 }
 
-impl From<LegacyMessage> for Message {
-    fn from(legacy: LegacyMessage) -> Self {
+impl TryFrom<LegacyMessage> for Message {
+    type Error = Error;
+
+    fn try_from(legacy: LegacyMessage) -> Result<Self, Self::Error> {
         let pb = crate::proto::schema::witnet::Message::from(legacy);
 
-        Message::from_pb(pb).unwrap()
+        Message::from_pb(pb)
     }
 }
 
-- 
2.43.0


From dcab6173450e02c616814c2bf696519a8f1b742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:51 +0000
Subject: [PATCH 52/52] fix: blocks that were written by former versions are
 found among others, too

---
 node/src/actors/inventory_manager/handlers.rs | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/node/src/actors/inventory_manager/handlers.rs b/node/src/actors/inventory_manager/handlers.rs
index c2c1c86..1d97aef 100644
--- a/node/src/actors/inventory_manager/handlers.rs
+++ b/node/src/actors/inventory_manager/handlers.rs
@@ -29,6 +29,16 @@ fn key_superblock(superblock_index: u32) -> Vec<u8> {
     format!("{}{:010}", prefixes::SUPERBLOCK, superblock_index).into()
 }
 
+/// Fill in the missing bytes for backwards-compatibility of blocks encoded with V1_X using bincode.
+/// In particular, it checks whether the serialized bytes contain staking/unstaking merkle roots
+fn fix_legacy_block(bytes: Vec<u8>) -> Vec<u8> {
+    if bytes.len() >= 264 && bytes[260..264] == [0x51, 0x00, 0x00, 0x00] {
+        [&bytes[..260], &[0u8; 72], &bytes[260..], &[0u8; 16]].concat()
+    } else {
+        bytes
+    }
+}
+
 impl InventoryManager {
     fn handle_add_items(
         &mut self,
@@ -132,20 +142,9 @@ impl InventoryManager {
             Hash::SHA256(x) => x.to_vec(),
         };
 
-        // This closure fills in the missing bytes for backwards-compatibility of blocks encoded
-        // with V1_X using bincode. In particular, it checks whether the serialized bytes contain
-        // staking/unstaking merkle roots
-        let fix = |bytes: Vec<u8>| {
-            if bytes.len() >= 263 && bytes[260..264] == [0x51, 0x00, 0x00, 0x00] {
-                [&bytes[..260], &[0u8; 72], &bytes[260..], &[0u8; 16]].concat()
-            } else {
-                bytes
-            }
-        };
-
         // Uses `mapped_get` to alter the bytes before deserialization. Please note that this is
         // not a proper migration, but rather a workaround that has a little performance penalty
-        let fut = storage_mngr::mapped_get::<_, Block, _>(&key, fix)
+        let fut = storage_mngr::mapped_get::<_, Block, _>(&key, fix_legacy_block)
             .into_actor(self)
             .then(move |res, _, _| match res {
                 Ok(opt) => match opt {
@@ -290,7 +289,8 @@ impl InventoryManager {
                 Hash::SHA256(x) => x.to_vec(),
             };
 
-            storage_mngr::get(&key).map(move |response| (hash, response))
+            storage_mngr::mapped_get::<_, Block, _>(&key, fix_legacy_block)
+                .map(move |response| (hash, response))
         });
 
         let blocks = futures::future::join_all(futs)
-- 
2.43.0

