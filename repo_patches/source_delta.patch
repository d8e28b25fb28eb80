From 2c4369ec3f42df7d1e57d05e592bb305c195eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 01/13] fix: stable pool rounds up comparable amounts taken out
 by remove_liquidity_by_tokens

For tokens with more than 18 decimals the comparable amount was truncated, so
the account was credited digits the pool did not give up, and the contract owed
more of the token than it held.
---
 ref-exchange/src/stable_swap/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ref-exchange/src/stable_swap/mod.rs b/ref-exchange/src/stable_swap/mod.rs
index 123f4fa..f271874 100644
--- a/ref-exchange/src/stable_swap/mod.rs
+++ b/ref-exchange/src/stable_swap/mod.rs
@@ -132,6 +132,16 @@ impl StableSwapPool {
         }
     }
 
+    /// Comparable amount that covers at least the given token amount.
+    fn amount_to_c_amount_ceil(&self, amount: u128, index: usize) -> u128 {
+        let c_amount = self.amount_to_c_amount(amount, index);
+        if self.c_amount_to_amount(c_amount, index) < amount {
+            c_amount.checked_add(1).unwrap()
+        } else {
+            c_amount
+        }
+    }
+
     fn c_amount_to_amount(&self, c_amount: u128, index: usize) -> u128 {
         let value = self.token_decimals.get(index).unwrap();
         if *value <= TARGET_DECIMAL {
@@ -369,8 +379,12 @@ impl StableSwapPool {
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
-        // make amounts into comparable-amounts
-        let c_amounts = self.amounts_to_c_amounts(&amounts);
+        // make amounts into comparable-amounts, rounding up what leaves the pool
+        let c_amounts: Vec<Balance> = amounts
+            .iter()
+            .enumerate()
+            .map(|(i, amount)| self.amount_to_c_amount_ceil(*amount, i))
+            .collect();
         for i in 0..n_coins {
             self.assert_min_reserve(self.c_amounts[i].checked_sub(c_amounts[i]).unwrap_or(0));
         }
-- 
2.43.0


From df72dc88aa83acb697ba7465f2c410bb5c92247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:01 +0000
Subject: [PATCH 02/13] fix: donation_share cannot give away shares pledged to
 farming or lending

---
 ref-exchange/src/donation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ref-exchange/src/donation.rs b/ref-exchange/src/donation.rs
index 8c8193e..f2628ab 100644
--- a/ref-exchange/src/donation.rs
+++ b/ref-exchange/src/donation.rs
@@ -7,7 +7,7 @@ impl Contract {
     /// # Arguments
     ///
     /// * `pool_id` - The pool id where the shares are located.
-    /// * `amount` - The donation amount; if it's None, the entire amount will be donated.
+    /// * `amount` - The donation amount; if it's None, the entire amount (except pledged shares) will be donated.
     /// * `unregister` - If `Some(true)`, Will attempt to unregister the shares and refund the user’s storage fees.
     ///                  The storage fee will be refunded to the user's internal account first; 
     ///                  if there is no internal account, a transfer will be initiated. 
@@ -18,8 +18,14 @@ impl Contract {
         let account_id = env::predecessor_account_id();
         let prev_storage = env::storage_usage();
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
-        let donation_amount = amount.map(|v| v.0).unwrap_or(pool.share_balances(&account_id));
+        let total_shares = pool.share_balances(&account_id);
+        let available_shares = self.internal_get_account(&account_id)
+            .and_then(|account| account.get_shadow_record(pool_id))
+            .map(|record| record.free_shares(total_shares))
+            .unwrap_or(total_shares);
+        let donation_amount = amount.map(|v| v.0).unwrap_or(available_shares);
         assert!(donation_amount > 0, "Invalid amount");
+        assert!(donation_amount <= available_shares, "Not enough free shares");
         pool.share_transfer(&account_id, &env::current_account_id(), donation_amount);
         if unregister == Some(true) {
             pool.share_unregister(&account_id);
-- 
2.43.0


From 19a247b8fb71d40d3e735b31ad6e79118debdac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 03/13] fix: a failed shadow cast refunds only the storage it
 released

---
 ref-exchange/src/shadow_actions.rs | 18 +++++++-----------
 ref-exchange/src/utils.rs          |  3 +--
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 5fe8916..13b4752 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -119,7 +119,7 @@ impl Contract {
             ShadowActions::ToFarming | ShadowActions::ToBurrowland => {
                 account.update_shadow_record(pool_id, &action, amount);
                 self.internal_save_account(&sender_id, account);
-                let storage_fee = self.internal_check_storage(prev_storage);
+                self.internal_check_storage(prev_storage);
                 ext_shadow_receiver::on_cast_shadow(
                         sender_id.clone(),
                         shadow_id,
@@ -134,7 +134,6 @@ impl Contract {
                             sender_id,
                             pool_id,
                             U128(amount),
-                            U128(storage_fee),
                             &env::current_account_id(),
                             0,
                             GAS_FOR_ON_CAST_SHADOW_CALLBACK
@@ -157,7 +156,6 @@ impl Contract {
                             sender_id,
                             pool_id,
                             U128(amount),
-                            U128(0),
                             &env::current_account_id(),
                             0,
                             GAS_FOR_ON_CAST_SHADOW_CALLBACK
@@ -246,26 +244,24 @@ impl Contract {
         action: ShadowActions,
         sender_id: AccountId,
         pool_id: u64,
-        amount: U128,
-        storage_fee: U128
+        amount: U128
     ) -> bool {
         if !is_promise_success() {
+            let prev_storage = env::storage_usage();
             let mut account = self.internal_unwrap_account(&sender_id); 
             match action {
                 ShadowActions::ToFarming => {
                     account.update_shadow_record(pool_id, &ShadowActions::FromFarming, amount.0);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 ShadowActions::ToBurrowland => {
                     account.update_shadow_record(pool_id, &ShadowActions::FromBurrowland, amount.0);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 _ => {}
             }
+            // The record may still be in use by another action, only refund what has been released.
+            if prev_storage > env::storage_usage() {
+                Promise::new(sender_id.clone()).transfer((prev_storage - env::storage_usage()) as Balance * env::storage_byte_cost());
+            }
             self.internal_save_account(&sender_id, account);
             false
         } else {
diff --git a/ref-exchange/src/utils.rs b/ref-exchange/src/utils.rs
index 0ddf138..583a0be 100644
--- a/ref-exchange/src/utils.rs
+++ b/ref-exchange/src/utils.rs
@@ -95,8 +95,7 @@ pub trait RefExchange {
         action: crate::account_deposit::ShadowActions,
         sender_id: AccountId,
         pool_id: u64,
-        amount: U128,
-        storage_fee: U128
+        amount: U128
     ) -> bool;
     fn callback_on_burrow_liquidation(
         &mut self,
-- 
2.43.0


From 7a23a0991396b381aed28499d8b49310c1d97b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 04/13] fix: mft_resolve_transfer reports the amount it
 refunded

---
 ref-exchange/src/multi_fungible_token.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ref-exchange/src/multi_fungible_token.rs b/ref-exchange/src/multi_fungible_token.rs
index 1fe3836..4325f02 100644
--- a/ref-exchange/src/multi_fungible_token.rs
+++ b/ref-exchange/src/multi_fungible_token.rs
@@ -328,10 +328,11 @@ impl Contract {
             }
             PromiseResult::Failed => amount.0,
         };
+        let mut refunded_amount = 0;
         if unused_amount > 0 {
             let receiver_balance = self.internal_mft_balance(token_id.clone(), &receiver_id);
             if receiver_balance > 0 {
-                let refund_amount = std::cmp::min(receiver_balance, unused_amount);
+                refunded_amount = std::cmp::min(receiver_balance, unused_amount);
                 
                 let refund_to = if self.accounts.get(&sender_id).is_some() {
                     sender_id
@@ -340,10 +341,10 @@ impl Contract {
                     // Funds are sent to the contract account.
                     env::current_account_id()
                 };
-                self.internal_mft_transfer(token_id, &receiver_id, &refund_to, Some(refund_amount), None);
+                self.internal_mft_transfer(token_id, &receiver_id, &refund_to, Some(refunded_amount), None);
             }
         }
-        U128(unused_amount)
+        U128(refunded_amount)
     }
 
     pub fn mft_metadata(&self, token_id: String) -> FungibleTokenMetadata {
-- 
2.43.0


From f6f06c48e0107d7228d04f2882f0f0229c9a9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:13 +0000
Subject: [PATCH 05/13] fix: credit what the receiver of a client echo did not
 use

The outputs of an instant swap with client_echo are sent with
ft_transfer_call. When the receiver refuses them or uses a part only, the
token refunds the rest to the exchange, but the callback took the successful
promise for full use, so the refund was credited to nobody and stranded.
---
 ref-exchange/src/account_deposit.rs | 28 +++++++++++++++++++++++++++-
 ref-exchange/src/utils.rs           |  6 ++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/account_deposit.rs b/ref-exchange/src/account_deposit.rs
index d990c2f..7d35949 100644
--- a/ref-exchange/src/account_deposit.rs
+++ b/ref-exchange/src/account_deposit.rs
@@ -433,6 +433,32 @@ impl Contract {
             }
         }
     }
+
+    /// Settles a `ft_transfer_call`: the part the receiver didn't use was refunded to this contract.
+    #[private]
+    pub fn exchange_callback_post_withdraw_with_msg(
+        &mut self,
+        token_id: AccountId,
+        sender_id: AccountId,
+        amount: U128,
+    ) -> U128 {
+        assert_eq!(
+            env::promise_results_count(),
+            1,
+            "{}",
+            ERR25_CALLBACK_POST_WITHDRAW_INVALID
+        );
+        let used_amount = match env::promise_result(0) {
+            PromiseResult::NotReady => unreachable!(),
+            PromiseResult::Successful(value) => near_sdk::serde_json::from_slice::<U128>(&value)
+                .map_or(amount.0, |used| used.0.min(amount.0)),
+            PromiseResult::Failed => 0,
+        };
+        if used_amount < amount.0 {
+            self.internal_handle_fail_in_withdraw_callback(&sender_id, &token_id, amount.0 - used_amount);
+        }
+        used_amount.into()
+    }
 }
 
 impl Contract {
@@ -642,7 +668,7 @@ impl Contract {
             1,
             GAS_FOR_FT_TRANSFER_CALL + extra_gas,
         )
-        .then(ext_self::exchange_callback_post_withdraw(
+        .then(ext_self::exchange_callback_post_withdraw_with_msg(
             token_id.clone(),
             sender_id.clone(),
             U128(amount),
diff --git a/ref-exchange/src/utils.rs b/ref-exchange/src/utils.rs
index 583a0be..3c3c548 100644
--- a/ref-exchange/src/utils.rs
+++ b/ref-exchange/src/utils.rs
@@ -90,6 +90,12 @@ pub trait RefExchange {
         sender_id: AccountId,
         amount: U128,
     );
+    fn exchange_callback_post_withdraw_with_msg(
+        &mut self,
+        token_id: AccountId,
+        sender_id: AccountId,
+        amount: U128,
+    ) -> U128;
     fn callback_on_shadow(
         &mut self,
         action: crate::account_deposit::ShadowActions,
-- 
2.43.0


From 80cbce4656964901bddd1626ec685a6a58f6c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 06/13] fix: adding liquidity to a rated or degen pool needs
 valid rates

New shares are priced by the recorded rates, and burning them by
proportion right afterwards amounts to a swap at these rates, which is
refused once they have expired.
---
 ref-exchange/src/degen_swap/mod.rs | 3 +++
 ref-exchange/src/rated_swap/mod.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ref-exchange/src/degen_swap/mod.rs b/ref-exchange/src/degen_swap/mod.rs
index d405ddc..e39e2b4 100644
--- a/ref-exchange/src/degen_swap/mod.rs
+++ b/ref-exchange/src/degen_swap/mod.rs
@@ -282,6 +282,9 @@ impl DegenSwapPool {
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
+        // the price of the new shares depends on the degens
+        self.assert_degens_valid();
+
         let (new_shares, fee_part) = self.calc_add_liquidity_with_degens(amounts, &self.get_degens(), fees);
 
         //slippage check on the LP tokens.
diff --git a/ref-exchange/src/rated_swap/mod.rs b/ref-exchange/src/rated_swap/mod.rs
index f011f83..d82beee 100644
--- a/ref-exchange/src/rated_swap/mod.rs
+++ b/ref-exchange/src/rated_swap/mod.rs
@@ -280,6 +280,9 @@ impl RatedSwapPool {
         let n_coins = self.token_account_ids.len();
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
+        // the price of the new shares depends on the rates
+        self.assert_rates_valid();
+
         let (new_shares, fee_part) = self.calc_add_liquidity_with_rates(amounts, &self.get_rates(), fees);
 
         //slippage check on the LP tokens.
-- 
2.43.0


From 7bf5d279a857de7235e8ae237142ae6e9865400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 07/13] fix: a hot zap accounts the time passed before it
 changes a pool

---
 ref-exchange/src/token_receiver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ref-exchange/src/token_receiver.rs b/ref-exchange/src/token_receiver.rs
index 246dbbf..7eaa7f6 100644
--- a/ref-exchange/src/token_receiver.rs
+++ b/ref-exchange/src/token_receiver.rs
@@ -180,6 +180,10 @@ impl FungibleTokenReceiver for Contract {
                         token_cache.add(&out_token_id, out_amount);
                     }
 
+                    for add_liquidity_info in add_liquidity_infos.iter() {
+                        self.internal_update_unit_share_cumulative_info(add_liquidity_info.pool_id);
+                    }
+
                     let prev_storage = env::storage_usage();
                     for add_liquidity_info in add_liquidity_infos {
                         let mut pool = self.pools.get(add_liquidity_info.pool_id).expect(ERR85_NO_POOL);
-- 
2.43.0


From e3f94554c9800bd24c74bc8c31379f2e2f323144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 08/13] fix: a claim without seeds does not fail after the rps
 was reset

---
 ref-farming/src/simple_farm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index 757f25c..f0a4b43 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -296,9 +296,11 @@ impl SimpleFarm {
     ) -> (RPS, Balance) {
 
         self.distribute(total_seeds, silent);
-        // if user_seeds == &0 {
-        //     return (self.last_distribution.rps, 0);
-        // }
+        // without seeds there is nothing to claim, and user_rps may be from
+        // before the rps was reset
+        if user_seeds == &0 {
+            return (self.last_distribution.rps, 0);
+        }
 
         let claimed = (
             U256::from(*user_seeds) 
-- 
2.43.0


From 58787e5508da94343c2f9f5b3463413e218f8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:10 +0000
Subject: [PATCH 09/13] fix: a failed withdrawal is restored also to a farmer
 who unregistered

---
 ref-farming/src/actions_of_reward.rs | 2 ++
 ref-farming/src/actions_of_seed.rs   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/ref-farming/src/actions_of_reward.rs b/ref-farming/src/actions_of_reward.rs
index 00455c3..d109e94 100644
--- a/ref-farming/src/actions_of_reward.rs
+++ b/ref-farming/src/actions_of_reward.rs
@@ -117,6 +117,8 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered in the meantime
+                self.internal_register_account(&sender_id, 0);
                 // This reverts the changes from withdraw function.
                 let mut farmer = self.get_farmer(&sender_id);
                 farmer.get_ref_mut().add_reward(&token_id, amount.0);
diff --git a/ref-farming/src/actions_of_seed.rs b/ref-farming/src/actions_of_seed.rs
index d6e5c2d..67fd8e4 100644
--- a/ref-farming/src/actions_of_seed.rs
+++ b/ref-farming/src/actions_of_seed.rs
@@ -94,6 +94,8 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered in the meantime
+                self.internal_register_account(&sender_id, 0);
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
@@ -143,6 +145,8 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered in the meantime
+                self.internal_register_account(&sender_id, 0);
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
-- 
2.43.0


From 3cd2daa4473f0a63b6619a2014215a4dde27bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 10/13] fix: a farm needs a session interval and a reward per
 session

---
 ref-farming/src/actions_of_farm.rs | 6 ++++++
 ref-farming/src/errors.rs          | 1 +
 2 files changed, 7 insertions(+)

diff --git a/ref-farming/src/actions_of_farm.rs b/ref-farming/src/actions_of_farm.rs
index 482bea1..c848ed1 100644
--- a/ref-farming/src/actions_of_farm.rs
+++ b/ref-farming/src/actions_of_farm.rs
@@ -14,6 +14,12 @@ impl Contract {
     pub fn create_simple_farm(&mut self, terms: HRSimpleFarmTerms, min_deposit: Option<U128>) -> FarmId {
 
         self.assert_owner();
+        // a farm without sessions could never be distributed, which every
+        // action on its seed has to do first
+        assert!(
+            terms.session_interval > 0 && terms.reward_per_session.0 > 0,
+            "{}", ERR45_INVALID_FARM_TERMS
+        );
         
         let prev_storage = env::storage_usage();
 
diff --git a/ref-farming/src/errors.rs b/ref-farming/src/errors.rs
index 9f1b741..adc1336 100644
--- a/ref-farming/src/errors.rs
+++ b/ref-farming/src/errors.rs
@@ -23,6 +23,7 @@ pub const ERR41_FARM_NOT_EXIST: &str = "E41: farm not exist";
 pub const ERR42_INVALID_FARM_ID: &str = "E42: invalid farm id";
 pub const ERR43_INVALID_FARM_STATUS: &str = "E43: invalid farm status";
 pub const ERR44_INVALID_FARM_REWARD: &str = "E44: invalid reward token for this farm";
+pub const ERR45_INVALID_FARM_TERMS: &str = "E45: invalid farm terms";
 
 pub const ERR500: &str = "E500: Internal ERROR!";
 
-- 
2.43.0


From f42711cce1fc2d17ebbd989f4f7e5e81caa04a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 11/13] fix: rewards of several sessions may exceed what a
 balance can hold

---
 ref-farming/src/simple_farm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index f0a4b43..29f428c 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -185,8 +185,8 @@ impl SimpleFarm {
             let mut dis = self.last_distribution.clone();
             // calculate rr according to cur_timestamp
             dis.rr = (to_sec(env::block_timestamp()) - self.terms.start_at) / self.terms.session_interval;
-            let mut reward_added = (dis.rr - self.last_distribution.rr) as u128 
-                * self.terms.reward_per_session;
+            let mut reward_added = ((dis.rr - self.last_distribution.rr) as u128)
+                .saturating_mul(self.terms.reward_per_session);
             if self.last_distribution.undistributed < reward_added {
                 // all undistribution would be distributed this time
                 reward_added = self.last_distribution.undistributed;
-- 
2.43.0


From 7b1bd694d5b5b736bee140482a311d6f2cea8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 12/13] fix: a record left by a closed account does not block
 its seeds

---
 ref-farming/src/farmer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 8b34a39..3e757ca 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -98,7 +98,8 @@ impl Farmer {
     pub fn remove_rps(&mut self, farm_id: &FarmId) {
         if self.user_rps.contains_key(farm_id) {
             self.user_rps.remove(farm_id);
-            self.rps_count -= 1;
+            // a record from before the account was last unregistered is not counted
+            self.rps_count = self.rps_count.saturating_sub(1);
         }
     }
 
-- 
2.43.0


From adf15f49c113dd31629e2032702b9bf47a78d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:57 +0000
Subject: [PATCH 13/13] fix: a reward withdrawn by its exact amount does not
 keep the account open

---
 ref-farming/src/farmer.rs       | 2 +-
 ref-farming/src/storage_impl.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 3e757ca..260dacf 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -52,7 +52,7 @@ impl Farmer {
     pub(crate) fn sub_reward(&mut self, token: &AccountId, amount: Balance) -> Balance {
         let value = *self.rewards.get(token).expect(ERR21_TOKEN_NOT_REG);
         assert!(value >= amount, "{}", ERR22_NOT_ENOUGH_TOKENS);
-        if amount == 0 {
+        if amount == 0 || amount == value {
             self.rewards.remove(&token.clone());
             value
         } else {
diff --git a/ref-farming/src/storage_impl.rs b/ref-farming/src/storage_impl.rs
index f779ddf..6f236b6 100644
--- a/ref-farming/src/storage_impl.rs
+++ b/ref-farming/src/storage_impl.rs
@@ -95,7 +95,7 @@ impl StorageManagement for Contract {
         if let Some(farmer) = self.get_farmer_wrapped(&account_id) {
             
             assert!(
-                farmer.get_ref().rewards.is_empty(),
+                farmer.get_ref().rewards.values().all(|x| *x == 0),
                 "{}", ERR12_STORAGE_UNREGISTER_REWARDS_NOT_EMPTY
             );
             assert!(
-- 
2.43.0

