From db50e43c5ebaf8663e67714cd6711997a6836512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 1/8] fix: settle backstop emissions when every share is queued
 for withdrawal

update_emission_data_with_config divided by the unqueued shares, which are
zero when all shares of a pool are queued. Every deposit, withdrawal, queue,
dequeue, claim and gulp for that pool then failed.
---
 backstop/src/emissions/distributor.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..5c2c7d4 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -94,9 +94,14 @@ pub fn update_emission_data_with_config(
 
     let unqueued_shares = pool_balance.shares - pool_balance.q4w;
     require_nonnegative(e, unqueued_shares);
-    let additional_idx = (i128(max_timestamp - emis_data.last_time) * i128(emis_config.eps))
-        .fixed_div_floor(unqueued_shares, SCALAR_7)
-        .unwrap_optimized();
+    let additional_idx = if unqueued_shares == 0 {
+        // all shares are queued for withdrawal and do not earn emissions
+        0
+    } else {
+        (i128(max_timestamp - emis_data.last_time) * i128(emis_config.eps))
+            .fixed_div_floor(unqueued_shares, SCALAR_7)
+            .unwrap_optimized()
+    };
     let new_data = BackstopEmissionsData {
         index: additional_idx + emis_data.index,
         last_time: e.ledger().timestamp(),
-- 
2.43.0


From 4cf724edd2a06118f39466edbaa59f2cf4a6b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 2/8] fix: settle the recipient's emissions before a claim adds
 shares to them

execute_claim added the minted shares to `to` without updating the emissions
of `to`, so a recipient other than the claimer accrued emissions on the new
shares for time before they existed.
---
 backstop/src/emissions/claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..b61c409 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -60,6 +60,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
 
+            // settle the recipient's emissions before their share balance changes
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
+
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
             pool_balance.deposit(deposit_amount, to_mint);
-- 
2.43.0


From c770398fbe3f98e31e1953877889b6159efa083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 3/8] fix: credit the LP tokens of a claim that lists a pool
 twice

The amount claimed for a repeated pool was overwritten with zero, so the
LP tokens bought with it were credited to nobody.
---
 backstop/src/emissions/claim.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index b61c409..4e26c1c 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        // a pool listed more than once only has something to claim the first time
+        let total_claim = claims.get(pool_id.clone()).unwrap_or(0) + claim_amt;
+        claims.set(pool_id, total_claim);
     }
 
     if claimed > 0 {
@@ -52,8 +54,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From a8702e1706e266e826d2011071d9f34a9e41273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 4/8] fix: fill backstop auctions whose backstop token side has
 scaled to zero

scale_auction drops entries that scale to zero, and the fills of interest and
bad debt auctions trapped on the missing entry. An interest auction could
never be filled from 400 blocks after it started.
---
 pool/src/auctions/backstop_interest_auction.rs | 3 ++-
 pool/src/auctions/bad_debt_auction.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..7c6e363 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -83,7 +83,8 @@ pub fn fill_interest_auction(
     }
     let backstop_client = BackstopClient::new(&e, &backstop);
     let backstop_token: Address = backstop_client.backstop_token();
-    let backstop_token_bid_amount = auction_data.bid.get_unchecked(backstop_token);
+    // the bid is not included in the auction data once it has scaled down to zero
+    let backstop_token_bid_amount = auction_data.bid.get(backstop_token).unwrap_or(0);
 
     backstop_client.donate(
         &filler,
diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index d01d043..b2aa202 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -87,7 +87,8 @@ pub fn fill_bad_debt_auction(
 
     let backstop_client = BackstopClient::new(e, &backstop_address);
     let backstop_token_id = backstop_client.backstop_token();
-    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_optimized();
+    // the lot is not included in the auction data if it has scaled to zero
+    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_or(0);
     backstop_client.draw(
         &e.current_contract_address(),
         &lot_amount,
-- 
2.43.0


From 958f8a30ecf0ef094dca28e5d01f96aa9ac7d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 5/8] fix: count an asset listed twice once when creating an
 interest auction

The lot held the asset's interest once while its value, and so the bid and the
minimum size, counted it for every repetition.
---
 pool/src/auctions/backstop_interest_auction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 7c6e363..559b22b 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -27,6 +27,10 @@ pub fn create_interest_auction_data(
 
     let mut interest_value = 0; // expressed in the oracle's decimals
     for res_asset_address in assets.iter() {
+        if auction_data.lot.contains_key(res_asset_address.clone()) {
+            // count the interest of an asset that is listed more than once only once
+            continue;
+        }
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
         if reserve.backstop_credit > 0 {
-- 
2.43.0


From 1663a1b6149b81efd4bf4d700b8ae03f310c3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 6/8] fix: accrue reserves before the backstop take rate
 changes

A new take rate was applied to interest accrued before it was set. Lowering
it while an interest auction was open made the auction's lot exceed the
backstop credit, so filling it left the credit negative.
---
 pool/src/pool/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pool/src/pool/config.rs b/pool/src/pool/config.rs
index 7d1da91..803132f 100644
--- a/pool/src/pool/config.rs
+++ b/pool/src/pool/config.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use soroban_sdk::{panic_with_error, Address, Env, String};
 
-use super::pool::Pool;
+use super::{pool::Pool, reserve::Reserve};
 
 /// Initialize the pool
 ///
@@ -61,6 +61,12 @@ pub fn execute_update_pool(e: &Env, backstop_take_rate: u32, max_positions: u32)
         panic_with_error!(e, PoolError::BadRequest);
     }
     let mut pool_config = storage::get_pool_config(e);
+    if pool_config.bstop_rate != backstop_take_rate {
+        // accrue up to now with the old take rate, such that the new one only applies from here on
+        for asset in storage::get_res_list(e).iter() {
+            Reserve::load(e, &pool_config, &asset).store(e);
+        }
+    }
     pool_config.bstop_rate = backstop_take_rate;
     pool_config.max_positions = max_positions;
     storage::set_pool_config(e, &pool_config);
-- 
2.43.0


From 9b2e4bcb515a163d4f03ee44aa55cff544c410f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 7/8] fix: reject a fill percentage that does not fit in 64
 bits instead of truncating it

---
 pool/src/pool/actions.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pool/src/pool/actions.rs b/pool/src/pool/actions.rs
index 5a1845f..5e14a61 100644
--- a/pool/src/pool/actions.rs
+++ b/pool/src/pool/actions.rs
@@ -85,6 +85,14 @@ impl Actions {
     }
 }
 
+/// Convert the amount of a fill request to the percentage being filled
+///
+/// ### Panics
+/// If the amount is not representable as a percentage
+fn to_percent_filled(e: &Env, amount: i128) -> u64 {
+    u64::try_from(amount).unwrap_or_else(|_| panic_with_error!(e, PoolError::BadRequest))
+}
+
 /// Build a set of pool actions and the new positions from the supplied requests. Validates that the requests
 /// are valid based on the status and supported reserves in the pool.
 ///
@@ -245,7 +253,7 @@ pub fn build_actions_from_request(
                     0,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    to_percent_filled(e, request.amount),
                 );
                 check_health = true;
 
@@ -266,7 +274,7 @@ pub fn build_actions_from_request(
                     1,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    to_percent_filled(e, request.amount),
                 );
                 check_health = true;
 
@@ -287,7 +295,7 @@ pub fn build_actions_from_request(
                     2,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    to_percent_filled(e, request.amount),
                 );
                 e.events().publish(
                     (
-- 
2.43.0


From cc27f358b54717af2b5bdeca1651f2d07f501b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:19 +0000
Subject: [PATCH 8/8] fix: add the rates of the steepest segment without
 leaving 32 bits

A reserve whose r_base, r_one and r_two are each valid but add up to more than
a u32 could not accrue above 95% utilisation: every operation on it, repayments
and liquidations included, panicked.
---
 pool/src/pool/interest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pool/src/pool/interest.rs b/pool/src/pool/interest.rs
index d0a2dc6..44cbfe3 100644
--- a/pool/src/pool/interest.rs
+++ b/pool/src/pool/interest.rs
@@ -62,7 +62,10 @@ pub fn calc_accrual(
             .unwrap_optimized();
 
         let intersection = ir_mod
-            .fixed_mul_ceil(i128(config.r_two + config.r_one + config.r_base), SCALAR_9)
+            .fixed_mul_ceil(
+                i128(config.r_two) + i128(config.r_one) + i128(config.r_base),
+                SCALAR_9,
+            )
             .unwrap_optimized();
         cur_ir = extra_rate + intersection;
     }
-- 
2.43.0

