From a22b2560ef9146bc3c09168e0fded09bdabbfce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:55 +0000
Subject: [PATCH 01/14] fix: cross an initialized tick when a y to x swap stops
 exactly at its price

---
 contracts/oraiswap-v3/src/state.rs | 3 ++-
 wasm/collections/tickmap.rs        | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..90b12ef 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,8 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    // a swap going up which stops exactly at an initialized tick has to cross it
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
diff --git a/wasm/collections/tickmap.rs b/wasm/collections/tickmap.rs
index 80cd654..f60c200 100644
--- a/wasm/collections/tickmap.rs
+++ b/wasm/collections/tickmap.rs
@@ -229,8 +229,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // a swap going up which stops exactly at an initialized tick has to cross it
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
@@ -246,7 +247,7 @@ impl Tickmap {
                 }
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, false))))
                 } else {
-- 
2.43.0


From 584f174a34fc6150dc0eba26aab32a9274bd9870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:09 +0000
Subject: [PATCH 02/14] fix: a swap with more left than a crossed range can
 absorb must not be refused

---
 contracts/oraiswap-v3/src/storage/pool.rs | 4 +++-
 wasm/storage/pool.rs                      | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 0640cf1..eaa2dae 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -145,6 +145,7 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
+        // an amount whose target price is not representable is more than enough
         let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
@@ -152,7 +153,8 @@ impl Pool {
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        )?;
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 65c21f7..0d402f3 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -94,14 +94,16 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // an amount whose target price is not representable is more than enough
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 200238d3b2709b6a96eb2cca7b0b1c115e31c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 03/14] fix: keep the tick index below a tick crossed by an x
 to y swap that cannot move on

---
 contracts/oraiswap-v3/src/storage/pool.rs | 9 ++++++++-
 wasm/storage/pool.rs                      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index eaa2dae..f7280b4 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -139,9 +139,16 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index =
+            let tick_index =
                 get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
 
+            // a tick already crossed on the way down must stay above the current one
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 0d402f3..ffee238 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -86,11 +86,18 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             ));
 
+            // a tick already crossed on the way down must stay above the current one
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-- 
2.43.0


From 2e03893fdb6afff30551c00bc66f5f66d2353966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:37 +0000
Subject: [PATCH 04/14] fix: refund a native coin attached to a call that needs
 none of it

---
 contracts/oraiswap-v3/src/interface.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..2325fcd 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -95,7 +95,11 @@ impl Asset {
         info: &MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
-        if !self.amount.is_zero() {
+        // coins attached for a native token are refunded even if none of them is needed
+        let is_attached = matches!(&self.info, AssetInfo::NativeToken { denom }
+            if info.funds.iter().any(|x| x.denom.eq(denom)));
+
+        if !self.amount.is_zero() || is_attached {
             match &self.info {
                 AssetInfo::Token { contract_addr } => {
                     msgs.push(
-- 
2.43.0


From b08a7dea20f613b97620533cf338187cce3d9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:53 +0000
Subject: [PATCH 05/14] fix: do not let one attached coin pay for several hops
 of a swap route

---
 .../oraiswap-v3/src/entrypoints/common.rs     | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..e7a6ec4 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -1,5 +1,6 @@
 use cosmwasm_std::{
-    Addr, Api, BlockInfo, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Storage, Timestamp,
+    Addr, Api, BankMsg, BlockInfo, Coin, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Storage,
+    Timestamp,
 };
 
 use cw20::Expiration;
@@ -245,6 +246,7 @@ pub fn swap_route_internal(
     swaps: Vec<SwapHop>,
 ) -> Result<TokenAmount, ContractError> {
     let mut next_swap_amount = amount_in;
+    let mut unspent_funds = info.funds.clone();
 
     let current_timestamp = env.block.time.millis();
 
@@ -255,10 +257,29 @@ pub fn swap_route_internal(
             SqrtPrice::new(MAX_SQRT_PRICE)
         };
 
+        // every attached coin pays for one hop only
+        let token_in = if swap_hop.x_to_y {
+            &swap_hop.pool_key.token_x
+        } else {
+            &swap_hop.pool_key.token_y
+        };
+        let mut hop_info = MessageInfo {
+            sender: info.sender.clone(),
+            funds: vec![],
+        };
+        if let Some(coin) = unspent_funds.iter_mut().find(|x| x.denom.eq(token_in)) {
+            let amount = coin.amount.min(next_swap_amount.into());
+            coin.amount -= amount;
+            hop_info.funds.push(Coin {
+                denom: coin.denom.clone(),
+                amount,
+            });
+        }
+
         next_swap_amount = swap_internal(
             store,
             api,
-            info,
+            &hop_info,
             msgs,
             &env.contract.address,
             current_timestamp,
@@ -271,6 +292,18 @@ pub fn swap_route_internal(
         .amount_out;
     }
 
+    // refund for user
+    unspent_funds.retain(|x| !x.amount.is_zero());
+    if !unspent_funds.is_empty() {
+        msgs.push(
+            BankMsg::Send {
+                to_address: info.sender.to_string(),
+                amount: unspent_funds,
+            }
+            .into(),
+        );
+    }
+
     Ok(next_swap_amount)
 }
 
-- 
2.43.0


From 90b99ac3ee8de1a666b1959e3ed1523912c70c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:18 +0000
Subject: [PATCH 06/14] fix: burn the named position, not the one of the
 spender with the same index

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..451d1c8 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -768,8 +768,14 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // the burned position belongs to the owner, who also receives the withdrawn tokens
+    let owner_info = MessageInfo {
+        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
+        funds: info.funds,
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, owner_info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 2dfadafdb26408c72c3830aa747c1f7dad904870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:36 +0000
Subject: [PATCH 07/14] fix: refuse to add a fee tier that already exists

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 451d1c8..26fade6 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -625,6 +625,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..54e7293 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -188,6 +188,9 @@ pub enum ContractError {
     #[error("pool not created")]
     CreatePoolError,
 
+    #[error("fee tier already exist")]
+    FeeTierAlreadyExist,
+
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
-- 
2.43.0


From b1554489d1d87f7d33154425216f72324364070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:11 +0000
Subject: [PATCH 08/14] fix: count liquidity ticks over a full bitmap chunk
 without a shift overflow

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 3 ++-
 contracts/oraiswap-v3/src/storage/pool.rs      | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..83217db 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -308,7 +308,8 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        let range: u64 =
+            (chunk >> min_bit) & (u64::MAX >> (CHUNK_SIZE as u8 - 1 - (max_bit - min_bit)));
         range.count_ones()
     };
 
diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index f7280b4..bc5b984 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -139,8 +139,7 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            let tick_index =
-                get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
+            let tick_index = get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
 
             // a tick already crossed on the way down must stay above the current one
             self.current_tick_index = if x_to_y {
-- 
2.43.0


From d872d43a3dfe2a7f1e0d2bee2155f71a09ca9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:23 +0000
Subject: [PATCH 09/14] fix: paging positions with a large offset and limit
 must not overflow

---
 contracts/oraiswap-v3/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index 90b12ef..98da9b9 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,8 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +229,8 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0


From ff383614a28dbfc38026b69521bbb95cfe2ce447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:43 +0000
Subject: [PATCH 10/14] fix: rounding must not carry an x to y swap past the
 target price of its step

---
 contracts/oraiswap-v3/src/math/clamm.rs | 7 ++++++-
 wasm/clamm.rs                           | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..b8cf3ae 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,7 +31,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -52,6 +52,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+            // rounding of the amount needed must not let the price pass the target
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = (if x_to_y {
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..a2930f7 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,7 +43,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -64,6 +64,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // rounding of the amount needed must not let the price pass the target
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
-- 
2.43.0


From e1492dc538d488ac7d8b7325cdf1596b05e6b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:24 +0000
Subject: [PATCH 11/14] fix: liquidity helpers must not divide by zero when the
 price is exactly at a bound of the range

---
 contracts/oraiswap-v3/src/logic/math.rs | 8 ++++----
 wasm/math.rs                            | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index af110ef..63d2ae7 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = calculate_sqrt_price(lower_tick)?;
     let upper_sqrt_price = calculate_sqrt_price(upper_tick)?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = get_liquidity_by_x_sqrt_price(
             x,
@@ -123,7 +123,7 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> Result<SingleTokenLiquidity, ContractError> {
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         return Err(ContractError::UpperSqrtPriceLess);
     }
 
@@ -198,7 +198,7 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> Result<SingleTokenLiquidity, ContractError> {
-    if current_sqrt_price < lower_sqrt_price {
+    if current_sqrt_price <= lower_sqrt_price {
         return Err(ContractError::CurrentSqrtPriceLess);
     }
 
diff --git a/wasm/math.rs b/wasm/math.rs
index d7e1fdc..82c2fbf 100644
--- a/wasm/math.rs
+++ b/wasm/math.rs
@@ -50,8 +50,8 @@ pub fn get_liquidity_by_x_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if upper_sqrt_price < current_sqrt_price {
-        return Err(err!("Upper Sqrt Price < Current Sqrt Price"));
+    if upper_sqrt_price <= current_sqrt_price {
+        return Err(err!("Upper Sqrt Price <= Current Sqrt Price"));
     }
 
     if current_sqrt_price < lower_sqrt_price {
@@ -126,8 +126,8 @@ pub fn get_liquidity_by_y_sqrt_price(
     current_sqrt_price: SqrtPrice,
     rounding_up: bool,
 ) -> TrackableResult<SingleTokenLiquidity> {
-    if current_sqrt_price < lower_sqrt_price {
-        return Err(err!("Current Sqrt Price < Lower Sqrt Price"));
+    if current_sqrt_price <= lower_sqrt_price {
+        return Err(err!("Current Sqrt Price <= Lower Sqrt Price"));
     }
 
     if upper_sqrt_price <= current_sqrt_price {
-- 
2.43.0


From ee0c5ce1aa1bdb85721d84032e541ebf12fc9862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:27 +0000
Subject: [PATCH 12/14] fix: get_liquidity must report the amounts that go with
 the liquidity it returns

---
 contracts/oraiswap-v3/src/logic/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/logic/math.rs b/contracts/oraiswap-v3/src/logic/math.rs
index 63d2ae7..01a1e97 100644
--- a/contracts/oraiswap-v3/src/logic/math.rs
+++ b/contracts/oraiswap-v3/src/logic/math.rs
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From ee5fdeeb7699b1a9de17526649750093452a726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:24 +0000
Subject: [PATCH 13/14] fix: counting ticks in a reversed window must be
 refused

LiquidityTicksAmount with lower_tick above upper_tick returned the bits
of the two outer chunks instead of refusing the invalid range.
---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83217db..81f460c 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -300,7 +300,7 @@ pub fn get_liquidity_ticks_amount(
     let max_tick = get_max_tick(tick_spacing);
     let min_tick = get_min_tick(tick_spacing);
 
-    if lower_tick < min_tick || upper_tick > max_tick {
+    if lower_tick < min_tick || upper_tick > max_tick || lower_tick > upper_tick {
         return Err(ContractError::InvalidTickIndex);
     };
 
-- 
2.43.0


From 85115f47914225b9a19260b1265778b06c8bc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:55 +0000
Subject: [PATCH 14/14] fix: return attached coins that a call does not take

A coin attached to a swap or a position in a token it does not pay with, or to
a call that takes no payment at all, stayed in the contract for ever.
---
 contracts/oraiswap-v3/src/contract.rs | 51 ++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/contract.rs b/contracts/oraiswap-v3/src/contract.rs
index 2cc802c..ecd578c 100644
--- a/contracts/oraiswap-v3/src/contract.rs
+++ b/contracts/oraiswap-v3/src/contract.rs
@@ -6,7 +6,9 @@ use crate::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
 use crate::state::CONFIG;
 use crate::{entrypoints::*, Config};
 
-use cosmwasm_std::{to_binary, Binary, Deps, DepsMut, Env, MessageInfo, Response, StdResult};
+use cosmwasm_std::{
+    to_binary, BankMsg, Binary, Coin, Deps, DepsMut, Env, MessageInfo, Response, StdResult,
+};
 use cw2::set_contract_version;
 
 // version info for migration info
@@ -37,6 +39,53 @@ pub fn execute(
     env: Env,
     info: MessageInfo,
     msg: ExecuteMsg,
+) -> Result<Response, ContractError> {
+    let sender = info.sender.to_string();
+    let unused_funds = unused_funds(&info.funds, &msg);
+
+    let response = execute_msg(deps, env, info, msg)?;
+
+    if unused_funds.is_empty() {
+        return Ok(response);
+    }
+
+    // refund for user
+    Ok(response.add_message(BankMsg::Send {
+        to_address: sender,
+        amount: unused_funds,
+    }))
+}
+
+/// Attached coins that the message does not take as payment.
+fn unused_funds(funds: &[Coin], msg: &ExecuteMsg) -> Vec<Coin> {
+    let payable: Vec<&String> = match msg {
+        ExecuteMsg::Swap {
+            pool_key, x_to_y, ..
+        } => match x_to_y {
+            true => vec![&pool_key.token_x],
+            false => vec![&pool_key.token_y],
+        },
+        ExecuteMsg::CreatePosition { pool_key, .. } => vec![&pool_key.token_x, &pool_key.token_y],
+        ExecuteMsg::Mint { extension } => {
+            vec![&extension.pool_key.token_x, &extension.pool_key.token_y]
+        }
+        // the route refunds every coin it does not spend
+        ExecuteMsg::SwapRoute { .. } => return vec![],
+        _ => vec![],
+    };
+
+    funds
+        .iter()
+        .filter(|coin| !coin.amount.is_zero() && !payable.contains(&&coin.denom))
+        .cloned()
+        .collect()
+}
+
+fn execute_msg(
+    deps: DepsMut,
+    env: Env,
+    info: MessageInfo,
+    msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
     match msg {
         ExecuteMsg::ChangeAdmin { new_admin } => change_admin(deps, info, new_admin),
-- 
2.43.0

