From 51e1ecaa314f704242890de4fd2cda486ee285fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:52 +0000
Subject: [PATCH 01/29] fix: replace an untouched order when it is edited

Editing an order whose whole expected size was still on the book cancelled
it without placing the replacement, because the filled amount was required
to be positive rather than not negative.
---
 programs/openbook-v2/src/instructions/edit_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/instructions/edit_order.rs b/programs/openbook-v2/src/instructions/edit_order.rs
index ebfea5a..a627a78 100644
--- a/programs/openbook-v2/src/instructions/edit_order.rs
+++ b/programs/openbook-v2/src/instructions/edit_order.rs
@@ -28,7 +28,7 @@ pub fn edit_order<'c: 'info, 'info>(
 
     let filled_amount = expected_cancel_size - leaf_node_quantity;
     // note that order.max_base_lots is checked to be > 0 inside `place_order`
-    if filled_amount > 0 && order.max_base_lots > filled_amount {
+    if filled_amount >= 0 && order.max_base_lots > filled_amount {
         // Do not reduce max_quote_lots_including_fees as implicitly it's limited by max_base_lots.
         order.max_base_lots -= filled_amount;
         return crate::instructions::place_order(ctx, order, limit);
-- 
2.43.0


From f078198000e32742a3626e5bcb4254e9d8835b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:52 +0000
Subject: [PATCH 02/29] fix: do not lose pegged orders behind unrepresentable
 ones

Skipping a pegged order whose price cannot be represented took the skipped
item itself for the next candidate, so that a following valid order was
passed over by the iteration.
---
 programs/openbook-v2/src/state/orderbook/bookside_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
index 587b60c..7a7992f 100644
--- a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
+++ b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for BookSideIter<'a> {
                 if oracle_pegged_price(oracle_price_lots, o_node, side).0 != OrderState::Skipped {
                     break;
                 }
-                o_peek = self.oracle_pegged_iter.next()
+                self.oracle_pegged_iter.next();
+                o_peek = self.oracle_pegged_iter.peek();
             }
             o_peek
         } else {
-- 
2.43.0


From 68bc767d0275fd7a6dc61e493ee2bae24d647392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:52 +0000
Subject: [PATCH 03/29] fix: release the locked maker fee of a self-traded bid

A fixed-price bid that traded with an order of its own account kept its
maker fee locked although no fee is due, and the next settlement turned it
into a referrer rebate or market fee.
---
 programs/openbook-v2/src/state/open_orders_account.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/openbook-v2/src/state/open_orders_account.rs b/programs/openbook-v2/src/state/open_orders_account.rs
index 81ad493..795583d 100644
--- a/programs/openbook-v2/src/state/open_orders_account.rs
+++ b/programs/openbook-v2/src/state/open_orders_account.rs
@@ -162,6 +162,11 @@ impl OpenOrdersAccount {
             locked_amount_above_fill_price = quote_to_free + maker_fees_to_free;
             fill.peg_limit
         } else {
+            if is_self_trade && side == Side::Bid {
+                // No fee is due, give back what the order locked for it
+                locked_maker_fees = market.maker_fees_floor(quote_native);
+                locked_amount_above_fill_price = locked_maker_fees;
+            }
             fill.price
         };
 
-- 
2.43.0


From 1fe05595a89985e3bdf746dd8ef41020ce033b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:39 +0000
Subject: [PATCH 04/29] fix: replace the account write of the same slot

The position looked up for a write came after an existing write of the
same slot, so the branch that overwrites it was never taken and writes
piled up.
---
 lib/client/src/chain_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 4db62c5..7133189 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -159,7 +159,7 @@ impl ChainData {
                 let rev_pos = v
                     .iter()
                     .rev()
-                    .position(|d| d.slot <= account.slot)
+                    .position(|d| d.slot < account.slot)
                     .unwrap_or(v.len());
                 let pos = v.len() - rev_pos;
                 if pos < v.len() && v[pos].slot == account.slot {
-- 
2.43.0


From b4180788fac7234fbd62b342911913b13da11214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:39 +0000
Subject: [PATCH 05/29] fix: ignore slot messages that are older than the root

A late message about a slot before the newest root added the slot again,
as one that is neither rooted nor in the chain. The rooted account writes
of that slot were then no longer returned.
---
 lib/client/src/chain_data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 7133189..ae2fbd9 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -57,6 +57,11 @@ impl ChainData {
     }
 
     pub fn update_slot(&mut self, new_slot: SlotData) {
+        // slots before the root are dropped; a late message must not bring them back
+        if new_slot.slot < self.newest_rooted_slot {
+            return;
+        }
+
         let new_processed_head = new_slot.slot > self.newest_processed_slot;
         if new_processed_head {
             self.newest_processed_slot = new_slot.slot;
-- 
2.43.0


From 641bea4835c97a8153124d4325c895e2e345651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:39 +0000
Subject: [PATCH 06/29] fix: follow the chain again when a missing slot is
 filled in

A slot that was heard of after its descendants did not become part of the
best chain before the next head arrived, so its account writes were not
returned.
---
 lib/client/src/chain_data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index ae2fbd9..9f85dfd 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -85,6 +85,8 @@ impl ChainData {
         use std::collections::hash_map::Entry;
         match self.slots.entry(new_slot.slot) {
             Entry::Vacant(v) => {
+                // may be the missing link of the best chain
+                parent_update = true;
                 v.insert(new_slot);
             }
             Entry::Occupied(o) => {
-- 
2.43.0


From b6552a4274420523e92929b88f5920049748d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:39 +0000
Subject: [PATCH 07/29] fix: adopt the real parent of a slot that came from rpc

update_from_rpc presumes that the slot follows the best chain. When the
real parent became known it was ignored, and the slots in between never
became part of the chain.
---
 lib/client/src/chain_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 9f85dfd..4253688 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -92,7 +92,7 @@ impl ChainData {
             Entry::Occupied(o) => {
                 let v = o.into_mut();
                 parent_update = v.parent != new_slot.parent && new_slot.parent.is_some();
-                v.parent = v.parent.or(new_slot.parent);
+                v.parent = new_slot.parent.or(v.parent);
                 if v.status == SlotStatus::Processed || new_slot.status == SlotStatus::Rooted {
                     v.status = new_slot.status;
                 }
-- 
2.43.0


From 7d2925a2ef517eeb466d0a01d786213fab0e4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:39 +0000
Subject: [PATCH 08/29] fix: keep the writes below a slot that becomes head and
 root at once

The chain was followed down to the first rooted slot only. If that was the
new head itself, the slots below it did not count as part of its chain, and
their account writes were dropped in favour of older ones. Slots before the
previous root are not retained, so there is no need to stop early.
---
 lib/client/src/chain_data.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 4253688..08c7172 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -100,14 +100,11 @@ impl ChainData {
         };
 
         if new_best_chain || parent_update {
-            // update the "chain" field down to the first rooted slot
+            // update the "chain" field down to the oldest known slot
             let mut slot = self.best_chain_slot;
             loop {
                 if let Some(data) = self.slots.get_mut(&slot) {
                     data.chain = self.best_chain_slot;
-                    if data.status == SlotStatus::Rooted {
-                        break;
-                    }
                     if let Some(parent) = data.parent {
                         slot = parent;
                         continue;
-- 
2.43.0


From 408d9cdb94eee42fa8cfc07400c5dc16e139ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:21 +0000
Subject: [PATCH 09/29] fix: convert the input amount of a quote to whole lots

---
 lib/client/src/jup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 99efc53..84e9aba 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -149,10 +149,10 @@ impl Amm for OpenBookMarket {
         let (max_base_lots, max_quote_lots_including_fees) = match side {
             Side::Bid => (
                 self.market.max_base_lots(),
-                input_amount + (self.market.quote_lot_size - 1) / self.market.quote_lot_size,
+                input_amount / self.market.quote_lot_size,
             ),
             Side::Ask => (
-                input_amount + (self.market.base_lot_size - 1) / self.market.base_lot_size,
+                input_amount / self.market.base_lot_size,
                 self.market.max_quote_lots(),
             ),
         };
-- 
2.43.0


From aac2dc65d7229ec5de72b02e96bff4c774df02a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:39 +0000
Subject: [PATCH 10/29] fix: charge the fee to the taker in quotes

---
 lib/client/src/jup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 84e9aba..92eda7e 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -176,12 +176,12 @@ impl Amm for OpenBookMarket {
 
         let (in_amount, out_amount) = match side {
             Side::Bid => (
-                order_amounts.total_quote_taken_native - order_amounts.fee,
+                order_amounts.total_quote_taken_native + order_amounts.fee,
                 order_amounts.total_base_taken_native,
             ),
             Side::Ask => (
                 order_amounts.total_base_taken_native,
-                order_amounts.total_quote_taken_native + order_amounts.fee,
+                order_amounts.total_quote_taken_native - order_amounts.fee,
             ),
         };
 
-- 
2.43.0


From 3ef391692048a15700b8ae1d9bd0c12b08ab9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:59 +0000
Subject: [PATCH 11/29] fix: leave out expired orders in quotes

---
 lib/client/src/jup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 92eda7e..456f44f 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -171,7 +171,7 @@ impl Amm for OpenBookMarket {
             max_quote_lots_including_fees,
             &self.market,
             self.oracle_price,
-            0,
+            self.timestamp,
         )?;
 
         let (in_amount, out_amount) = match side {
-- 
2.43.0


From 4f11dff13d8a65e06ff453aaa823cbe3cf7e6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:01 +0000
Subject: [PATCH 12/29] fix: leave the presumed chain when the real parent of a
 slot is known

---
 lib/client/src/chain_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 08c7172..c3f93f4 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -99,6 +99,13 @@ impl ChainData {
             }
         };
 
+        if parent_update {
+            // slots below a parent that turned out wrong are no longer part of the chain
+            for data in self.slots.values_mut() {
+                data.chain = 0;
+            }
+        }
+
         if new_best_chain || parent_update {
             // update the "chain" field down to the oldest known slot
             let mut slot = self.best_chain_slot;
-- 
2.43.0


From 6125c762bff60cf41924156a9af4a58cacc9fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 13/29] fix: decode watched open orders accounts under their
 name

---
 ts/client/src/utils/watcher.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/utils/watcher.ts b/ts/client/src/utils/watcher.ts
index dcec4eb..8313dcb 100644
--- a/ts/client/src/utils/watcher.ts
+++ b/ts/client/src/utils/watcher.ts
@@ -62,7 +62,7 @@ export class Watcher {
       pubkey,
       (ai) => {
         openOrders.account = market.client.program.coder.accounts.decode(
-          'OpenOrders',
+          'openOrdersAccount',
           ai.data,
         );
       },
-- 
2.43.0


From 38ba35054dd6ef4471891ff714d27225e0766688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 14/29] fix: default quote limit of an order that fits the
 native amounts

---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 20ad2e8..8c76384 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -430,7 +430,7 @@ export class OpenOrders {
     const maxBaseLots = this.market.baseUiToLots(order.size);
     const maxQuoteLotsIncludingFees = order.quoteLimit
       ? new BN(order.quoteLimit)
-      : I64_MAX_BN;
+      : I64_MAX_BN.div(this.market.account.quoteLotSize);
     const clientOrderId = new BN(order.clientOrderId || Date.now());
     const orderType = order.orderType ?? PlaceOrderTypeUtils.Limit;
     const expiryTimestamp = new BN(order.expiryTimestamp ?? 0);
-- 
2.43.0


From 7ac0d5ae6f7b8ac5826df00feba09c4e6627885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 15/29] fix: delegates sign the cancels built for them

---
 ts/client/src/client.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index f28d1ab..6d65023 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -817,7 +817,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrder(orderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -841,7 +841,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrderByClientOrderId(clientOrderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -866,7 +866,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelAllOrders(side, limit)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
-- 
2.43.0


From 161f6855398cc5c90727fbd6c7ef487a359ecc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 16/29] fix: orders are expired from the second of their expiry
 on

---
 ts/client/src/accounts/bookSide.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/bookSide.ts b/ts/client/src/accounts/bookSide.ts
index 8103849..9b91a07 100644
--- a/ts/client/src/accounts/bookSide.ts
+++ b/ts/client/src/accounts/bookSide.ts
@@ -128,7 +128,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
         );
       }
     }
@@ -157,7 +157,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
           true,
         );
       }
-- 
2.43.0


From 9eb92263edaf2115bab1e0aa29b48e91f153c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 17/29] fix: count pending fills of the account in its balance

---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 8c76384..e80e83b 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -148,7 +148,7 @@ export class OpenOrders {
         switch (event.eventType) {
           case EventType.Fill: {
             const { maker, quantity, price, takerSide } = event as FillEvent;
-            if (maker.equals(this.account.owner)) {
+            if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
               const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
-- 
2.43.0


From 15326da8f4c0ae1703bf0db39ee50bd5da6aba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 18/29] fix: close the indexer of the owner

---
 ts/client/src/client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 6d65023..77015b2 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -893,8 +893,8 @@ export class OpenBookV2Client {
         .closeOpenOrdersIndexer()
         .accounts({
           owner: owner.publicKey,
-          openOrdersIndexer: market.asks,
-          solDestination: market.bids,
+          openOrdersIndexer,
+          solDestination: this.walletPk,
           tokenProgram: TOKEN_PROGRAM_ID,
         })
         .instruction();
-- 
2.43.0


From 2ba975e591b8149b486b6a57957f11ba78ed7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 19/29] fix: look at every batch of transactions for markets

---
 ts/client/src/market.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index d9ea16d..30ac0cd 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -72,7 +72,7 @@ export async function findAllMarkets(
   ).map((x) => x.signature);
   const batchSignatures: [string[]] = [[]];
   for (let i = 0; i < signatures.length; i += BATCH_TX_SIZE) {
-    batchSignatures.push(signatures.slice(0, BATCH_TX_SIZE));
+    batchSignatures.push(signatures.slice(i, i + BATCH_TX_SIZE));
   }
   for (const batch of batchSignatures) {
     const allTxs = await connection.getTransactions(batch, {
-- 
2.43.0


From 7882d6475e93af743334ae7ba11a7cd5830c4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 20/29] fix: offsets of the mints in a market

---
 ts/client/src/market.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 30ac0cd..38adbcf 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -31,13 +31,13 @@ export async function findAccountsByMints(
   const filters = [
     {
       memcmp: {
-        offset: 792,
+        offset: 576,
         bytes: baseMintAddress.toBase58(),
       },
     },
     {
       memcmp: {
-        offset: 824,
+        offset: 608,
         bytes: quoteMintAddress.toBase58(),
       },
     },
-- 
2.43.0


From 78082aad658dc0356c8ebde7f200b40961ad7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:22 +0000
Subject: [PATCH 21/29] fix: no admin consumes given events of a market without
 one

---
 ts/client/src/client.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 77015b2..d197934 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1029,7 +1029,11 @@ export class OpenBookV2Client {
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin: market.consumeEventsAdmin.key.equals(
+          PublicKey.default,
+        )
+          ? null
+          : market.consumeEventsAdmin.key,
       })
       .remainingAccounts(accountsMeta)
       .instruction();
@@ -1053,7 +1057,11 @@ export class OpenBookV2Client {
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin: market.consumeEventsAdmin.key.equals(
+          PublicKey.default,
+        )
+          ? null
+          : market.consumeEventsAdmin.key,
       })
       .remainingAccounts(accountsMeta)
       .instruction();
-- 
2.43.0


From 071f0613b8333cffb51c84f7934c59b96f9b0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:36 +0000
Subject: [PATCH 22/29] fix: slots and accounts to consume are those of the
 pending events

---
 ts/client/src/client.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index d197934..d768698 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1101,14 +1101,17 @@ export class OpenBookV2Client {
     let accounts: PublicKey[] = new Array<PublicKey>();
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const node of eventHeap.nodes) {
+      let next = eventHeap.header.usedHead;
+      for (let i = 0; i < eventHeap.header.count; ++i) {
+        const node = eventHeap.nodes[next];
+        next = node.next;
         if (node.event.eventType === 0) {
           const fillEvent: FillEvent = this.program.coder.types.decode(
             'FillEvent',
             Buffer.from([0, ...node.event.padding]),
           );
           accounts = accounts
-            .filter((a) => a !== fillEvent.maker)
+            .filter((a) => !a.equals(fillEvent.maker))
             .concat([fillEvent.maker]);
         } else {
           const outEvent: OutEvent = this.program.coder.types.decode(
@@ -1116,7 +1119,7 @@ export class OpenBookV2Client {
             Buffer.from([0, ...node.event.padding]),
           );
           accounts = accounts
-            .filter((a) => a !== outEvent.owner)
+            .filter((a) => !a.equals(outEvent.owner))
             .concat([outEvent.owner]);
         }
         // Tx would be too big, do not add more accounts
@@ -1134,19 +1137,23 @@ export class OpenBookV2Client {
 
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const [i, node] of eventHeap.nodes.entries()) {
+      let next = eventHeap.header.usedHead;
+      for (let i = 0; i < eventHeap.header.count; ++i) {
+        const slot = next;
+        const node = eventHeap.nodes[slot];
+        next = node.next;
         if (node.event.eventType === 0) {
           const fillEvent: FillEvent = this.program.coder.types.decode(
             'FillEvent',
             Buffer.from([0, ...node.event.padding]),
           );
-          if (key === fillEvent.maker) slots.push(new BN(i));
+          if (key.equals(fillEvent.maker)) slots.push(new BN(slot));
         } else {
           const outEvent: OutEvent = this.program.coder.types.decode(
             'OutEvent',
             Buffer.from([0, ...node.event.padding]),
           );
-          if (key === outEvent.owner) slots.push(new BN(i));
+          if (key.equals(outEvent.owner)) slots.push(new BN(slot));
         }
       }
     }
-- 
2.43.0


From 8967e634fc4698f27dda80dd91ea71902a9519fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:36 +0000
Subject: [PATCH 23/29] fix: name the account once when consuming its events

---
 ts/client/src/client.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index d768698..9c53969 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1014,10 +1014,13 @@ export class OpenBookV2Client {
     const slots = await this.getSlotsToConsume(openOrdersAccount, market);
 
     const allAccounts = await this.getAccountsToConsume(market);
-    // Create a set to remove duplicates
-    const uniqueAccounts = new Set([openOrdersAccount, ...allAccounts]);
+    // Remove duplicates
+    const uniqueAccounts = [
+      openOrdersAccount,
+      ...allAccounts.filter((a) => !a.equals(openOrdersAccount)),
+    ];
     // Limit extra accounts to 10 due tx limit and add openOrdersAccount
-    const remainingAccounts = [...uniqueAccounts].slice(0, 10);
+    const remainingAccounts = uniqueAccounts.slice(0, 10);
     const accountsMeta: AccountMeta[] = remainingAccounts.map((remaining) => ({
       pubkey: remaining,
       isSigner: false,
-- 
2.43.0


From 38f961e2b5a6571036617cf86c44e93d6c278680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:31 +0000
Subject: [PATCH 24/29] fix: no maker fee for trades with oneself in balances

---
 ts/client/src/accounts/openOrders.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index e80e83b..8a248a5 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -147,11 +147,15 @@ export class OpenOrders {
       for (const event of this.market.eventHeap.parsedEvents()) {
         switch (event.eventType) {
           case EventType.Fill: {
-            const { maker, quantity, price, takerSide } = event as FillEvent;
+            const { maker, taker, quantity, price, takerSide } =
+              event as FillEvent;
             if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
-              const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
+              // trades with oneself are free of maker fees
+              const quoteFeesNative = maker.equals(taker)
+                ? new BN(0)
+                : this.market.makerFeeFloor(quoteNative);
               if (takerSide === 1) {
                 // buy
                 base.iadd(baseNative);
-- 
2.43.0


From 2ebe0fbdd59f002c6e23b604f0ffa483a5ce5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:05 +0000
Subject: [PATCH 25/29] fix: convert prices with ticks below the smallest quote
 amount

---
 ts/client/src/market.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 38adbcf..df6fe8f 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -143,9 +143,10 @@ function quoteLotsToUiConverter(market: MarketAccount): number {
 }
 
 export function uiPriceToLots(market: MarketAccount, price: number): BN {
-  return toNative(price, market.quoteDecimals)
-    .mul(market.baseLotSize)
-    .div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
+  return toNative(
+    price * Number(market.baseLotSize.toString()),
+    market.quoteDecimals,
+  ).div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
 }
 
 export function uiBaseToLots(market: MarketAccount, quantity: number): BN {
-- 
2.43.0


From 4fb025ee90619e440f4939c81598322f99fda50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:48:48 +0000
Subject: [PATCH 26/29] fix: consume events with a fee payer other than the
 owner

---
 lib/client/src/client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 0e7c45a..e5fc518 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -689,7 +689,12 @@ impl OpenBookClient {
                 limit,
             }),
         };
-        self.send_and_confirm_owner_tx(vec![ix]).await
+        // only an admin has to sign
+        if market.consume_events_admin == self.owner() {
+            self.send_and_confirm_owner_tx(vec![ix]).await
+        } else {
+            self.send_and_confirm_permissionless_tx(vec![ix]).await
+        }
     }
 
     pub async fn send_and_confirm_owner_tx(
-- 
2.43.0


From dc10f29b8ff16d446d8d269ccac7f12a7afde552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:49:39 +0000
Subject: [PATCH 27/29] fix: create open orders accounts under the number the
 indexer gives them

---
 lib/client/src/client.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index e5fc518..6f35511 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -13,7 +13,9 @@ use itertools::Itertools;
 
 use openbook_v2::state::OracleConfigParams;
 use openbook_v2::{
-    state::{Market, OpenOrdersAccount, PlaceOrderType, SelfTradeBehavior, Side},
+    state::{
+        Market, OpenOrdersAccount, OpenOrdersIndexer, PlaceOrderType, SelfTradeBehavior, Side,
+    },
     PlaceMultipleOrdersArgs, PlaceOrderArgs, PlaceOrderPeggedArgs,
 };
 
@@ -119,17 +121,37 @@ impl OpenBookClient {
         let rpc = client.rpc_async();
         let program = openbook_v2::ID;
 
-        let mut openbook_account_tuples =
+        let is_wanted = |account: &OpenOrdersAccount| {
+            account.market == market && account.name() == openbook_account_name
+        };
+        let openbook_account_tuples =
             fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
         let openbook_account_opt = openbook_account_tuples
             .iter()
-            .find(|(_, account)| account.name() == openbook_account_name);
+            .find(|(_, account)| is_wanted(account));
         if openbook_account_opt.is_none() {
-            openbook_account_tuples
-                .sort_by(|a, b| a.1.account_num.partial_cmp(&b.1.account_num).unwrap());
-            let account_num = match openbook_account_tuples.last() {
-                Some(tuple) => tuple.1.account_num + 1,
-                None => 0u32,
+            let open_orders_indexer = Pubkey::find_program_address(
+                &[b"OpenOrdersIndexer".as_ref(), owner.pubkey().as_ref()],
+                &program,
+            )
+            .0;
+            let indexer_opt = rpc
+                .get_account_with_commitment(&open_orders_indexer, rpc.commitment())
+                .await?
+                .value;
+            // accounts are numbered from one on, by the indexer
+            let account_num = match indexer_opt {
+                Some(account) => {
+                    OpenOrdersIndexer::try_deserialize(&mut (&account.data as &[u8]))?
+                        .created_counter
+                        + 1
+                }
+                None => {
+                    Self::create_open_orders_indexer(client, owner, payer)
+                        .await
+                        .context("Failed to create indexer...")?;
+                    1u32
+                }
             };
             Self::create_open_orders_account(
                 client,
@@ -147,7 +169,7 @@ impl OpenBookClient {
             fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
         let index = openbook_account_tuples
             .iter()
-            .position(|tuple| tuple.1.name() == openbook_account_name)
+            .position(|tuple| is_wanted(&tuple.1))
             .unwrap();
         Ok(openbook_account_tuples[index].0)
     }
-- 
2.43.0


From fc20dc57ea778f3a5ffdf652a8ec544fc6b221d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:14:14 +0000
Subject: [PATCH 28/29] fix: name the accounts of the events to consume

The program skips events whose open orders account is not passed along, so
consuming events through the Rust client never consumed any.
---
 lib/client/src/client.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 6f35511..7b9a33b 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -5,7 +5,7 @@ use std::time::Duration;
 use anchor_client::Cluster;
 
 use anchor_lang::prelude::System;
-use anchor_lang::{AccountDeserialize, Id};
+use anchor_lang::{AccountDeserialize, AnchorDeserialize, Id};
 use anchor_spl::associated_token::AssociatedToken;
 use anchor_spl::token::Token;
 
@@ -14,7 +14,8 @@ use itertools::Itertools;
 use openbook_v2::state::OracleConfigParams;
 use openbook_v2::{
     state::{
-        Market, OpenOrdersAccount, OpenOrdersIndexer, PlaceOrderType, SelfTradeBehavior, Side,
+        EventHeap, EventType, FillEvent, Market, OpenOrdersAccount, OpenOrdersIndexer, OutEvent,
+        PlaceOrderType, SelfTradeBehavior, Side,
     },
     PlaceMultipleOrdersArgs, PlaceOrderArgs, PlaceOrderPeggedArgs,
 };
@@ -31,10 +32,13 @@ use crate::account_fetcher::*;
 use crate::gpa::{fetch_anchor_account, fetch_openbook_accounts};
 
 use anyhow::Context;
-use solana_sdk::instruction::Instruction;
+use solana_sdk::instruction::{AccountMeta, Instruction};
 use solana_sdk::signature::{Keypair, Signature};
 use solana_sdk::{commitment_config::CommitmentConfig, pubkey::Pubkey, signer::Signer};
 
+// the most events the program consumes in one instruction
+const MAX_EVENTS_CONSUME: usize = 8;
+
 // very close to anchor_client::Client, which unfortunately has no accessors or Clone
 #[derive(Clone, Debug)]
 pub struct Client {
@@ -695,17 +699,37 @@ impl OpenBookClient {
         market_address: Pubkey,
         limit: usize,
     ) -> anyhow::Result<Signature> {
+        // the program skips events of accounts that are not passed along
+        let rpc = self.client.rpc_async();
+        let event_heap: EventHeap = fetch_anchor_account(&rpc, &market.event_heap).await?;
+        let mut accounts_to_consume = vec![];
+        for (event, _slot) in event_heap.iter().take(limit.min(MAX_EVENTS_CONSUME)) {
+            let data = [&[event.event_type], &event.padding[..]].concat();
+            accounts_to_consume.push(if event.event_type == EventType::Fill as u8 {
+                FillEvent::try_from_slice(&data)?.maker
+            } else {
+                OutEvent::try_from_slice(&data)?.owner
+            });
+        }
+
         let ix = Instruction {
             program_id: openbook_v2::id(),
             accounts: {
-                anchor_lang::ToAccountMetas::to_account_metas(
+                let mut accounts = anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::ConsumeEvents {
                         consume_events_admin: market.consume_events_admin.into(),
                         market: market_address,
                         event_heap: market.event_heap,
                     },
                     None,
-                )
+                );
+                accounts.extend(
+                    accounts_to_consume
+                        .into_iter()
+                        .unique()
+                        .map(|account| AccountMeta::new(account, false)),
+                );
+                accounts
             },
             data: anchor_lang::InstructionData::data(&openbook_v2::instruction::ConsumeEvents {
                 limit,
-- 
2.43.0


From 8d897e8f22d6d63d99a02d46157f4e33daca7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:23:14 +0000
Subject: [PATCH 29/29] fix: list the event for takers without an account in
 the interface

The program emits TakerSignatureLog when an order is taken without an open
orders account. Readers that decode events by the published interface or by
the TypeScript client's copy of it could not tell what it was.
---
 idl/openbook_v2.json         | 15 +++++++++++++++
 ts/client/src/openbook_v2.ts | 30 ++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/idl/openbook_v2.json b/idl/openbook_v2.json
index 97243f5..082f36d 100644
--- a/idl/openbook_v2.json
+++ b/idl/openbook_v2.json
@@ -3419,6 +3419,21 @@
         }
       ]
     },
+    {
+      "name": "TakerSignatureLog",
+      "fields": [
+        {
+          "name": "market",
+          "type": "publicKey",
+          "index": false
+        },
+        {
+          "name": "seqNum",
+          "type": "u64",
+          "index": false
+        }
+      ]
+    },
     {
       "name": "MarketMetaDataLog",
       "fields": [
diff --git a/ts/client/src/openbook_v2.ts b/ts/client/src/openbook_v2.ts
index 9b69051..e1e797e 100644
--- a/ts/client/src/openbook_v2.ts
+++ b/ts/client/src/openbook_v2.ts
@@ -3266,6 +3266,21 @@ export type OpenbookV2 = {
         },
       ];
     },
+    {
+      name: 'TakerSignatureLog';
+      fields: [
+        {
+          name: 'market';
+          type: 'publicKey';
+          index: false;
+        },
+        {
+          name: 'seqNum';
+          type: 'u64';
+          index: false;
+        },
+      ];
+    },
     {
       name: 'MarketMetaDataLog';
       fields: [
@@ -6968,6 +6983,21 @@ export const IDL: OpenbookV2 = {
         },
       ],
     },
+    {
+      name: 'TakerSignatureLog',
+      fields: [
+        {
+          name: 'market',
+          type: 'publicKey',
+          index: false,
+        },
+        {
+          name: 'seqNum',
+          type: 'u64',
+          index: false,
+        },
+      ],
+    },
     {
       name: 'MarketMetaDataLog',
       fields: [
-- 
2.43.0

