From 5ca13c80870c27cb9dd7e1b9c2ff20fca765862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 1/4] fix: reject limit orders that match on a post-only market
 when trading with free funds

The status check only looked at the amounts withdrawn from the market, which
are zero when the proceeds are credited to the trader's free funds, so
PlaceLimitOrderWithFreeFunds could trade while the market was post-only.
---
 src/program/processor/new_order.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..3658b02 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -380,6 +380,7 @@ fn process_new_order<'a, 'info>(
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
         base_atoms_to_deposit,
+        has_matched,
     ) = {
         let clock = Clock::get()?;
         let mut get_clock_fn = || (clock.slot, clock.unix_timestamp as u64);
@@ -425,13 +426,17 @@ fn process_new_order<'a, 'info>(
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
             matching_engine_response.get_deposit_amount_ask_in_base_lots() * base_lot_size,
+            // The amounts out are zero when they were credited to the trader's free funds (or were
+            // consumed by the fee), so the amounts in must be inspected as well.
+            matching_engine_response.num_quote_lots() > QuoteLots::ZERO
+                || matching_engine_response.num_base_lots() > BaseLots::ZERO,
         )
     };
     let header = market_info.get_header()?;
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if has_matched {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From 4933cca1d4e1bda58208078014d9c662e779669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 2/4] fix: reject markets with a tick size of zero

---
 src/program/processor/initialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..f1592b4 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -143,6 +143,12 @@ pub(crate) fn process_initialize_market<'a, 'info>(
         num_base_lots_per_base_unit,
         tick_size_in_quote_atoms_per_base_unit,
     );
+    // With a tick size of zero every price is zero and all orders would trade for free
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO,
+        ProgramError::InvalidInstructionData,
+        "The tick size must be greater than zero",
+    )?;
     // A trade of 1 base lot at the minimum tick price of 1 must result in an integer number of quote lots
     // Suppose there are T quote lots per tick and there are B base lots per base unit.
     // At a price of 1 tick per base unit, for a trade of size 1 base lot, the resulting quote lots N must be an integer
-- 
2.43.0


From 7dd8724bfebd183d503e90c5187020c9be2f8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 3/4] fix: reject markets with zero raw base units per base
 unit

---
 src/program/processor/initialize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index f1592b4..0a7f228 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -111,6 +111,12 @@ pub(crate) fn process_initialize_market<'a, 'info>(
     let quote_atoms_per_quote_unit =
         QuoteAtomsPerQuoteUnit::new(10u64.pow(quote_mint.decimals as u32));
 
+    // Zero raw base units per base unit would make the size of a base lot zero
+    assert_with_msg(
+        base_atoms_per_base_unit > BaseAtomsPerBaseUnit::ZERO,
+        PhoenixError::InvalidLotSize,
+        "Base atoms per base unit must be greater than zero",
+    )?;
     assert_with_msg(
         base_atoms_per_base_unit % num_base_lots_per_base_unit == 0,
         PhoenixError::InvalidLotSize,
-- 
2.43.0


From bd9c833920b08fe3349ab811d92c3e3cf32ba544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 4/4] fix: reject collecting fees to the quote vault

The vault is a quote token account owned by itself, so its address can be named
as the fee recipient. Collecting to it moved nothing, yet counted the fees as
collected, which left them in the vault for good.
---
 src/program/processor/fees.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/program/processor/fees.rs b/src/program/processor/fees.rs
index b45f061..8c7ce5e 100644
--- a/src/program/processor/fees.rs
+++ b/src/program/processor/fees.rs
@@ -27,6 +27,14 @@ pub(crate) fn process_collect_fees<'a, 'info>(
         token_program,
     } = CollectFeesContext::load(market_context, accounts)?;
 
+    // The vault could itself be named as the fee recipient. A transfer from the vault to itself
+    // moves nothing, so the fees would count as collected and nobody could ever claim them.
+    assert_with_msg(
+        fee_recipient_token_account.key != quote_vault.key,
+        ProgramError::InvalidArgument,
+        "Fees cannot be collected to the quote vault",
+    )?;
+
     let PhoenixMarketContext {
         market_info,
         signer: _,
-- 
2.43.0

