From 7605e942fc29a1b95b3369a2449c67e1ea5952d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:09 +0000
Subject: [PATCH 1/4] fix: include the native token in the deposit log topic
 filter

The topic filter listed only the registered ERC-20 contracts. With at least
one token registered native deposits (zero token address) were filtered out
and skipped for good; with none registered the filter became a wildcard and
logs of unsupported tokens were fetched.
---
 minter/src/deposit_logs/scraping.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..c8c9a16 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -36,9 +36,10 @@ impl LogScraping for ReceivedDepositLogScraping {
         ))];
         // We add token contract addresses as additional topics to match.
         // It has a disjunction semantics, so it will match if event matches any one of these addresses.
+        // The zero address stands for deposits of the native token.
         topics.push(
-            token_contract_addresses
-                .iter()
+            std::iter::once(&Address::ZERO)
+                .chain(token_contract_addresses.iter())
                 .map(|address| FixedSizeData(address.into()))
                 .collect::<Vec<_>>()
                 .into(),
-- 
2.43.0


From 867b3b3f986b5073ebcf1c251a49e0ce0c8b6291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 2/4] fix: refund withdrawal fees as the owner of the fee
 subaccount

refund_withdrawal_fee called icrc2_transfer_from as the minter's default
account, which has no allowance on the fee subaccount, so every refund failed
with InsufficientAllowance and users lost the fee of failed withdrawals.
---
 minter/src/ledger_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minter/src/ledger_client.rs b/minter/src/ledger_client.rs
index ea84c52..d4e7d41 100644
--- a/minter/src/ledger_client.rs
+++ b/minter/src/ledger_client.rs
@@ -297,7 +297,8 @@ impl LedgerClient {
         match self
             .client
             .transfer_from(TransferFromArgs {
-                spender_subaccount: None,
+                // The fees are spent by their owner, which needs no allowance.
+                spender_subaccount: Some(FEES_SUBACCOUNT),
                 from: Account {
                     owner: ic_cdk::id(),
                     subaccount: Some(FEES_SUBACCOUNT),
-- 
2.43.0


From 9a23d0897685df29f1ece279b2d5af1ff03164b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 3/4] fix: refuse native withdrawals that do not cover the
 withdrawal fee

With an amount below the withdrawal fee plus the ledger fee, the fee was
collected first and the call then trapped, so the user lost the fee.
---
 minter/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..b2f1dc2 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -300,7 +300,12 @@ async fn withdraw_native_token(
 
     let mut amount = Wei::try_from(amount).expect("failed to convert Nat to u256");
 
-    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
+    // What remains after deducting the withdrawal fee has to be burnable on the ledger.
+    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount).max(
+        withdrawal_native_fee
+            .and_then(|fee| fee.checked_add(native_transfer_fee))
+            .unwrap_or(Wei::ZERO),
+    );
     if amount < minimum_withdrawal_amount {
         return Err(WithdrawalError::AmountTooLow {
             min_withdrawal_amount: minimum_withdrawal_amount.into(),
-- 
2.43.0


From 4039421f75acac92884ebe150384a8f8c51ddd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 4/4] fix: do not let a deposit below the deposit fee block all
 minting

Subtracting the fee trapped the minting task, on every run, before any later
deposit was minted. Such a deposit is now quarantined.
---
 minter/src/deposit.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..f000bce 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -78,6 +78,20 @@ async fn mint() {
             ledger_canister_id,
         };
 
+        // A deposit that does not cover the deposit fee can not be minted. It stays quarantined
+        // (through the guard above) so that it does not block the other deposits.
+        if is_native_deposit
+            && deposit_native_fee
+                .as_ref()
+                .is_some_and(|fee| event.value() < *fee)
+        {
+            log!(
+                INFO,
+                "Deposit {event:?} does not cover the deposit fee, quarantining it"
+            );
+            continue;
+        }
+
         // If deposit type is native_deposit and the fees are not set to zero,
         // The minted amount for user should be as follow
         // event.value() - deposit_native_fee
-- 
2.43.0

