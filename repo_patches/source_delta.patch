From 4a7e1f956fa879430249673ba442693e383aeb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 1/5] fix: do not report an approval at the instant it expires

Spending already refuses an approval with expires_at <= now; allowance()
(icrc2_allowance, the expected_allowance check and the approval refund)
still reported it when expires_at == now.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..0f2c96d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From c0db759e08a798d2808c491d7e1c5f1ee2f6f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 2/5] fix: do not overflow the end of a block range in
 icrc3_get_blocks

With a large max_blocks_per_request, start + length wrapped around and the
request returned no blocks (or trapped with overflow checks).
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 0f2c96d..a29d10f 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2377,7 +2377,7 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             _ => continue,
         };
         let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
+            Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
             _ => continue,
         };
         read_state(|state| {
-- 
2.43.0


From 603ba05a060ba8a10244182c8af3cf5670049447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 3/5] fix: keep a non-expiring approval non-expiring when an
 approval is refunded

If the owner replaced the approval by one without expiry while a
withdraw_from/create_canister_from call was in flight, the refund stamped
the expiry of the old approval on it.
---
 cycles-ledger/src/storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index a29d10f..832e62d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2144,6 +2144,9 @@ fn reimburse_approval(
     let (current_allowance, current_expiry) = allowance(&from, &spender, now);
     let expires_at = if current_expiry > 0 {
         Some(current_expiry)
+    } else if current_allowance > 0 {
+        // the current approval does not expire
+        None
     } else {
         old_expires_at
     };
-- 
2.43.0


From 6d45b2c38ef3103bbc5efb74f7abb3c82dcd1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 4/5] fix: report a wrong fee before insufficient funds for
 amounts above 2^128

BadFee takes precedence over InsufficientFunds; a transfer of an amount that
does not fit 128 bits with a wrong fee reported InsufficientFunds.
---
 cycles-ledger/src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cycles-ledger/src/main.rs b/cycles-ledger/src/main.rs
index 004b4b9..ff35f37 100644
--- a/cycles-ledger/src/main.rs
+++ b/cycles-ledger/src/main.rs
@@ -216,12 +216,6 @@ fn execute_transfer(
     memo: Option<Memo>,
     created_at_time: Option<u64>,
 ) -> Result<Nat, TransferFromError> {
-    let Some(amount) = amount.0.to_u128() else {
-        return Err(TransferFromError::InsufficientFunds {
-            balance: Nat::from(storage::balance_of(&from)),
-        });
-    };
-
     let suggested_fee = match fee {
         Some(fee) => match fee.0.to_u128() {
             None => {
@@ -234,6 +228,18 @@ fn execute_transfer(
         None => None,
     };
 
+    let Some(amount) = amount.0.to_u128() else {
+        // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
+        if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
+            return Err(TransferFromError::BadFee {
+                expected_fee: Nat::from(config::FEE),
+            });
+        }
+        return Err(TransferFromError::InsufficientFunds {
+            balance: Nat::from(storage::balance_of(&from)),
+        });
+    };
+
     let now = ic_cdk::api::time();
     let block_index = storage::transfer(
         from,
-- 
2.43.0


From 6b04edf8dbfb72a17acf66dfab1425198773849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 5/5] fix: clip a block range length beyond 64 bits instead of
 skipping the range

icrc3_get_blocks returned nothing for a range whose length does not fit in
64 bits, although it asks for every block from its start on.
---
 cycles-ledger/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 832e62d..1f6b1f4 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2379,10 +2379,9 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             Some(start) if start < log_length => start,
             _ => continue,
         };
-        let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
-            _ => continue,
-        };
+        // a length that does not fit in 64 bits asks for everything from `start` on
+        let length = length.0.to_u64().unwrap_or(u64::MAX);
+        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
         read_state(|state| {
             for id in start..end_excluded {
                 let block = state
-- 
2.43.0

