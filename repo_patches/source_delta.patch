From 3b16cbd48e7239dca81b473605fbca170b0a5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:04 +0000
Subject: [PATCH] fix: reject unknown unsold token action when creating a
 presale

UnsoldTokenAction derives FromPrimitive with a default, so try_from never fails and
any value was accepted and stored.
---
 .../presale/src/instructions/initialize_presale/params.rs    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/instructions/initialize_presale/params.rs b/programs/presale/src/instructions/initialize_presale/params.rs
index 5fe55eb..b8d554a 100644
--- a/programs/presale/src/instructions/initialize_presale/params.rs
+++ b/programs/presale/src/instructions/initialize_presale/params.rs
@@ -182,9 +182,10 @@ impl PresaleArgs {
         let maybe_presale_mode = PresaleMode::try_from(self.presale_mode);
         require!(maybe_presale_mode.is_ok(), PresaleError::InvalidPresaleInfo);
 
-        let maybe_unsold_token_action = UnsoldTokenAction::try_from(self.unsold_token_action);
+        // Unknown values convert to the default action instead of failing, therefore compare with the original value
+        let unsold_token_action: u8 = UnsoldTokenAction::from(self.unsold_token_action).into();
         require!(
-            maybe_unsold_token_action.is_ok(),
+            unsold_token_action == self.unsold_token_action,
             PresaleError::InvalidUnsoldTokenAction
         );
 
-- 
2.43.0

