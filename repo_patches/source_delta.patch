From 3b4173619328cdcf19d3bb6ba12be4d36827bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 1/4] fix: sync a verified collection to Metaplex as unverified

Metaplex rejects a verified collection in its create and update
instructions (the collection authority has not signed), so metadata of an
unwrapped mint with a verified collection could never be synced to a
wrapped SPL Token mint.
---
 program/src/metaplex.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..886fc4b 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,12 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // As with creators, the collection authority's signature is not available here,
+                // and Metaplex rejects verified collections. Setting it to unverified.
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
-- 
2.43.0


From 3dfb2a4e41f12c3b435b601dc3d9ac1ff4f9e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 2/4] fix: fail a dry run whose simulation failed

The RPC answers a simulation with Ok and reports the transaction's error
in the result, so a dry run of a failing transaction printed 'Simulation
succeeded' and exited successfully.
---
 clients/cli/src/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index bdf2524..98ffcb8 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -58,7 +58,13 @@ pub async fn process_transaction(
                     println!("    {}", log);
                 }
             }
+        }
+
+        if let Some(err) = simulation_data.value.err {
+            return Err(format!("Simulation failed: {}", err).into());
+        }
 
+        if config.verbose() {
             println!(
                 "\nSimulation succeeded, consumed {} compute units",
                 simulation_data.value.units_consumed.unwrap()
-- 
2.43.0


From 8e551e51655602ea4562bdabfe35444edb619a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 3/4] fix: do not panic in a verbose dry run when the RPC
 reports no compute units

---
 clients/cli/src/common.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index 98ffcb8..a982463 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -65,10 +65,10 @@ pub async fn process_transaction(
         }
 
         if config.verbose() {
-            println!(
-                "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
-            );
+            match simulation_data.value.units_consumed {
+                Some(units) => println!("\nSimulation succeeded, consumed {} compute units", units),
+                None => println!("\nSimulation succeeded"),
+            }
         } else {
             println_display(config, "Simulation succeeded".to_string());
         }
-- 
2.43.0


From 29991a0f2ebe19355372ebb56d5808597c57c97a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 4/4] fix: report signing failures as errors instead of
 panicking

---
 clients/cli/src/close_stuck_escrow.rs         | 8 ++------
 clients/cli/src/create_escrow_account.rs      | 8 ++------
 clients/cli/src/create_mint.rs                | 8 ++------
 clients/cli/src/sync_metadata_to_spl_token.rs | 2 +-
 clients/cli/src/sync_metadata_to_token2022.rs | 2 +-
 clients/cli/src/unwrap.rs                     | 2 +-
 clients/cli/src/wrap.rs                       | 2 +-
 7 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/clients/cli/src/close_stuck_escrow.rs b/clients/cli/src/close_stuck_escrow.rs
index 300e08b..6f4de55 100644
--- a/clients/cli/src/close_stuck_escrow.rs
+++ b/clients/cli/src/close_stuck_escrow.rs
@@ -117,12 +117,8 @@ pub async fn command_close_stuck_escrow(
     let latest_blockhash = config.rpc_client.get_latest_blockhash().await?;
     let payer = config.fee_payer()?;
 
-    let transaction = Transaction::new_signed_with_payer(
-        &[instruction],
-        Some(&payer.pubkey()),
-        &[&*payer],
-        latest_blockhash,
-    );
+    let mut transaction = Transaction::new_with_payer(&[instruction], Some(&payer.pubkey()));
+    transaction.try_sign(&[&*payer], latest_blockhash)?;
 
     process_transaction(config, transaction.clone()).await?;
 
diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7ba2a2e..346bb32 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -150,12 +150,8 @@ pub async fn command_create_escrow_account(
         None
     } else {
         let latest_blockhash = rpc_client.get_latest_blockhash().await?;
-        let transaction = Transaction::new_signed_with_payer(
-            &instructions,
-            Some(&payer.pubkey()),
-            core::slice::from_ref(&payer),
-            latest_blockhash,
-        );
+        let mut transaction = Transaction::new_with_payer(&instructions, Some(&payer.pubkey()));
+        transaction.try_sign(core::slice::from_ref(&payer), latest_blockhash)?;
         process_transaction(config, transaction).await?
     };
 
diff --git a/clients/cli/src/create_mint.rs b/clients/cli/src/create_mint.rs
index 3c02fae..d7669ca 100644
--- a/clients/cli/src/create_mint.rs
+++ b/clients/cli/src/create_mint.rs
@@ -186,12 +186,8 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     ));
 
     let latest_blockhash = rpc_client.get_latest_blockhash().await?;
-    let transaction = Transaction::new_signed_with_payer(
-        &instructions,
-        Some(&payer.pubkey()),
-        &[&*payer],
-        latest_blockhash,
-    );
+    let mut transaction = Transaction::new_with_payer(&instructions, Some(&payer.pubkey()));
+    transaction.try_sign(&[&*payer], latest_blockhash)?;
 
     let signature = process_transaction(config, transaction).await?;
 
diff --git a/clients/cli/src/sync_metadata_to_spl_token.rs b/clients/cli/src/sync_metadata_to_spl_token.rs
index 5db1f52..8bf387b 100644
--- a/clients/cli/src/sync_metadata_to_spl_token.rs
+++ b/clients/cli/src/sync_metadata_to_spl_token.rs
@@ -136,7 +136,7 @@ pub async fn command_sync_metadata_to_spl_token(
     let blockhash = config.rpc_client.get_latest_blockhash().await?;
 
     let mut transaction = Transaction::new_with_payer(&[instruction], Some(&payer.pubkey()));
-    transaction.partial_sign(core::slice::from_ref(&payer), blockhash);
+    transaction.try_partial_sign(core::slice::from_ref(&payer), blockhash)?;
 
     let signature = process_transaction(config, transaction).await?;
 
diff --git a/clients/cli/src/sync_metadata_to_token2022.rs b/clients/cli/src/sync_metadata_to_token2022.rs
index 28a458f..f508a45 100644
--- a/clients/cli/src/sync_metadata_to_token2022.rs
+++ b/clients/cli/src/sync_metadata_to_token2022.rs
@@ -144,7 +144,7 @@ pub async fn command_sync_metadata_to_token2022(
     let blockhash = config.rpc_client.get_latest_blockhash().await?;
 
     let mut transaction = Transaction::new_with_payer(&[instruction], Some(&payer.pubkey()));
-    transaction.partial_sign(core::slice::from_ref(&payer), blockhash);
+    transaction.try_partial_sign(core::slice::from_ref(&payer), blockhash)?;
 
     process_transaction(config, transaction.clone()).await?;
 
diff --git a/clients/cli/src/unwrap.rs b/clients/cli/src/unwrap.rs
index 228b803..b3bd638 100644
--- a/clients/cli/src/unwrap.rs
+++ b/clients/cli/src/unwrap.rs
@@ -262,7 +262,7 @@ pub async fn command_unwrap(
     }
 
     let mut transaction = Transaction::new_with_payer(&[instruction], Some(&payer.pubkey()));
-    transaction.partial_sign(&signers, blockhash);
+    transaction.try_partial_sign(&signers, blockhash)?;
 
     if !args.sign_only {
         process_transaction(config, transaction.clone()).await?;
diff --git a/clients/cli/src/wrap.rs b/clients/cli/src/wrap.rs
index c9e4d7f..5ccc4bc 100644
--- a/clients/cli/src/wrap.rs
+++ b/clients/cli/src/wrap.rs
@@ -304,7 +304,7 @@ pub async fn command_wrap(
     }
 
     let mut transaction = Transaction::new_with_payer(&[instruction], Some(&payer.pubkey()));
-    transaction.partial_sign(&signers, blockhash);
+    transaction.try_partial_sign(&signers, blockhash)?;
 
     if !args.sign_only {
         process_transaction(config, transaction.clone()).await?;
-- 
2.43.0

