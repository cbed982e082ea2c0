From ed7fb62ea71cd3f4675d51b447cdf391c7e7135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 01/20] Simulation hook: short epochs under cfg(bct_sim)

---
 src/static_values.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/static_values.rs b/src/static_values.rs
index 224c179..15a7ffa 100644
--- a/src/static_values.rs
+++ b/src/static_values.rs
@@ -40,7 +40,11 @@ pub static ROOT_PUBLIC_ADDRESS: [u8; 33] = [
 
 pub static INCEPTION_TIMESTAMP: u64 = 1597924800;
 
+#[cfg(not(bct_sim))]
 pub static BLOCKS_PER_EPOCH: usize = 1000000;
+// Short epochs for the deterministic simulation harness (RUSTFLAGS="--cfg bct_sim").
+#[cfg(bct_sim)]
+pub static BLOCKS_PER_EPOCH: usize = 5;
 
 pub static TIME_PER_BLOCK: u64 = 600;
 
-- 
2.43.0


From 3037669b831f394197a503ea73c6c5dde4a9c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 02/20] fix: retargeting must not panic when the clock runs
 backwards

---
 src/tools.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 773e679..7ce77d5 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -224,14 +224,17 @@ pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficul
             break;
         };
     }
-    match (timestamp - prev_timestamp).cmp(&TIME_PER_BLOCK) {
+    match timestamp
+        .saturating_sub(prev_timestamp)
+        .cmp(&TIME_PER_BLOCK)
+    {
         Ordering::Less => {
             let val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
             *val >>= 1;
         }
         Ordering::Greater => {
             let mut val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
-            if non_zero_index == 0 && *val == 0x7f {
+            if non_zero_index == 0 && *val >= 0x7f {
                 return;
             }
             if *val == 0xFF {
-- 
2.43.0


From 46f9e6e6a98f9310de4726da6f9b4de0f7a3efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 03/20] fix: decoding truncated or hostile bytes returns an
 error instead of panicking

---
 src/block.rs | 11 +++++++++--
 src/tools.rs | 16 +++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2fba3f2..38a6f06 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -85,10 +85,10 @@ impl BasicInfo {
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
         let mut index: usize = 0;
 
-        if data.len() <= 105 {
+        if data.len() <= 137 {
             return Err(
                 Report::new(BlockError::BasicInfo(BasicInfoErrorKind::Parse))
-                    .attach_printable("data <= 105"),
+                    .attach_printable("data <= 137"),
             );
         }
 
@@ -191,6 +191,13 @@ impl TransactionBlock {
     pub fn parse(data: &[u8]) -> Result<Self, BlockError> {
         let mut index: usize = 0;
 
+        if data.len() <= 32 {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data length <= 32"),
+            );
+        }
+
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
diff --git a/src/tools.rs b/src/tools.rs
index 7ce77d5..ad9e397 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -56,13 +56,16 @@ pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError>
 }
 
 pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
-    let amount_of_bytes: usize = data[0] as usize;
+    let amount_of_bytes: usize = *data
+        .first()
+        .ok_or_else(|| Report::new(ToolsError::Biguint(BiguintErrorKind::Load)))?
+        as usize;
 
     if amount_of_bytes > 32 {
         return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Dump)));
     }
 
-    if data.len() < amount_of_bytes {
+    if data.len() < 1 + amount_of_bytes {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
@@ -80,9 +83,6 @@ pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
 
 pub fn u256_size(number: &U256) -> usize {
     let bits_size: usize = number.bits();
-    if bits_size == 0 {
-        return 2;
-    }
     let mut amount_byte_size: usize = bits_size / 8;
     if number.bits() % 8 != 0 {
         amount_byte_size += 1;
@@ -109,9 +109,11 @@ pub fn dump_biguint(number: &BigUint, buffer: &mut Vec<u8>) -> Result<(), ToolsE
 }
 
 pub fn load_biguint(data: &[u8]) -> Result<(BigUint, usize), ToolsError> {
-    let amount_of_bunches: u8 = data[0];
+    let amount_of_bunches: u8 = *data
+        .first()
+        .ok_or_else(|| Report::new(ToolsError::Biguint(BiguintErrorKind::Load)))?;
     let amount_of_bytes: usize = amount_of_bunches as usize; //*4;
-    if data.len() < amount_of_bytes {
+    if data.len() < 1 + amount_of_bytes {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
-- 
2.43.0


From e313193b0ee7fa3c92f4f877fb7f0b56ce892820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 04/20] fix: validate checks the proof of work the way emission
 does

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 38a6f06..8a2f72b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -324,7 +324,7 @@ impl Block for DerivativeBlock {
         }
 
         if !check_pow(
-            &self.get_merkle_root(),
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -419,7 +419,7 @@ impl Block for TransactionBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -555,7 +555,7 @@ impl Block for SummarizeBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
-- 
2.43.0


From 99c1be23189e32408b3b30ea294d80848ba4fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 05/20] fix: an archive cut down to nothing is an error, not an
 empty archive

---
 src/tools.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tools.rs b/src/tools.rs
index ad9e397..12dfd06 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -174,6 +174,19 @@ pub fn decompress_from_file(filename: String) -> Result<Vec<u8>, ToolsError> {
         .attach_printable("Error opening file")
         .change_context(ToolsError::Zstd(ZstdErrorKind::DecompressingFile))?;
 
+    // the decoder takes an empty file for a valid empty archive, but compress_to_file never
+    // leaves one: the file was cut short
+    let size = file
+        .metadata()
+        .change_context(ToolsError::Zstd(ZstdErrorKind::DecompressingFile))?
+        .len();
+    if size == 0 {
+        return Err(Report::new(ToolsError::Zstd(
+            ZstdErrorKind::DecompressingFile,
+        ))
+        .attach_printable("The file is empty"));
+    }
+
     let mut decoder = zstd::Decoder::new(file)
         .attach_printable("Error creating decoder")
         .change_context(ToolsError::Zstd(ZstdErrorKind::DecompressingFile))?;
-- 
2.43.0


From 04d1bf6504d7373e2e22ddc02c89e98ffedfff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 06/20] fix: restarting at the genesis height must not refund
 the treasury

---
 src/blockchaintree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7d578d8..ad5ff27 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -58,7 +58,13 @@ impl BlockChainTree {
             .attach_printable("failed to open old gas db")?;
         let main_chain = chain::MainChain::new(root_folder)?;
 
-        if main_chain.get_height() == U256::one() {
+        // the treasury is funded on the first start only
+        if summary_db
+            .get(ROOT_PUBLIC_ADDRESS)
+            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+            .attach_printable("failed to read the treasury")?
+            .is_none()
+        {
             summary_db
                 .transaction(
                     |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From b05d1ca8c38f2c9f806a5adabd0fe8bb8b028ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 07/20] fix: refused and failed ledger updates return an error
 instead of panicking

---
 src/blockchaintree.rs | 60 ++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ad5ff27..0b8860c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -29,6 +29,20 @@ pub struct BlockChainTree {
     root_folder: String,
 }
 
+/// Turns a failed ledger transaction into an error of the tree
+fn ledger_error(
+    err: sled::transaction::TransactionError<()>,
+    kind: BCTreeErrorKind,
+) -> Report<BlockChainTreeError> {
+    let report = Report::new(BlockChainTreeError::BlockChainTree(kind));
+    match err {
+        sled::transaction::TransactionError::Abort(()) => {
+            report.attach_printable("the balance would be overdrawn or would overflow")
+        }
+        sled::transaction::TransactionError::Storage(err) => report.attach_printable(err),
+    }
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -75,7 +89,7 @@ impl BlockChainTree {
                         Ok(())
                     },
                 )
-                .unwrap();
+                .map_err(|err| ledger_error(err, BCTreeErrorKind::Init))?;
         }
         Ok(Self {
             main_chain,
@@ -122,16 +136,16 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::AddFunds))
     }
 
     pub fn set_amount(
@@ -148,9 +162,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::AddFunds))
     }
 
     pub fn sub_amount(
@@ -175,9 +187,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::DecreaseFunds))
     }
     pub fn get_amount(&self, owner: &[u8; 33]) -> Result<U256, Report<BlockChainTreeError>> {
         match self
@@ -218,7 +228,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -230,9 +242,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::DecreaseFunds))
     }
 
     pub fn add_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
@@ -243,16 +253,16 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::AddFunds))
     }
     pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
         self.gas_db
@@ -272,9 +282,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::DecreaseFunds))
     }
     pub fn get_gas(&self, owner: &[u8; 33]) -> Result<U256, Report<BlockChainTreeError>> {
         match self
@@ -312,7 +320,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -324,9 +334,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|err| ledger_error(err, BCTreeErrorKind::DecreaseFunds))
     }
 
     pub fn add_new_block(
-- 
2.43.0


From a0a29502dab5701fad66a8f9efdb3a704153542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 08/20] fix: sending gas to oneself must not mint gas

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 0b8860c..d407a6c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -304,6 +304,9 @@ impl BlockChainTree {
         to: &[u8],
         amount: U256,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if from == to {
+            return Ok(());
+        }
         self.gas_db
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From 25740fbb78e2387c94f557492c69bd1b056016fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 09/20] fix: submitting a transaction is all-or-nothing and
 happens once

---
 src/blockchaintree.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index d407a6c..25a9f3e 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -15,6 +15,7 @@ use crate::{
     types::Hash,
 };
 use error_stack::{Report, ResultExt};
+use parking_lot::Mutex;
 use primitive_types::U256;
 use sled::Db;
 use std::fs;
@@ -27,6 +28,8 @@ pub struct BlockChainTree {
     gas_db: Db,
     old_gas_db: Db,
     root_folder: String,
+    // held while a transaction is submitted: its checks and its effects belong together
+    submission: Mutex<()>,
 }
 
 /// Turns a failed ledger transaction into an error of the tree
@@ -99,6 +102,7 @@ impl BlockChainTree {
             gas_db,
             old_gas_db,
             root_folder: root_folder.into(),
+            submission: Mutex::new(()),
         })
     }
 
@@ -502,6 +506,13 @@ impl BlockChainTree {
         &self,
         transaction: &dyn Transactionable,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        let _submission = self.submission.lock();
+        if self.main_chain.transaction_exists(&transaction.hash())? {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("the transaction was already submitted");
+        }
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
@@ -514,20 +525,25 @@ impl BlockChainTree {
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
-        if sender_amount < fee + transaction.get_amount().unwrap_or(U256::zero()) {
+        let coins_required = fee.checked_add(transaction.get_amount().unwrap_or(U256::zero()));
+        if coins_required.map_or(true, |coins_required| sender_amount < coins_required) {
             return Err(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::NewTransaction,
             ))
             .attach_printable("not enough coins to pay the fee");
         }
-        self.main_chain.add_transaction(transaction)?;
         if let Some(amount) = transaction.get_amount() {
             // TODO: make into sled transaction
-            self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)?;
-            //self.sub_amount(transaction.get_sender(), fee)?;
             self.sub_gas(transaction.get_sender(), gas_required)?;
+            if let Err(err) =
+                self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)
+            {
+                self.add_gas(transaction.get_sender(), gas_required)?;
+                return Err(err);
+            }
+            //self.sub_amount(transaction.get_sender(), fee)?;
         }
-        Ok(())
+        self.main_chain.add_transaction(transaction)
     }
 
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-- 
2.43.0


From cfcbaf9011c91cde54f2ff51c4e913e34c46aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 10/20] fix: the chain config is replaced atomically and is
 durable when a flush returns

---
 src/chain.rs | 24 +++++++++++++++++++-----
 src/tools.rs | 12 ++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6469012..7026e7f 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -5,7 +5,7 @@ use error_stack::{Report, ResultExt};
 use parking_lot::RwLock;
 use primitive_types::U256;
 use sled::Db;
-use tokio::{fs::OpenOptions, io::AsyncWriteExt};
+use tokio::{fs::OpenOptions, io::AsyncWriteExt, sync::Mutex};
 
 use crate::block::{BlockArc, DerivativeBlock};
 use crate::dump_headers::Headers;
@@ -55,6 +55,7 @@ pub struct MainChain {
     transactions: Db,
     height: Arc<RwLock<U256>>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    config_dump: Arc<Mutex<()>>,
     root: String,
 }
 
@@ -112,6 +113,7 @@ impl MainChain {
             transactions,
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
+            config_dump: Arc::new(Mutex::new(())),
             root: root.to_str().unwrap().to_string(),
         };
         if height.is_zero() {
@@ -146,13 +148,15 @@ impl MainChain {
     ///
     /// Dumps chain's config
     async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+        let _dump = self.config_dump.lock().await;
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
@@ -168,7 +172,10 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
-        Ok(())
+        tools::replace_file(file, &path_new_config, &path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")
     }
 
     pub fn get_height(&self) -> U256 {
@@ -444,6 +451,7 @@ pub struct DerivativeChain {
     pub genesis_hash: Arc<[u8; 32]>,
     difficulty: Arc<RwLock<[u8; 32]>>,
     chain_owner: String,
+    config_dump: Arc<Mutex<()>>,
     root: String,
 }
 
@@ -511,6 +519,7 @@ impl DerivativeChain {
             difficulty: Arc::new(RwLock::new(difficulty)),
             genesis_hash: Arc::new(genesis_hash),
             chain_owner: chain_owner.to_string(),
+            config_dump: Arc::new(Mutex::new(())),
             root: root.to_str().unwrap().to_string(),
         };
 
@@ -525,13 +534,15 @@ impl DerivativeChain {
     ///
     /// Dumps chain's config
     async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+        let _dump = self.config_dump.lock().await;
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
@@ -552,7 +563,10 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
-        Ok(())
+        tools::replace_file(file, &path_new_config, &path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")
     }
 
     /// Flushes all DBs and config
diff --git a/src/tools.rs b/src/tools.rs
index 12dfd06..c626c68 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -29,6 +29,18 @@ pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<
     Ok(())
 }
 
+/// Makes the written `new` file durable and puts it in the place of `path` in one step
+pub async fn replace_file(file: tokio::fs::File, new: &Path, path: &Path) -> io::Result<()> {
+    file.sync_all().await?;
+    drop(file);
+    tokio::fs::rename(new, path).await?;
+    // the new name has to reach the disk too
+    match path.parent() {
+        Some(folder) => tokio::fs::File::open(folder).await?.sync_all().await,
+        None => Ok(()),
+    }
+}
+
 pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError> {
     buffer.push(0);
     let ind = buffer.len() - 1;
-- 
2.43.0


From 2d1e5be83fe88fa88b0227a4d91023ffe1f09f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 11/20] fix: lookups never return a block above the tip or
 under another block's hash

---
 src/chain.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 7026e7f..f023a6e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -328,7 +328,7 @@ impl MainChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -366,7 +366,8 @@ impl MainChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // after a crash the reference may outlive its block
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
@@ -633,7 +634,7 @@ impl DerivativeChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -671,7 +672,8 @@ impl DerivativeChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // after a crash the reference may outlive its block
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
-- 
2.43.0


From 9a865ae73bec5b5e7f4b46f814538070e2e5bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 12/20] fix: a chain reopened after a crash matches the blocks
 that reached the disk

---
 src/blockchaintree.rs | 17 +++++++---
 src/chain.rs          | 76 +++++++++++++++++++++++++++++++++++--------
 2 files changed, 74 insertions(+), 19 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 25a9f3e..741e106 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -114,11 +114,18 @@ impl BlockChainTree {
             return Ok(chain.clone());
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
-        let derivative_chain = chain::DerivativeChain::new(
-            &self.root_folder,
-            &hex::encode(owner),
-            &last_block.hash().unwrap(),
-        )?;
+        let last_hash = last_block.hash().unwrap();
+        let mut derivative_chain =
+            chain::DerivativeChain::new(&self.root_folder, &hex::encode(owner), &last_hash)?;
+        if derivative_chain.get_height().is_zero()
+            && self
+                .main_chain
+                .find_raw_by_hash(&derivative_chain.genesis_hash)?
+                .is_none()
+        {
+            // the main chain lost the anchor in a crash and nothing depends on it yet
+            derivative_chain.genesis_hash = Arc::new(last_hash);
+        }
         self.derivative_chains
             .insert(*owner, derivative_chain.clone());
         Ok(derivative_chain)
diff --git a/src/chain.rs b/src/chain.rs
index f023a6e..849c4b9 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -1,4 +1,9 @@
-use std::{fs::File, io::Read, path::Path, sync::Arc};
+use std::{
+    fs::File,
+    io::{ErrorKind, Read},
+    path::Path,
+    sync::Arc,
+};
 
 use async_trait::async_trait;
 use error_stack::{Report, ResultExt};
@@ -48,6 +53,41 @@ pub trait Chain {
     ) -> Result<Option<Arc<dyn Block + Send + Sync>>, Report<BlockChainTreeError>>;
 }
 
+/// Opens the config of a chain, which a chain that was never flushed does not have
+fn open_config(path: &Path) -> Result<Option<File>, Report<BlockChainTreeError>> {
+    match File::open(path) {
+        Ok(file) => Ok(Some(file)),
+        Err(err) if err.kind() == ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(Report::new(err)
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+            .attach_printable("failed to open config")),
+    }
+}
+
+/// Counts the blocks that reached the disk after the config was written, and restores their
+/// height references
+fn recover_height(
+    blocks: &Db,
+    height_reference: &Db,
+    mut height: U256,
+) -> Result<U256, Report<BlockChainTreeError>> {
+    loop {
+        let mut height_bytes = [0u8; 32];
+        height.to_big_endian(&mut height_bytes);
+        let dump = match blocks
+            .get(height_bytes)
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))?
+        {
+            Some(dump) => dump,
+            None => return Ok(height),
+        };
+        height_reference
+            .insert(tools::hash(&dump), &height_bytes)
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))?;
+        height += U256::one();
+    }
+}
+
 #[derive(Clone)]
 pub struct MainChain {
     blocks: Db,
@@ -88,9 +128,9 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open transactions db")?;
 
-        let file = File::open(path_height);
+        let file = open_config(path_height)?;
 
-        let (height, difficulty) = if let Ok(mut file) = file {
+        let (height, difficulty) = if let Some(mut file) = file {
             let mut height_bytes: [u8; 32] = [0; 32];
             file.read_exact(&mut height_bytes)
                 .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
@@ -106,6 +146,7 @@ impl MainChain {
         } else {
             (U256::zero(), BEGINNING_DIFFICULTY)
         };
+        let height = recover_height(&blocks, &height_reference, height)?;
 
         let chain = Self {
             blocks,
@@ -147,7 +188,7 @@ impl MainChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let _dump = self.config_dump.lock().await;
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         let path_new_config = path_config.with_extension("new");
@@ -160,7 +201,7 @@ impl MainChain {
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -184,7 +225,8 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        // the config may only count blocks that are on disk already
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -204,7 +246,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        Ok(())
+        self.dump_config(height).await
     }
 
     pub fn add_transactions(
@@ -484,9 +526,9 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
-        let file = File::open(path_height);
+        let file = open_config(path_height)?;
 
-        let (height, difficulty, genesis_hash) = if let Ok(mut file) = file {
+        let (height, difficulty, genesis_hash) = if let Some(mut file) = file {
             let mut height_bytes: [u8; 32] = [0; 32];
             file.read_exact(&mut height_bytes)
                 .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
@@ -512,8 +554,9 @@ impl DerivativeChain {
         } else {
             (U256::zero(), BEGINNING_DIFFICULTY, *provided_genesis_hash)
         };
+        let height = recover_height(&blocks, &height_reference, height)?;
 
-        let chain = Self {
+        let mut chain = Self {
             blocks,
             height_reference,
             height: Arc::new(RwLock::new(height)),
@@ -523,6 +566,10 @@ impl DerivativeChain {
             config_dump: Arc::new(Mutex::new(())),
             root: root.to_str().unwrap().to_string(),
         };
+        // the config may be older than the first block
+        if let Some(first_block) = chain.find_by_height(&U256::zero())? {
+            chain.genesis_hash = Arc::new(first_block.default_info.previous_hash);
+        }
 
         Ok(chain)
     }
@@ -534,7 +581,7 @@ impl DerivativeChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let _dump = self.config_dump.lock().await;
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         let path_new_config = path_config.with_extension("new");
@@ -547,7 +594,7 @@ impl DerivativeChain {
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -572,7 +619,8 @@ impl DerivativeChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        // the config may only count blocks that are on disk already
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -586,7 +634,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        Ok(())
+        self.dump_config(height).await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From 7c2920e15315172979a8791032754aec653e5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 13/20] fix: the summary store loses no concurrent update and
 never panics

---
 src/summary_db.rs | 49 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 2c3c09e..952b5d6 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -3,6 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use primitive_types::U256;
 use sled::Db;
+use tokio::sync::Mutex;
 
 use crate::{
     errors::{BCTreeErrorKind, BlockChainTreeError, ChainErrorKind},
@@ -11,11 +12,16 @@ use crate::{
 
 pub struct SummaryDB {
     db: Db,
+    // held while a balance is read, changed and written back
+    update: Mutex<()>,
 }
 
 impl SummaryDB {
     pub fn new(db: Db) -> Self {
-        SummaryDB { db }
+        SummaryDB {
+            db,
+            update: Mutex::new(()),
+        }
     }
     /// Get funds
     ///
@@ -35,8 +41,7 @@ impl SummaryDB {
                 BCTreeErrorKind::GetDerivChain,
             ))
             .attach_printable(format!(
-                "failed to get data from summary db at address: {}",
-                std::str::from_utf8(addr).unwrap()
+                "failed to get data from summary db at address: {addr:X?}"
             ))),
         }
     }
@@ -59,15 +64,13 @@ impl SummaryDB {
         addr: &[u8; 33],
         funds: &U256,
     ) -> Result<(), BlockChainTreeError> {
+        let _update = self.update.lock().await;
         let result = self.db.get(addr);
         match result {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "address: {} doesn't have any coins",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("address: {addr:X?} doesn't have any coins"))),
             Ok(Some(prev)) => {
                 let res = tools::load_u256(&prev).change_context(
                     BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DecreaseFunds),
@@ -109,10 +112,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 
@@ -127,6 +127,7 @@ impl SummaryDB {
         if funds.is_zero() {
             return Ok(());
         }
+        let _update = self.update.lock().await;
         let result = self.db.get(addr);
         match result {
             Ok(None) => {
@@ -141,8 +142,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 self.db
@@ -152,8 +152,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -164,7 +163,12 @@ impl SummaryDB {
                 )?;
 
                 let mut previous = res.0;
-                previous += *funds;
+                previous = previous.checked_add(*funds).ok_or_else(|| {
+                    Report::new(BlockChainTreeError::BlockChainTree(
+                        BCTreeErrorKind::AddFunds,
+                    ))
+                    .attach_printable("balance overflow")
+                })?;
 
                 let mut dump: Vec<u8> = Vec::with_capacity(tools::u256_size(&previous));
                 tools::dump_u256(&previous, &mut dump).change_context(
@@ -176,10 +180,7 @@ impl SummaryDB {
                     .change_context(BlockChainTreeError::BlockChainTree(
                         BCTreeErrorKind::AddFunds,
                     ))
-                    .attach_printable(format!(
-                        "failed to put funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
-                    ))?;
+                    .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;
 
                 self.db
                     .flush_async()
@@ -188,8 +189,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -197,10 +197,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::AddFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 }
-- 
2.43.0


From 119dd30f587c949f65c4ce7085e6a8c0d6909b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 14/20] fix: an epoch rollover survives crashes and disk errors
 at any point

---
 src/blockchaintree.rs | 61 +++++++++++++------------------------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 741e106..7f751c2 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -18,7 +18,6 @@ use error_stack::{Report, ResultExt};
 use parking_lot::Mutex;
 use primitive_types::U256;
 use sled::Db;
-use std::fs;
 
 pub struct BlockChainTree {
     main_chain: chain::MainChain,
@@ -46,6 +45,19 @@ fn ledger_error(
     }
 }
 
+/// Makes one ledger equal to another in a single step
+fn copy_ledger(from: &Db, to: &Db) -> sled::Result<()> {
+    let mut batch = sled::Batch::default();
+    for key in to.iter().keys() {
+        batch.remove(key?);
+    }
+    for entry in from.iter() {
+        let (owner, amount) = entry?;
+        batch.insert(owner, amount);
+    }
+    to.apply_batch(batch)
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -485,6 +497,8 @@ impl BlockChainTree {
                 self.rotate_dbs().await?;
 
                 self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;
+                // the block that closes the epoch must not reach the disk without it
+                self.flush().await?;
 
                 summarize_block
             } else {
@@ -585,57 +599,18 @@ impl BlockChainTree {
     async fn rotate_dbs(&mut self) -> Result<(), Report<BlockChainTreeError>> {
         self.flush().await?;
 
-        let root = Path::new(&self.root_folder);
-
-        let path_summary = root.join(AMOUNT_SUMMARY);
-        let path_summary_old = root.join(OLD_AMOUNT_SUMMARY);
-        let path_gas = root.join(GAS_SUMMARY);
-        let path_gas_old = root.join(OLD_GAS_SUMMARY);
-
-        fs::remove_dir_all(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous summary database")?;
-
-        fs::create_dir(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to create previous summary database folder")?;
-
-        fs::remove_dir_all(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database")?;
-
-        fs::create_dir(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database folder")?;
-
-        tools::copy_dir_all(path_summary, &path_summary_old)
+        copy_ledger(&self.summary_db, &self.old_summary_db)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to copy summary database")?;
 
-        tools::copy_dir_all(path_gas, &path_gas_old)
+        copy_ledger(&self.gas_db, &self.old_gas_db)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to copy gas database")?;
 
-        self.old_summary_db = sled::open(path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
-            .attach_printable("failed to open old summary db")?;
-
-        self.old_gas_db = sled::open(path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
-            .attach_printable("failed to open old gas db")?;
-
-        Ok(())
+        self.flush().await
     }
 }
-- 
2.43.0


From 51d8a3c2a09db52cba0a54454f12855ddc042f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 15/20] fix: a database whose settings file was torn by a power
 loss can be opened

---
 src/blockchaintree.rs |  8 ++++----
 src/chain.rs          | 10 +++++-----
 src/tools.rs          | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7f751c2..eef2233 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -68,21 +68,21 @@ impl BlockChainTree {
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
         // open summary DB
-        let summary_db = sled::open(path_summary)
+        let summary_db = tools::open_db(path_summary)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open summary db")?;
 
         // open old summary DB
-        let old_summary_db = sled::open(path_summary_old)
+        let old_summary_db = tools::open_db(path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open old summary db")?;
 
         // open gas DB
-        let gas_db = sled::open(path_gas)
+        let gas_db = tools::open_db(path_gas)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open gas db")?;
 
-        let old_gas_db = sled::open(path_gas_old)
+        let old_gas_db = tools::open_db(path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open old gas db")?;
         let main_chain = chain::MainChain::new(root_folder)?;
diff --git a/src/chain.rs b/src/chain.rs
index 849c4b9..1bf5a25 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -114,17 +114,17 @@ impl MainChain {
         let path_height = Path::new(&path_height_st);
 
         // open blocks DB
-        let blocks = sled::open(path_blocks)
+        let blocks = tools::open_db(path_blocks)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open blocks db")?;
 
         // open height references DB
-        let height_reference = sled::open(path_reference)
+        let height_reference = tools::open_db(path_reference)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
         // open transactions DB
-        let transactions = sled::open(path_transactions)
+        let transactions = tools::open_db(path_transactions)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open transactions db")?;
 
@@ -517,12 +517,12 @@ impl DerivativeChain {
         let path_height = Path::new(&path_height_st);
 
         // open blocks DB
-        let blocks = sled::open(path_blocks)
+        let blocks = tools::open_db(path_blocks)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open blocks db")?;
 
         // open height references DB
-        let height_reference = sled::open(path_reference)
+        let height_reference = tools::open_db(path_reference)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
diff --git a/src/tools.rs b/src/tools.rs
index c626c68..7ca209f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -29,6 +29,23 @@ pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<
     Ok(())
 }
 
+/// Opens a database
+///
+/// Sled never syncs its `conf` file: it is synced here, and replaced if a power loss has torn it
+/// before that (it holds nothing but the default settings)
+pub fn open_db(path: impl AsRef<Path>) -> sled::Result<sled::Db> {
+    let conf = path.as_ref().join("conf");
+    let db = match sled::open(&path) {
+        Err(sled::Error::Corruption { .. } | sled::Error::Unsupported(_)) => {
+            fs::remove_file(&conf)?;
+            sled::open(&path)?
+        }
+        result => result?,
+    };
+    File::open(conf)?.sync_all()?;
+    Ok(db)
+}
+
 /// Makes the written `new` file durable and puts it in the place of `path` in one step
 pub async fn replace_file(file: tokio::fs::File, new: &Path, path: &Path) -> io::Result<()> {
     file.sync_all().await?;
-- 
2.43.0


From 8063afb302d97d43afe8ca1a2037360f2520ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 16/20] fix: a config that could not be written completely
 never replaces the previous one

---
 src/tools.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 7ca209f..6db17bc 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -14,6 +14,7 @@ use std::io::Read;
 use std::io::Write;
 use std::path::Path;
 use std::{fs, io};
+use tokio::io::AsyncWriteExt;
 
 pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<()> {
     fs::create_dir_all(&dst)?;
@@ -47,7 +48,9 @@ pub fn open_db(path: impl AsRef<Path>) -> sled::Result<sled::Db> {
 }
 
 /// Makes the written `new` file durable and puts it in the place of `path` in one step
-pub async fn replace_file(file: tokio::fs::File, new: &Path, path: &Path) -> io::Result<()> {
+pub async fn replace_file(mut file: tokio::fs::File, new: &Path, path: &Path) -> io::Result<()> {
+    // sync_all alone does not report a failed write
+    file.flush().await?;
     file.sync_all().await?;
     drop(file);
     tokio::fs::rename(new, path).await?;
-- 
2.43.0


From 4644c108bebbda93917b42f17164adc1fdee6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 17/20] fix: a half generated snapshot does not keep a database
 from opening

---
 src/tools.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 6db17bc..29f6f23 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -33,12 +33,19 @@ pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<
 /// Opens a database
 ///
 /// Sled never syncs its `conf` file: it is synced here, and replaced if a power loss has torn it
-/// before that (it holds nothing but the default settings)
+/// before that (it holds nothing but the default settings). A snapshot which a crash left half
+/// generated is dropped, as sled would take it for the latest one
 pub fn open_db(path: impl AsRef<Path>) -> sled::Result<sled::Db> {
     let conf = path.as_ref().join("conf");
     let db = match sled::open(&path) {
         Err(sled::Error::Corruption { .. } | sled::Error::Unsupported(_)) => {
             fs::remove_file(&conf)?;
+            for entry in fs::read_dir(&path)? {
+                let file = entry?.path();
+                if file.extension().map_or(false, |ext| ext == "generating") {
+                    fs::remove_file(file)?;
+                }
+            }
             sled::open(&path)?
         }
         result => result?,
-- 
2.43.0


From 1afdc990582606743acecaebafe968d615c36aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 18/20] fix: a submission its receiver has no room for is
 refused before gas is charged

---
 src/blockchaintree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index eef2233..45df022 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -554,6 +554,14 @@ impl BlockChainTree {
             .attach_printable("not enough coins to pay the fee");
         }
         if let Some(amount) = transaction.get_amount() {
+            // refused before any gas is charged
+            let (sender, receiver) = (transaction.get_sender(), transaction.get_receiver());
+            if sender != receiver && self.get_amount(receiver)?.checked_add(amount).is_none() {
+                return Err(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::NewTransaction,
+                ))
+                .attach_printable("the receiver cannot hold that many coins");
+            }
             // TODO: make into sled transaction
             self.sub_gas(transaction.get_sender(), gas_required)?;
             if let Err(err) =
-- 
2.43.0


From 6655629e6a5c5442d50eabdd945260ad8ab14df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 19/20] fix: a flush whose caller stops waiting never disturbs
 the next one

---
 src/chain.rs | 51 ++++++++++-----------------------------------------
 src/tools.rs | 38 ++++++++++++++++++++++++--------------
 2 files changed, 34 insertions(+), 55 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 1bf5a25..075a456 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -10,7 +10,7 @@ use error_stack::{Report, ResultExt};
 use parking_lot::RwLock;
 use primitive_types::U256;
 use sled::Db;
-use tokio::{fs::OpenOptions, io::AsyncWriteExt, sync::Mutex};
+use tokio::sync::Mutex;
 
 use crate::block::{BlockArc, DerivativeBlock};
 use crate::dump_headers::Headers;
@@ -189,31 +189,17 @@ impl MainChain {
     ///
     /// Dumps chain's config
     async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
-        let _dump = self.config_dump.lock().await;
+        let dump = self.config_dump.clone().lock_owned().await;
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
-        let path_new_config = path_config.with_extension("new");
 
-        let mut file = OpenOptions::new()
-            .write(true)
-            .create(true)
-            .truncate(true)
-            .open(&path_new_config)
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
         height.to_big_endian(&mut buffer_32_bytes);
-        file.write_all(&buffer_32_bytes)
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write height")?;
+        let mut config = buffer_32_bytes.to_vec();
 
         let difficulty = *self.difficulty.read();
-        file.write_all(&difficulty)
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write difficulty")?;
+        config.extend(difficulty);
 
-        tools::replace_file(file, &path_new_config, &path_config)
+        tools::replace_file(path_config, config, dump)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to replace config")
@@ -582,36 +568,19 @@ impl DerivativeChain {
     ///
     /// Dumps chain's config
     async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
-        let _dump = self.config_dump.lock().await;
+        let dump = self.config_dump.clone().lock_owned().await;
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
-        let path_new_config = path_config.with_extension("new");
 
-        let mut file = OpenOptions::new()
-            .write(true)
-            .create(true)
-            .truncate(true)
-            .open(&path_new_config)
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
         height.to_big_endian(&mut buffer_32_bytes);
-        file.write_all(&buffer_32_bytes)
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write height")?;
+        let mut config = buffer_32_bytes.to_vec();
 
         let difficulty = *self.difficulty.read();
-        file.write_all(&difficulty)
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write difficulty")?;
+        config.extend(difficulty);
 
-        file.write_all(self.genesis_hash.as_ref())
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write genesis hash")?;
+        config.extend(self.genesis_hash.as_ref());
 
-        tools::replace_file(file, &path_new_config, &path_config)
+        tools::replace_file(path_config, config, dump)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to replace config")
diff --git a/src/tools.rs b/src/tools.rs
index 29f6f23..ab9db5a 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -12,9 +12,8 @@ use std::convert::TryInto;
 use std::fs::File;
 use std::io::Read;
 use std::io::Write;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::{fs, io};
-use tokio::io::AsyncWriteExt;
 
 pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<()> {
     fs::create_dir_all(&dst)?;
@@ -54,18 +53,29 @@ pub fn open_db(path: impl AsRef<Path>) -> sled::Result<sled::Db> {
     Ok(db)
 }
 
-/// Makes the written `new` file durable and puts it in the place of `path` in one step
-pub async fn replace_file(mut file: tokio::fs::File, new: &Path, path: &Path) -> io::Result<()> {
-    // sync_all alone does not report a failed write
-    file.flush().await?;
-    file.sync_all().await?;
-    drop(file);
-    tokio::fs::rename(new, path).await?;
-    // the new name has to reach the disk too
-    match path.parent() {
-        Some(folder) => tokio::fs::File::open(folder).await?.sync_all().await,
-        None => Ok(()),
-    }
+/// Durably replaces the file at `path` in one step
+///
+/// It is carried through, with `guard` held, even if the caller stops waiting for it
+pub async fn replace_file(
+    path: PathBuf,
+    data: Vec<u8>,
+    guard: impl Send + 'static,
+) -> io::Result<()> {
+    tokio::task::spawn_blocking(move || {
+        let _guard = guard;
+        let new = path.with_extension("new");
+        let mut file = File::create(&new)?;
+        file.write_all(&data)?;
+        file.sync_all()?;
+        drop(file);
+        fs::rename(new, &path)?;
+        // the new name has to reach the disk too
+        match path.parent() {
+            Some(folder) => File::open(folder)?.sync_all(),
+            None => Ok(()),
+        }
+    })
+    .await?
 }
 
 pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError> {
-- 
2.43.0


From 7a9532290e1ee5cb748b553fa5da0930f6d603d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 20/20] fix: the anchor of a derivative chain reaches the disk
 before the chain's first block

---
 src/blockchaintree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 45df022..1011dd0 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -448,6 +448,10 @@ impl BlockChainTree {
         };
 
         let block = block::DerivativeBlock { default_info };
+        if height.is_zero() {
+            // the anchor must not get lost while the chain depends on it
+            self.main_chain.flush().await?;
+        }
         derivative_chain.add_block(&block)?;
         Ok(Arc::new(block))
     }
-- 
2.43.0

