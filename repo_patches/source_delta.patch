From 25cac34a376f3bb185d2739074272f13b0be2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 01/39] fix: size arrays by their own elements only

[T; N]::byte_size visited index N as well and panicked for every array of
up to 10 items.
---
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From 93b1e81b7c34b96ab6308b0b0f0a6c7fb2ce3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 02/39] fix: reserve room for every item of a decoded array

The capacity was taken from the layout marker byte, which is 7 for an array
of 8 items, so such an array could never be decoded.
---
 crates/wasm/abi-decoder/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..101ba1a 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -265,8 +265,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -281,6 +279,9 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
-- 
2.43.0


From ed00285e9708dc36ba50113881161d9c41f7f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 03/39] fix: print layers of 19 digits and more

The buffer was two bytes too short, so rendering such a layer aborted.
---
 crates/wasm/sdk-types/src/layer_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/layer_id.rs b/crates/wasm/sdk-types/src/layer_id.rs
index 7c71ae2..2fa4f56 100644
--- a/crates/wasm/sdk-types/src/layer_id.rs
+++ b/crates/wasm/sdk-types/src/layer_id.rs
@@ -14,7 +14,7 @@ impl core::fmt::Debug for LayerId {
 
 impl ToString for LayerId {
     fn to_string(&self) -> String {
-        let mut sb = StringBuilder::with_capacity(20 + " coins".len());
+        let mut sb = StringBuilder::with_capacity("[Layer 18446744073709551615]".len());
 
         let s = self.0.to_string();
         sb.push_str(&String::new_short("[Layer ".as_bytes()));
-- 
2.43.0


From 360bb6023231694c567c9113f4995a03cb5a5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:56 +0000
Subject: [PATCH 04/39] fix: reject unknown gas modes and layout kinds when
 decoding a template

---
 crates/host/codec/src/section/sections/code.rs | 2 +-
 crates/host/codec/src/section/sections/data.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..a4cb12e 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..dff2297 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -150,7 +150,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
-- 
2.43.0


From 4738de39294995f08788d4cbd9c892a5063faa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:56 +0000
Subject: [PATCH 05/39] fix: reject templates with sections that cannot be
 decoded yet

---
 crates/host/codec/src/section/sections/api.rs    | 3 ++-
 crates/host/codec/src/section/sections/schema.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..7a0a449 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..abd4cb0 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From 51b669498f7d94f435a93b614bf6b4752939457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:56 +0000
Subject: [PATCH 06/39] fix: report malformed receipts as parse errors

---
 crates/host/codec/src/receipt/error.rs | 110 ++++++++++++-------------
 crates/host/codec/src/receipt/mod.rs   |   2 +-
 crates/host/codec/src/receipt/spawn.rs |   2 +-
 3 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..98f826f 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,8 +162,8 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
@@ -177,9 +177,9 @@ impl Codec for RuntimeFailure {
                 7 => func_not_ctor(cursor),
                 8 => func_not_allowed(cursor),
                 9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
+                _ => return Err(ParseError::BadByte(ty)),
             }
-        };
+        }?;
 
         Ok(Self { err, logs })
     }
@@ -212,104 +212,104 @@ fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
     w.write_byte(ty);
 }
 
-fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
-    RuntimeError::OOG
+fn oog(_cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    Ok(RuntimeError::OOG)
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..f7402a4 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..a76fb61 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -88,7 +88,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
-- 
2.43.0


From 4cf8e25809d98192dabf11f7f5615b3c62e95b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 07/39] fix: encode the touched accounts of a receipt in a
 fixed order

---
 crates/host/codec/src/receipt/touched_accounts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..af49554 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,8 +10,12 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
-            w.write_bytes(addr.as_slice());
+        // The iteration order of a `HashSet` is arbitrary; the encoding must not be.
+        let mut addrs: Vec<&[u8]> = self.iter().map(|addr| addr.as_slice()).collect();
+        addrs.sort_unstable();
+
+        for addr in addrs {
+            w.write_bytes(addr);
         }
     }
 
-- 
2.43.0


From c83cee8736116c47ef98799a0ecdcd3f320c39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 08/39] fix: truncate receipt error messages at a character
 boundary

---
 crates/host/codec/src/receipt/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index 98f826f..b8255e3 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -187,9 +187,9 @@ impl Codec for RuntimeFailure {
 
 fn encode_msg(msg: &str, w: &mut impl WriteExt) {
     if msg.len() > 255 {
-        let bytes = &msg.as_bytes()[0..255];
-        let msg = String::from_utf8(bytes.to_vec()).unwrap();
-        msg.encode(w);
+        // Cutting inside a multi-byte character would leave invalid UTF-8.
+        let end = (0..=255).rev().find(|i| msg.is_char_boundary(*i)).unwrap();
+        msg[..end].to_string().encode(w);
     } else {
         msg.to_string().encode(w);
     }
-- 
2.43.0


From 465595df739ff33e87329a60bfd25cd2655788dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 09/39] fix: truncate every error message of a receipt

---
 crates/host/codec/src/receipt/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index b8255e3..6898f1d 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -112,7 +112,7 @@ impl Codec for RuntimeFailure {
             } => {
                 template.encode(w);
                 target.encode(w);
-                msg.encode(w);
+                encode_msg(&msg, w);
             }
             RuntimeError::FuncNotFound {
                 target,
-- 
2.43.0


From b2e00d2b7e8a968a1f4b768943f3956c982dac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 10/39] fix: refuse to encode a variable size that does not fit
 its field

---
 crates/host/codec/src/section/sections/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index dff2297..9daa8b5 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -100,7 +100,7 @@ impl Codec for Layout {
 
                     // Encoding each `Var Byte-Size`
                     for var in layout.iter() {
-                        (var.byte_size as u16).encode(w);
+                        u16::try_from(var.byte_size).unwrap().encode(w);
                     }
                 }
             }
-- 
2.43.0


From 25bc220e49a6a0ff6ae5bf16f9deb29a7417f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 11/39] fix: give layouts without variables one representation

---
 crates/host/layout/src/fixed.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/host/layout/src/fixed.rs b/crates/host/layout/src/fixed.rs
index 1244810..0e35658 100644
--- a/crates/host/layout/src/fixed.rs
+++ b/crates/host/layout/src/fixed.rs
@@ -40,10 +40,7 @@ impl FixedLayout {
             offset += byte_size;
         }
 
-        Self {
-            first: Some(first),
-            vars,
-        }
+        Self::new(vars)
     }
 
     /// Returns a fixed-variable's layout
-- 
2.43.0


From c96860f585c7b3daa4ffbdfa5bca5f974c5d0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 12/39] fix: keep the logs of a failed deployment in its
 encoded receipt

---
 crates/host/codec/src/receipt/deploy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..26a72ef 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
-- 
2.43.0


From 87b6474a9d765b268902027e2a3bb6a6ba7e5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 13/39] fix: continue after the last committed layer when
 opening an existing database

---
 crates/host/state/src/storage.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..68da725 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -68,23 +68,27 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
         storage.delete_bad_layers().await?;
 
+        match max_layer_id(&storage.sqlite).await? {
+            Some(last_layer_id) => storage.next_layer.id = last_layer_id + 1,
+            None => {
+                storage
+                    .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                    .await?
+            }
+        }
+
         Ok(storage)
     }
 
@@ -102,12 +106,8 @@ impl Storage {
     async fn delete_bad_layers(&self) -> Result<u64> {
         let count_rows: u64 = sqlx::query(
             r#"
-            DELETE FROM "values"
-            WHERE "layer_id" IN (
-                SELECT "id"
-                FROM "layers"
-                WHERE "complete" = 0
-            )
+            DELETE FROM "layers"
+            WHERE "complete" = 0
             "#,
         )
         .execute(&self.sqlite)
-- 
2.43.0


From 996b4770adb1458e3180b27f5861eef1fed02804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 14/39] fix: read values of complete layers only, by joining on
 the layer's id

---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 68da725..4befd52 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -179,6 +179,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -200,6 +202,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From 4682003a55ed00b3ee4bef0f4551a436cffe7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 15/39] fix: make the state root depend on the most recent
 values only

---
 crates/host/state/src/storage.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 4befd52..9650a65 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -23,11 +23,8 @@ pub use crate::error::{StorageError, StorageResult as Result};
 
 type Changes = HashMap<State, Vec<u8>>;
 
-// When initializing [`State`]'s on the database, we zero all bits. In
-// memory, however, the initial [`State`] is always filled with 1's (by
-// XOR-ing them together, we still get 0).
+// The neutral element of XOR, i.e. the fingerprint of no changes at all.
 const STATE_ZEROS: State = State([0; 32]);
-const STATE_ONES: State = State([std::u8::MAX; 32]);
 
 const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 
@@ -74,7 +71,7 @@ impl Storage {
             next_layer: NextLayer {
                 id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
-                changes_xor_fingerprint: INITIAL_LAYER_STATE,
+                changes_xor_fingerprint: STATE_ZEROS,
             },
         };
 
@@ -245,12 +242,20 @@ impl Storage {
         let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
         for change in dirty_changes {
+            // The fingerprint only covers the most recent value of each key.
+            if let Some(old_value) = self.get_by_hash(&change.0, None).await? {
+                let xor = hash_key_value_pair(&change.0, &old_value);
+                xor_fingerprint(&mut fingerprint, &xor);
+            }
+
             let xor = hash_key_value_pair(&change.0, &change.1);
             xor_fingerprint(&mut fingerprint, &xor);
 
             self.next_layer.changes.insert(change.0, change.1);
         }
 
+        self.next_layer.changes_xor_fingerprint = fingerprint;
+
         Ok(())
     }
 
@@ -298,7 +303,7 @@ impl Storage {
         .await?;
 
         // Reset layer-specific information to default values.
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -375,7 +380,7 @@ impl Storage {
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
 
         Ok(())
     }
-- 
2.43.0


From facc288de33d9c66649d2a92351e7881093a0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 16/39] fix: read account variables at the layer asked for

---
 crates/host/state/src/account_storage.rs | 2 +-
 crates/host/state/src/global_state.rs    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..9658282 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -133,7 +133,7 @@ impl AccountStorage {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
                 .storage()
-                .get(segment.key.as_bytes(), None)
+                .get(segment.key.as_bytes(), self.gs.layer_query_id())
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..c1ce6f8 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -167,16 +167,17 @@ impl GlobalState {
             .expect("Poisoned lock on global state storage")
     }
 
+    pub(crate) fn layer_query_id(&self) -> Option<i64> {
+        self.layer_query_parameter.map(|layer| layer.0 as i64)
+    }
+
     pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
     where
         T: Codec,
     {
         let bytes = self
             .storage()
-            .get(
-                key.as_bytes(),
-                self.layer_query_parameter.map(|layer| layer.0 as i64),
-            )
+            .get(key.as_bytes(), self.layer_query_id())
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From fa16b7393357552eed13de8d185f5a6a5c2cf8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 17/39] fix: let variables of size zero occupy no storage

---
 crates/host/state/src/account_storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index 9658282..5e3b519 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -353,6 +353,10 @@ impl Segment {
 }
 
 fn var_segments(account_addr: &Address, offset: u32, byte_size: u32) -> Vec<Segment> {
+    if byte_size == 0 {
+        return vec![];
+    }
+
     let mut remaining_size = i64::from(byte_size);
     let mut segments = vec![];
     let mut segment_index = offset as usize / SEGMENT_SIZE;
-- 
2.43.0


From aa917303d93929aec62e12aa501b3b787b201ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 18/39] fix: conserve coins in transfers to oneself and in
 refused ones

---
 crates/host/runtime/src/runtime/runtime.rs  | 11 +++++++++--
 crates/host/runtime/src/vmcalls/transfer.rs | 13 +++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..6a54bbd 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -783,11 +783,18 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+        if src_addr == dst_addr {
+            return;
+        }
+
+        let src_bal = src_bal.checked_sub(amount).unwrap();
+        let dst_bal = dst_bal.checked_add(amount).unwrap();
+
         self.tokio_rt
-            .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
+            .block_on(src_account.set_balance(src_bal))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(dst_bal))
             .unwrap();
     }
 }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..920ea1e 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,15 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    if src_addr != dst_addr {
+        let dst_balance = dst_balance
+            .checked_add(amount)
+            .expect("Overflow when increasing balance.");
+
+        rt.block_on(src_account.set_balance(src_balance - amount))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(dst_balance)).unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From 1c878ac27fbea6e970b6dd33b94a83239ece4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 19/39] fix: let a running account transfer its own coins only

---
 crates/host/runtime/src/vmcalls/transfer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 920ea1e..a7df515 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -15,7 +15,8 @@ fn read_addr(env: &FuncEnv, ptr: WasmPtr<Address>) -> Option<Address> {
 ///
 /// # Panics
 ///
-/// Panics when the destination account does not exist.
+/// Panics when the destination account does not exist, or when the source account
+/// isn't the current executing account.
 pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, amount: u64) {
     if amount == 0 {
         return;
@@ -28,6 +29,10 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     let src_addr = read_addr(env, src_addr_ptr).expect(NOT_FOUND_ERR);
     let dst_addr = read_addr(env, dst_addr_ptr).expect(NOT_FOUND_ERR);
 
+    if src_addr != env.target_addr {
+        panic!("Only the current executing account can be the source of a transfer")
+    }
+
     let mut borrow = env.borrow_mut();
     let gs = borrow.storage().gs.clone();
 
-- 
2.43.0


From 9780502e7c1c8939bbf1a0ee95d06019cabf9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 20/39] fix: return the offset of the allocated block, not its
 end

---
 crates/host/runtime/src/vmcalls/alloc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/runtime/src/vmcalls/alloc.rs b/crates/host/runtime/src/vmcalls/alloc.rs
index 6f1a01a..ab3ca66 100644
--- a/crates/host/runtime/src/vmcalls/alloc.rs
+++ b/crates/host/runtime/src/vmcalls/alloc.rs
@@ -22,7 +22,7 @@ pub fn static_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    used as u32
 }
 
 #[allow(unused)]
@@ -50,7 +50,7 @@ pub fn dynamic_alloc(env: &FuncEnv, size: u32) -> u32 {
 
     set_used_memory(env, new_used);
 
-    new_used as u32
+    used as u32
 }
 
 fn allocated_memory(env: &FuncEnv) -> u64 {
-- 
2.43.0


From 49f0bee30dce981e8f627e7bf879ff59e62267ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 21/39] fix: checkpoint pending changes when the runtime
 commits

---
 crates/host/runtime/src/runtime/runtime.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 6a54bbd..515a00e 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -723,6 +723,9 @@ impl Runtime {
 
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        self.tokio_rt
+            .block_on(self.gs.checkpoint())
+            .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
         self.tokio_rt
             .block_on(self.gs.commit())
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
-- 
2.43.0


From 4d016e34512967f7006db98f36ae6a09a3eddd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 22/39] fix: commit nothing when verifying, and only after the
 return data was read

---
 crates/host/runtime/src/runtime/runtime.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 515a00e..65a3824 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -81,7 +81,8 @@ impl Runtime {
     }
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
-        let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
+        let result =
+            self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, call, out));
         result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
 
@@ -876,13 +877,26 @@ fn commit_changes(env: &FuncEnv) -> svm_state::StorageResult<State> {
     Ok(state)
 }
 
-fn outcome_to_receipt(env: &FuncEnv, mut out: Outcome<Box<[wasmer::Val]>>) -> CallReceipt {
+fn outcome_to_receipt(
+    env: &FuncEnv,
+    call: &Call,
+    mut out: Outcome<Box<[wasmer::Val]>>,
+) -> CallReceipt {
+    // Extracting the `returndata` might fail, so it's done before committing anything.
+    let returndata = take_returndata(env);
+
+    // Without write access there is nothing to commit, the [`State`] stays the same.
+    let new_state = match call.access_mode {
+        AccessMode::FullAccess => commit_changes(env).unwrap(),
+        AccessMode::ImmutableOnly | AccessMode::AccessDenied => call.state.clone(),
+    };
+
     CallReceipt {
         version: 0,
         success: true,
         error: None,
-        returndata: Some(take_returndata(env)),
-        new_state: Some(commit_changes(&env).unwrap()),
+        returndata: Some(returndata),
+        new_state: Some(new_state),
         gas_used: out.gas_used(),
         touched_accounts: env.borrow().touched_accounts(),
         logs: out.take_logs(),
-- 
2.43.0


From e2c450d188d7c3b1bfa207a0a747d1ddc5b30ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:53 +0000
Subject: [PATCH 23/39] fix: leave nothing behind of calls and spawns that fail

---
 crates/host/runtime/src/runtime/runtime.rs | 47 +++++++++++++++++-----
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 65a3824..375803f 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -2,6 +2,7 @@ use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
 
+use std::panic::{self, AssertUnwindSafe};
 use std::sync::Arc;
 
 use svm_codec::Codec;
@@ -80,6 +81,24 @@ impl Runtime {
         svm_types::into_spawn_receipt(receipt, &target)
     }
 
+    /// Runs `f` as a single unit: when `f` fails (or panics) all changes it has made to the
+    /// [`GlobalState`] are erased. Changes that were pending before are kept.
+    fn all_or_nothing<T>(
+        &mut self,
+        f: impl FnOnce(&mut Self) -> T,
+        is_success: impl FnOnce(&T) -> bool,
+    ) -> T {
+        self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
+
+        let result = panic::catch_unwind(AssertUnwindSafe(|| f(self)));
+        let success = result.as_ref().map_or(false, is_success);
+
+        if !success {
+            self.tokio_rt.block_on(self.gs.rollback()).unwrap();
+        }
+        result.unwrap_or_else(|payload| panic::resume_unwind(payload))
+    }
+
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
         let result =
             self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, call, out));
@@ -652,16 +671,21 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
-        self.create_account(
-            &target,
-            template_addr.clone(),
-            account.name().to_string(),
-            0,
-            0,
+        self.all_or_nothing(
+            |rt| {
+                rt.create_account(
+                    &target,
+                    template_addr.clone(),
+                    account.name().to_string(),
+                    0,
+                    0,
+                )
+                .unwrap();
+
+                rt.call_ctor(&spawn, target, envelope, context, gas_left)
+            },
+            |receipt| receipt.success,
         )
-        .unwrap();
-
-        self.call_ctor(&spawn, target, envelope, context, gas_left)
     }
 
     /// Verifies a [`Transaction`](svm_types::Transaction) before execution.
@@ -711,7 +735,10 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
-        self.exec_call::<(), ()>(&call)
+        self.all_or_nothing(
+            |rt| rt.exec_call::<(), ()>(&call),
+            |receipt| receipt.success,
+        )
     }
 
     /// Moves the internal state of this [`Runtime`] back to the time of
-- 
2.43.0


From d199f23fa8de97ba4abe5873015b31e9a3c4a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:53 +0000
Subject: [PATCH 24/39] fix: free the buffers of svm_result_t exactly once

---
 crates/host/runtime-ffi/src/result.rs | 47 +++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..2652582 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -23,7 +23,7 @@ use std::ops::FromResidual;
 /// free(result->error);
 /// ```
 #[allow(non_camel_case_types)]
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug)]
 #[repr(C)]
 pub struct svm_result_t {
     receipt: *mut u8,
@@ -69,9 +69,8 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+            // `self` still owns its buffer, and frees it when dropped.
+            self.receipt().map(|bytes| bytes.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -93,6 +92,19 @@ impl svm_result_t {
         }
     }
 
+    fn error(&self) -> Option<&[u8]> {
+        if !self.error.is_null() {
+            unsafe {
+                Some(std::slice::from_raw_parts(
+                    self.error,
+                    self.buf_size as usize,
+                ))
+            }
+        } else {
+            None
+        }
+    }
+
     /// Returns whether `self` is either a receipt or simply equal to
     /// [`svm_result_t::OK`].
     ///
@@ -126,12 +138,35 @@ impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
         unsafe {
-            let _error = Vec::from_raw_parts(self.error, len, len);
-            let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+            if !self.error.is_null() {
+                let _error = Vec::from_raw_parts(self.error, len, len);
+            }
+            if !self.receipt.is_null() {
+                let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+            }
+        }
+    }
+}
+
+// Every instance owns its buffers, so clones can't share them.
+impl Clone for svm_result_t {
+    fn clone(&self) -> Self {
+        match (self.receipt(), self.error()) {
+            (Some(data), _) => Self::new_receipt(data),
+            (None, Some(data)) => Self::new_error(data),
+            (None, None) => Self::OK,
         }
     }
 }
 
+impl PartialEq for svm_result_t {
+    fn eq(&self, other: &Self) -> bool {
+        self.receipt() == other.receipt() && self.error() == other.error()
+    }
+}
+
+impl Eq for svm_result_t {}
+
 impl<E> FromResidual<Result<Infallible, E>> for svm_result_t
 where
     E: std::error::Error,
-- 
2.43.0


From db4f54dcc9522ad0afb953f5c6b37479cc8bdc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:53 +0000
Subject: [PATCH 25/39] fix: free destroyed runtimes

---
 crates/host/runtime-ffi/src/resource_tracker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 9bcb926581a0cb3ae88b89c35d678ec253936671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:53 +0000
Subject: [PATCH 26/39] fix: a failed svm_runtime_create doesn't prevent later
 ones

---
 crates/host/runtime-ffi/src/c_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..c839210 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -65,11 +65,11 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock must not be held while creating the runtime, which might panic.
+        let initialized = *INITIALIZED.lock().unwrap();
+        if !initialized {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From 87675a58529ebb46e8fea2fb0d80ffe8d7e910ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:53 +0000
Subject: [PATCH 27/39] fix: svm_get_account fills in the address

---
 crates/host/runtime-ffi/src/c_api.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index c839210..cb263b9 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -536,6 +536,7 @@ pub unsafe extern "C" fn svm_get_account(
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
         let account_data = runtime.get_account(&account_addr).unwrap();
 
+        (*account).address.clone_from_slice(account_addr.as_slice());
         (*account).balance = account_data.0;
         (*account).counter_upper_bits = (account_data.1 >> 64) as u64;
         (*account).counter_lower_bits = account_data.1 as u64;
-- 
2.43.0


From eeb65f2ca8ae2235bdd452d07b00815ae4033664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:15 +0000
Subject: [PATCH 28/39] fix: a refused rewind leaves the state usable

---
 crates/host/state/src/global_state.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index c1ce6f8..e51a182 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -146,9 +146,12 @@ impl GlobalState {
     ///
     /// Panics if `layer_id` is invalid.
     pub async fn rewind(&mut self, layer_id: Layer) -> Result<()> {
-        self.storage()
-            .rewind(layer_id.0.try_into().unwrap())
-            .await?;
+        // Panicking while the storage is locked would poison it.
+        let layer_id = layer_id.0.try_into().unwrap();
+        let (last_layer_id, _) = self.storage().last_layer().await?;
+        assert!(layer_id <= last_layer_id);
+
+        self.storage().rewind(layer_id).await?;
         Ok(())
     }
 
-- 
2.43.0


From bed3dd6f3e8432a59e5adb8adf0ac3b070d07345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 29/39] fix: compute the price of functions with unreachable
 branches

Only the sources among the unreachable blocks were cut off, so a block that
follows an unreachable one kept an edge to the reachable part, and computing
the price of the function panicked.
---
 crates/host/gas/src/graph/weight.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index dd68b1c..22f4963 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -54,13 +54,20 @@ fn prune_unreachable_nodes<L>(graph: &WeightedGraph<L>, start: L)
 where
     L: NodeLabel,
 {
-    graph
-        .source_nodes()
-        .iter()
-        .filter(|node| node.label() != start)
-        .for_each(|source| {
-            graph.remove_node(source);
-        });
+    let mut unreachable = graph.source_nodes();
+    unreachable.retain(|node| node.label() != start);
+
+    while let Some(source) = unreachable.pop() {
+        let neighbors = source.outgoing();
+        graph.remove_node(&source);
+
+        // A node whose incoming edges all came from unreachable nodes is unreachable as well
+        unreachable.extend(
+            neighbors
+                .into_iter()
+                .filter(|node| node.is_source() && node.label() != start),
+        );
+    }
 }
 
 fn construct_path<L>(graph: &WeightedGraph<L>, start: L, end: L) -> WeightedPath<L>
-- 
2.43.0


From 4237de75b1853deff406c68df24d87879f8e0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 30/39] fix: refuse conversions from floats in templates

I32TruncSF32 and friends, I32ReinterpretF32 and I64ReinterpretF64 operate on
floats as much as the conversions to floats do.
---
 crates/host/program/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..1b5a16e 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -80,6 +80,14 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64Min
         | Instruction::F64Max
         | Instruction::F64Copysign
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
         | Instruction::F32ConvertSI32
         | Instruction::F32ConvertUI32
         | Instruction::F32ConvertSI64
@@ -90,6 +98,8 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64ConvertSI64
         | Instruction::F64ConvertUI64
         | Instruction::F64PromoteF32
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64
         | Instruction::F32ReinterpretI32
         | Instruction::F64ReinterpretI64 => Err(ProgramError::FloatsNotAllowed),
         _ => Ok(()),
-- 
2.43.0


From afbbf8126a32e4eeca9e2d3a46067cc87d7a7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 31/39] fix: refuse templates that export functions they don't
 have

Validation of a template panicked when svm_alloc or svm_verify was exported
with the index of an import, of no function, or of a function of no type.
---
 crates/host/program/src/program.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..21bcb20 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -285,14 +285,18 @@ fn export_func_signature<'p>(
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
         let global = *global as usize;
-        debug_assert!(global >= import_count);
 
-        let local = global - import_count;
-        let func = &module_functions[local];
+        // An imported function can't be exported as a function SVM requires.
+        let local = global
+            .checked_sub(import_count)
+            .ok_or(ProgramError::InvalidExportKind)?;
+
+        let func = module_functions
+            .get(local)
+            .ok_or(ProgramError::InvalidWasm)?;
         let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
 
-        Ok(sig)
+        module_types.get(type_ref).ok_or(ProgramError::InvalidWasm)
     } else {
         Err(ProgramError::InvalidExportKind)
     }
-- 
2.43.0


From 540ec2260042592d6bddb0b888148bede4387690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 32/39] fix: run svm_verify with the signature templates must
 give it

Deploying requires svm_verify to be a `() -> I32` function, verifying required
`() -> ()`: no valid template could be verified.
---
 crates/host/runtime/src/runtime/runtime.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 375803f..18ccff5 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -99,9 +99,13 @@ impl Runtime {
         result.unwrap_or_else(|payload| panic::resume_unwind(payload))
     }
 
-    fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
+    fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt
+    where
+        Args: WasmTypeList,
+        Rets: WasmTypeList,
+    {
         let result =
-            self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, call, out));
+            self.exec::<Args, Rets, _, _>(&call, |env, out| outcome_to_receipt(env, call, out));
         result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
 
@@ -716,7 +720,10 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
-        self.exec_call::<(), ()>(&call)
+        //
+        // Each `Template` exports `svm_verify` as a `() -> I32` function
+        // (see the validation of a `Program`'s exports).
+        self.exec_call::<(), u32>(&call)
     }
 
     /// Executes a [`Transaction`](svm_types::Transaction) and returns its output [`CallReceipt`].
-- 
2.43.0


From 07b263c471c06f9284b39c9489e668d34d60194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 33/39] fix: codec wasm API reports a buffer that isn't UTF-8
 as an error

---
 crates/host/codec/src/api/wasm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/api/wasm/mod.rs b/crates/host/codec/src/api/wasm/mod.rs
index 4e3c8b2..5943584 100644
--- a/crates/host/codec/src/api/wasm/mod.rs
+++ b/crates/host/codec/src/api/wasm/mod.rs
@@ -175,8 +175,9 @@ where
     F: Fn(&str) -> Result<Vec<u8>, JsonError>,
 {
     let buf = Buffer::from_ptr(ptr);
-    let json_s = std::str::from_utf8(buf.as_ref()).expect("Invalid UTF-8");
-    let result = f(json_s);
+    let result = std::str::from_utf8(buf.as_ref())
+        .map_err(JsonError::from)
+        .and_then(f);
 
     result
         .map(|bytes| Buffer::alloc_ok(&bytes))
-- 
2.43.0


From 1a83abbfb24497e65e51ac8d66ba30f819f8b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 34/39] fix: JSON receipts hold any log bytes and any amount of
 gas

---
 crates/host/codec/src/api/json/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/api/json/mod.rs b/crates/host/codec/src/api/json/mod.rs
index 842fab5..05d1b0a 100644
--- a/crates/host/codec/src/api/json/mod.rs
+++ b/crates/host/codec/src/api/json/mod.rs
@@ -18,18 +18,19 @@ use serde_json::{json, Value as Json};
 
 use svm_types::{Gas, ReceiptLog};
 
-fn gas_to_json(gas: &Gas) -> i64 {
+fn gas_to_json(gas: &Gas) -> Json {
     if gas.is_some() {
-        gas.unwrap() as _
+        gas.unwrap().into()
     } else {
-        -1
+        (-1).into()
     }
 }
 
 fn logs_to_json(logs: &[ReceiptLog]) -> Vec<Json> {
     logs.iter()
         .map(|log| {
-            let data = std::str::from_utf8(log.as_bytes()).expect("Invalid UTF-8");
+            // A log may hold any bytes
+            let data = String::from_utf8_lossy(log.as_bytes());
 
             json!({
                 "data": data,
-- 
2.43.0


From e8e2e3039d38ca93c7f7249e9e204bf29d1a8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:07 +0000
Subject: [PATCH 35/39] fix: ABI decoder reports unknown type markers instead
 of panicking

---
 crates/wasm/abi-decoder/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 101ba1a..0573b83 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -101,7 +101,10 @@ impl Decoder {
             TypeKind::U32 => self.decode_u32(cursor)?.into(),
             TypeKind::I64 => self.decode_i64(cursor)?.into(),
             TypeKind::U64 => self.decode_u64(cursor)?.into(),
-            _ => svm_sdk_std::panic(),
+            TypeKind::Array => {
+                let byte = self.read_byte(cursor)?;
+                return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte)));
+            }
         };
 
         Result::Ok(value)
@@ -394,7 +397,7 @@ impl Decoder {
             | layout::ARR_9
             | layout::ARR_10 => TypeKind::Array,
 
-            _ => svm_sdk_std::panic(),
+            _ => return Result::Err(DecodeError::Type(TypeError::InvalidTypeKind(byte))),
         };
 
         Result::Ok(kind)
-- 
2.43.0


From cdaa2630169b5fd14f7922f09620c24f9eabf6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:07 +0000
Subject: [PATCH 36/39] fix: JSON API reports inputs it can't encode or decode
 as errors

---
 crates/host/codec/src/api/json/call.rs      |  19 ++--
 crates/host/codec/src/api/json/inputdata.rs | 113 ++++++++++++--------
 crates/host/codec/src/api/json/receipt.rs   |   6 +-
 crates/host/codec/src/api/json/spawn.rs     |   9 +-
 4 files changed, 84 insertions(+), 63 deletions(-)

diff --git a/crates/host/codec/src/api/json/call.rs b/crates/host/codec/src/api/json/call.rs
index 4fbf9b8..644e55c 100644
--- a/crates/host/codec/src/api/json/call.rs
+++ b/crates/host/codec/src/api/json/call.rs
@@ -43,8 +43,8 @@ pub fn encode_call_raw(json: &str) -> Result<Vec<u8>, JsonError> {
         version: get_field(json, "version")?,
         target: get_field::<AddressWrapper>(json, "target")?.into(),
         func_name: get_field(json, "func_name")?,
-        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode(),
-        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode(),
+        verifydata: get_field::<EncodedOrDecodedCalldata>(json, "verifydata")?.encode()?,
+        calldata: get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode()?,
     }
     .encode_to_vec())
 }
@@ -65,13 +65,8 @@ pub fn decode_call(json: &str) -> Result<Json, JsonError> {
         path: json.to_string(),
     })?;
 
-    let verifydata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.verifydata()).unwrap().to_string()).unwrap(),
-    );
-
-    let calldata = EncodedOrDecodedCalldata::Decoded(
-        DecodedInputData::new(&decode_raw_input(tx.calldata()).unwrap().to_string()).unwrap(),
-    );
+    let verifydata = decode_raw_input(tx.verifydata())?;
+    let calldata = decode_raw_input(tx.calldata())?;
 
     Ok(json!({
         "version": tx.version,
@@ -92,10 +87,10 @@ pub(crate) enum EncodedOrDecodedCalldata {
 }
 
 impl EncodedOrDecodedCalldata {
-    pub fn encode(self) -> Vec<u8> {
+    pub fn encode(self) -> Result<Vec<u8>, JsonError> {
         match self {
-            Self::Encoded(encoded) => encoded.0,
-            Self::Decoded(decoded) => decoded.encode().unwrap(),
+            Self::Encoded(encoded) => Ok(encoded.0),
+            Self::Decoded(decoded) => decoded.encode(),
         }
     }
 }
diff --git a/crates/host/codec/src/api/json/inputdata.rs b/crates/host/codec/src/api/json/inputdata.rs
index d7fca6a..318ea8a 100644
--- a/crates/host/codec/src/api/json/inputdata.rs
+++ b/crates/host/codec/src/api/json/inputdata.rs
@@ -4,7 +4,7 @@ use serde_json::Value as Json;
 
 use std::convert::TryFrom;
 
-use svm_abi_decoder::CallData;
+use svm_abi_decoder::{Cursor, Decoder};
 use svm_abi_encoder::{ByteSize, Encoder};
 use svm_sdk_types::value::{Composite, Primitive, Value as SdkValue};
 use svm_sdk_types::{Address, Amount};
@@ -24,13 +24,32 @@ use crate::api::json::JsonError;
 /// ```
 pub fn encode_inputdata(json: &str) -> Result<Json, JsonError> {
     let decoded = DecodedInputData::new(json)?;
-    let calldata = HexBlob(decoded.encode().unwrap());
+    let calldata = HexBlob(decoded.encode()?);
     Ok(json!({ "data": calldata }))
 }
 
 pub fn decode_raw_input(data: &[u8]) -> Result<Json, JsonError> {
-    let calldata = CallData::new(data);
-    Ok(calldata_to_json(calldata))
+    let invalid = || JsonError::InvalidField {
+        path: "data".to_string(),
+    };
+
+    let decoder = Decoder::new();
+    let mut cursor = Cursor::new(data);
+
+    let mut abi = vec![];
+    let mut data = vec![];
+
+    while !cursor.is_eof() {
+        let value = match decoder.decode_value(&mut cursor) {
+            svm_sdk_std::Result::Ok(value) => value,
+            svm_sdk_std::Result::Err(..) => return Err(invalid()),
+        };
+
+        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value).ok_or_else(invalid)?);
+        data.push(sdk_value_utils::sdk_value_to_json(value).ok_or_else(invalid)?);
+    }
+
+    Ok(json!({ "abi": abi, "data": data }))
 }
 
 /// Given a binary `Calldata` (wrapped within a JSON), decodes it into a JSON
@@ -38,7 +57,7 @@ pub fn decode_inputdata(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    Ok(calldata_to_json(CallData::new(&encoded_data)))
+    decode_raw_input(&encoded_data)
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -54,13 +73,7 @@ impl DecodedInputData {
         let abi = get_field::<Vec<TySig>>(json, "abi")?;
         let data = get_field::<Vec<Json>>(json, "data")?;
 
-        if abi.len() != data.len() {
-            Err(JsonError::InvalidField {
-                path: "data".to_string(),
-            })
-        } else {
-            Ok(Self { abi, data })
-        }
+        Ok(Self { abi, data })
     }
 
     /// Like `Self::zip`, but in borrowed form.
@@ -79,6 +92,12 @@ impl DecodedInputData {
     }
 
     pub fn encode(self) -> Result<Vec<u8>, JsonError> {
+        if self.abi.len() != self.data.len() {
+            return Err(JsonError::InvalidField {
+                path: "data".to_string(),
+            });
+        }
+
         let cap = self.cap()?;
         let mut buf = svm_sdk_std::Vec::with_capacity(cap);
 
@@ -89,18 +108,6 @@ impl DecodedInputData {
     }
 }
 
-pub(crate) fn calldata_to_json(mut calldata: CallData) -> Json {
-    let mut abi = vec![];
-    let mut data = vec![];
-
-    while let Some(value) = calldata.next().into() {
-        abi.push(sdk_value_utils::ty_sig_of_sdk_value(&value));
-        data.push(sdk_value_utils::sdk_value_to_json(value));
-    }
-
-    json!({ "abi": abi, "data": data })
-}
-
 mod sdk_value_utils {
     use svm_types::{Address, BytesPrimitive};
 
@@ -110,8 +117,8 @@ mod sdk_value_utils {
     /// JSON value. This function, together with [`ty_sig_of_sdk_value`], can
     /// give a **ful** overview over some values, with both its type signature
     /// and its value.
-    pub fn sdk_value_to_json(value: SdkValue) -> Json {
-        match value {
+    pub fn sdk_value_to_json(value: SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(x) => json!(x),
                 Primitive::I8(x) => json!(x),
@@ -124,21 +131,23 @@ mod sdk_value_utils {
                 Primitive::U64(x) => json!(x),
                 Primitive::Amount(x) => json!(x.0),
                 Primitive::Address(x) => json!(AddressWrapper(Address::new(x.as_slice()))),
-                _ => unreachable!(),
+                _ => return None,
             },
             SdkValue::Composite(Composite::Vec(values)) => Json::Array(
                 values
                     .into_iter()
                     .map(|sdk_value| sdk_value_to_json(sdk_value))
-                    .collect(),
+                    .collect::<Option<_>>()?,
             ),
-        }
+        };
+
+        Some(json)
     }
 
     /// Given a [`svm_sdk_types::value::Value`], encodes its type signature as a
     /// JSON value.
-    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Json {
-        match value {
+    pub fn ty_sig_of_sdk_value(value: &SdkValue) -> Option<Json> {
+        let json = match value {
             SdkValue::Primitive(prim) => match prim {
                 Primitive::Bool(_) => "bool",
                 Primitive::I8(_) => "i8",
@@ -151,7 +160,7 @@ mod sdk_value_utils {
                 Primitive::U64(_) => "u64",
                 Primitive::Amount(_) => "amount",
                 Primitive::Address(_) => "address",
-                _ => unreachable!(),
+                _ => return None,
             }
             .into(),
             SdkValue::Composite(Composite::Vec(values)) => {
@@ -159,10 +168,12 @@ mod sdk_value_utils {
                     Json::Null
                 } else {
                     let ty = &values.last().unwrap();
-                    Json::Array(vec![ty_sig_of_sdk_value(ty)])
+                    Json::Array(vec![ty_sig_of_sdk_value(ty)?])
                 }
             }
-        }
+        };
+
+        Some(json)
     }
 
     pub fn sdk_value_from_json(json: Json, ty_sig: TySigPrim) -> Option<SdkValue> {
@@ -211,9 +222,7 @@ impl TySig {
     fn value_byte_size(&self, value: &Json) -> Result<usize, JsonError> {
         let byte_size = match self {
             TySig::Array(types) => {
-                assert_eq!(types.len(), 1);
-
-                let ty = &types[0];
+                let ty = array_elem_ty(types)?;
 
                 // we initialize `byte_size` for the `length` marker.
                 let mut byte_size = 1;
@@ -289,17 +298,31 @@ fn encode_value(ty: TySig, value: Json) -> Result<SdkValue, JsonError> {
     }
 }
 
-fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
-    assert_eq!(types.len(), 1);
+/// The encoding of `Input Data` has no longer arrays
+const MAX_ARRAY_LEN: usize = 10;
+
+/// The type signature of an array holds the single (primitive) type of its elements
+fn array_elem_ty(types: &[TySig]) -> Result<&TySig, JsonError> {
+    match types {
+        [ty @ TySig::Prim(..)] => Ok(ty),
+        _ => Err(JsonError::InvalidField {
+            path: "abi".to_string(),
+        }),
+    }
+}
 
-    let ty = &types[0];
+fn encode_array(types: &[TySig], mut value: Json) -> Result<SdkValue, JsonError> {
+    let ty = array_elem_ty(types)?;
 
     let mut value = value.take();
-    let elems = value.as_array_mut().ok_or(JsonError::InvalidField {
-        path: "calldata".to_string(),
-    })?;
-
-    let mut vec = svm_sdk_std::Vec::with_capacity(10);
+    let elems = value
+        .as_array_mut()
+        .filter(|elems| elems.len() <= MAX_ARRAY_LEN)
+        .ok_or(JsonError::InvalidField {
+            path: "calldata".to_string(),
+        })?;
+
+    let mut vec = svm_sdk_std::Vec::with_capacity(MAX_ARRAY_LEN);
 
     for elem in elems.iter_mut() {
         let elem = encode_value(ty.clone(), elem.take())?;
diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index 720968b..dd38d27 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -13,9 +13,9 @@ pub fn decode_receipt(json: &str) -> Result<Value, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    assert!(encoded_data.len() > 0);
-
-    let receipt = Receipt::decode_bytes(encoded_data).unwrap();
+    let receipt = Receipt::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+        path: "data".to_string(),
+    })?;
     let ty = receipt_type(&receipt);
 
     let json = if receipt.success() {
diff --git a/crates/host/codec/src/api/json/spawn.rs b/crates/host/codec/src/api/json/spawn.rs
index db0582b..dd43e0a 100644
--- a/crates/host/codec/src/api/json/spawn.rs
+++ b/crates/host/codec/src/api/json/spawn.rs
@@ -25,7 +25,7 @@ pub fn encode_spawn(json: &str) -> Result<Vec<u8>, JsonError> {
     let template_addr = get_field::<TemplateAddrWrapper>(json, "template")?.into();
     let name = get_field(json, "name")?;
     let ctor_name = get_field(json, "ctor_name")?;
-    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode();
+    let calldata = get_field::<EncodedOrDecodedCalldata>(json, "calldata")?.encode()?;
 
     Ok(SpawnAccount {
         version,
@@ -42,8 +42,11 @@ pub fn decode_spawn(json: &str) -> Result<Json, JsonError> {
     let json = &mut parse_json(json)?;
     let encoded_data = get_field::<HexBlob<Vec<u8>>>(json, "data")?.0;
 
-    let spawn = SpawnAccount::decode_bytes(encoded_data).unwrap();
-    let decoded_calldata = decode_raw_input(&spawn.calldata).unwrap();
+    let spawn =
+        SpawnAccount::decode_bytes(encoded_data).map_err(|_| JsonError::InvalidField {
+            path: "data".to_string(),
+        })?;
+    let decoded_calldata = decode_raw_input(&spawn.calldata)?;
 
     Ok(json!({
         "version": spawn.version,
-- 
2.43.0


From 7dec2fa60ebe5c091f54709f0169c06fdcf5bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:51 +0000
Subject: [PATCH 37/39] fix: queries render balances and report mismatching
 data instead of panicking

---
 crates/host/query/src/render.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/host/query/src/render.rs b/crates/host/query/src/render.rs
index 1eb6f71..647fd5a 100644
--- a/crates/host/query/src/render.rs
+++ b/crates/host/query/src/render.rs
@@ -18,6 +18,11 @@ pub struct JsonVarRenderer;
 impl VarRenderer<Value> for JsonVarRenderer {
     /// Renders the variable's raw `bytes` using its metadata (using `var`).
     fn render(var: &Var, bytes: &[u8]) -> Option<Value> {
+        if bytes.len() != var.layout.length {
+            // The raw data doesn't match the variable's layout
+            return None;
+        }
+
         match var.ty {
             VarType::Int(is_signed) => Self::render_int(var, bytes, is_signed),
             VarType::Bool => Self::render_bool(var, bytes),
@@ -33,7 +38,7 @@ impl JsonVarRenderer {
     fn render_int(var: &Var, bytes: &[u8], is_signed: bool) -> Option<Value> {
         let length = var.layout.length;
 
-        if length > 8 {
+        if length == 0 || length > 8 {
             // Currently, an integer can be at most 8 bytes
             return None;
         }
@@ -54,16 +59,14 @@ impl JsonVarRenderer {
         Some(Value::Number(num))
     }
 
-    fn render_balance(_var: &Var, _bytes: &[u8]) -> Option<Value> {
-        todo!()
+    fn render_balance(var: &Var, bytes: &[u8]) -> Option<Value> {
+        Self::render_int(var, bytes, false)
     }
 
     fn render_bool(_var: &Var, bytes: &[u8]) -> Option<Value> {
-        assert_eq!(bytes.len(), 1);
-
-        let value = match bytes[0] {
-            0 => false,
-            1 => true,
+        let value = match bytes {
+            [0] => false,
+            [1] => true,
             _ => return None,
         };
 
-- 
2.43.0


From 711ef6310dbd5ae434716283c1cb6257e5467697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:42 +0000
Subject: [PATCH 38/39] fix: get32 refuses variables of more than 32 bits as
 documented

---
 crates/host/runtime/src/vmcalls/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/storage.rs b/crates/host/runtime/src/vmcalls/storage.rs
index 6f46843..ebf22ed 100644
--- a/crates/host/runtime/src/vmcalls/storage.rs
+++ b/crates/host/runtime/src/vmcalls/storage.rs
@@ -11,7 +11,7 @@ pub fn get32(env: &FuncEnv, var_id: u32) -> u32 {
     let rt = env.tokio_rt.clone();
     let borrow = env.borrow();
     let storage = borrow.storage();
-    rt.block_on(storage.get_var_i64(var_id)).unwrap() as u32
+    rt.block_on(storage.get_var_i32(var_id)).unwrap() as u32
 }
 
 /// Sets the data of variable `var_id` to Little-Endian representation of `value`.
-- 
2.43.0


From 8a39baf9ea2bd770ec231df02ecff2f5ee11a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:49 +0000
Subject: [PATCH 39/39] fix: failed checkpoints and commits lose no changes and
 can be repeated

---
 crates/host/state/src/storage.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 9650a65..0b3a0b8 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -241,19 +241,25 @@ impl Storage {
         let mut fingerprint = self.next_layer.changes_xor_fingerprint;
         let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
-        for change in dirty_changes {
+        for (key_hash, value) in &dirty_changes {
             // The fingerprint only covers the most recent value of each key.
-            if let Some(old_value) = self.get_by_hash(&change.0, None).await? {
-                let xor = hash_key_value_pair(&change.0, &old_value);
-                xor_fingerprint(&mut fingerprint, &xor);
+            match self.get_by_hash(key_hash, None).await {
+                Ok(Some(old_value)) => {
+                    let xor = hash_key_value_pair(key_hash, &old_value);
+                    xor_fingerprint(&mut fingerprint, &xor);
+                }
+                Ok(None) => {}
+                Err(err) => {
+                    self.dirty_changes = dirty_changes;
+                    return Err(err);
+                }
             }
 
-            let xor = hash_key_value_pair(&change.0, &change.1);
+            let xor = hash_key_value_pair(key_hash, value);
             xor_fingerprint(&mut fingerprint, &xor);
-
-            self.next_layer.changes.insert(change.0, change.1);
         }
 
+        self.next_layer.changes.extend(dirty_changes);
         self.next_layer.changes_xor_fingerprint = fingerprint;
 
         Ok(())
@@ -265,15 +271,17 @@ impl Storage {
         }
 
         let layer_id = self.next_layer.id;
-        let layer_changes = std::mem::take(&mut self.next_layer.changes);
         let mut fingerprint = self.layer_fingerprint(layer_id - 1, true).await?;
         xor_fingerprint(&mut fingerprint, &self.next_layer.changes_xor_fingerprint);
+
+        // An earlier attempt to commit this layer might have failed halfway.
+        self.delete_bad_layers().await?;
         self.insert_layer(layer_id, fingerprint, false).await?;
 
         // Note: SQLx 0.5 doesn't support bulk inserts. So, we must resort to
         // "futures" magic instead.
-        let mut inserts = Vec::with_capacity(layer_changes.len());
-        for (key_hash, value) in layer_changes {
+        let mut inserts = Vec::with_capacity(self.next_layer.changes.len());
+        for (key_hash, value) in &self.next_layer.changes {
             inserts.push(
                 sqlx::query(
                     r#"
@@ -282,7 +290,7 @@ impl Storage {
                     "#,
                 )
                 .bind(key_hash.0.to_vec())
-                .bind(value)
+                .bind(value.as_slice())
                 .bind(layer_id)
                 .execute(&self.sqlite),
             );
@@ -303,6 +311,7 @@ impl Storage {
         .await?;
 
         // Reset layer-specific information to default values.
+        self.next_layer.changes.clear();
         self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
-- 
2.43.0

