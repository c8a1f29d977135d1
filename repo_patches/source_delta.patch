From b0d1e980c84cb9078980f81f613988f306f58804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 01/24] fix: size the master keys so that every allowed
 attribute value has a component

Attribute values run from 1 to max_attribute_creations included, but only
max_attribute_creations components (0..max) were generated: encrypting for the
last attribute panicked and generating a key for it failed.
---
 src/core/engine.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..6a3e60a 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use sha3::{
     digest::{ExtendableOutput, Update, XofReader},
     Shake256,
@@ -44,8 +46,13 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
-        self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+        // attribute values range from 1 to `max_attribute_creations` (included)
+        let size = usize::try_from(policy.max_attribute_creations)?
+            .checked_add(1)
+            .ok_or_else(|| {
+                FormatErr::InvalidSize("too many attribute creations allowed".to_string())
+            })?;
+        self.sch.generate_master_key(size)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From c252f01f23f219c3f03442f45b037aecf48f090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 02/24] fix: return an error when encrypting for an attribute
 missing from the public key

The attribute values themselves were never checked against the size of the
public key (only their number was): an out of range value panicked.
---
 src/core/gpsw/scheme.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..d3bd96f 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -489,11 +489,10 @@ impl<G: BilinearMap> Gpsw<G> {
         gamma: &[u32],
         pub_key: &GpswMasterPublicKey<G>,
     ) -> Result<GpswCipherText<G>, FormatErr> {
-        if pub_key.t_i.len() <= gamma.len() {
+        if let Some(attr) = gamma.iter().find(|i| **i as usize >= pub_key.t_i.len()) {
             return Err(FormatErr::InternalOperation(format!(
-                "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
-                gamma.len(),
-                pub_key.t_i.len() - 1
+                "invalid attributes: gamma value incorrect (value: {attr}, public key size: {})",
+                pub_key.t_i.len()
             )));
         }
         let s = self.group.gen_random_scalar()?;
-- 
2.43.0


From 258a196b25986ba2c3359d2b142d1520f34c1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 03/24] fix: return an error when delegating with a delegation
 key lacking an attribute

The index was not checked and an out of range attribute panicked.
---
 src/core/gpsw/scheme.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index d3bd96f..e3ac331 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute missing from the delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +466,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute missing from the delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-- 
2.43.0


From f90b3e8684ec7fa3bb587cd57100370ac1a670c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 04/24] fix: return an error when the master private key holds
 a null component

A null scalar is accepted when deserializing the key; generating a user key
with it then panicked on a division by zero.
---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index e3ac331..e60d988 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -382,6 +382,11 @@ impl<G: BilinearMap> Gpsw<G> {
                 ));
             }
             let t_rho_i = &priv_key.t_i[attribute];
+            if *t_rho_i == G::ZERO {
+                return Err(FormatErr::InternalOperation(
+                    "invalid master private key: null component".to_string(),
+                ));
+            }
             let di = self.group.g1_gen_exp(&(prod_scal / t_rho_i));
             big_d_i.push(di.0);
             big_raw_d_i.push(di.1)
-- 
2.43.0


From 1a35c4ff8efbf652be9795beca4425090c4d04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 05/24] fix: return an error when deserializing an i32 from
 less than 4 bytes

---
 src/core/gpsw/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..24628bd 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
-- 
2.43.0


From eec87fa1f067882f9d0ba78371c12189f1e9c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 06/24] fix: reject null or oversized element counts when
 deserializing vectors

A null count underflowed `len - 1` and a large one could overflow the size
computation on 32 bit targets.
---
 src/core/gpsw/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 24628bd..399c048 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -80,7 +80,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
@@ -89,7 +89,8 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         let res0 = T::try_from_bytes(&bytes[4..])?;
         let res0_len_bytes = res0.len_bytes();
 
-        if 4 + (len - 1) * res0_len_bytes >= bytes.len() {
+        // `bytes` holds more than 4 bytes
+        if len - 1 > (bytes.len() - 5) / res0_len_bytes {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From b899b182eea4b3d9c4f07d2cff3e52420188147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 07/24] fix: check the dimensions of a span program before
 using them

Memory was reserved for the claimed number of columns before comparing it with
the size of the input (a 12 byte input could reserve 128 GB and abort the
process), and empty dimensions were accepted.
---
 src/core/msp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..2f93eb5 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,7 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        if nb_row == 0 || nb_col == 0 || nb_row > (bytes.len() - 8) / 4 {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
@@ -71,14 +71,15 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
             }
         }
 
-        let mut matrix = Vec::with_capacity(nb_row);
-        let mut row = Vec::with_capacity(nb_col);
-        row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
+        let first = I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?;
+        if nb_col > (bytes.len() - 8 - (4 * nb_row)) / first.len_bytes() / nb_row {
             return Err(FormatErr::InvalidSize(
                 "invalid matrix size read from bytes".to_string(),
             ));
         }
+        let mut matrix = Vec::with_capacity(nb_row);
+        let mut row = Vec::with_capacity(nb_col);
+        row.push(first);
         for c in 1..nb_col {
             let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
             row.push(I::try_from_bytes(&bytes[index..])?);
-- 
2.43.0


From f75a43cff02eee0fee446402bd415c86118db297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 08/24] fix: reject user keys whose components do not match
 their span program

Decrypting with, or delegating from, such a key panicked on an out of range
index.
---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index e60d988..69e7c8e 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "the number of components of the key does not match its span program".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
-- 
2.43.0


From 14e1dbbe5245360706563f37e789a86eb4103293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 09/24] fix: reject cipher texts whose components do not match
 their attributes

Decrypting such a cipher text panicked on an out of range index.
---
 src/core/gpsw/scheme.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 69e7c8e..af839b3 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -221,6 +221,12 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma = Vec::<u32>::try_from_bytes(&bytes[0..])?;
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
+        if e_i.len() != gamma.len() {
+            return Err(FormatErr::Deserialization(
+                "the number of components of the cipher text does not match its attributes"
+                    .to_string(),
+            ));
+        }
         let e_i_len = e_i.len_bytes();
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
-- 
2.43.0


From 24a5a1831f2eeb7c5c13697a9e5ce0fc6c555869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 10/24] fix: check the symmetric key size when deserializing
 hybrid headers

A key size larger than the input panicked on an out of range slice.
---
 src/interfaces/hybrid_crypto/statics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..d1782e6 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -38,6 +38,9 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if symmetric_key_len > header.len() - 4 {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
@@ -74,6 +77,9 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if symmetric_key_len > header.len() - 4 {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `meta_data`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
-- 
2.43.0


From f3f6b3fa88855445407546724ab8169c447fdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 11/24] fix: check the sizes announced in a hybrid header on 32
 bit targets

The largest sizes overflowed the position in the scanned bytes and trapped the
WASM module instead of returning an error.
---
 src/interfaces/hybrid_crypto/statics.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index d1782e6..8eb0f9e 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -161,6 +161,7 @@ where
         .read_u32()
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
         as usize;
+    check_announced_size(encrypted_symmetric_key_size, encrypted_header)?;
     let encrypted_symmetric_key = scanner
         .next(encrypted_symmetric_key_size)
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
@@ -189,6 +190,8 @@ where
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?
             as usize;
 
+        check_announced_size(encrypted_metadata_size, encrypted_header)?;
+
         // UID
         let encrypted_metadata = scanner
             .next(encrypted_metadata_size)
@@ -291,6 +294,19 @@ where
     Ok(block.clear_text_owned())
 }
 
+// The size announced for a part of the header cannot exceed that of the header.
+// This is to be checked first: on 32 bit targets, adding the largest sizes to
+// the current position overflows.
+fn check_announced_size(size: usize, header: &[u8]) -> Result<(), FormatErr> {
+    if size > header.len() {
+        return Err(FormatErr::InvalidSize(format!(
+            "{size} bytes announced in a header of {} bytes",
+            header.len()
+        )));
+    }
+    Ok(())
+}
+
 // Attempt getting the length of this slice as an u32 in 4 big endian bytes and
 // return an error if it overflows
 fn u32_len(slice: &[u8]) -> Result<[u8; 4], CryptoBaseError> {
-- 
2.43.0


From be9a170c064e6f8d9c16f6aeb536b3f74bd0c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 12/24] fix: h_get_encrypted_header_size must not abort on
 inputs shorter than 4 bytes

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..7f024a7 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
-- 
2.43.0


From 1c7e519e4bda0fbf1304a2ba65a34707bd38b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 13/24] fix: [pyo3] decrypt must raise a regular error on
 truncated data

A header size larger than the data panicked on an out of range slice.
---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..f98b0b9 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,8 +250,13 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
-    let header = &encrypted_bytes[4..4 + header_size as usize];
-    let ciphertext = &encrypted_bytes[4 + header_size as usize..];
+    if header_size as usize > encrypted_bytes.len() - 4 {
+        return Err(PyTypeError::new_err(format!(
+            "Invalid header size: {header_size}, only {} bytes available",
+            encrypted_bytes.len() - 4
+        )));
+    }
+    let (header, ciphertext) = encrypted_bytes[4..].split_at(header_size as usize);
 
     let cleartext_header = internal_decrypt_hybrid_header(&user_decryption_key_bytes, header)?;
 
-- 
2.43.0


From 26220684ecaf4f2d4e75f0442e61cc3e04256703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 14/24] fix: [pyo3] generate_policy must not truncate the
 maximum number of attributes

---
 src/interfaces/pyo3/generate_gpsw_keys.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 6b0c596..ae8b2c5 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -1,3 +1,5 @@
+use std::convert::TryInto;
+
 use pyo3::{exceptions::PyTypeError, prelude::*};
 
 use crate::core::{
@@ -116,7 +118,7 @@ pub fn generate_policy(
 ) -> PyResult<Vec<u8>> {
     let policy_axis: Vec<PolicyAxis> = serde_json::from_slice(&policy_axis_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy Axis deserialization failed: {e}")))?;
-    let mut policy = Policy::new(max_attribute_creations as u32);
+    let mut policy = Policy::new(max_attribute_creations.try_into()?);
     for axis in &policy_axis {
         let attrs = axis
             .attributes
-- 
2.43.0


From 6ec55331f4adadc4d812db4ee041bdd3eab06c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 15/24] fix: [wasm] return an error when using an unknown cache
 handle

The panic trapped the module while holding the read lock of the cache map, so
that no cache could be created or destroyed afterwards.
---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 2 +-
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..356d8f0 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -158,7 +158,7 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
         .expect("a read mutex on the decryption cache failed");
     let cache = map
         .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+        .ok_or_else(|| JsValue::from_str("Hybrid Cipher: no decryption cache with handle"))?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..c04c343 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -155,7 +155,7 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
         .expect("a read mutex on the encryption cache failed");
     let cache = map
         .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+        .ok_or_else(|| JsValue::from_str("Hybrid Cipher: no encryption cache with handle"))?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From d4c61451456f6e2ae9dd2e0dc2b94ef80627c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 16/24] fix: report the required size when a block buffer is
 too small

As all the other functions do (see 1.1.1 in the changelog).
---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 7f024a7..731cda6 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -755,6 +755,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     let allocated = *encrypted_len;
     let len = encrypted_block.len();
+    *encrypted_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated encrypted bytes buffer is too small; need {} bytes",
@@ -763,7 +764,6 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
     }
     std::slice::from_raw_parts_mut(encrypted_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *encrypted_len = len as c_int;
 
     0
 }
@@ -831,6 +831,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     let allocated = *clear_text_len;
     let len = encrypted_block.len();
+    *clear_text_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated clear text buffer is too small; need {} bytes",
@@ -839,7 +840,6 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
     }
     std::slice::from_raw_parts_mut(clear_text_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *clear_text_len = len as c_int;
 
     0
 }
-- 
2.43.0


From 959aa7d2420238e3c9486025ad1f747aaf572c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 17/24] fix: return an error when an attribute of an axis has
 no value in the policy

Such a policy can be deserialized; generating a user key with it panicked.
---
 src/core/msp.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 2f93eb5..fca6585 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -446,6 +446,17 @@ fn policy_to_formula(policy: &Policy, axis: &AccessPolicy) -> Result<Node, Forma
     })
 }
 
+// All the values successively given to an attribute
+fn attribute_values<'a>(
+    policy: &'a Policy,
+    attr: &Attribute,
+) -> Result<&'a BinaryHeap<u32>, FormatErr> {
+    policy
+        .attribute_to_int
+        .get(attr)
+        .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))
+}
+
 // Convert an Attribute to a Node for msp computation
 // take care of the hierarchical mode
 // In hierarchical, return the Or of all lower attributes
@@ -456,7 +467,7 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
+            let mut val = attribute_values(policy, attr)?
                 .iter()
                 .map(|attr| Node::Leaf(*attr))
                 .reduce(std::ops::BitOr::bitor)
@@ -467,7 +478,7 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
+                        | attribute_values(policy, &(attr.axis.clone(), elem.clone()).into())?
                             .iter()
                             .map(|attr| Node::Leaf(*attr))
                             .reduce(std::ops::BitOr::bitor)
-- 
2.43.0


From a1d5caff74e45b7f5efdfc8f6d0638aa7fc47bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 18/24] fix: [ffi] reject null length pointers and negative
 lengths

They were dereferenced, or taken as huge unsigned sizes: a negative capacity let
the output be written past the end of the caller's buffer.
---
 src/interfaces/ffi/generate_gpsw_keys.rs | 20 ++++-
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 96 ++++++++++++++++++------
 2 files changed, 90 insertions(+), 26 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..21129f3 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,7 +33,11 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
-    if *master_keys_len == 0 {
+    ffi_not_null!(
+        master_keys_len,
+        "The `master_keys_len` pointer should not be null"
+    );
+    if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -111,14 +115,18 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
-    if *user_private_key_len == 0 {
+    ffi_not_null!(
+        user_private_key_len,
+        "The `user_private_key_len` pointer should not be null"
+    );
+    if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len <= 0 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -213,7 +221,11 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
-    if *new_policy_len == 0 {
+    ffi_not_null!(
+        new_policy_len,
+        "The `new_policy_len` pointer should not be null"
+    );
+    if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 731cda6..234ae78 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,9 +71,10 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -142,14 +143,22 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(
+        symmetric_key_len,
+        "The `symmetric_key_len` pointer should not be null"
+    );
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    ffi_not_null!(
+        header_bytes_len,
+        "The `header_bytes_len` pointer should not be null"
+    );
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -179,6 +188,9 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
+    if !uid_ptr.is_null() && uid_len < 0 {
+        ffi_bail!("The `uid_len` should not be negative");
+    }
     let uid = if uid_ptr.is_null() || uid_len == 0 {
         vec![]
     } else {
@@ -186,6 +198,9 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     };
 
     // additional data
+    if !additional_data_ptr.is_null() && additional_data_len < 0 {
+        ffi_bail!("The `additional_data_len` should not be negative");
+    }
     let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
         None
     } else {
@@ -260,19 +275,27 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(
+        symmetric_key_len,
+        "The `symmetric_key_len` pointer should not be null"
+    );
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    ffi_not_null!(
+        header_bytes_len,
+        "The `header_bytes_len` pointer should not be null"
+    );
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -307,6 +330,9 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
+    if !uid_ptr.is_null() && uid_len < 0 {
+        ffi_bail!("The `uid_len` should not be negative");
+    }
     let uid = if uid_ptr.is_null() || uid_len == 0 {
         vec![]
     } else {
@@ -314,6 +340,9 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     };
 
     // additional data
+    if !additional_data_ptr.is_null() && additional_data_len < 0 {
+        ffi_bail!("The `additional_data_len` should not be negative");
+    }
     let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
         None
     } else {
@@ -398,11 +427,12 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -465,14 +495,18 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(
+        symmetric_key_len,
+        "The `symmetric_key_len` pointer should not be null"
+    );
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -513,7 +547,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -528,7 +562,10 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null()
+        && !additional_data_len.is_null()
+        && *additional_data_len > 0
+    {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -598,21 +635,25 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(
+        symmetric_key_len,
+        "The `symmetric_key_len` pointer should not be null"
+    );
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -648,7 +689,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -663,7 +704,10 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null()
+        && !additional_data_len.is_null()
+        && *additional_data_len > 0
+    {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -714,7 +758,11 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
-    if *encrypted_len == 0 {
+    ffi_not_null!(
+        encrypted_len,
+        "The `encrypted_len` pointer should not be null"
+    );
+    if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -723,7 +771,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -739,7 +787,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -786,7 +834,11 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
-    if *clear_text_len == 0 {
+    ffi_not_null!(
+        clear_text_len,
+        "The `clear_text_len` pointer should not be null"
+    );
+    if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -795,7 +847,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -811,7 +863,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0


From 86fcb7480b9dada72f2f9ff427b2160dff5626d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 19/24] fix: [ffi] do not truncate the last error in the middle
 of an UTF-8 character

---
 src/interfaces/ffi/error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..aa366da 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -189,7 +189,11 @@ pub unsafe extern "C" fn get_last_error(
 
     // leave a space for a null byte at the end if the string exceeds the buffer
     // The actual bytes size, not taking into account the final NULL
-    let actual_len = std::cmp::min((*error_len - 1) as usize, bytes.len());
+    let mut actual_len = std::cmp::min((*error_len - 1) as usize, bytes.len());
+    // the message is UTF-8: do not cut it in the middle of a character
+    while actual_len < bytes.len() && bytes[actual_len] & 0xC0 == 0x80 {
+        actual_len -= 1;
+    }
 
     // create a 0 initialized vector with the message
     let mut result = vec![0; *error_len as usize];
-- 
2.43.0


From 7da5d23ec68f385edfe2017e82083e1f797fa698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 20/24] fix: delegate by replacing an Or node by an And node

This rewriting is documented as allowed (and used in the demo: from the super
delegate, holding an Or of all the attributes, to a conjunction), but the shares
held by the children of the Or node were kept as they are, so that the And of
them no longer reconstructed the secret: the delegated key silently decrypted
to random data. The shares now are scaled first; when that is not possible, the
policy is not more restrictive and an error is returned instead of a useless
key.
---
 src/core/gpsw/scheme.rs | 60 +++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index af839b3..c8d3d83 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -409,7 +409,7 @@ impl<G: BilinearMap> Gpsw<G> {
         })
     }
 
-    // assume the msp is more restrictive, otherwise the key will be useless
+    // the msp must be more restrictive, otherwise an error is returned
     pub fn key_delegation(
         &self,
         msp: &MonotoneSpanProgram<i32>,
@@ -427,6 +427,14 @@ impl<G: BilinearMap> Gpsw<G> {
                 u
             }
         };
+        // rows of the user key for the attributes of the msp
+        let rows = (0..msp.rows())
+            .map(|i| user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)))
+            .collect::<Option<Vec<_>>>()
+            .ok_or_else(|| {
+                FormatErr::InternalOperation("new attribute is not allowed".to_string())
+            })?;
+        let coefs = Self::delegation_coefs(msp, &user_key.msp, &rows)?;
         // compute Di = g1^(<M_i, u>/-t_rho_i) = (g1^(t_rho_i)^-1)^(<M_i, u>)
         let mut big_d_i = Vec::with_capacity(msp.rows());
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
@@ -441,16 +449,11 @@ impl<G: BilinearMap> Gpsw<G> {
                     )
                 })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
-            //randomize key
-            if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-                let r_di = self.group.g3_mul(&user_key.raw_d_i[index], &di);
-                big_d_i.push(r_di.0);
-                raw_big_d_i.push(r_di.1);
-            } else {
-                return Err(FormatErr::InternalOperation(
-                    "new attribute is not allowed".to_string(),
-                ));
-            }
+            // scale and randomize key
+            let scaled = self.group.g3_exp(&user_key.raw_d_i[rows[i]], &coefs[i]);
+            let r_di = self.group.g3_mul(&scaled, &di);
+            big_d_i.push(r_di.0);
+            raw_big_d_i.push(r_di.1);
         }
         Ok(GpswDecryptionKey::<G> {
             raw_d_i: raw_big_d_i,
@@ -459,6 +462,41 @@ impl<G: BilinearMap> Gpsw<G> {
         })
     }
 
+    // Find the coefficients β by which to scale the components of the user key for
+    // them to share the secret according to the (more restrictive) `msp`: whatever
+    // the α such that α⋅msp = 1,⋯,1, the products α_i⋅β_i must span 1,⋯,1 with the
+    // matching rows of the user key. There is no solution if it is not more
+    // restrictive.
+    fn delegation_coefs(
+        msp: &MonotoneSpanProgram<i32>,
+        user_msp: &MonotoneSpanProgram<G::Scalar>,
+        rows: &[usize],
+    ) -> Result<Vec<G::Scalar>, FormatErr> {
+        let mut system = vec![Vec::new(); rows.len()];
+        // the solution α found by `span_coefs`, together with those found when
+        // requiring α_i = 1 for each i in turn, generate all the solutions
+        for required in std::iter::once(None).chain((0..rows.len()).map(Some)) {
+            let mut matrix = Vec::with_capacity(rows.len());
+            for (i, row) in msp.matrix().iter().enumerate() {
+                let mut row = row.iter().map(|x| (*x).into()).collect::<Vec<_>>();
+                if let Some(required) = required {
+                    row.push(if i == required { G::ONE } else { G::ZERO });
+                }
+                matrix.push(row);
+            }
+            if let Some(alpha) = Self::span_coefs(&mut matrix)? {
+                for ((equations, a_i), row) in system.iter_mut().zip(&alpha).zip(rows) {
+                    equations.extend(user_msp.get_row(*row).iter().map(|x| x.clone() * a_i));
+                }
+            }
+        }
+        Self::span_coefs(&mut system)?.ok_or_else(|| {
+            FormatErr::InternalOperation(
+                "the delegated policy is not more restrictive".to_string(),
+            )
+        })
+    }
+
     // assume the msp is more restrictive, otherwise the key will be useless
     pub fn key_randomization(
         &self,
-- 
2.43.0


From b39eeb1948ad90c274521829db6655898568afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 21/24] fix: describe errors whose message holds a null
 character

get_last_error failed on such a message, and lost it.
---
 src/interfaces/ffi/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index aa366da..b965de5 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -179,9 +179,9 @@ pub unsafe extern "C" fn get_last_error(
     }
     let err = LAST_ERROR.with(|prev| prev.borrow_mut().take());
 
-    // Build a CString that will cleanup NULL bytes in the middle if needed
+    // Build a CString, cleaning up the NULL bytes in the middle if any
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', ""))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From b8d88dd495aa3f93d37c2e4d04d58cb00c17ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 22/24] fix: [wasm_bindgen] do not leave the caches locked when
 an argument is not an array

---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 5 ++++-
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index 356d8f0..26a7214 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -153,6 +153,9 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     cache_handle: i32,
     encrypted_header: js_sys::Uint8Array,
 ) -> Result<js_sys::Uint8Array, JsValue> {
+    // Read the JS input before locking the caches: should it not be an array, the
+    // JS exception would leave them locked
+    let encrypted_header = encrypted_header.to_vec();
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
@@ -165,7 +168,7 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let cleartext_header: ClearTextHeader<Aes256GcmCrypto> =
         decrypt_hybrid_header::<Gpsw<Bls12_381>, Aes256GcmCrypto>(
             &cache.user_decryption_key,
-            encrypted_header.to_vec().as_slice(),
+            &encrypted_header,
         )
         .map_err(|e| JsValue::from_str(&format!("Error decrypting hybrid header: {e}")))?;
 
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index c04c343..3d242b3 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -150,6 +150,9 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     attributes_str: &str,
     uid_bytes: js_sys::Uint8Array,
 ) -> Result<js_sys::Uint8Array, JsValue> {
+    // Read the JS input before locking the caches: should it not be an array, the
+    // JS exception would leave them locked
+    let uid = uid_bytes.to_vec();
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
@@ -165,7 +168,7 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
         &Attributes::try_from(attributes_str)
             .map_err(|e| JsValue::from_str(&format!("Error parsing attributes: {e:?}")))?,
         Some(Metadata {
-            uid: uid_bytes.to_vec(),
+            uid,
             additional_data: None,
         }),
     )
-- 
2.43.0


From 1db938be76e8720d1785729893f3c9381114d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 23/24] fix: read the boolean expressions whose names are not
 ASCII

---
 src/interfaces/expression.rs                  | 80 +++++++++++++++++++
 src/interfaces/mod.rs                         |  2 +
 src/interfaces/pyo3/generate_gpsw_keys.rs     |  7 +-
 .../wasm_bindgen/generate_gpsw_keys.rs        |  5 +-
 4 files changed, 89 insertions(+), 5 deletions(-)
 create mode 100644 src/interfaces/expression.rs

diff --git a/src/interfaces/expression.rs b/src/interfaces/expression.rs
new file mode 100644
index 0000000..b7d376f
--- /dev/null
+++ b/src/interfaces/expression.rs
@@ -0,0 +1,80 @@
+use abe_policy::{AccessPolicy, Attribute};
+
+/// Separators of the boolean expressions of access policies
+const SEPARATORS: [&str; 5] = ["(", ")", "||", "&&", "::"];
+
+/// Starts and ends a character which has been escaped
+const ESCAPE: char = '%';
+
+/// Escapes the characters that are not ASCII (and the escape character)
+fn escape(text: &str) -> String {
+    text.chars()
+        .map(|c| {
+            if c.is_ascii() && c != ESCAPE {
+                c.to_string()
+            } else {
+                format!("{ESCAPE}{:x}{ESCAPE}", u32::from(c))
+            }
+        })
+        .collect()
+}
+
+/// Gives back the characters which have been escaped
+fn unescape(text: &str) -> String {
+    text.split(ESCAPE)
+        .enumerate()
+        .map(|(i, piece)| {
+            if i % 2 == 0 {
+                return piece.to_owned();
+            }
+            u32::from_str_radix(piece, 16)
+                .ok()
+                .and_then(char::from_u32)
+                .map_or_else(|| piece.to_owned(), String::from)
+        })
+        .collect()
+}
+
+fn unescape_attributes(access_policy: AccessPolicy) -> AccessPolicy {
+    match access_policy {
+        AccessPolicy::Attr(attribute) => AccessPolicy::Attr(Attribute {
+            axis: unescape(&attribute.axis),
+            name: unescape(&attribute.name),
+        }),
+        AccessPolicy::And(left, right) => AccessPolicy::And(
+            Box::new(unescape_attributes(*left)),
+            Box::new(unescape_attributes(*right)),
+        ),
+        AccessPolicy::Or(left, right) => AccessPolicy::Or(
+            Box::new(unescape_attributes(*left)),
+            Box::new(unescape_attributes(*right)),
+        ),
+        AccessPolicy::All => AccessPolicy::All,
+    }
+}
+
+/// Converts a boolean expression into an `AccessPolicy`.
+///
+/// `AccessPolicy::from_boolean_expression()` uses the positions of characters
+/// as positions of bytes: the characters that are not ASCII are escaped in the
+/// expression it is given.
+pub fn parse_boolean_expression(boolean_expression: &str) -> Result<AccessPolicy, String> {
+    if boolean_expression.is_ascii() {
+        return AccessPolicy::from_boolean_expression(boolean_expression)
+            .map_err(|e| e.to_string());
+    }
+
+    // Spaces around separators may not be ASCII
+    let mut expression = boolean_expression.to_owned();
+    for separator in SEPARATORS {
+        expression = expression
+            .split(separator)
+            .map(str::trim)
+            .collect::<Vec<_>>()
+            .join(separator);
+    }
+
+    AccessPolicy::from_boolean_expression(&escape(&expression))
+        .map(unescape_attributes)
+        .map_err(|e| unescape(&e.to_string()))
+}
diff --git a/src/interfaces/mod.rs b/src/interfaces/mod.rs
index 972f6ac..ccad852 100644
--- a/src/interfaces/mod.rs
+++ b/src/interfaces/mod.rs
@@ -1,4 +1,6 @@
 // pub mod asymmetric_crypto;
+#[cfg(any(feature = "python", feature = "wasm_bindgen"))]
+mod expression;
 #[cfg(feature = "ffi")]
 pub mod ffi;
 pub mod hybrid_crypto;
diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index ae8b2c5..1aa1081 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -10,8 +10,9 @@ use crate::core::{
     },
     Engine,
 };
+use crate::interfaces::expression::parse_boolean_expression;
 type UserDecryptionKey = <Gpsw<Bls12_381> as AbeScheme>::UserDecryptionKey;
-use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
+use abe_policy::{Attribute, Policy, PolicyAxis};
 
 /// Generate the master authority keys for supplied Policy
 ///
@@ -53,7 +54,7 @@ pub fn generate_user_private_key(
         GpswMasterPrivateKey::<Bls12_381>::try_from_bytes(&master_private_key_bytes)?;
     let policy = serde_json::from_slice(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy deserialization failed: {e}")))?;
-    let access_policy = AccessPolicy::from_boolean_expression(&access_policy_str)
+    let access_policy = parse_boolean_expression(&access_policy_str)
         .map_err(|e| PyTypeError::new_err(format!("Access policy creation failed: {e}")))?;
 
     let user_key = Engine::<Gpsw<Bls12_381>>::new().generate_user_key(
@@ -90,7 +91,7 @@ pub fn generate_delegated_key(
     let delegation_key =
         GpswMasterPublicDelegationKey::<Bls12_381>::try_from_bytes(&delegation_key_bytes)?;
     let user_decryption_key = UserDecryptionKey::try_from_bytes(&user_decryption_key_bytes)?;
-    let access_policy = AccessPolicy::from_boolean_expression(&access_policy_str)
+    let access_policy = parse_boolean_expression(&access_policy_str)
         .map_err(|e| PyTypeError::new_err(format!("Access policy creation failed: {e}")))?;
 
     let policy: Policy = serde_json::from_slice(&policy_bytes)
diff --git a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
index 6e33b6c..e3405fc 100644
--- a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
+++ b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
@@ -11,7 +11,8 @@ use crate::core::{
     gpsw::{scheme::GpswMasterPrivateKey, AsBytes, Gpsw},
     Engine,
 };
-use abe_policy::{AccessPolicy, Attribute, Policy};
+use crate::interfaces::expression::parse_boolean_expression;
+use abe_policy::{Attribute, Policy};
 
 /// Generate the master authority keys for supplied Policy
 ///
@@ -60,7 +61,7 @@ pub fn webassembly_generate_user_private_key(
     .map_err(|e| JsValue::from_str(&format!("Error deserializing private key: {e}")))?;
     let policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy: {e}")))?;
-    let access_policy = AccessPolicy::from_boolean_expression(access_policy_str)
+    let access_policy = parse_boolean_expression(access_policy_str)
         .map_err(|e| JsValue::from_str(&format!("Error deserializing access policy: {e}")))?;
 
     // Generate user decryption key
-- 
2.43.0


From 996b8fd7efc728f63ca450dee7c7a58803064e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 24/24] fix: refuse the boolean expressions whose reading
 overflows the stack

---
 src/interfaces/expression.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/interfaces/expression.rs b/src/interfaces/expression.rs
index b7d376f..72b8a83 100644
--- a/src/interfaces/expression.rs
+++ b/src/interfaces/expression.rs
@@ -3,6 +3,14 @@ use abe_policy::{AccessPolicy, Attribute};
 /// Separators of the boolean expressions of access policies
 const SEPARATORS: [&str; 5] = ["(", ")", "||", "&&", "::"];
 
+/// Boolean expressions are read recursively: maximum number of parentheses and
+/// operators for which the stack suffices
+const MAX_NESTING: usize = if cfg!(target_arch = "wasm32") {
+    2_000
+} else {
+    5_000
+};
+
 /// Starts and ends a character which has been escaped
 const ESCAPE: char = '%';
 
@@ -59,6 +67,16 @@ fn unescape_attributes(access_policy: AccessPolicy) -> AccessPolicy {
 /// as positions of bytes: the characters that are not ASCII are escaped in the
 /// expression it is given.
 pub fn parse_boolean_expression(boolean_expression: &str) -> Result<AccessPolicy, String> {
+    let nesting: usize = ["(", "||", "&&"]
+        .iter()
+        .map(|s| boolean_expression.matches(s).count())
+        .sum();
+    if nesting > MAX_NESTING {
+        return Err(format!(
+            "Boolean expression with more than {MAX_NESTING} parentheses and operators"
+        ));
+    }
+
     if boolean_expression.is_ascii() {
         return AccessPolicy::from_boolean_expression(boolean_expression)
             .map_err(|e| e.to_string());
-- 
2.43.0

