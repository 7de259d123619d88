From f8a430e281eea3ed63b536962efb4e4a42865c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 01/19] fix: encode all-zero input to base58 without an extra
 leading digit

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..d256d54 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -70,7 +70,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
-- 
2.43.0


From 869dd7f3b367b0f46b31ec7cbb5f473075f601e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:23 +0000
Subject: [PATCH 02/19] fix: report bad base58 input as an error instead of
 panicking

---
 stacks/src/crypto/b58.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d256d54..f704698 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -36,6 +36,9 @@ pub enum Error {
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
+    /// Decoded data is too short to contain a version and a checksum.
+    #[error("Bad length - expected at least 5 bytes, received: {0}")]
+    BadLength(usize),
     /// Received an unknown bitcoin version byte.
     #[error("Unknown address version, received: {0}")]
     UnknownAddressVersion(u8),
@@ -116,7 +119,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = *B58_BYTE_MAP.get(c as usize).unwrap_or(&-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From a4f194949357cb533405090e820be27be6687e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:26 +0000
Subject: [PATCH 03/19] fix: report empty c32check input and out-of-range
 versions as errors instead of panicking

---
 stacks/src/crypto/c32.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..54d80fd 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -224,7 +224,10 @@ where
     buff.extend_from_slice(&checksum);
 
     let mut encoded = c32_encode(&buff)?.into_bytes();
-    encoded.insert(0, C32_ALPHABET[version as usize]);
+    let ver = C32_ALPHABET
+        .get(version as usize)
+        .ok_or(Error::UnknownAddressVersion(version))?;
+    encoded.insert(0, *ver);
 
     Ok(String::from_utf8(encoded)?)
 }
@@ -236,7 +239,7 @@ where
 {
     let str: String = str.into();
 
-    if !str.is_ascii() {
+    if str.is_empty() || !str.is_ascii() {
         return Err(Error::BadInput);
     }
 
-- 
2.43.0


From c08f0ed812f5500141539271f8847501875aa865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:29 +0000
Subject: [PATCH 04/19] fix: accept only known versions and 20-byte hashes when
 decoding addresses

---
 stacks/src/crypto/c32.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 54d80fd..5121a1a 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -8,6 +8,7 @@
 
 use secp256k1::PublicKey;
 
+use crate::crypto::hash::HASH160_ENCODED_SIZE;
 use crate::crypto::DSha256Hash;
 use crate::crypto::Hash160;
 use crate::crypto::Sha256Hash;
@@ -294,7 +295,17 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (bytes, version) = c32check_decode(&str[1..])?;
+
+    if ![22, 26, 20, 21].contains(&version) {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
+    if bytes.len() != HASH160_ENCODED_SIZE {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((bytes, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From 7f5509195c9a619cda01058222d36037d0231297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:27 +0000
Subject: [PATCH 05/19] fix: check the type identifier when decoding UTF-8
 strings

---
 stacks/src/clarity/impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..b939836 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -823,6 +823,10 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        if bytes[0] != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
-- 
2.43.0


From 1ce45b9579665d5007673b501bb098c083de42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:30 +0000
Subject: [PATCH 06/19] fix: reject non-ASCII bytes when decoding ASCII strings

---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index b939836..bffe6e0 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -788,6 +788,11 @@ impl Codec for StringAscii {
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
-- 
2.43.0


From eb2c6f5c989f9b614a3707a944432749e76e54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 07/19] fix: reject names longer than 128 bytes when decoding

---
 stacks/src/clarity/impl.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index bffe6e0..9d09aa5 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -366,7 +366,7 @@ impl Codec for PrincipalContract {
         }
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
-        let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
+        let name = LengthPrefixedStr::decode(&bytes[22..])?.into_value();
         Ok(Self::new((addr, name)))
     }
 }
@@ -711,9 +711,8 @@ impl Codec for Tuple {
         let mut values = vec![];
 
         for _ in 0..len {
-            let k_len = bytes[offset] as usize;
-            let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
-            offset += 1 + k_len;
+            let key = LengthPrefixedStr::decode(&bytes[offset..])?.into_value();
+            offset += 1 + key.len();
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
             values.push((key, value));
@@ -874,6 +873,12 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        let len = bytes[0] as usize;
+
+        if len > 128 {
+            return Err(Error::BadStringLength(len, 128));
+        }
+
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
-- 
2.43.0


From 01c403785d172dd99bec33608afdab80c0eda335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:36 +0000
Subject: [PATCH 08/19] fix: report truncated Clarity input as an error instead
 of panicking or over-allocating

---
 stacks/src/clarity/impl.rs | 40 +++++++++++++++++++++++++++++++++++++-
 stacks/src/clarity/mod.rs  | 13 +++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 9d09aa5..fdbce7b 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -9,6 +9,7 @@
 use std::fmt::Debug;
 use std::fmt::Display;
 
+use crate::clarity::check_len;
 use crate::clarity::decode_clarity_type;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
@@ -46,6 +47,8 @@ impl Codec for Int {
     where
         Self: Sized,
     {
+        check_len(bytes, 17)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -99,6 +102,8 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
+        check_len(bytes, 17)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -153,11 +158,15 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
+        check_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        check_len(bytes, 5 + len as usize)?;
+
         let mut offset = 5;
 
         let mut buff = vec![];
@@ -225,6 +234,8 @@ impl Codec for True {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -262,6 +273,8 @@ impl Codec for False {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -302,6 +315,8 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
+        check_len(bytes, 22)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -361,6 +376,8 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
+        check_len(bytes, 23)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -412,6 +429,8 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -450,6 +469,8 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -488,6 +509,8 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -524,6 +547,8 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -568,6 +593,8 @@ impl Codec for List {
     where
         Self: Sized,
     {
+        check_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -701,6 +728,8 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
+        check_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -781,11 +810,14 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
+        check_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        check_len(bytes, 5 + len as usize)?;
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
 
         if !str.is_ascii() {
@@ -827,11 +859,14 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        check_len(bytes, 5)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        check_len(bytes, 5 + len as usize)?;
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -873,12 +908,14 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
         let len = bytes[0] as usize;
 
         if len > 128 {
             return Err(Error::BadStringLength(len, 128));
         }
 
+        check_len(bytes, 1 + len)?;
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
@@ -931,10 +968,11 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
+        check_len(bytes, 4)?;
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = vec![];
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..0686914 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Input ended before the encoded value was complete.
+    #[error("Bad input length - received {0} bytes, expected at least {1} bytes")]
+    BadInputLength(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,8 +173,18 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Checks that the input contains at least `min` bytes.
+pub(crate) fn check_len(bytes: &[u8], min: usize) -> Result<(), Error> {
+    if bytes.len() < min {
+        return Err(Error::BadInputLength(bytes.len(), min));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    check_len(bytes, 1)?;
     let tag = bytes[0];
 
     match tag {
-- 
2.43.0


From 644efd72f2c04463e98558575178c2a12369b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:39 +0000
Subject: [PATCH 09/19] fix: report truncated payload input as an error instead
 of panicking

---
 stacks/src/transaction/payload.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..fee2aaa 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -12,6 +12,7 @@ use dyn_clone::clone_trait_object;
 use dyn_clone::DynClone;
 
 use crate::clarity;
+use crate::clarity::check_len;
 use crate::clarity::decode_clarity_type;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -38,6 +39,8 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         match bytes[0] {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
@@ -102,6 +105,8 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
@@ -113,6 +118,8 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
+        check_len(bytes, offset + 8 + 34)?;
+
         let amount_bytes = &bytes[offset..offset + 8];
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
@@ -175,6 +182,8 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
+        check_len(bytes, 22)?;
+
         if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
-- 
2.43.0


From 847a0d39a89abcdfc7799d8d7cfec62606f13958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 10/19] fix: compare Clarity values by their encoding as well
 as their text

---
 stacks/src/clarity/macro.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..b30b80d 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -69,7 +69,10 @@ macro_rules! impl_clarity_primitive {
         }
         impl ::std::cmp::PartialEq for $name {
             fn eq(&self, other: &Self) -> bool {
+                // The text form alone is ambiguous, e.g. for strings with quotes.
                 self.to_string() == other.to_string()
+                    && $crate::clarity::Codec::encode(self).ok()
+                        == $crate::clarity::Codec::encode(other).ok()
             }
         }
         impl ::std::cmp::Eq for $name {}
-- 
2.43.0


From 529a2637872a62f912c5827c2dd474317363a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:39 +0000
Subject: [PATCH 11/19] fix: replace the value when inserting an existing tuple
 key

---
 stacks/src/clarity/impl.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index fdbce7b..1b16b61 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -679,11 +679,17 @@ impl Tuple {
     }
 
     /// Inserts a key-value pair into the tuple.
+    ///
+    /// Replaces the value if the key was already present in the tuple.
     pub fn insert<T>(&mut self, key: String, value: T)
     where
         T: Clarity,
     {
-        self.__value.push((key, Box::new(value)));
+        if let Some(entry) = self.get_mut(&key) {
+            *entry = Box::new(value);
+        } else {
+            self.__value.push((key, Box::new(value)));
+        }
     }
 
     /// Removes a key-value pair from the tuple.
-- 
2.43.0


From cb9c6699ea4cfd513127eac15030660e22e82b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:42 +0000
Subject: [PATCH 12/19] fix: verify standard authorizations in Auth::verify

---
 stacks/src/transaction/auth.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..ca9d79d 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -89,8 +89,9 @@ impl Auth {
     where
         T: Into<SignatureHash>,
     {
-        if let Self::Sponsored(origin, sponsor) = self {
-            let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
+        let origin = self.verify_origin(hash)?;
+
+        if let Self::Sponsored(_, sponsor) = self {
             let auth_type = AUTH_TYPE_SPONSORED;
             sponsor.verify(origin, auth_type)?;
         }
-- 
2.43.0


From 80a27cf81d93afb207c5be5f80589d678ecf558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:45 +0000
Subject: [PATCH 13/19] fix: continue the signature chain when resuming a
 partially signed transaction

---
 stacks/src/transaction/auth.rs   | 19 +++++++++++++++++++
 stacks/src/transaction/signer.rs |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index ca9d79d..8c6ae26 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -39,6 +39,12 @@ pub(crate) const AUTH_ENCODING_TYPE_SIGNATURE: u8 = 0x02;
 pub trait SpendingCondition: Codec + DynClone + Debug {
     /// Verifies a spending condition against a signature hash.
     fn verify(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error>;
+    /// Returns the hash the next signature has to sign, after any signatures
+    /// already added to the spending condition.
+    #[allow(unused_variables)]
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> SignatureHash {
+        hash
+    }
     /// Modifies a spending condition.
     fn modify(&mut self, cmd: Modification) -> Result<(), Error>;
     /// Resets the spending condition.
@@ -482,6 +488,19 @@ impl SpendingCondition for SpendingConditionMultiSig {
         Ok(next)
     }
 
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> SignatureHash {
+        let mut next = hash;
+
+        for field in &self.fields {
+            if let AuthField::MSG(msg) = field {
+                let pre_sign = SignatureHash::make_presign_hash(next, typ, self.fee, self.nonce);
+                next = SignatureHash::make_postsign_hash(pre_sign, *msg);
+            }
+        }
+
+        next
+    }
+
     fn modify(&mut self, cmd: Modification) -> Result<(), Error> {
         match cmd {
             Modification::AddSignature(sig) => {
diff --git a/stacks/src/transaction/signer.rs b/stacks/src/transaction/signer.rs
index 581f627..92e8cf4 100644
--- a/stacks/src/transaction/signer.rs
+++ b/stacks/src/transaction/signer.rs
@@ -10,6 +10,8 @@ use secp256k1::PublicKey;
 use secp256k1::SecretKey;
 
 use crate::crypto::SignatureHash;
+use crate::transaction::auth::AUTH_TYPE_SPONSORED;
+use crate::transaction::auth::AUTH_TYPE_STANDARD;
 use crate::transaction::Error;
 use crate::transaction::SpendingCondition;
 use crate::transaction::Transaction;
@@ -33,6 +35,7 @@ impl TransactionSigner {
     /// Creates a new `Signer`.
     pub fn new(tx: Transaction) -> Result<Self, Error> {
         let hash = tx.initial_hash()?;
+        let hash = tx.auth.origin().next_hash(hash, AUTH_TYPE_STANDARD);
 
         Ok(Self {
             tx,
@@ -55,6 +58,7 @@ impl TransactionSigner {
         let mut tx = tx.clone();
         tx.auth.set_sponsor(sponsor)?;
         let hash = tx.verify_origin()?;
+        let hash = tx.auth.sponsor()?.next_hash(hash, AUTH_TYPE_SPONSORED);
 
         let mut signer = Self::new(tx)?;
         signer.hash = hash;
-- 
2.43.0


From 613c09f0ed355100bc9a5b14498e84d9cc3cb543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:48 +0000
Subject: [PATCH 14/19] fix: make clarity!(Buffer) expand to an empty buffer

---
 stacks/src/clarity/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index b30b80d..83c388e 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -13,7 +13,7 @@ macro_rules! clarity {
     (Int, $x:expr) => ($crate::clarity::Int::new($x));
     (UInt, $x:expr) => ($crate::clarity::UInt::new($x));
     (Buffer, $x:expr) => ($crate::clarity::Buffer::new($x.to_vec()));
-    (Buffer) => (@empty, Buffer);
+    (Buffer) => (clarity!(@empty, Buffer));
     (True) => ($crate::clarity::True::new());
     (False) => ($crate::clarity::False::new());
     (PrincipalStandard, $x:expr) => ($crate::clarity::PrincipalStandard::new($x.to_string()));
-- 
2.43.0


From 632836e11ff04c0baee71b15e560a81cf542525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:51 +0000
Subject: [PATCH 15/19] fix: report wrong types and missing keys of derived
 optional fields

---
 stacks_derive/src/from_tuple.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/stacks_derive/src/from_tuple.rs b/stacks_derive/src/from_tuple.rs
index d09ef0f..09f446b 100644
--- a/stacks_derive/src/from_tuple.rs
+++ b/stacks_derive/src/from_tuple.rs
@@ -213,14 +213,14 @@ pub(crate) fn __impl(input: proc_macro::TokenStream) -> Result<TokenStream> {
                     // handle Option<i128>
                     if ident.eq("Option") && args.to_string().eq("i128") {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
-                        __internal_derive_option(&mut stream, &quote!(Int));
+                        __internal_derive_option(&mut stream, &quote!(Int), &key, &ty_name);
                         break 'stream;
                     }
 
                     // handle Option<u128>
                     if ident.eq("Option") && args.to_string().eq("u128") {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
-                        __internal_derive_option(&mut stream, &quote!(UInt));
+                        __internal_derive_option(&mut stream, &quote!(UInt), &key, &ty_name);
                         break 'stream;
                     }
 
@@ -230,9 +230,14 @@ pub(crate) fn __impl(input: proc_macro::TokenStream) -> Result<TokenStream> {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
                         let err_cast = __Error::Cast(key, ty, ident.to_token_stream());
                         let tokens = quote!(
-                            .and_then(|x| x.cast::<::stacks_rs::clarity::OptionalSome>().map_err(|_| #err_cast))
-                            .and_then(|x| Ok(x.into_value().to_string()))
-                            .ok()
+                            .and_then(|x| {
+                                if x.as_any().is::<::stacks_rs::clarity::OptionalNone>() {
+                                    return Ok(None);
+                                }
+                                x.cast::<::stacks_rs::clarity::OptionalSome>()
+                                .map(|x| Some(x.into_value().to_string()))
+                                .map_err(|_| #err_cast)
+                            })?
                         );
                         stream.extend(tokens);
                         break 'stream;
@@ -338,17 +343,23 @@ where
     })
 }
 
-fn __internal_derive_option<Token>(stream: &mut TokenStream, ty: &Token)
+fn __internal_derive_option<Token>(stream: &mut TokenStream, ty: &Token, key: &Token, ident: &Token)
 where
     Token: quote::ToTokens,
 {
+    let err_cast = __Error::Cast(key, ty, ident);
+
     stream.extend(quote! {
-        .map(|value| {
+        .and_then(|value| {
+            if value.as_any().is::<::stacks_rs::clarity::OptionalNone>() {
+                return Ok(None);
+            }
             value
             .cast::<::stacks_rs::clarity::OptionalSome>()
             .and_then(|value| value.cast::<::stacks_rs::clarity::#ty>())
             .map(::stacks_rs::clarity::#ty::into_value)
-            .ok()
+            .map(Some)
+            .map_err(|_| #err_cast)
         })?
     })
 }
-- 
2.43.0


From bfbd56234e224ef7aad78a881a8b0566196937d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:17 +0000
Subject: [PATCH 16/19] fix: percent-encode the path segments of a read-only
 call

---
 stacks/src/rpc.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 4885f45..7834795 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -177,6 +177,22 @@ pub struct ReadOnlyErr {
     pub cause: String,
 }
 
+/// Percent-encodes a string to be used as a single url path segment.
+///
+/// Clarity function names may contain characters, such as `?` and `/`, that would
+/// otherwise change the structure of the url.
+fn path_segment(segment: &str) -> String {
+    segment.bytes().fold(String::new(), |mut out, byte| {
+        match byte {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                out.push(byte as char);
+            }
+            _ => out.push_str(&f!("%{byte:02X}")),
+        }
+        out
+    })
+}
+
 #[derive(Debug, Clone)]
 pub struct StacksRPC {
     /// The stacks rpc endpoint.
@@ -255,9 +271,9 @@ impl StacksRPC {
         let req = ureq::post(&f!(
             "{}/v2/contracts/call-read/{}/{}/{}",
             self.__url,
-            contract_addr,
-            contract_name,
-            fn_name
+            path_segment(contract_addr),
+            path_segment(contract_name),
+            path_segment(fn_name)
         ));
 
         let arguments = fn_args
-- 
2.43.0


From b04a96f7730451717172683497df2707d038cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:31 +0000
Subject: [PATCH 17/19] fix: do not overflow when verifying many signatures or
 hashing many keys

---
 stacks/src/crypto/c32.rs       | 8 ++++----
 stacks/src/transaction/auth.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 5121a1a..a1daaba 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -331,7 +331,7 @@ pub fn hash_p2wpkh(input: &[u8]) -> Hash160 {
 #[allow(clippy::cast_possible_truncation)]
 pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     let mut buff = vec![];
-    buff.push(sigs + 80);
+    buff.push(sigs.wrapping_add(80));
 
     for key in keys {
         let bytes = key.serialize();
@@ -339,7 +339,7 @@ pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
         buff.extend_from_slice(&bytes);
     }
 
-    buff.push(keys.len() as u8 + 80);
+    buff.push((keys.len() as u8).wrapping_add(80));
     buff.push(174);
 
     Hash160::from_slice(&buff)
@@ -349,7 +349,7 @@ pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
 #[allow(clippy::cast_possible_truncation)]
 pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     let mut script = vec![];
-    script.push(sigs + 80);
+    script.push(sigs.wrapping_add(80));
 
     for key in keys {
         let bytes = key.serialize();
@@ -357,7 +357,7 @@ pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
         script.extend_from_slice(&bytes);
     }
 
-    script.push(keys.len() as u8 + 80);
+    script.push((keys.len() as u8).wrapping_add(80));
     script.push(174);
 
     let hash = Sha256Hash::from_slice(&script);
diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index 8c6ae26..dd3b40b 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -453,7 +453,7 @@ impl SpendingCondition for SpendingConditionMultiSig {
         let mut public_keys = vec![];
         let mut next = hash;
 
-        let mut count = 0;
+        let mut count: u8 = 0;
         for field in &self.fields {
             match field {
                 AuthField::PK(pk) => {
@@ -464,7 +464,7 @@ impl SpendingCondition for SpendingConditionMultiSig {
                         SignatureHash::next_verify(next, typ, self.fee, self.nonce, *msg)?;
                     public_keys.push(pk);
                     next = hash;
-                    count += 1;
+                    count = count.saturating_add(1);
                 }
             }
         }
-- 
2.43.0


From 125cd4543223fe930ec1974ffc5a19fc771d7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:14 +0000
Subject: [PATCH 18/19] fix: continue from a single-signature origin when
 resuming

A TransactionSigner made from a sponsored transaction whose single-signature
origin has signed started the sponsor's signature from the initial hash.
---
 stacks/src/transaction/auth.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index dd3b40b..2a14b5a 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -304,6 +304,15 @@ impl SpendingCondition for SpendingConditionStandard {
         Ok(next)
     }
 
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> SignatureHash {
+        if self.signatures() == 0 {
+            return hash;
+        }
+
+        let pre_sign = SignatureHash::make_presign_hash(hash, typ, self.fee, self.nonce);
+        SignatureHash::make_postsign_hash(pre_sign, self.signature)
+    }
+
     fn modify(&mut self, cmd: Modification) -> Result<(), Error> {
         match cmd {
             Modification::SetSignature(sig) => {
-- 
2.43.0


From c85abeffc6124bafc88d09c3ea18c79cf693d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:14 +0000
Subject: [PATCH 19/19] fix: resume in the sponsor stage when the sponsor has
 signed

A TransactionSigner made from a transaction with sponsor signatures accepted
further origin fields and restarted the sponsor's signature chain.
---
 stacks/src/transaction/signer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stacks/src/transaction/signer.rs b/stacks/src/transaction/signer.rs
index 92e8cf4..9b29993 100644
--- a/stacks/src/transaction/signer.rs
+++ b/stacks/src/transaction/signer.rs
@@ -12,6 +12,7 @@ use secp256k1::SecretKey;
 use crate::crypto::SignatureHash;
 use crate::transaction::auth::AUTH_TYPE_SPONSORED;
 use crate::transaction::auth::AUTH_TYPE_STANDARD;
+use crate::transaction::Auth;
 use crate::transaction::Error;
 use crate::transaction::SpendingCondition;
 use crate::transaction::Transaction;
@@ -35,12 +36,20 @@ impl TransactionSigner {
     /// Creates a new `Signer`.
     pub fn new(tx: Transaction) -> Result<Self, Error> {
         let hash = tx.initial_hash()?;
-        let hash = tx.auth.origin().next_hash(hash, AUTH_TYPE_STANDARD);
+        let mut hash = tx.auth.origin().next_hash(hash, AUTH_TYPE_STANDARD);
+        let mut origin_signed = false;
+
+        if let Auth::Sponsored(_, sponsor) = &tx.auth {
+            if sponsor.signatures() > 0 {
+                hash = sponsor.next_hash(hash, AUTH_TYPE_SPONSORED);
+                origin_signed = true;
+            }
+        }
 
         Ok(Self {
             tx,
             hash,
-            origin_signed: false,
+            origin_signed,
             verify_oversign: true,
             verify_overlap: true,
         })
-- 
2.43.0

