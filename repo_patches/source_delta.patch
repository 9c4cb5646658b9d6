From 851d04128dc0e07e1dbb8731f82b574da8915b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 01/15] fix: base58 encoding of all-zero input adds no extra
 digit

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..d256d54 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -70,7 +70,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
-- 
2.43.0


From 1e86649fd0ac5f8158e2bb3b8e36ee15c2ea4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 02/15] fix: base58 decoding rejects characters above U+00FF
 instead of panicking

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d256d54..83107d8 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -116,7 +116,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = *B58_BYTE_MAP.get(c as usize).unwrap_or(&-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
-- 
2.43.0


From f7350cd20f6e2722426fb53f0ebc9d8cd7ca3781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 03/15] fix: base58check decoding reports short input instead
 of panicking

---
 stacks/src/crypto/b58.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index 83107d8..067beed 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -33,6 +33,9 @@ pub enum Error {
     /// Received a character that is not in the `Base58` alphabet.
     #[error("Bad character encountered: {0}")]
     BadChar(char),
+    /// Received too few bytes to hold a version and a checksum.
+    #[error("Bad input length - expected at least 5 bytes, received: {0}")]
+    BadLength(usize),
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From db7bbd466ec2b2698f94c4313c4e97ea7d525214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 04/15] fix: c32check encoding rejects versions without a c32
 digit instead of panicking

---
 stacks/src/crypto/c32.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..0233c69 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -216,6 +216,10 @@ where
 {
     let hash = hash.as_ref();
 
+    if version >= 32 {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
     let mut check = vec![version];
     check.extend_from_slice(hash);
     let checksum = DSha256Hash::from_slice(&check).checksum();
-- 
2.43.0


From e0ea1b2c27ac8e8270a63303b00ed677260237c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 05/15] fix: c32check decoding rejects the empty string instead
 of panicking

---
 stacks/src/crypto/c32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 0233c69..2541f87 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -240,7 +240,7 @@ where
 {
     let str: String = str.into();
 
-    if !str.is_ascii() {
+    if str.is_empty() || !str.is_ascii() {
         return Err(Error::BadInput);
     }
 
-- 
2.43.0


From cbdf737cd4aeeee8bf81b85ee1e574ef72575f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 06/15] fix: address decoding rejects unknown versions and
 hashes that are not 20 bytes

---
 stacks/src/crypto/c32.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 2541f87..8cf2ed0 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -295,7 +295,17 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (bytes, version) = c32check_decode(&str[1..])?;
+
+    if ![22, 26, 20, 21].contains(&version) {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
+    if bytes.len() != 20 {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((bytes, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From 217ab590d925610ecdfc29b2876456c981fcea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 07/15] fix: utf8 string decoding checks the type identifier

---
 stacks/src/clarity/impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..b939836 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -823,6 +823,10 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        if bytes[0] != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
-- 
2.43.0


From 1a99c7e0b9e6c7a2291e0fb8fe579024f910aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:09 +0000
Subject: [PATCH 08/15] fix: ascii string decoding rejects non-ascii text

---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index b939836..bffe6e0 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -788,6 +788,11 @@ impl Codec for StringAscii {
 
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
-- 
2.43.0


From 3331e4f18cfe6a03e1fce9c97d80cabe729fc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 09/15] fix: decoding rejects names and keys over 128 bytes, as
 encoding does

---
 stacks/src/clarity/impl.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index bffe6e0..1ffe8c0 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -366,6 +366,12 @@ impl Codec for PrincipalContract {
         }
 
         let addr = c32_address(&bytes[2..22], bytes[1])?;
+        let name_len = bytes[22] as usize;
+
+        if name_len > 128 {
+            return Err(Error::BadStringLength(name_len, 128));
+        }
+
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
     }
@@ -712,6 +718,11 @@ impl Codec for Tuple {
 
         for _ in 0..len {
             let k_len = bytes[offset] as usize;
+
+            if k_len > 128 {
+                return Err(Error::BadStringLength(k_len, 128));
+            }
+
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
@@ -874,6 +885,12 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        let len = bytes[0] as usize;
+
+        if len > 128 {
+            return Err(Error::BadStringLength(len, 128));
+        }
+
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
-- 
2.43.0


From 96da6cd423223d76d4e2adc4ed681b3feed4d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 10/15] fix: clarity decoding reports truncated input instead
 of panicking

---
 stacks/src/clarity/impl.rs | 62 +++++++++++++++++++++++++++++++++++++-
 stacks/src/clarity/mod.rs  | 13 ++++++++
 2 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 1ffe8c0..6763332 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -9,6 +9,7 @@
 use std::fmt::Debug;
 use std::fmt::Display;
 
+use crate::clarity::check_len;
 use crate::clarity::decode_clarity_type;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
@@ -46,10 +47,14 @@ impl Codec for Int {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(i128::from_be_bytes(buff)))
@@ -99,10 +104,14 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 17)?;
+
         let mut buff = [0u8; 16];
         buff.copy_from_slice(&bytes[1..17]);
         Ok(Self::new(u128::from_be_bytes(buff)))
@@ -153,11 +162,17 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        check_len(bytes, 5 + len as usize)?;
+
         let mut offset = 5;
 
         let mut buff = vec![];
@@ -225,6 +240,8 @@ impl Codec for True {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -262,6 +279,8 @@ impl Codec for False {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -302,10 +321,13 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 22)?;
         let addr = c32_address(&bytes[2..22], bytes[1])?;
         Ok(Self::new(addr))
     }
@@ -361,17 +383,22 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 22)?;
         let addr = c32_address(&bytes[2..22], bytes[1])?;
+        check_len(bytes, 23)?;
         let name_len = bytes[22] as usize;
 
         if name_len > 128 {
             return Err(Error::BadStringLength(name_len, 128));
         }
 
+        check_len(bytes, 23 + name_len)?;
         let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
         Ok(Self::new((addr, name)))
     }
@@ -418,6 +445,8 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -456,6 +485,8 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -494,6 +525,8 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -530,6 +563,8 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
@@ -574,10 +609,14 @@ impl Codec for List {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
@@ -707,22 +746,28 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
 
         let mut offset = 5;
         let mut values = vec![];
 
         for _ in 0..len {
+            check_len(bytes, offset + 1)?;
             let k_len = bytes[offset] as usize;
 
             if k_len > 128 {
                 return Err(Error::BadStringLength(k_len, 128));
             }
 
+            check_len(bytes, offset + 1 + k_len)?;
             let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
@@ -793,11 +838,17 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        check_len(bytes, 5 + len as usize)?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
 
         if !str.is_ascii() {
@@ -839,11 +890,17 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
+        check_len(bytes, 5)?;
+
         let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        check_len(bytes, 5 + len as usize)?;
+
         let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
         Ok(Self::new(str))
     }
@@ -885,12 +942,14 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
         let len = bytes[0] as usize;
 
         if len > 128 {
             return Err(Error::BadStringLength(len, 128));
         }
 
+        check_len(bytes, 1 + len)?;
         Ok(Self::new(String::from_utf8(
             bytes[1..=(bytes[0] as usize)].to_vec(),
         )?))
@@ -943,10 +1002,11 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
+        check_len(bytes, 4)?;
         let (len, mut remainder) = bytes.split_at(4);
         let num = u32::from_be_bytes(len.try_into()?) as usize;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = Vec::with_capacity(num.min(remainder.len()));
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..1b95f8f 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Received fewer bytes than the type requires.
+    #[error("Bad input length - received {0} bytes, expected at least {1} bytes")]
+    BadInputLength(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,8 +173,18 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Checks that at least `len` bytes are available for decoding.
+pub(crate) fn check_len(bytes: &[u8], len: usize) -> Result<(), Error> {
+    if bytes.len() < len {
+        return Err(Error::BadInputLength(bytes.len(), len));
+    }
+
+    Ok(())
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    check_len(bytes, 1)?;
     let tag = bytes[0];
 
     match tag {
-- 
2.43.0


From 0925b0962411382c489c4c1516078ed28dc8a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 11/15] fix: payload decoding reports truncated input instead
 of panicking

---
 stacks/src/transaction/payload.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..d151e7c 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -12,6 +12,7 @@ use dyn_clone::clone_trait_object;
 use dyn_clone::DynClone;
 
 use crate::clarity;
+use crate::clarity::check_len;
 use crate::clarity::decode_clarity_type;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -38,6 +39,8 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         match bytes[0] {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
@@ -102,6 +105,8 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
@@ -113,6 +118,8 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
+        check_len(bytes, offset + 8 + 34)?;
+
         let amount_bytes = &bytes[offset..offset + 8];
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
@@ -175,12 +182,16 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
+        check_len(bytes, 1)?;
+
         if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
 
         let mut offset = 1;
 
+        check_len(bytes, offset + 1 + 20)?;
+
         let version = bytes[offset];
         offset += 1;
 
-- 
2.43.0


From c2e9ecd185d8b4e21a54200e5cb9c5fd12728ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 12/15] fix: verifying a standard authorization checks the
 origin's signatures

---
 stacks/src/transaction/auth.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..ca9d79d 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -89,8 +89,9 @@ impl Auth {
     where
         T: Into<SignatureHash>,
     {
-        if let Self::Sponsored(origin, sponsor) = self {
-            let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
+        let origin = self.verify_origin(hash)?;
+
+        if let Self::Sponsored(_, sponsor) = self {
             let auth_type = AUTH_TYPE_SPONSORED;
             sponsor.verify(origin, auth_type)?;
         }
-- 
2.43.0


From 82c14e57f42747c3a02d969d62ba2f99bc6fbc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:42 +0000
Subject: [PATCH 13/15] fix: inserting an existing tuple key replaces its value

---
 stacks/src/clarity/impl.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 6763332..f70b5d2 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -701,7 +701,13 @@ impl Tuple {
     where
         T: Clarity,
     {
-        self.__value.push((key, Box::new(value)));
+        let value: Box<dyn Clarity> = Box::new(value);
+
+        if let Some((_, old)) = self.__value.iter_mut().find(|(k, _)| *k == key) {
+            *old = value;
+        } else {
+            self.__value.push((key, value));
+        }
     }
 
     /// Removes a key-value pair from the tuple.
-- 
2.43.0


From 0fa5f3c1177078d74ba73f2462f84b8f50073dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:18 +0000
Subject: [PATCH 14/15] fix: values of Clarity types that only look alike as
 text are not equal

---
 stacks/src/clarity/macro.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..7df8cb1 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -69,7 +69,9 @@ macro_rules! impl_clarity_primitive {
         }
         impl ::std::cmp::PartialEq for $name {
             fn eq(&self, other: &Self) -> bool {
+                // The text alone is ambiguous: strings are not escaped in it.
                 self.to_string() == other.to_string()
+                    && self.encode().ok() == other.encode().ok()
             }
         }
         impl ::std::cmp::Eq for $name {}
-- 
2.43.0


From c8436224197fee2a10831dc07c264ee5dafe8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:18 +0000
Subject: [PATCH 15/15] fix: rpc paths carry names percent-encoded

---
 stacks/src/rpc.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 4885f45..a5c3647 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -177,6 +177,22 @@ pub struct ReadOnlyErr {
     pub cause: String,
 }
 
+/// Percent-encodes a path segment, Clarity names may contain `?`, `/` and the like.
+fn encode_segment(segment: &str) -> String {
+    let mut buff = String::with_capacity(segment.len());
+
+    for byte in segment.bytes() {
+        match byte {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                buff.push(char::from(byte));
+            }
+            _ => buff.push_str(&f!("%{byte:02X}")),
+        }
+    }
+
+    buff
+}
+
 #[derive(Debug, Clone)]
 pub struct StacksRPC {
     /// The stacks rpc endpoint.
@@ -203,7 +219,11 @@ impl StacksRPC {
     where
         T: Into<String>,
     {
-        let request = ureq::get(&f!("{}/v2/accounts/{}", self.__url, addr.into()));
+        let request = ureq::get(&f!(
+            "{}/v2/accounts/{}",
+            self.__url,
+            encode_segment(&addr.into())
+        ));
         Ok(request.call()?.into_json::<AddressInfoResponse>()?)
     }
 
@@ -255,9 +275,9 @@ impl StacksRPC {
         let req = ureq::post(&f!(
             "{}/v2/contracts/call-read/{}/{}/{}",
             self.__url,
-            contract_addr,
-            contract_name,
-            fn_name
+            encode_segment(contract_addr),
+            encode_segment(contract_name),
+            encode_segment(fn_name)
         ));
 
         let arguments = fn_args
-- 
2.43.0

