From 200d3ef4d3059261fabf92c9925e9c265b296e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 01/22] fix: bound-check every octet of the BER header

---
 src/ber/header.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..8ff985f 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -69,8 +69,7 @@ impl BerHeader {
                 // > 30
                 let mut n = 0 as Tag;
                 loop {
-                    // @todo: check size
-                    let t = i[current];
+                    let t = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
                     current += 1;
                     n = (n << 7) | ((t & 0x7f) as Tag);
                     if t & 0x80 == 0 {
@@ -84,16 +83,21 @@ impl BerHeader {
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
         // @todo: Indefinite length
-        let n = i[current];
+        let n = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
+            let mut ln = 0usize;
             for _ in 0..n & 0x7f {
-                ln = (ln << 8) + (i[current] as usize);
+                let t = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
+                if ln > usize::MAX >> 8 {
+                    // Does not fit to usize, surely exceeds the input
+                    return Err(Err::Failure(SnmpError::InvalidData));
+                }
+                ln = (ln << 8) + (t as usize);
                 current += 1;
             }
             ln
-- 
2.43.0


From 04c0ca325f5afee7fa5bb88e2f34898e5800331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 02/22] fix: reject an empty varbind in the response

---
 src/snmp/getresponse.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..4d2d792 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -8,7 +8,6 @@
 use super::value::SnmpValue;
 use crate::ber::{
     BerDecoder, SnmpInt, SnmpOid, SnmpRelativeOid, SnmpSequence, TAG_OBJECT_ID, TAG_RELATIVE_OID,
-    Tag,
 };
 use crate::error::SnmpError;
 
@@ -46,9 +45,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
-            let (tail, oid) = match vs.0[0] as Tag {
-                TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
-                TAG_RELATIVE_OID => {
+            let (tail, oid) = match vs.0.first() {
+                Some(&TAG_OBJECT_ID) => SnmpOid::from_ber(vs.0)?,
+                Some(&TAG_RELATIVE_OID) => {
                     if vars.is_empty() {
                         // Relative oid must follow absolute one
                         return Err(SnmpError::UnexpectedTag);
-- 
2.43.0


From f7a023e5ef06326c6348ee1f779f72163d1b048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 03/22] fix: reject a relative OID which cannot be applied

---
 src/ber/relative_oid.rs | 44 +++++++++++++++++++++--------------------
 src/snmp/getresponse.rs |  4 ++++
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..18c952a 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -24,31 +24,33 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 
 impl SnmpRelativeOid<'_> {
     /// Apply relative oid to absolute one
-    /// and return normalized absolute oid
+    /// and return normalized absolute oid.
+    /// Return empty oid if relative oid cannot be applied.
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
         // Number of subelements
         let rel_si = SnmpRelativeOid::subelements(self.0);
-        // Number of subelements in base. First octet holds 2 subidentifiers.
-        let base_si = SnmpRelativeOid::subelements(&oid.0[1..]) + 2;
-        //
-        if rel_si < base_si - 2 {
-            let offset = SnmpRelativeOid::find_subelement(&oid.0[1..], base_si - rel_si - 2)
-                .unwrap_or(0)
-                + 1;
-            let mut r = Vec::with_capacity(oid.0.len() + self.0.len());
-            r.extend_from_slice(&oid.0[..offset]);
-            r.extend_from_slice(self.0);
-            SnmpOid::from(r)
-        } else {
-            // Replace fully
-            // First value is collapsed to one
-            let mut r = Vec::with_capacity(self.0.len() - 1);
-            // Collapse first two values into one octet
-            r.push(self.0[0] * 40 + self.0[1]);
-            // Push others
-            r.extend_from_slice(&self.0[2..]);
-            SnmpOid::from(r)
+        let mut r = Vec::with_capacity(oid.0.len() + self.0.len());
+        if let Some((&first, base)) = oid.0.split_first() {
+            // Number of subelements in base.
+            // First octet holds 2 subidentifiers and is not counted.
+            let base_si = SnmpRelativeOid::subelements(base);
+            if rel_si < base_si {
+                if rel_si > 0 {
+                    let offset =
+                        SnmpRelativeOid::find_subelement(base, base_si - rel_si).unwrap_or(0);
+                    r.push(first);
+                    r.extend_from_slice(&base[..offset]);
+                    r.extend_from_slice(self.0);
+                }
+            } else if let [a @ 0..=2, b @ 0..=39, rest @ ..] = self.0 {
+                // Replace fully
+                // Collapse first two values into one octet
+                r.push(a * 40 + b);
+                // Push others
+                r.extend_from_slice(rest);
+            }
         }
+        SnmpOid::from(r)
     }
     // Calculate number of subelements
     #[inline]
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 4d2d792..b42519b 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -55,6 +55,10 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
                     let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    if oid.0.is_empty() {
+                        // Not applicable to the previous oid
+                        return Err(SnmpError::InvalidData);
+                    }
                     // Apply relative oid
                     (t, oid)
                 }
-- 
2.43.0


From 0365a1f05ef86c7ee065b511f82019aa63a8df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 04/22] fix: validate the salt size before AES decryption

---
 src/privacy/aes128.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..36f2236 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -16,6 +16,7 @@ use cipher::{AsyncStreamCipher, BlockEncryptMut, KeyIvInit, block_padding::NoPad
 use rand::Rng;
 
 const KEY_LENGTH: usize = 16;
+const SALT_SIZE: usize = 8;
 const BLOCK_SIZE: usize = 16;
 const PADDING: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
 
@@ -82,6 +83,9 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
-- 
2.43.0


From 3b88dfde5dfc9914cea8dd4ece20b434564eee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 05/22] fix: do not panic on exception values in the response

---
 src/error.rs           | 4 ++--
 src/snmp/op/getnext.rs | 7 ++++---
 src/snmp/value.rs      | 9 +++++----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6a57330..782cb7b 100755
--- a/src/error.rs
+++ b/src/error.rs
@@ -131,7 +131,7 @@ impl From<SnmpError> for PyErr {
 }
 
 impl From<Infallible> for SnmpError {
-    fn from(_value: Infallible) -> Self {
-        todo!("Should never happen")
+    fn from(value: Infallible) -> Self {
+        match value {}
     }
 }
diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..8da8262 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -47,9 +47,10 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                         }
                         // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
-                            }
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
                             value => Ok(PyTuple::new(
                                 py,
                                 vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..6e5e8f3 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -15,7 +15,7 @@ use crate::ber::{
 };
 use crate::error::SnmpError;
 use nom::{Err, IResult};
-use pyo3::{Bound, IntoPyObject, PyAny, Python};
+use pyo3::{Bound, IntoPyObject, PyAny, Python, types::PyNone};
 
 pub enum SnmpValue<'a> {
     Bool(SnmpBool),
@@ -129,7 +129,7 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
         Ok(match self {
             SnmpValue::Bool(x) => x.into_pyobject(py)?,
             SnmpValue::Int(x) => x.into_pyobject(py)?,
-            SnmpValue::Null => todo!("None"),
+            SnmpValue::Null => PyNone::get(py).to_owned().into_any(),
             SnmpValue::OctetString(x) => x.into_pyobject(py)?,
             SnmpValue::Oid(x) => x.into_pyobject(py)?,
             SnmpValue::ObjectDescriptor(x) => x.into_pyobject(py)?,
@@ -141,8 +141,9 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
             SnmpValue::Opaque(x) => x.into_pyobject(py)?,
             SnmpValue::Counter64(x) => x.into_pyobject(py)?,
             SnmpValue::UInteger32(x) => x.into_pyobject(py)?,
-            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance => todo!("never should be passed"),
-            SnmpValue::EndOfMibView => todo!("never should be passed"),
+            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => {
+                return Err(SnmpError::NoSuchInstance);
+            }
         })
     }
 }
-- 
2.43.0


From 2eef54740559f0d2825e886a92c81b7287737e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 06/22] fix: decode 8-octet negative INTEGER and reject longer
 ones

---
 src/ber/int.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..47b0db2 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -23,23 +23,21 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
+        if h.length > MAX_INT_LENGTH {
+            return Err(SnmpError::InvalidData);
+        }
+        // Sign extension, X.690 pp 8.3.3
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
         let v = i
             .iter()
             .take(h.length)
-            .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+            .fold(sign, |acc, x| (acc << 8) | (*x as i64));
+        Ok(SnmpInt(v))
     }
 }
 
 const ZERO_BER: [u8; 3] = [TAG_INT, 1, 0];
+const MAX_INT_LENGTH: usize = 8;
 
 impl BerEncoder for SnmpInt {
     fn push_ber(&self, buf: &mut Buffer) -> SnmpResult<()> {
-- 
2.43.0


From 673d1623cce7d4d8fa0736dfa0d43ba17c9c7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 07/22] fix: encode negative INTEGER as minimal two's
 complement

---
 src/ber/int.rs | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index 47b0db2..295df7b 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -64,33 +64,15 @@ impl BerEncoder for SnmpInt {
             }
             Ordering::Less => {
                 let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
-                    left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
+                // Write octets of the two's complement form
+                let mut left = self.0;
+                loop {
+                    buf.push_u8((left & 0xff) as u8)?;
+                    if left >= -0x80 {
+                        // The rest is the sign extension
+                        break;
                     }
+                    left >>= 8;
                 }
                 // Write tag and length
                 buf.push_tag_len(TAG_INT, buf.len() - start)
-- 
2.43.0


From 16d424d56ac19bcff6a47650977008a78e7c9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 08/22] fix: refuse invalid OID text instead of altering it

---
 src/ber/objectid.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..aea25e7 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -104,9 +104,11 @@ impl Iterator for OidSubelementIterator<'_> {
     type Item = Result<u32, SnmpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0
-            .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+        self.0.next().map(|part| match part.as_bytes().first() {
+            // u32::from_str() accepts leading sign
+            Some(b'0'..=b'9') => part.parse::<u32>().map_err(|_| SnmpError::InvalidData),
+            _ => Err(SnmpError::InvalidData),
+        })
     }
 }
 
@@ -123,9 +125,12 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > 2 || second > 39 {
+            return Err(SnmpError::InvalidData);
+        }
+        vec.push((40 * first + second) as u8);
         // Push other elements
         for sr in iter {
             let sub_id = sr?;
-- 
2.43.0


From 09a3f4639c67b20f94decee3688f2a67f8dbb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 09/22] fix: pass the contents of the element to the REAL
 decoder

---
 src/snmp/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index 6e5e8f3..5903557 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -59,7 +59,7 @@ impl SnmpValue<'_> {
                     TAG_OBJECT_DESCRIPTOR => {
                         SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(tail, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
-- 
2.43.0


From b81e3cdd6a7c6a6cdd906fab21ef7f45a440a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 10/22] fix: decode binary REAL and stay within its declared
 length

---
 src/ber/real.rs | 96 +++++++++++++++++++++++++++++++------------------
 1 file changed, 62 insertions(+), 34 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..9cb7ae4 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -10,6 +10,11 @@ use crate::error::{SnmpError, SnmpResult};
 use core::str::from_utf8;
 use pyo3::{Bound, IntoPyObject, PyAny, Python};
 
+const MAX_EXPONENT_LENGTH: usize = 4;
+// Largest double is below 2 ^ 1024, the smallest is 2 ^ -1074,
+// the 64-bit mantissa may add up to 64 bits.
+const MAX_SCALE: i64 = 2_000;
+
 pub struct SnmpReal(f64);
 
 impl<'a> BerDecoder<'a> for SnmpReal {
@@ -25,6 +30,8 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        // Contents octets
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,18 +48,15 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
-                // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
-                // encode the value of the binary scaling factor F
-                // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
-                }
+                // 00, 01, 10 - one, two or three octets following the first one
+                // 11 - the second octet holds the number of octets
+                let (start, ln) = match f & 0x03 {
+                    3 => (2, *i.get(1).ok_or(SnmpError::InvalidData)? as usize),
+                    n => (1, n as usize + 1),
+                };
+                let exponent = i.get(start..start + ln).ok_or(SnmpError::InvalidData)?;
+                let e = SnmpReal::parse_exponent(exponent)?;
+                let mut v = SnmpReal::parse_mantissa(&i[start + ln..])? as f64;
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
                 // Bits6to5 => Base
@@ -60,13 +64,21 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_bits = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
+                // encode the value of the binary scaling factor F
+                // as an unsigned binary integer.
+                let scaling_factor = ((f & 0x0c) >> 2) as i64;
+                // Apply 2 ^ (F + E * base_bits) in two steps to avoid the early
+                // overflow or underflow
+                let scale = (scaling_factor + e * base_bits).clamp(-MAX_SCALE, MAX_SCALE) as i32;
+                v *= 2f64.powi(scale / 2);
+                v *= 2f64.powi(scale - scale / 2);
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
                 if f & 0x40 == 0x40 {
@@ -84,21 +96,11 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
+                    1 => SnmpReal::parse_decimal(&i[1..])?,
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    2 => SnmpReal::parse_decimal(&i[1..])?,
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    3 => SnmpReal::parse_decimal(&i[1..])?,
                     _ => return Err(SnmpError::InvalidData),
                 }
             }
@@ -112,12 +114,38 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
+    // 8.5.7.4: Exponent is a two's complement binary number
+    fn parse_exponent(i: &[u8]) -> SnmpResult<i64> {
+        if i.is_empty() || i.len() > MAX_EXPONENT_LENGTH {
+            return Err(SnmpError::InvalidData);
+        }
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
+        Ok(i.iter().fold(sign, |acc, x| (acc << 8) | (*x as i64)))
+    }
+    // 8.5.7.5: Mantissa is an unsigned binary number
+    fn parse_mantissa(i: &[u8]) -> SnmpResult<u64> {
+        let mut v = 0u64;
         for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+            if v > u64::MAX >> 8 {
+                return Err(SnmpError::InvalidData);
+            }
+            v = (v << 8) | (n as u64);
+        }
+        Ok(v)
+    }
+    // 8.5.8: ISO 6093 field
+    fn parse_decimal(i: &[u8]) -> SnmpResult<f64> {
+        let s = from_utf8(i).map_err(|_| SnmpError::InvalidData)?;
+        // f64::from_str() accepts inf, infinity and nan
+        if s.bytes()
+            .any(|c| c.is_ascii_alphabetic() && !matches!(c, b'e' | b'E'))
+        {
+            return Err(SnmpError::InvalidData);
         }
-        v
+        s.trim_start_matches(' ')
+            .replace(',', ".")
+            .parse::<f64>()
+            .map_err(|_| SnmpError::InvalidData)
     }
 }
 
-- 
2.43.0


From 4821a8a0f6a27c53a860488ae347c70ae706d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 11/22] fix: reset the buffer before DES encryption

---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..358ab30 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From 6a68421f5de112c38cc8c77e168baff121f54b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 12/22] fix: refuse an empty password and keys of the wrong
 size

---
 src/auth/mod.rs | 6 +++---
 src/util.rs     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..bc5814b 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -76,9 +76,9 @@ impl AuthKey {
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
             match alg & KT_TYPE_MASK {
-                KT_PASSWORD => self.as_password(key, engine_id),
-                KT_MASTER => self.as_master(key, engine_id),
-                KT_LOCALIZED => self.as_localized(key),
+                KT_PASSWORD if !key.is_empty() => self.as_password(key, engine_id),
+                KT_MASTER if key.len() == self.get_key_size() => self.as_master(key, engine_id),
+                KT_LOCALIZED if key.len() == self.get_key_size() => self.as_localized(key),
                 _ => return Err(SnmpError::InvalidKey),
             }
         }
diff --git a/src/util.rs b/src/util.rs
index c02d500..819f788 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,9 @@ use pyo3::types::PyBytes;
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
     let auth = AuthKey::new(alg)?;
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
     Ok(PyBytes::new(py, &out).into())
-- 
2.43.0


From 1af54c7f4f57b92107277ee4c8be8e2d312ae675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 13/22] fix: stop the walk when the agent returns
 non-increasing OID

---
 src/ber/objectid.rs    | 17 +++++++++++++++++
 src/snmp/op/getiter.rs |  4 +++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index aea25e7..345d428 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -90,6 +90,23 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid is lexicographically greater than the other one
+    pub fn is_after(&self, oid: &SnmpOid) -> bool {
+        self.subelements() > oid.subelements()
+    }
+    // Decode subelements. First octet holds the first two of them.
+    fn subelements(&self) -> Vec<u32> {
+        let mut r = Vec::with_capacity(self.0.len());
+        let mut b = 0u32;
+        for c in self.0.iter() {
+            b = (b << 7) | ((*c as u32) & 0x7f);
+            if c & 0x80 == 0 {
+                r.push(b);
+                b = 0;
+            }
+        }
+        r
+    }
 }
 
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..6b67228 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -37,7 +37,9 @@ impl GetIter {
     // Save oid for next request.
     // Return true if next request may be send or return false otherwise
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From 44930765e3fb67b4610ffb1ae01d21898d107d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 14/22] fix: keep skipped octets and slices of the buffer in
 bounds

---
 src/buf/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 8897c01..7934e0e 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -84,11 +84,14 @@ impl Buffer {
     }
     #[inline]
     pub fn skip(&mut self, size: usize) {
+        let end = self.pos;
         if self.pos < size {
             self.pos = 0
         } else {
             self.pos -= size
         }
+        // Do not expose octets which were never written
+        self.data[self.pos..end].fill(MaybeUninit::new(0));
     }
     #[inline]
     fn push_u8_unchecked(&mut self, v: u8) {
@@ -158,7 +161,7 @@ impl Buffer {
         self.pos = MAX_SIZE;
     }
     pub fn as_slice(&self, len: usize) -> &[u8] {
-        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len) }
+        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len.min(MAX_SIZE)) }
     }
 }
 
-- 
2.43.0


From 6a057e2f2ccd067a7718835f0ecba55c92481afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 15/22] fix: compare the message version and security model
 untruncated

---
 src/snmp/msg/v1.rs     |  6 +++---
 src/snmp/msg/v2c.rs    |  6 +++---
 src/snmp/msg/v3/msg.rs | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/snmp/msg/v1.rs b/src/snmp/msg/v1.rs
index a27b04a..d7bc2f9 100755
--- a/src/snmp/msg/v1.rs
+++ b/src/snmp/msg/v1.rs
@@ -30,9 +30,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV1Message<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V1 {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V1 as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         // Parse community
         let (tail, community) = SnmpOctetString::from_ber(tail)?;
diff --git a/src/snmp/msg/v2c.rs b/src/snmp/msg/v2c.rs
index b296c41..1bff891 100644
--- a/src/snmp/msg/v2c.rs
+++ b/src/snmp/msg/v2c.rs
@@ -30,9 +30,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV2cMessage<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V2C {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V2C as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         // Parse community
         let (tail, community) = SnmpOctetString::from_ber(tail)?;
diff --git a/src/snmp/msg/v3/msg.rs b/src/snmp/msg/v3/msg.rs
index 6c1bfca..21abdf0 100644
--- a/src/snmp/msg/v3/msg.rs
+++ b/src/snmp/msg/v3/msg.rs
@@ -44,9 +44,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV3Message<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V3 {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V3 as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         //
         // Parse global header
@@ -64,8 +64,8 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV3Message<'a> {
         let flags = flags_data.0[0];
         // security model
         let (_, security_model) = SnmpInt::from_ber(tail)?;
-        let sm: u8 = security_model.into();
-        if sm != USM {
+        let sm: i64 = security_model.into();
+        if sm != USM as i64 {
             return Err(SnmpError::UnknownSecurityModel);
         }
         //
-- 
2.43.0


From 75a26b9d77c502a13eb18699428178a481e9ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 16/22] fix: report undecodable OID of get_many as decode error

---
 src/snmp/op/getmany.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snmp/op/getmany.rs b/src/snmp/op/getmany.rs
index a00dbe2..0bea60d 100644
--- a/src/snmp/op/getmany.rs
+++ b/src/snmp/op/getmany.rs
@@ -40,7 +40,7 @@ impl<'a> PyOp<'a, Vec<PyBackedStr>> for OpGetMany {
                         | SnmpValue::NoSuchInstance
                         | SnmpValue::EndOfMibView => continue,
                         _ => dict
-                            .set_item(&var.oid, &var.value)
+                            .set_item(var.oid.into_pyobject(py)?, var.value.into_pyobject(py)?)
                             .map_err(|e| PyRuntimeError::new_err(e.to_string()))?,
                     }
                 }
-- 
2.43.0


From 0f555fcea7eee69525eee186a54288bd85f60b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:54 +0000
Subject: [PATCH 17/22] fix: apply the timeout to the whole request, not to a
 datagram

---
 src/socket/snmpsocket.rs | 19 ++++++++++++++++++-
 src/socket/v1.rs         |  7 +++++++
 src/socket/v2c.rs        |  7 +++++++
 src/socket/v3.rs         |  7 +++++++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..dfe2c7a 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,10 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Socket timeouts below the resolution are treated as infinite
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
 
 pub(crate) trait SnmpSocket
 where
@@ -27,6 +30,8 @@ where
         Self: 'a;
 
     fn get_io(&mut self) -> &mut Socket;
+    /// Request timeout, `None` in the non-blocking mode
+    fn get_timeout(&self) -> Option<Duration>;
     fn get_socket(
         addr: String,
         tos: u32,
@@ -130,11 +135,23 @@ where
         // Get buffer from pool
         let mut h = get_buffer_pool().acquire();
         let buf = h.as_mut();
+        // Unwanted replies must not prolong the timeout
+        let deadline = self
+            .get_timeout()
+            .and_then(|timeout| Instant::now().checked_add(timeout));
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
             let msg = {
                 let io = self.get_io();
+                if let Some(deadline) = deadline {
+                    let left = deadline.saturating_duration_since(Instant::now());
+                    if left < MIN_TIMEOUT {
+                        return Err(SnmpError::WouldBlock.into());
+                    }
+                    io.set_read_timeout(Some(left))
+                        .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                }
                 let data = Self::recv_socket(io, buf)?;
                 // Decode message
                 Self::Message::try_from(data)?
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..fa934e7 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -20,11 +20,13 @@ use crate::{
 use pyo3::{prelude::*, pybacked::PyBackedStr};
 use socket2::Socket;
 use std::os::fd::AsRawFd;
+use std::time::Duration;
 
 /// Python class wrapping socket implementation
 #[pyclass]
 pub struct SnmpV1ClientSocket {
     io: Socket,
+    timeout: Option<Duration>,
     community: String,
     request_id: RequestId,
 }
@@ -43,6 +45,7 @@ impl SnmpV1ClientSocket {
     ) -> PyResult<Self> {
         Ok(Self {
             io: Self::get_socket(addr, tos, send_buffer_size, recv_buffer_size, timeout_ns)?,
+            timeout: (timeout_ns > 0).then(|| Duration::from_nanos(timeout_ns)),
             community,
             request_id: RequestId::default(),
         })
@@ -118,6 +121,10 @@ impl SnmpSocket for SnmpV1ClientSocket {
         &mut self.io
     }
 
+    fn get_timeout(&self) -> Option<Duration> {
+        self.timeout
+    }
+
     fn get_request_id(&mut self) -> &mut RequestId {
         &mut self.request_id
     }
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..8edd1d4 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -20,11 +20,13 @@ use crate::{
 use pyo3::{prelude::*, pybacked::PyBackedStr};
 use socket2::Socket;
 use std::os::fd::AsRawFd;
+use std::time::Duration;
 
 /// Python class wrapping socket implementation
 #[pyclass]
 pub struct SnmpV2cClientSocket {
     io: Socket,
+    timeout: Option<Duration>,
     community: String,
     request_id: RequestId,
 }
@@ -42,6 +44,7 @@ impl SnmpV2cClientSocket {
     ) -> PyResult<Self> {
         Ok(Self {
             io: Self::get_socket(addr, tos, send_buffer_size, recv_buffer_size, timeout_ns)?,
+            timeout: (timeout_ns > 0).then(|| Duration::from_nanos(timeout_ns)),
             community,
             request_id: RequestId::default(),
         })
@@ -117,6 +120,10 @@ impl SnmpSocket for SnmpV2cClientSocket {
         &mut self.io
     }
 
+    fn get_timeout(&self) -> Option<Duration> {
+        self.timeout
+    }
+
     fn get_request_id(&mut self) -> &mut RequestId {
         &mut self.request_id
     }
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..72953f9 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -23,11 +23,13 @@ use pyo3::types::PyBytes;
 use pyo3::{prelude::*, pybacked::PyBackedStr};
 use socket2::Socket;
 use std::os::fd::AsRawFd;
+use std::time::Duration;
 
 /// Python class wrapping socket implementation
 #[pyclass]
 pub struct SnmpV3ClientSocket {
     io: Socket,
+    timeout: Option<Duration>,
     engine_id: Vec<u8>,
     engine_boots: i64,
     engine_time: i64,
@@ -72,6 +74,7 @@ impl SnmpV3ClientSocket {
         //
         Ok(Self {
             io: Self::get_socket(addr, tos, send_buffer_size, recv_buffer_size, timeout_ns)?,
+            timeout: (timeout_ns > 0).then(|| Duration::from_nanos(timeout_ns)),
             engine_id,
             engine_boots: 0,
             engine_time: 0,
@@ -195,6 +198,10 @@ impl SnmpSocket for SnmpV3ClientSocket {
         &mut self.io
     }
 
+    fn get_timeout(&self) -> Option<Duration> {
+        self.timeout
+    }
+
     fn get_request_id(&mut self) -> &mut RequestId {
         &mut self.request_id
     }
-- 
2.43.0


From ba24b6443d499f685d20e7bf8e0522f6cacdacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 18/22] fix: never round the policing interval down

---
 src/gufo/snmp/policer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/policer.py b/src/gufo/snmp/policer.py
index ddf1bc2..b44d5d0 100644
--- a/src/gufo/snmp/policer.py
+++ b/src/gufo/snmp/policer.py
@@ -10,6 +10,7 @@
 # Python modules
 import asyncio
 from abc import ABC, abstractmethod
+from math import ceil
 from time import perf_counter_ns, sleep
 from typing import Optional
 
@@ -92,10 +93,12 @@ class RPSPolicer(BasePolicer):
             msg = "Invalid RPS"
             raise ValueError(msg)
         self._prev: Optional[int] = None
-        self._delta: int = int(NS / rps)
-        if not self._delta:
+        interval = NS / rps
+        if interval < 1:
             msg = "RPS is too high"
             raise ValueError(msg)
+        # Round up to not exceed the rate
+        self._delta: int = ceil(interval)
 
     def get_timeout(self: "RPSPolicer", ts: int) -> Optional[int]:
         """
-- 
2.43.0


From 46461b26bb8a24a2e96565257dbe35f8d8f6621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 19/22] fix: apply the policer and remap the timeout in the
 sync refresh()

---
 src/gufo/snmp/sync_client/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..05525a0 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,16 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send single GET and receive REPORT."""
+        if self._policer:
+            self._policer.wait_sync()
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
-- 
2.43.0


From ca6188a9159a5051750e8c8dc7379af4978bd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:38 +0000
Subject: [PATCH 20/22] fix: verify authenticity and security level of incoming
 v3 messages

---
 src/auth/digest.rs       | 14 ++++++++++++++
 src/auth/mod.rs          |  3 +++
 src/auth/noauth.rs       |  3 +++
 src/socket/snmpsocket.rs | 13 +++++++------
 src/socket/v1.rs         |  2 +-
 src/socket/v2c.rs        |  2 +-
 src/socket/v3.rs         |  9 ++++++++-
 7 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/auth/digest.rs b/src/auth/digest.rs
index 2f0ebe0..d985abc 100644
--- a/src/auth/digest.rs
+++ b/src/auth/digest.rs
@@ -122,4 +122,18 @@ impl<D: Digest, const KS: usize, const SS: usize> SnmpAuth for DigestAuth<D, KS,
         data[offset..offset + SS].copy_from_slice(&d2[0..SS]);
         Ok(())
     }
+    fn verify(&self, data: &[u8], mac: &[u8]) -> bool {
+        // RFC-3414, pp. 6.3.2. Processing an incoming message
+        if mac.len() != SS || data.len() < SS {
+            return false;
+        }
+        let offset = (mac.as_ptr() as usize).wrapping_sub(data.as_ptr() as usize);
+        if offset > data.len() - SS {
+            return false;
+        }
+        // Replace MAC with zeroes, sign again and compare
+        let mut msg = data.to_vec();
+        msg[offset..offset + SS].fill(0);
+        self.sign(&mut msg, offset).is_ok() && msg == data
+    }
 }
diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index bc5814b..8a850c0 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -51,6 +51,9 @@ pub trait SnmpAuth {
     fn placeholder(&self) -> &'static [u8];
     // Sign data in buffer
     fn sign(&self, data: &mut [u8], offset: usize) -> SnmpResult<()>;
+    // Verify the signature of received data.
+    // `mac` must be the part of the `data`
+    fn verify(&self, data: &[u8], mac: &[u8]) -> bool;
 }
 
 // - - X X    X X X X
diff --git a/src/auth/noauth.rs b/src/auth/noauth.rs
index f02f980..1c3d330 100644
--- a/src/auth/noauth.rs
+++ b/src/auth/noauth.rs
@@ -34,4 +34,7 @@ impl SnmpAuth for NoAuth {
     fn sign(&self, _data: &mut [u8], _offset: usize) -> SnmpResult<()> {
         Ok(())
     }
+    fn verify(&self, _data: &[u8], _mac: &[u8]) -> bool {
+        false
+    }
 }
diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index dfe2c7a..6b2cd19 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -102,7 +102,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // Check the message, decoded from the datagram `data`
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &[u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -142,7 +143,7 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let data = {
                 let io = self.get_io();
                 if let Some(deadline) = deadline {
                     let left = deadline.saturating_duration_since(Instant::now());
@@ -152,11 +153,11 @@ where
                     io.set_read_timeout(Some(left))
                         .map_err(|e| SnmpError::SocketError(e.to_string()))?;
                 }
-                let data = Self::recv_socket(io, buf)?;
-                // Decode message
-                Self::Message::try_from(data)?
+                Self::recv_socket(io, buf)?
             };
-            match self.unwrap_pdu(msg) {
+            // Decode message
+            let msg = Self::Message::try_from(data)?;
+            match self.unwrap_pdu(msg, data) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index fa934e7..e416537 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -137,7 +137,7 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _data: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 8edd1d4..83bde91 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -136,7 +136,7 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _data: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 72953f9..39f64b0 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -251,7 +251,11 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, raw: &[u8]) -> Option<SnmpPdu<'a>> {
+        // Check security level. Only reports may be accepted below the configured one
+        let is_secure = (!self.auth_key.has_auth()
+            || (msg.flag_auth && self.auth_key.verify(raw, msg.usm.auth_params)))
+            && (!self.priv_key.has_priv() || matches!(msg.data, MsgData::Encrypted(_)));
         // Get and decode scoped pdu
         let data = match msg.data {
             MsgData::Plaintext(x) => x,
@@ -268,6 +272,9 @@ impl SnmpSocket for SnmpV3ClientSocket {
         {
             return None;
         }
+        if !is_secure && !matches!(data.pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         // Update engine parameters
         self.engine_boots = msg.usm.engine_boots;
         self.engine_time = msg.usm.engine_time;
-- 
2.43.0


From 4577643ea96c2bb4f78641d8ce1b585796d7ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:29 +0000
Subject: [PATCH 21/22] fix: skip reports in v1 and v2c sessions

---
 src/socket/v1.rs  | 4 ++++
 src/socket/v2c.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index e416537..c71205c 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -147,6 +147,10 @@ impl SnmpSocket for SnmpV1ClientSocket {
         if !pdu.check(&self.request_id) {
             return None;
         }
+        // Reports are used in v3 only and not bound to the request id
+        if matches!(pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         Some(pdu)
     }
 }
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 83bde91..187d534 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -146,6 +146,10 @@ impl SnmpSocket for SnmpV2cClientSocket {
         if !pdu.check(&self.request_id) {
             return None;
         }
+        // Reports are used in v3 only and not bound to the request id
+        if matches!(pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         Some(pdu)
     }
 }
-- 
2.43.0


From ce20fd5ad62a456af7fbc42465ac75bc19dcec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 22/22] fix: render the first sub-identifier of an OID per
 X.690 8.19.4

---
 src/ber/objectid.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 345d428..ed2d623 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -68,18 +68,24 @@ impl TryFrom<&SnmpOid<'_>> for String {
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
-        // First two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
         let mut b = 0u32;
-        for c in iter {
+        for c in value.0.iter() {
             b = (b << 7) + ((*c as u32) & 0x7f);
             if c & 0x80 == 0 {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
+                if r.is_empty() {
+                    // First two subelements, X.690 pp 8.19.4
+                    let first = (b / 40).min(2);
+                    write!(r, "{}.{}", first, b - 40 * first)
+                } else {
+                    write!(r, ".{}", b)
+                }
+                .map_err(|_| SnmpError::InvalidData)?;
                 b = 0;
             }
         }
+        if r.is_empty() {
+            return Err(SnmpError::InvalidData);
+        }
         Ok(r)
     }
 }
-- 
2.43.0

