From 481ad685e21899e5ea9d5efb19298c1106a940ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 1/4] fix: normalize gives the point at infinity its one
 canonical form

P - P has a zero z coordinate but leftover x and y coordinates; normalize left
those in place, so equal points kept different bytes and encodings.
---
 src/lib.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3720db9..1b71204 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -234,12 +234,10 @@ impl Group for G1 {
         self.0.into_bytes()
     }
     fn normalize(&mut self) {
-        let new = match self.0.to_affine() {
-            Some(a) => a,
-            None => return,
+        self.0 = match self.0.to_affine() {
+            Some(a) => a.to_jacobian(),
+            None => groups::G1::zero(),
         };
-
-        self.0 = new.to_jacobian();
     }
 }
 
@@ -323,12 +321,10 @@ impl Group for G2 {
     fn into_bytes(&self) -> Vec<u8> { self.0.into_bytes() }
 
     fn normalize(&mut self) {
-        let new = match self.0.to_affine() {
-            Some(a) => a,
-            None => return,
+        self.0 = match self.0.to_affine() {
+            Some(a) => a.to_jacobian(),
+            None => groups::G2::zero(),
         };
-
-        self.0 = new.to_jacobian();
     }
 }
 
-- 
2.43.0


From 91e3fede572180463c7cd7d3ec2d08bae4b802e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 2/4] fix: decoding a field element refuses an integer that is
 not below the modulus

The derived decoders took any 256-bit integer. Fr decoded from the modulus
itself was a second zero that is_zero denied, and inverting it never returned.
---
 src/fields/fp.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/fields/fp.rs b/src/fields/fp.rs
index 61810a8..ace3ee4 100644
--- a/src/fields/fp.rs
+++ b/src/fields/fp.rs
@@ -5,18 +5,54 @@ use super::FieldElement;
 use arith::{U512, U256};
 use core::fmt;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{io, BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
-use serde::{Serialize, Deserialize};
+use serde::{de, Serialize, Deserialize, Deserializer};
 
 macro_rules! field_impl {
     ($name:ident, $modulus:expr, $rsquared:expr, $rcubed:expr, $one:expr, $inv:expr) => {
         #[derive(Copy, Clone, PartialEq, Eq, Debug)]
-        #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-        #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+        #[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+        #[cfg_attr(feature = "serde", derive(Serialize))]
         #[repr(C)]
         pub struct $name(U256);
 
+        // Decoding refuses residues that are not below the modulus: arithmetic
+        // and equality rely on every element being fully reduced.
+        #[cfg(feature = "serde")]
+        impl<'de> Deserialize<'de> for $name {
+            fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                mod unchecked {
+                    use arith::U256;
+                    use serde::Deserialize;
+
+                    #[derive(Deserialize)]
+                    pub struct $name(pub U256);
+                }
+
+                let a = unchecked::$name::deserialize(deserializer)?.0;
+
+                if a < U256($modulus) {
+                    Ok($name(a))
+                } else {
+                    Err(de::Error::custom("integer is not less than modulus"))
+                }
+            }
+        }
+
+        #[cfg(feature = "borsh")]
+        impl BorshDeserialize for $name {
+            fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+                let a = U256::deserialize_reader(reader)?;
+
+                if a < U256($modulus) {
+                    Ok($name(a))
+                } else {
+                    Err(io::Error::new(io::ErrorKind::InvalidData, "integer is not less than modulus"))
+                }
+            }
+        }
+
         impl From<$name> for U256 {
             #[inline]
             fn from(mut a: $name) -> Self {
-- 
2.43.0


From cc5948d89140dee963a23822a3bdbc44a29e4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 3/4] fix: decoding a point refuses coordinates outside the
 group

The derived decoders took any three coordinates, so points off the curve and
points of the twist outside the order-r subgroup passed for elements of G1 and
G2. check_order, unused until now, says where the order has to be checked.
---
 src/groups/mod.rs | 69 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 5 deletions(-)

diff --git a/src/groups/mod.rs b/src/groups/mod.rs
index fe847c0..75497ac 100644
--- a/src/groups/mod.rs
+++ b/src/groups/mod.rs
@@ -4,9 +4,9 @@ use arith::U256;
 use std::fmt;
 use rand::Rng;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{io, BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
-use serde::{de::DeserializeOwned, Serialize, Deserialize};
+use serde::{de::{self, DeserializeOwned}, Serialize, Deserialize, Deserializer};
 
 pub trait GroupElement
     : Sized
@@ -36,12 +36,11 @@ pub trait GroupParams: Sized {
     fn name() -> &'static str;
     fn one() -> G<Self>;
     fn coeff_b() -> Self::Base;
-    #[allow(dead_code)]
     fn check_order() -> bool { false }
 }
 
-#[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[repr(C)]
 pub struct G<P: GroupParams> {
     x: P::Base,
@@ -49,6 +48,50 @@ pub struct G<P: GroupParams> {
     z: P::Base,
 }
 
+// Decoding refuses coordinates that are not those of an element of the group:
+// neither the group law nor the pairing makes sense for them.
+#[cfg(feature = "serde")]
+impl<'de, P: GroupParams> Deserialize<'de> for G<P> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        mod unchecked {
+            use serde::Deserialize;
+
+            #[derive(Deserialize)]
+            pub struct G<B> {
+                pub x: B,
+                pub y: B,
+                pub z: B,
+            }
+        }
+
+        let point = unchecked::G::<P::Base>::deserialize(deserializer)?;
+        let point = G { x: point.x, y: point.y, z: point.z };
+
+        if point.is_member() {
+            Ok(point)
+        } else {
+            Err(de::Error::custom("point is not an element of the group"))
+        }
+    }
+}
+
+#[cfg(feature = "borsh")]
+impl<P: GroupParams> BorshDeserialize for G<P> {
+    fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+        let point = G {
+            x: P::Base::deserialize_reader(reader)?,
+            y: P::Base::deserialize_reader(reader)?,
+            z: P::Base::deserialize_reader(reader)?,
+        };
+
+        if point.is_member() {
+            Ok(point)
+        } else {
+            Err(io::Error::new(io::ErrorKind::InvalidData, "point is not an element of the group"))
+        }
+    }
+}
+
 #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct AffineG<P: GroupParams> {
@@ -122,6 +165,22 @@ impl<P: GroupParams> PartialEq for G<P> {
 impl<P: GroupParams> Eq for G<P> {}
 
 impl<P: GroupParams> G<P> {
+    /// Whether the coordinates are those of an element of the group: the point
+    /// at infinity, or a point of the curve whose order is that of the group.
+    fn is_member(&self) -> bool {
+        if self.is_zero() {
+            return true;
+        }
+
+        let z_cubed = self.z.squared() * self.z;
+        let x_cubed = self.x.squared() * self.x;
+
+        if self.y.squared() != x_cubed + P::coeff_b() * z_cubed.squared() {
+            return false;
+        }
+
+        !P::check_order() || (*self * (-Fr::one()) + *self).is_zero()
+    }
     pub fn into_bytes(&self) -> Vec<u8> {
         [
             self.x.into_bytes(),
-- 
2.43.0


From 8523e5832cf56fc90394e82a944bd4c618782ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 4/4] fix: decoding refuses zero as an element of Gt

Gt::inverse unwraps the inverse, so a decoded zero made it panic.
---
 src/lib.rs | 46 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1b71204..1db3528 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,12 +25,13 @@ use std::{
 use rand::{Rng, distributions::{Distribution, Standard}};
 use core::fmt;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{io, BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
 use serde::{
-    de::DeserializeOwned,
+    de::{self, DeserializeOwned},
     Serialize,
-    Deserialize
+    Deserialize,
+    Deserializer
 };
 
 #[derive(Copy, Clone, PartialEq, Eq)]
@@ -375,11 +376,46 @@ impl Debug for G2 {
 }
 
 #[derive(Copy, Clone, PartialEq, Eq)]
-#[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[repr(C)]
 pub struct Gt(fields::Fq12);
 
+// Decoding refuses zero, which is in no multiplicative group and has no inverse.
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for Gt {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        mod unchecked {
+            use fields;
+            use serde::Deserialize;
+
+            #[derive(Deserialize)]
+            pub struct Gt(pub fields::Fq12);
+        }
+
+        let a = unchecked::Gt::deserialize(deserializer)?.0;
+
+        if a.is_zero() {
+            Err(de::Error::custom("zero is not an element of the group"))
+        } else {
+            Ok(Gt(a))
+        }
+    }
+}
+
+#[cfg(feature = "borsh")]
+impl BorshDeserialize for Gt {
+    fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+        let a = fields::Fq12::deserialize_reader(reader)?;
+
+        if a.is_zero() {
+            Err(io::Error::new(io::ErrorKind::InvalidData, "zero is not an element of the group"))
+        } else {
+            Ok(Gt(a))
+        }
+    }
+}
+
 impl Gt {
     pub fn one() -> Self {
         Gt(fields::Fq12::one())
-- 
2.43.0

