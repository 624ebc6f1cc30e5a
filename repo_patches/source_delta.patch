From 44d2332dcea7846d3adbcb2e847d50aa32360975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 01/56] fix: hash HMAC keys that are longer than a block

RFC 2104 requires keys longer than the block size to be replaced by their
hash; they were cut off at the block size instead.
---
 crylib/src/hmac.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..33768af 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -16,6 +16,15 @@ where
     H: BlockHasher<H_LEN, B_LEN>,
 {
     pub fn new(key: &[u8]) -> Self {
+        // keys longer than a block are hashed first, see RFC 2104, section 2
+        let hashed_key;
+        let key = if key.len() > B_LEN {
+            hashed_key = H::hash(key);
+            &hashed_key
+        } else {
+            key
+        };
+
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
-- 
2.43.0


From 1987c0f3f1405638ae4648c7a62302ced8adc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 02/56] fix: do not add a padding block to block-aligned GCM
 input

GHASH pads the associated data and the cipher text only up to the next
multiple of the block size (SP 800-38D, section 7.1). Data whose length was
a non-zero multiple of 16 got a whole block of zeros, and thus a wrong tag.
---
 crylib/src/aead/gcm.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..f42d5b1 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,12 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        // only an incomplete last block is padded
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +174,12 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        // only an incomplete last block is padded
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 3a9eb1880dac7300908b97dc28273e66a687c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 03/56] fix: leave the buffer beyond the message alone in
 chacha20::encrypt

The key stream was applied to the whole of `buf`, of which only the first
`msg.len()` bytes hold the message.
---
 crylib/src/aead/chacha/chacha20.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..2ba9c2e 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -123,7 +123,8 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// WARNING: users MUST NOT use the same `nonce`
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
-    buf[..msg.len()].copy_from_slice(msg);
+    let buf = &mut buf[..msg.len()];
+    buf.copy_from_slice(msg);
     encrypt_inline(buf, key, nonce, counter);
 }
 
-- 
2.43.0


From 5ec424940ba3d2a6849ece03bb5ff546378c0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 04/56] fix: implement AsRef<UBigInt<N>> for [u64; N]

It panicked with todo!(), although the mutable form was implemented.
---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From 963d8fb1380dc4b002bcf305c9969d8fdb9046cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 05/56] fix: compute the absolute value of a BigInt

abs() returned the exclusive or of the number and its inverse.
---
 crylib/src/big_int/signed.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..34e8aa9 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -200,9 +200,7 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs_assign(&mut self) {
-        let temp = *self;
-        self.neg_assign();
-        self.xor_assign(&temp);
+        *self = self.abs();
     }
 
     /// Returns the absolute value of `self`.
@@ -212,7 +210,14 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        self.xor(&self.neg())
+        // `!self + 1` if `self` is negative, otherwise `self`
+        let mut digits = self.digits;
+        digits.xor_assign(&UBigInt::MAX.and_bool(self.is_negative));
+        digits.add_assign(&UBigInt::ONE.and_bool(self.is_negative));
+        Self {
+            digits,
+            is_negative: false,
+        }
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
-- 
2.43.0


From 991a274b768c862952e089b45fbb73d59133a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 06/56] fix: order BigInts by their value

cmp() was inverted, and contradicted the comparison operators, which in turn
were wrong whenever the difference of the operands overflowed.
---
 crylib/src/big_int/signed.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 34e8aa9..3a76ae5 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -280,7 +280,10 @@ impl_big_int!(8);
 
 impl<const N: usize> PartialOrd for BigInt<N> {
     fn lt(&self, other: &Self) -> bool {
-        self.sub(other).is_negative
+        // Numbers of the same sign are ordered like their digits.
+        let (_, overflowed) = self.digits.overflowing_sub(&other.digits);
+        (self.is_negative & !other.is_negative)
+            | (overflowed & (self.is_negative == other.is_negative))
     }
 
     fn le(&self, other: &Self) -> bool {
@@ -288,7 +291,7 @@ impl<const N: usize> PartialOrd for BigInt<N> {
     }
 
     fn gt(&self, other: &Self) -> bool {
-        other.sub(self).is_negative
+        other.lt(self)
     }
 
     fn ge(&self, other: &Self) -> bool {
@@ -302,12 +305,14 @@ impl<const N: usize> PartialOrd for BigInt<N> {
 
 impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        let cmped = self.sub(other);
-        match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
+        if self.lt(other) {
+            return core::cmp::Ordering::Less;
         }
+
+        if self == other {
+            return core::cmp::Ordering::Equal;
+        }
+        core::cmp::Ordering::Greater
     }
 }
 
-- 
2.43.0


From 4b1edce547ea025d548137bcd3f7761ee8f12845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 07/56] fix: extend the sign when a negative BigInt is widened

The new digits were zero, which changed the value.
---
 crylib/src/big_int/signed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 3a76ae5..a181de8 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -220,9 +220,15 @@ impl<const N: usize> BigInt<N> {
         }
     }
 
+    /// Resizes a `BigInt<N>` to a `BigInt<O>`, truncating most significant bits if necessary.
     pub fn resize<const O: usize>(self) -> BigInt<O> {
+        let mut digits: UBigInt<O> = self.digits.resize();
+        if self.is_negative && O > N {
+            // extend the sign
+            digits.0[N..].fill(u64::MAX);
+        }
         BigInt {
-            digits: self.digits.resize(),
+            digits,
             is_negative: self.is_negative,
         }
     }
-- 
2.43.0


From 441cbd9c3ddfc58af2b76ea3d0560db1b33af380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 08/56] fix: multiply negative BigInts correctly

The digits of negative numbers, which are in two's compliment, were multiplied
as if they were the number's magnitude.
---
 crylib/src/big_int/signed.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index a181de8..8057b0a 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -266,15 +266,22 @@ macro_rules! impl_big_int {
 
             /// Muliplies `self` and `rhs`, returing the result.
             ///
-            /// The product is twice the width of the input, so overflow cannot occur.
+            /// The product is twice the width of the input, so overflow only occurs if both are
+            /// [`BigInt::MIN`]. In that case, it wraps around.
             pub fn widening_mul(&self, rhs: &Self) -> BigInt<{ $n * 2 }> {
-                let product = self.digits.widening_mul(&rhs.digits);
-                BigInt::<{ $n * 2 }> {
-                    digits: product,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
+                // The digits of a negative number are `2^(64 * $n)` more than its value.
+                let mut product: BigInt<{ $n * 2 }> =
+                    self.digits.widening_mul(&rhs.digits).into();
+                for (sign, digits) in [
+                    (self.is_negative, &rhs.digits),
+                    (rhs.is_negative, &self.digits),
+                ] {
+                    let mut excess = UBigInt::<{ $n * 2 }>::ZERO;
+                    excess.0[$n..].copy_from_slice(&digits.and_bool(sign).0);
+                    product.sub_assign(&excess.into());
                 }
+                product.is_negative ^= self.is_negative & rhs.is_negative;
+                product
             }
         }
     };
-- 
2.43.0


From 879d43a664b9d9f036bfe398c5cab48379f186bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 09/56] fix: divide negative BigInts correctly

The digits of negative numbers, which are in two's compliment, were divided
as if they were the number's magnitude, and a remainder of zero was given the
sign of the dividend.
---
 crylib/src/big_int/signed.rs | 38 ++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 8057b0a..5db414f 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -239,23 +239,41 @@ macro_rules! impl_big_int {
         impl BigInt<$n> {
             /// Divides `self` by `rhs`, returning the quotient and the remainder.
             ///
+            /// The quotient is rounded towards zero, so that the remainder has the sign of `self`.
+            ///
             /// # Panics
             /// This function will panic if `divisor == Self::ZERO`.
             ///
             /// # Constant-timedness
             /// TODO: document constant-timedness
             pub fn div(&self, rhs: &Self) -> (Self, Self) {
-                let (quotient, remainder) = self.digits.div(&rhs.digits);
-                let quotient = Self {
-                    digits: quotient,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
-                };
-                let remainder = Self {
-                    digits: remainder,
-                    is_negative: self.is_negative,
+                // The magnitude of `MIN` is the only one that does not fit into the digits.
+                if *rhs == Self::MIN {
+                    return match *self == Self::MIN {
+                        true => (Self::ONE, Self::ZERO),
+                        false => (Self::ZERO, *self),
+                    };
+                }
+                let divisor: Self = rhs.abs();
+                let (mut quotient, mut remainder): (Self, Self) = if *self == Self::MIN {
+                    // divide the magnitude less one
+                    let (quotient, remainder) = UBigInt::<$n>::MAX.div(&divisor.digits);
+                    (quotient.into(), Self::from(remainder).add(&Self::ONE))
+                } else {
+                    let (quotient, remainder) = self.abs().digits.div(&divisor.digits);
+                    (quotient.into(), remainder.into())
                 };
+                if remainder == divisor {
+                    quotient.add_assign(&Self::ONE);
+                    remainder = Self::ZERO;
+                }
+
+                if self.is_negative ^ rhs.is_negative {
+                    quotient.neg_assign();
+                }
+                if self.is_negative {
+                    remainder.neg_assign();
+                }
                 (quotient, remainder)
             }
 
-- 
2.43.0


From 1ccc079919d5d7d481d6d46c38ac3fb6ac84812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 10/56] fix: put the carry of mul_digit next to the product for
 all sizes

For elements of three digits, the carry was stored one digit too high.
---
 crylib/src/finite_field/field_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/finite_field/field_element.rs b/crylib/src/finite_field/field_element.rs
index cac90f4..a7e0024 100644
--- a/crylib/src/finite_field/field_element.rs
+++ b/crylib/src/finite_field/field_element.rs
@@ -208,7 +208,7 @@ macro_rules! impl_field_element {
                 for i in 0..$n {
                     (buf.0[i], carry) = crate::big_int::carry_mul(self.0 .0[i], digit, carry);
                 }
-                buf.0[buf.len() - 1] = carry;
+                buf.0[$n] = carry;
                 unsafe { Self::new_unchecked(buf.div(&F::MODULUS.resize()).1.resize()) }
             }
 
-- 
2.43.0


From 84e8ca91d54e9d8619b39905d1ddb46833fb3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 11/56] fix: never equate the point at infinity with another
 point

Doubling the point at infinity gives the representation (0, 0, 0), which
compared equal to every point.
---
 crylib/src/ec/point/projective.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..97450a4 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -13,6 +13,7 @@ impl<C: EllipticCurve> PartialEq for ProjectivePoint<C> {
     fn eq(&self, other: &Self) -> bool {
         (self.x.mul(&other.z) == other.x.mul(&self.z))
             & (self.y.mul(&other.z) == other.y.mul(&self.z))
+            & (self.is_infinity() == other.is_infinity())
     }
 }
 impl<C: EllipticCurve> Eq for ProjectivePoint<C> {}
-- 
2.43.0


From f0c4cbb4f8d71e403f126186daf2e82e0e6cf3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 12/56] fix: double when a projective point is added to itself

The sum of two equal points was the point at infinity.
---
 crylib/src/ec/point/projective.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 97450a4..e5bb9f3 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -95,6 +95,11 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
             v_1.sub_assign(&v_2);
             v_1
         };
+        // The line through two equal points is the tangent. (Both differences are also zero for
+        // some representations of the point at infinity.)
+        if u == FieldElement::ZERO && v == FieldElement::ZERO && !rhs.is_infinity() {
+            return self.double();
+        }
         let v_sqr = v.sqr();
         let v_cube = v_sqr.mul(&v);
         // TODO: name this something better
-- 
2.43.0


From 732e06e71ca8301688b9d3bd5357a729049e8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 13/56] fix: double when an affine point is added to itself

The slope of the tangent was computed as zero divided by zero.
---
 crylib/src/ec/point/affine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/point/affine.rs b/crylib/src/ec/point/affine.rs
index 0f33cdf..8ad192a 100644
--- a/crylib/src/ec/point/affine.rs
+++ b/crylib/src/ec/point/affine.rs
@@ -83,6 +83,9 @@ impl<C: EllipticCurve> AffinePoint<C> {
     }
 
     pub fn add(&self, rhs: &Self) -> Self {
+        if self == rhs {
+            return self.double();
+        }
         let slope = rhs.y.sub(&self.y).div(&rhs.x.sub(&self.x));
         self.third_point_on_line(rhs, &slope)
     }
-- 
2.43.0


From 1fe81e77cbea0d77c847ca4c1cac6102f6f4caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 14/56] fix: skip a zero nonce before inverting it when signing

sign() means to try again with another nonce, but zero has no inverse, which
inverse() answers with a panic in debug builds.
---
 crylib/src/ec/ecdsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..d550647 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -56,11 +56,11 @@ pub fn sign<C: EllipticCurve>(
 
     loop {
         let secret_num = random_num_gen();
-        let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
             continue;
         };
+        let mut inverse = secret_num.inverse();
 
         let r = new_point.x_ref().convert();
 
-- 
2.43.0


From 387a9a2dd04fe73cdcda654f5bb3176a61e38921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 15/56] fix: sign the hash itself when signing is retried

The product of r and the key was added to the hash, so that a retry signed
another value than the hash of the message.
---
 crylib/src/ec/ecdsa.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index d550647..c51814d 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,7 +51,7 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
@@ -64,8 +64,7 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
-- 
2.43.0


From 5501c9a00b70d9e66c71fa385938f787a7f3cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 16/56] fix: refuse ECDSA signatures with a component of zero

FIPS 186 requires both components to be at least one. Inverting a zero s
panicked in debug builds.
---
 crylib/src/ec/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index c51814d..5238efa 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -79,6 +79,9 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
+        return Err(InvalidSig);
+    }
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
     let inverse = sig.s.inverse();
-- 
2.43.0


From 8ef3b0e2abc9ea4b560a7c1cafaf3c003f48db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 17/56] fix: refuse the point at infinity as an ECDSA public
 key

It makes the verification equation independent of the private key.
---
 crylib/src/ec/ecdsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 5238efa..690ac12 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -79,6 +79,10 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    // the point at infinity is not a public key: anyone could sign for it
+    if pub_key.is_infinity() {
+        return Err(InvalidSig);
+    }
     if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
         return Err(InvalidSig);
     }
-- 
2.43.0


From cad4c9a21d90d0eb29625f59ca217d4fada2757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 18/56] fix: read the integers of certificate signatures by
 value

---
 src/certificates/x509.rs | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..1e2be50 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,10 +1,11 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
 use crylib::ec::ecdsa::Signature;
-use crylib::ec::Secp256r1;
+use crylib::ec::{EllipticCurve, Secp256r1};
 use crylib::big_int::UBigInt;
 use crylib::finite_field::FieldElement;
 
+type Secp256r1Order = <Secp256r1 as EllipticCurve>::Order;
 
 pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     let cert = DerIter::new(cert_buf).next().ok_or(CertError::ParseError)?;
@@ -23,7 +24,7 @@ pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     Ok(())
 }
 
-fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError> {
+fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1Order>, CertError> {
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
@@ -38,26 +39,35 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     let mut sig_iter = DerIter::new(sig_obj.data);
     let r_obj = sig_iter.next().ok_or(CertError::ParseError)?;
 
-    if r_obj.tag != DerTag::Integer as u8 {
-        return Err(CertError::ParseError);
-    }
-
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
-    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
+    let r = parse_sig_int(r_obj)?;
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
-    if s_obj.tag != DerTag::Integer as u8 {
+    let s = parse_sig_int(s_obj)?;
+
+    Ok(Signature::new(r, s))
+}
+
+/// Parses one of the integers of a signature, which must be in `[1, n - 1]`.
+fn parse_sig_int(int: DerObj) -> Result<FieldElement<4, Secp256r1Order>, CertError> {
+    if int.tag != DerTag::Integer as u8 || int.data.is_empty() {
         return Err(CertError::ParseError);
     }
+    // integers are signed
+    if int.data[0] & 0x80 != 0 {
+        return Err(CertError::CertInvalid);
+    }
+    let leading_zeros = int.data.iter().take_while(|&&x| x == 0).count();
+    let digits = &int.data[leading_zeros..];
 
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
-    let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
+    let mut buf = [0; 32];
+    let start = buf.len().checked_sub(digits.len()).ok_or(CertError::CertInvalid)?;
+    buf[start..].copy_from_slice(digits);
 
-    Ok(Signature::new(r, s))
+    let int = FieldElement::try_new(UBigInt::<4>::from_be_bytes(buf)).ok_or(CertError::CertInvalid)?;
+    if int == FieldElement::ZERO {
+        return Err(CertError::CertInvalid);
+    }
+    Ok(int)
 }
 
 fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
-- 
2.43.0


From dc27955ac0ca5b0c26b1f2a811f49e71e89f2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 19/56] fix: refuse an empty bit string as the signature of a
 certificate

---
 src/certificates/x509.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 1e2be50..b35f65f 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -28,7 +28,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1Order>, CertE
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    if signature.data.first() != Some(&0) {
         // there should never be unused bits
         return Err(CertError::ParseError);
     }
-- 
2.43.0


From 6ef776e0da51df8297c6bf66ae1c16fa9469bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 20/56] fix: do not overflow when the version of a certificate
 is read

---
 src/certificates/x509.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index b35f65f..96e56af 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -85,7 +85,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].checked_add(1).ok_or(CertError::UnsupportedVersion)?;
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
-- 
2.43.0


From 58dbb9ae4ae9bc0573c07f66d9cf36a8e80dbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 21/56] fix: accept certificates without extensions

---
 src/certificates/x509.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 96e56af..0d4ecee 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -104,7 +104,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     let subject_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
     let subject_pub_key_info_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
 
-    next = tbs_iter.next().ok_or(CertError::ParseError)?;
+    // The unique identifiers and the extensions are optional.
 
     // if get_der_num(next.tag) == 0x01 {
     //     let issuer_unique_id = next;
-- 
2.43.0


From 9daeb4279b3ff4d337ac44867426aca38bfb9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 22/56] fix: refuse trailing data in certificates

---
 src/certificates/der.rs  |  5 +++++
 src/certificates/x509.rs | 29 +++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/certificates/der.rs b/src/certificates/der.rs
index 4cc3b1b..81f3d5d 100644
--- a/src/certificates/der.rs
+++ b/src/certificates/der.rs
@@ -85,6 +85,11 @@ impl<'a> DerIter<'a> {
     pub(crate) fn new(der_objs: &'a [u8]) -> Self {
         Self { der_objs }
     }
+
+    /// Returns `true` if there is nothing left to read, not even something malformed.
+    pub(crate) fn is_finished(&self) -> bool {
+        self.der_objs.is_empty()
+    }
 }
 
 impl<'a> Iterator for DerIter<'a> {
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 0d4ecee..cf091a5 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -8,7 +8,7 @@ use crylib::finite_field::FieldElement;
 type Secp256r1Order = <Secp256r1 as EllipticCurve>::Order;
 
 pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
-    let cert = DerIter::new(cert_buf).next().ok_or(CertError::ParseError)?;
+    let cert = only_obj(cert_buf)?;
     if cert.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -21,7 +21,23 @@ pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
 
     let sig_value = cert_iter.next().ok_or(CertError::ParseError)?;
     parse_signature(sig_value)?;
-    Ok(())
+    expect_finished(&cert_iter)
+}
+
+/// Returns the object in `data`, which must not contain anything else.
+fn only_obj(data: &[u8]) -> Result<DerObj, CertError> {
+    let mut iter = DerIter::new(data);
+    let obj = iter.next().ok_or(CertError::ParseError)?;
+    expect_finished(&iter)?;
+    Ok(obj)
+}
+
+fn expect_finished(iter: &DerIter) -> Result<(), CertError> {
+    if iter.is_finished() {
+        Ok(())
+    } else {
+        Err(CertError::ParseError)
+    }
 }
 
 fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1Order>, CertError> {
@@ -32,7 +48,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1Order>, CertE
         // there should never be unused bits
         return Err(CertError::ParseError);
     }
-    let sig_obj = DerIter::new(&signature.data[1..]).next().ok_or(CertError::ParseError)?;
+    let sig_obj = only_obj(&signature.data[1..])?;
     if sig_obj.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -43,6 +59,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1Order>, CertE
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
     let s = parse_sig_int(s_obj)?;
+    expect_finished(&sig_iter)?;
 
     Ok(Signature::new(r, s))
 }
@@ -81,7 +98,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     let version: u8;
     // version is an optional field
     if next.tag == der_gen_tag(DerClass::ContextSpecific, DerPrimCon::Constructed, 0) {
-        let vers = DerIter::new(next.data).next().ok_or(CertError::ParseError)?;
+        let vers = only_obj(next.data)?;
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
@@ -147,7 +164,7 @@ fn parse_sig_alg(sig_alg: DerObj) -> Result<(), CertError> {
     }
 
     let parameters = seq.next();
-    Ok(())
+    expect_finished(&seq)
 }
 
 #[derive(Debug)]
@@ -183,5 +200,5 @@ fn validate_time(validity: DerObj) -> Result<(), CertError> {
     } else {
         return Err(CertError::ParseError);
     }
-    Ok(())
+    expect_finished(&valid_iter)
 }
-- 
2.43.0


From e92b07c74514d164092291a779336f577ee9be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 23/56] fix: check the types of the fields of certificates

---
 src/certificates/x509.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index cf091a5..e881d78 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -32,6 +32,14 @@ fn only_obj(data: &[u8]) -> Result<DerObj, CertError> {
     Ok(obj)
 }
 
+fn expect_tag(obj: &DerObj, tag: u8) -> Result<(), CertError> {
+    if obj.tag == tag {
+        Ok(())
+    } else {
+        Err(CertError::ParseError)
+    }
+}
+
 fn expect_finished(iter: &DerIter) -> Result<(), CertError> {
     if iter.is_finished() {
         Ok(())
@@ -112,16 +120,34 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         return Err(CertError::UnsupportedVersion);
     }
     let serial_num_obj = next;
+    expect_tag(&serial_num_obj, DerTag::Integer as u8)?;
     let signature_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    expect_tag(&signature_obj, DerTag::Sequence as u8)?;
     let issuer_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    expect_tag(&issuer_obj, DerTag::Sequence as u8)?;
     let validity = tbs_iter.next().ok_or(CertError::ParseError)?;
 
     validate_time(validity)?;
 
     let subject_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    expect_tag(&subject_obj, DerTag::Sequence as u8)?;
     let subject_pub_key_info_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
+    expect_tag(&subject_pub_key_info_obj, DerTag::Sequence as u8)?;
 
     // The unique identifiers and the extensions are optional.
+    let mut optional_tags = [
+        der_gen_tag(DerClass::ContextSpecific, DerPrimCon::Primitive, 1),
+        der_gen_tag(DerClass::ContextSpecific, DerPrimCon::Primitive, 2),
+        der_gen_tag(DerClass::ContextSpecific, DerPrimCon::Constructed, 3),
+    ]
+    .into_iter();
+    for field in &mut tbs_iter {
+        // Every field comes at most once, in this order.
+        if !optional_tags.any(|tag| tag == field.tag) {
+            return Err(CertError::ParseError);
+        }
+    }
+    expect_finished(&tbs_iter)?;
 
     // if get_der_num(next.tag) == 0x01 {
     //     let issuer_unique_id = next;
-- 
2.43.0


From 7d78e0b206614acde43ede99ba77b3a56582dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 24/56] fix: refuse malformed Certificate messages with an
 alert instead of panicking

---
 src/certificates.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/handshake.rs    | 14 +++++---------
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..2272049 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -1,8 +1,47 @@
 use std::iter::Iterator;
 
+use crate::TurtlsAlert;
+
+use x509::CertError;
+
 pub(crate) mod der;
 pub(crate) mod x509;
 
+/// Parses the Certificate message of a server.
+pub(crate) fn parse_cert_msg(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    let (&context_len, certs) = cert_msg.split_first().ok_or(TurtlsAlert::DecodeError)?;
+    // The context is only used for certificates that are requested after the handshake.
+    if context_len != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
+    let (data_len, certs) = certs.split_at_checked(3).ok_or(TurtlsAlert::DecodeError)?;
+    let data_len = u32::from_be_bytes([0, data_len[0], data_len[1], data_len[2]]) as usize;
+    // A server must not send an empty list.
+    if data_len != certs.len() || certs.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    let mut cert_iter = CertIter::new(certs);
+    for cert in &mut cert_iter {
+        // No extension that a certificate can respond to is ever offered.
+        if !cert.extensions.is_empty() {
+            return Err(TurtlsAlert::UnsupportedExtension);
+        }
+        x509::validate_cert(cert.data).map_err(|err| match err {
+            CertError::ParseError | CertError::CertInvalid => TurtlsAlert::BadCert,
+            CertError::CertExpired => TurtlsAlert::CertExpired,
+            CertError::UnsupportedVersion | CertError::UnsupportedSigAlg => {
+                TurtlsAlert::UnsupportedCert
+            },
+        })?;
+    }
+    if !cert_iter.is_finished() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    Ok(())
+}
+
 enum CertType {
     X509 = 0,
     RawPublicKey = 2,
@@ -29,6 +68,11 @@ impl<'a> CertIter<'a> {
             cert_list: cert_list,
         }
     }
+
+    /// Returns `true` if there is nothing left to read, not even something malformed.
+    pub(crate) fn is_finished(&self) -> bool {
+        self.cert_list.is_empty()
+    }
 }
 
 impl<'a> Iterator for CertIter<'a> {
diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..5b354ae 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,6 +1,7 @@
 use std::mem::MaybeUninit;
 
 use crate::aead::TlsAead;
+use crate::certificates::parse_cert_msg;
 use crate::client_hello::client_hello_client;
 use crate::config::TurtlsConfig;
 use crate::error::{FullError, TurtlsError};
@@ -93,15 +94,10 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
+                    parse_cert_msg(shake_state.buf.data()).map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     todo!("validate certificates");
                 },
                 _ => todo!("Finish handshake"),
-- 
2.43.0


From 92ad9a2f12599a89711a458a0bb3e6a58e3815fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 25/56] fix: grow the handshake buffer for long messages

---
 src/handshake.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 5b354ae..c20d00c 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -180,18 +180,31 @@ impl ShakeBuf {
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&[0; Self::LEN_SIZE]);
     }
 
-    pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
+    /// Grows `buf` if it doesn't have enough space for `len` bytes of message data.
+    ///
+    /// Returns `false` if `buf` would exceed its maximum size.
+    #[must_use]
+    fn reserve(&mut self, len: usize) -> bool {
+        let size = Self::HEADER_SIZE + len;
+        if size > self.max_size {
+            return false;
+        }
+        if size > self.buf.len() {
+            let mut buf = std::mem::take(&mut self.buf).into_vec();
+            buf.resize(std::cmp::min(size.next_power_of_two(), self.max_size), 0);
+            self.buf = buf.into_boxed_slice();
         }
+        true
+    }
+
+    pub(crate) fn push(&mut self, value: u8) {
+        assert!(self.reserve(self.len + 1), "handshake message is too long");
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        assert!(self.reserve(self.len + slice.len()), "handshake message is too long");
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
@@ -232,12 +245,12 @@ impl ShakeBuf {
                         }
                         *amt += new_bytes;
                     }
+                    self.status = ReadStatus::NeedsData(0);
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if !self.reserve(self.len) {
+                        return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                     }
-                    self.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
-- 
2.43.0


From db5ce854db569432b128440c1c83ebc3e53408dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 26/56] fix: do not skip bytes of messages that are written in
 multiple records

---
 src/record/write.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..44e0823 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,7 +14,9 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of bytes of the current message in the records that are already written to IO.
+    ///
+    /// This does not include the headers.
     total_bytes: usize,
 }
 
@@ -48,6 +50,7 @@ impl RecordLayer {
                 .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
             self.wbuf.len = record_size;
             self.finish_raw()?;
+            self.wbuf.total_bytes += record_size;
         }
         self.wbuf.total_bytes = 0;
         Ok(())
@@ -64,7 +67,9 @@ impl RecordLayer {
             self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
             self.wbuf.len = record.len();
             self.finish(msg_type, aead)?;
+            self.wbuf.total_bytes += record.len();
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -95,7 +100,6 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
         Ok(())
     }
-- 
2.43.0


From 92dc4182ae4d139003cbfe5fa68d6cd72620a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 27/56] fix: deprotect every record after the key change
 exactly once

---
 src/record/read.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..55a782a 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -48,6 +48,11 @@ impl RecordLayer {
         self.rbuf.buf[0]
     }
 
+    /// Returns `true` if a part of the current record has not been read yet.
+    pub(crate) fn has_unread(&self) -> bool {
+        matches!(self.rbuf.status, ReadStatus::Moving(bytes_moved) if bytes_moved < self.rbuf.len)
+    }
+
     /// Reads a single record but does not process it.
     ///
     /// If an unused record is already in the buffer, a new record will not be read.
@@ -85,6 +90,7 @@ impl RecordLayer {
                         *bytes_read += new_bytes;
                     }
                     self.rbuf.status = ReadStatus::Moving(0);
+                    return Ok(());
                 },
                 ReadStatus::Moving(bytes_moved) => {
                     if bytes_moved == self.rbuf.len {
@@ -101,6 +107,10 @@ impl RecordLayer {
     ///
     /// If an unused record is already in the buffer, a new record will not be read.
     pub(crate) fn get(&mut self, aead: &mut TlsAead) -> Result<(), FullError> {
+        // The current record has already been deprotected.
+        if self.has_unread() {
+            return Ok(());
+        }
         self.get_raw()?;
 
         self.deprotect(aead)
@@ -109,9 +119,15 @@ impl RecordLayer {
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
-            return Ok(());
+        match self.msg_type() {
+            x if x == ContentType::ApplicationData.to_byte() => (),
+            // Only these records may still be sent without protection.
+            x if x == ContentType::ChangeCipherSpec.to_byte()
+                || x == ContentType::Alert.to_byte() =>
+            {
+                return Ok(());
+            },
+            _ => return Err(TurtlsAlert::UnexpectedMessage),
         }
 
         if self.rbuf.len < Self::MIN_PROT_LEN {
-- 
2.43.0


From a7d1b1ea6cd5bb1cf9405a5bc98a85f4a249910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 28/56] fix: accept protected records of the maximum length

---
 src/record/read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 55a782a..25b17ae 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -74,7 +74,12 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    let max_len = if self.msg_type() == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -145,6 +150,10 @@ impl RecordLayer {
 
         self.rbuf.len -= TAG_SIZE;
 
+        if self.rbuf.len > Self::MAX_LEN + size_of::<ContentType>() {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
+
         let Some(padding) = self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len]
             .iter()
             .rev()
-- 
2.43.0


From 140930ddcfb3317de33ecb1eab00e5103f15be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 29/56] fix: refuse alert records that are not exactly one
 alert

---
 src/handshake.rs   |  3 +--
 src/record/read.rs | 11 ++++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c20d00c..7d5ea10 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -231,8 +231,7 @@ impl ShakeBuf {
                             rl.discard();
                             get_fn(rl)?;
                         }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
+                        rl.check_alert()?;
                         if rl.msg_type() != ContentType::Handshake.to_byte() {
                             return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
                         }
diff --git a/src/record/read.rs b/src/record/read.rs
index 25b17ae..18f8121 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -1,6 +1,6 @@
 use super::{ContentType, RecordLayer};
 use crate::aead::TlsAead;
-use crate::alert::TurtlsAlert;
+use crate::alert::{AlertMsg, TurtlsAlert};
 use crate::error::FullError;
 use crate::TurtlsError;
 
@@ -201,9 +201,14 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
         if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
+            if self.rbuf.len != AlertMsg::SIZE {
+                return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
+            }
+            Err(FullError::recving_alert(TurtlsAlert::from_byte(
+                self.rbuf.buf[Self::HEADER_SIZE + 1],
+            )))
         } else {
             Ok(())
         }
-- 
2.43.0


From 40b98628f68b05d437cb60b8a87fc1bc27a475f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 30/56] fix: check the type of every record of a handshake
 message

---
 src/handshake.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 7d5ea10..c663f88 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -216,6 +216,25 @@ impl ShakeBuf {
         &self.buf[Self::HEADER_SIZE..][..self.len]
     }
 
+    /// Gets a record that contains a part of a handshake message.
+    fn get_record(
+        rl: &mut RecordLayer,
+        get_fn: &mut impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
+    ) -> Result<(), FullError> {
+        loop {
+            get_fn(rl)?;
+            if rl.msg_type() != ContentType::ChangeCipherSpec.to_byte() {
+                break;
+            }
+            rl.discard();
+        }
+        rl.check_alert()?;
+        if rl.msg_type() != ContentType::Handshake.to_byte() {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
+        Ok(())
+    }
+
     fn read_inner(
         &mut self,
         rl: &mut RecordLayer,
@@ -225,19 +244,8 @@ impl ShakeBuf {
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
-                        rl.check_alert()?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
-                        get_fn(rl)?;
+                        Self::get_record(rl, &mut get_fn)?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                         if new_bytes == 0 {
                             return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
@@ -253,7 +261,7 @@ impl ShakeBuf {
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
-                        get_fn(rl)?;
+                        Self::get_record(rl, &mut get_fn)?;
                         let new_bytes = rl.read_remaining(
                             &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                         );
-- 
2.43.0


From c741a46c72988485f55d4ba98ac7333b087875f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 31/56] fix: only drop ChangeCipherSpec records that are
 allowed

---
 src/handshake.rs   |  2 +-
 src/record/read.rs | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c663f88..00340f9 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -226,7 +226,7 @@ impl ShakeBuf {
             if rl.msg_type() != ContentType::ChangeCipherSpec.to_byte() {
                 break;
             }
-            rl.discard();
+            rl.discard_ccs()?;
         }
         rl.check_alert()?;
         if rl.msg_type() != ContentType::Handshake.to_byte() {
diff --git a/src/record/read.rs b/src/record/read.rs
index 18f8121..5c2d2c9 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -165,6 +165,10 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+        // ChangeCipherSpec records are never protected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
         Ok(())
     }
 
@@ -196,9 +200,13 @@ impl RecordLayer {
         Ok(self.read_remaining(buf))
     }
 
-    /// Discards the current record.
-    pub(crate) fn discard(&mut self) {
+    /// Discards the current record, which must be a ChangeCipherSpec record.
+    pub(crate) fn discard_ccs(&mut self) -> Result<(), FullError> {
+        if self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] != [1] {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
         self.rbuf.status = ReadStatus::new();
+        Ok(())
     }
 
     pub(crate) fn check_alert(&self) -> Result<(), FullError> {
-- 
2.43.0


From 98732a88853971122f6c0d37f45a12adb3d947c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 32/56] fix: refuse plaintext handshake data after ServerHello

---
 src/handshake.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 00340f9..44f01ea 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -50,6 +50,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    // Handshake messages must not span key changes.
+                    if global_state.rl.has_unread() {
+                        global_state.rl.close_raw(TurtlsAlert::UnexpectedMessage);
+                        global_state.error =
+                            FullError::sending_alert(TurtlsAlert::UnexpectedMessage);
+                        return Err(());
+                    }
                     let aead =
                         server_hello_client(shake_state.buf.data(), unprot_state, global_state)
                             .map_err(|alert| {
-- 
2.43.0


From 980ff9483ea4dc4b77a4962cc7720742c5c75c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 33/56] fix: end the connection attempt after an error that is
 not resumable

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3545854..4dae4ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,6 +95,11 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    match tls_conn.gloabl_state.error.turtls_error {
+                        // These are the only errors that are resumable.
+                        TurtlsError::WantRead | TurtlsError::WantWrite => (),
+                        _ => tls_conn.state = TlsStatus::None,
+                    }
                     return -1;
                 }
                 todo!()
-- 
2.43.0


From 9416b8131aa1c83e926199fbe2b4eb98f60b422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 34/56] fix: close the connection when the peer sends an alert

---
 src/lib.rs          | 4 ++++
 src/record/write.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4dae4ee..6b83841 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,6 +98,10 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                     match tls_conn.gloabl_state.error.turtls_error {
                         // These are the only errors that are resumable.
                         TurtlsError::WantRead | TurtlsError::WantWrite => (),
+                        TurtlsError::TlsPeer => {
+                            tls_conn.gloabl_state.rl.close_silently();
+                            tls_conn.state = TlsStatus::None;
+                        },
                         _ => tls_conn.state = TlsStatus::None,
                     }
                     return -1;
diff --git a/src/record/write.rs b/src/record/write.rs
index 44e0823..150eed1 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -112,6 +112,11 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Closes the connection without sending an alert.
+    pub(crate) fn close_silently(&mut self) {
+        self.io.close();
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
         let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
         self.io.close();
-- 
2.43.0


From 40408fb009a5799798418fe6b07cdd054d80b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 35/56] fix: start every connection attempt with a fresh state

---
 src/lib.rs          |  1 +
 src/record.rs       |  6 ++++++
 src/record/read.rs  |  4 ++++
 src/record/write.rs |  5 +++++
 src/state.rs        | 10 ++++++++++
 5 files changed, 26 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6b83841..60e7374 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -78,6 +78,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
     loop {
         match tls_conn.state {
             TlsStatus::None => {
+                tls_conn.gloabl_state.reset();
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..2b2a2d1 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Forgets every record that is not completely read or written yet.
+    pub(crate) fn reset(&mut self) {
+        self.rbuf.reset();
+        self.wbuf.reset();
+    }
 }
diff --git a/src/record/read.rs b/src/record/read.rs
index 5c2d2c9..3cddcbf 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -41,6 +41,10 @@ impl ReadBuf {
             status: ReadStatus::new(),
         }
     }
+
+    pub(super) fn reset(&mut self) {
+        self.status = ReadStatus::new();
+    }
 }
 
 impl RecordLayer {
diff --git a/src/record/write.rs b/src/record/write.rs
index 150eed1..b11ea21 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -31,6 +31,11 @@ impl WriteBuf {
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
     }
+
+    pub(super) fn reset(&mut self) {
+        self.record_bytes = 0;
+        self.total_bytes = 0;
+    }
 }
 
 impl RecordLayer {
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..a088a45 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -41,6 +41,16 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Forgets everything about the previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.error = FullError::default();
+        self.rl.reset();
+        self.transcript = TranscriptHasher::new();
+        self.app_proto = [0; 256];
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From d2e023aa2ffa433b772739c62d55dbd733203dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 36/56] fix: protect the close_notify alert once there are keys

---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 60e7374..bc70ded 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,6 +23,7 @@ use crylib::hash::Sha256;
 use crylib::hkdf;
 
 use handshake::handshake_client;
+use state::MaybeProt;
 use state::ShakeState;
 use state::TlsStatus;
 
@@ -128,10 +129,18 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    let rl = &mut tls_conn.gloabl_state.rl;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Unprot { .. },
+            ..
+        }) => rl.close_raw(TurtlsAlert::CloseNotify),
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Prot { ref mut aead, .. },
+            ..
+        })
+        | TlsStatus::App { ref mut aead } => rl.close(TurtlsAlert::CloseNotify, aead),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
-- 
2.43.0


From 8216c6f77f0ed8bb8a29b30e08d64b012cf613ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 37/56] fix: do not send the closing alert in the middle of
 another record

---
 src/record/write.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index b11ea21..519dba3 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -117,13 +117,26 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Writes the rest of a record that has only been partially written.
+    ///
+    /// The message that contains the record is abandoned.
+    fn finish_partial_record(&mut self) -> Result<(), TurtlsError> {
+        if self.wbuf.record_bytes > 0 {
+            self.write_record()?;
+        }
+        self.wbuf.total_bytes = 0;
+        Ok(())
+    }
+
     /// Closes the connection without sending an alert.
     pub(crate) fn close_silently(&mut self) {
         self.io.close();
     }
 
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        if self.finish_partial_record().is_ok() {
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
-- 
2.43.0


From 80801e09dfc10af0fcf697914d144d309f959c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 38/56] fix: resume writing the same ClientHello after an
 interruption

---
 src/handshake.rs | 17 +++++++++++------
 src/state.rs     |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 44f01ea..682546f 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -33,9 +33,14 @@ pub(crate) fn handshake_client(
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error.turtls_error = err)?;
 
+                    shake_state.buf.finish(&mut global_state.transcript);
+                    *next = UnprotShakeMsg::SendClientHello;
+                },
+                // This is a separate step so that resuming it doesn't generate another ClientHello.
+                UnprotShakeMsg::SendClientHello => {
                     shake_state
                         .buf
-                        .write_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .write_raw(&mut global_state.rl)
                         .map_err(|err| global_state.error.turtls_error = err)?;
 
                     *next = UnprotShakeMsg::ServerHello;
@@ -305,14 +310,14 @@ impl ShakeBuf {
         self.read_inner(rl, get_fn, transcript)
     }
 
-    pub(crate) fn write_raw(
-        &mut self,
-        rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
-    ) -> Result<(), TurtlsError> {
+    /// Completes a message that is about to be written.
+    pub(crate) fn finish(&mut self, transcript: &mut TranscriptHasher) {
         self.encode_len();
 
         transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+    }
+
+    pub(crate) fn write_raw(&mut self, rl: &mut RecordLayer) -> Result<(), TurtlsError> {
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
diff --git a/src/state.rs b/src/state.rs
index a088a45..ccf4397 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,7 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    SendClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From a9df7c3306cff00696f06874e7a6d407f549f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 39/56] fix: check the types of the server's handshake messages

---
 src/handshake.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 682546f..98ddc3f 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -55,6 +55,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    shake_state
+                        .buf
+                        .expect_type(ShakeType::ServerHello)
+                        .map_err(|alert| {
+                            global_state.rl.close_raw(alert);
+                            global_state.error = FullError::sending_alert(alert);
+                        })?;
                     // Handshake messages must not span key changes.
                     if global_state.rl.has_unread() {
                         global_state.rl.close_raw(TurtlsAlert::UnexpectedMessage);
@@ -88,6 +95,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    shake_state
+                        .buf
+                        .expect_type(ShakeType::EncryptedExtensions)
+                        .map_err(|alert| {
+                            global_state.rl.close(alert, aead);
+                            global_state.error = FullError::sending_alert(alert);
+                        })?;
                     parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
                         |alert| {
                             global_state.rl.close(alert, aead);
@@ -106,6 +120,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    shake_state
+                        .buf
+                        .expect_type(ShakeType::Certificate)
+                        .map_err(|alert| {
+                            global_state.rl.close(alert, aead);
+                            global_state.error = FullError::sending_alert(alert);
+                        })?;
                     parse_cert_msg(shake_state.buf.data()).map_err(|alert| {
                         global_state.rl.close(alert, aead);
                         global_state.error = FullError::sending_alert(alert);
@@ -347,6 +368,14 @@ impl ShakeBuf {
         self.buf[0]
     }
 
+    fn expect_type(&self, msg_type: ShakeType) -> Result<(), TurtlsAlert> {
+        if self.msg_type() == msg_type.to_byte() {
+            Ok(())
+        } else {
+            Err(TurtlsAlert::UnexpectedMessage)
+        }
+    }
+
     pub(crate) fn encode_len(&mut self) {
         let len = (self.len as u32).to_be_bytes();
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&len[1..]);
-- 
2.43.0


From a94cccf10be28ab6171a69767ce939ec14e6c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 40/56] fix: check the bounds of the server's extensions

---
 src/extensions.rs   | 42 +++++++++++++++++++++++++++---------------
 src/server_hello.rs |  2 +-
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..c6efe47 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -163,6 +163,11 @@ impl<'a> ExtIter<'a> {
     pub(crate) const fn new(exts: &'a [u8]) -> Self {
         Self { exts }
     }
+
+    /// Returns `true` if there is nothing left to read, not even something malformed.
+    pub(crate) const fn is_finished(&self) -> bool {
+        self.exts.is_empty()
+    }
 }
 
 impl<'a> Iterator for ExtIter<'a> {
@@ -175,7 +180,7 @@ impl<'a> Iterator for ExtIter<'a> {
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
             return None;
         }
         let ext;
@@ -195,14 +200,8 @@ pub(crate) fn parse_ser_hel_exts(
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
 
-    let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
-    let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
-
-    if len != exts.len() {
-        return Err(TurtlsAlert::DecodeError);
-    }
-
-    for ext in ExtIter::new(exts) {
+    let mut ext_iter = ExtIter::new(strip_len(exts)?);
+    for ext in &mut ext_iter {
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -213,21 +212,31 @@ pub(crate) fn parse_ser_hel_exts(
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+    if !ext_iter.is_finished() {
+        return Err(TurtlsAlert::DecodeError);
+    }
     maybe_aead
 }
 
-pub(crate) fn parse_encrypted_extensions(
-    exts: &[u8],
-    global_state: &mut GlobalState,
-) -> Result<(), TurtlsAlert> {
-    let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
+/// Returns the extensions without their length, which must be correct.
+fn strip_len(exts: &[u8]) -> Result<&[u8], TurtlsAlert> {
+    let (len, exts) = exts
+        .split_at_checked(TurtlsExts::LEN_SIZE)
+        .ok_or(TurtlsAlert::DecodeError)?;
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
     if len != exts.len() {
         return Err(TurtlsAlert::DecodeError);
     }
+    Ok(exts)
+}
 
-    for ext in ExtIter::new(exts) {
+pub(crate) fn parse_encrypted_extensions(
+    exts: &[u8],
+    global_state: &mut GlobalState,
+) -> Result<(), TurtlsAlert> {
+    let mut ext_iter = ExtIter::new(strip_len(exts)?);
+    for ext in &mut ext_iter {
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
@@ -239,5 +248,8 @@ pub(crate) fn parse_encrypted_extensions(
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+    if !ext_iter.is_finished() {
+        return Err(TurtlsAlert::DecodeError);
+    }
     Ok(())
 }
diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..b8c33b3 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -26,7 +26,7 @@ pub(crate) fn server_hello_client(
 
     let leg_session_id_len = ser_hel[pos];
 
-    if leg_session_id_len > 32 {
+    if leg_session_id_len > 32 || ser_hel.len() < MIN_LEN + leg_session_id_len as usize {
         return Err(TurtlsAlert::DecodeError);
     }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
-- 
2.43.0


From 10db44cb4648b5ca92983568e4d63e41484c68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 41/56] fix: check the session id and the compression method of
 ServerHello

---
 src/server_hello.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index b8c33b3..1e4912c 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,6 +1,6 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
 use crate::extensions::versions::ProtocolVersion;
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
@@ -29,6 +29,10 @@ pub(crate) fn server_hello_client(
     if leg_session_id_len > 32 || ser_hel.len() < MIN_LEN + leg_session_id_len as usize {
         return Err(TurtlsAlert::DecodeError);
     }
+    // The session id of ClientHello, which is always empty, must be echoed.
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
@@ -39,6 +43,10 @@ pub(crate) fn server_hello_client(
     .suites;
     pos += size_of::<CipherSuite>();
 
+    // Compression must not be used.
+    if ser_hel[pos] != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += 1;
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
-- 
2.43.0


From 64a572199bc4956d996c078799ee3670c5e4454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 42/56] fix: do not treat HelloRetryRequest as ServerHello

---
 src/server_hello.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index 1e4912c..88335b8 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -13,6 +13,12 @@ pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + 1
     + TurtlsExts::LEN_SIZE;
 
+/// The random value that turns a ServerHello into a HelloRetryRequest.
+const HELLO_RETRY_RANDOM: [u8; RANDOM_BYTES_LEN] = [
+    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
+    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
+];
+
 pub(crate) fn server_hello_client(
     ser_hel: &[u8],
     unprot_state: &mut UnprotShakeState,
@@ -22,6 +28,11 @@ pub(crate) fn server_hello_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    // There is never anything to change in ClientHello because only one group is supported.
+    if ser_hel[size_of::<ProtocolVersion>()..][..RANDOM_BYTES_LEN] == HELLO_RETRY_RANDOM {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
     let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;
 
     let leg_session_id_len = ser_hel[pos];
-- 
2.43.0


From b20ded70b5038be12a74d1eb5948cf710e25d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 43/56] fix: refuse servers that do not select TLS 1.3

---
 src/extensions.rs   | 6 ++++++
 src/server_hello.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index c6efe47..d3e74f9 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -199,12 +199,14 @@ pub(crate) fn parse_ser_hel_exts(
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut found_version = false;
 
     let mut ext_iter = ExtIter::new(strip_len(exts)?);
     for ext in &mut ext_iter {
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
+                found_version = true;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
                 maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
@@ -215,6 +217,10 @@ pub(crate) fn parse_ser_hel_exts(
     if !ext_iter.is_finished() {
         return Err(TurtlsAlert::DecodeError);
     }
+    // Without the extension, an older version is selected.
+    if !found_version {
+        return Err(TurtlsAlert::ProtocolVersion);
+    }
     maybe_aead
 }
 
diff --git a/src/server_hello.rs b/src/server_hello.rs
index 88335b8..cc6fd1a 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -8,7 +8,7 @@ use crate::TurtlsAlert;
 
 pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + RANDOM_BYTES_LEN
-    + 3
+    + size_of_val(&LEGACY_SESSION_ID)
     + size_of::<CipherSuite>()
     + 1
     + TurtlsExts::LEN_SIZE;
-- 
2.43.0


From 7887e85bbf3b2b02692157e759be61c8abd18de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 44/56] fix: refuse duplicate extensions

---
 src/extensions.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index d3e74f9..81842a1 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -201,8 +201,10 @@ pub(crate) fn parse_ser_hel_exts(
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
     let mut found_version = false;
 
+    let mut found = 0;
     let mut ext_iter = ExtIter::new(strip_len(exts)?);
     for ext in &mut ext_iter {
+        check_duplicate(&mut found, ext.ext_type)?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -224,6 +226,20 @@ pub(crate) fn parse_ser_hel_exts(
     maybe_aead
 }
 
+/// Fails if `ext_type` is already in `found`, and adds it otherwise.
+///
+/// Types which are too large for `found` are never supported and thus don't matter.
+fn check_duplicate(found: &mut u64, ext_type: [u8; 2]) -> Result<(), TurtlsAlert> {
+    let flag = 1u64
+        .checked_shl(u16::from_be_bytes(ext_type) as u32)
+        .unwrap_or(0);
+    if *found & flag != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    *found |= flag;
+    Ok(())
+}
+
 /// Returns the extensions without their length, which must be correct.
 fn strip_len(exts: &[u8]) -> Result<&[u8], TurtlsAlert> {
     let (len, exts) = exts
@@ -241,8 +257,10 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    let mut found = 0;
     let mut ext_iter = ExtIter::new(strip_len(exts)?);
     for ext in &mut ext_iter {
+        check_duplicate(&mut found, ext.ext_type)?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
-- 
2.43.0


From 125695254e6aeb26afdeed53dec42f0d246d5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 45/56] fix: check the group and the form of the server's key
 share

---
 src/extensions/key_share.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..9f76d3e 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -6,7 +6,7 @@ use crylib::ec::{AffinePoint, EllipticCurve, Secp256r1};
 use crylib::finite_field::FieldElement;
 use getrandom::getrandom;
 
-use super::{ExtensionType, TurtlsExts};
+use super::{strip_len, ExtensionType, TurtlsExts};
 use crate::aead::TlsAead;
 use crate::alert::TurtlsAlert;
 use crate::handshake::ShakeBuf;
@@ -144,6 +144,9 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != 65 || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,17 +164,21 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    match &key_share[..size_of::<NamedGroup>()] {
-        x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
-            let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
-                &shake_crypto.priv_keys,
-            )
-            .ok_or(TurtlsAlert::IllegalParam)?;
+    let (group, key_share) = key_share
+        .split_at_checked(size_of::<NamedGroup>())
+        .ok_or(TurtlsAlert::DecodeError)?;
+    let key_share = strip_len(key_share)?;
+    match group {
+        x if x == NamedGroup::Secp256r1.to_be_bytes()
+            && shake_crypto.sup_groups & TURTLS_SECP256R1 != 0 =>
+        {
+            let dh_secret = secp256r1_shared_secret(key_share, &shake_crypto.priv_keys)
+                .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
         },
-        _ => return Err(TurtlsAlert::HandshakeFailure),
+        // The group must be one of those in ClientHello.
+        _ => return Err(TurtlsAlert::IllegalParam),
     }
 }
-- 
2.43.0


From bde15b4c396ffebe62dec4e82b51b662d11e3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 46/56] fix: send illegal_parameter if the server selects a
 cipher suite that was not offered

---
 src/server_hello.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index cc6fd1a..8349456 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -52,6 +52,9 @@ pub(crate) fn server_hello_client(
             .unwrap(),
     )
     .suites;
+    if unprot_state.ciphers.suites == 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += size_of::<CipherSuite>();
 
     // Compression must not be used.
-- 
2.43.0


From 59f369f0a11369442d5414f5b5ea5251d1a14226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 47/56] fix: send illegal_parameter if supported_versions
 selects a version that was not offered

---
 src/extensions/versions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/versions.rs b/src/extensions/versions.rs
index cdcf0d9..041e9c8 100644
--- a/src/extensions/versions.rs
+++ b/src/extensions/versions.rs
@@ -51,7 +51,7 @@ pub(super) fn parse_ser(version: &[u8]) -> Result<(), TurtlsAlert> {
         return Err(TurtlsAlert::DecodeError);
     }
     if version[..size_of::<ProtocolVersion>()] != ProtocolVersion::TlsOneThree.to_be_bytes() {
-        return Err(TurtlsAlert::ProtocolVersion);
+        return Err(TurtlsAlert::IllegalParam);
     }
     Ok(())
 }
-- 
2.43.0


From c5ebe4197683957fae0688f8f0a0c766aeee5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 48/56] fix: refuse encrypted extensions that do not match
 ClientHello

---
 src/extensions.rs           | 38 ++++++++++++++++++++++++++++++++-----
 src/extensions/app_proto.rs | 35 +++++++++++++++++++++++++++-------
 src/handshake.rs            | 15 +++++++++------
 src/state.rs                |  3 +++
 4 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 81842a1..7ad23ca 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -13,7 +13,7 @@ pub mod sig_algs;
 pub mod versions;
 
 use app_proto::parse_app_proto_client;
-use key_share::{GroupKeys, TURTLS_SECP256R1};
+use key_share::{GroupKeys, NamedGroup, TURTLS_SECP256R1};
 use sig_algs::TURTLS_ECDSA_SECP256R1;
 
 #[repr(u16)]
@@ -117,6 +117,22 @@ impl Default for TurtlsExts {
     }
 }
 
+/// The extensions of ClientHello which the server may only respond to if they were sent.
+pub(crate) struct OfferedExts {
+    server_name: bool,
+    /// The offered application protocols, encoded like `TurtlsExts::app_protos`.
+    app_protos: Vec<u8>,
+}
+
+impl OfferedExts {
+    pub(crate) fn new(exts: &TurtlsExts) -> Self {
+        Self {
+            server_name: exts.server_name_len() > 0,
+            app_protos: exts.app_protos().to_vec(),
+        }
+    }
+}
+
 impl TurtlsExts {
     pub(crate) const LEN_SIZE: usize = 2;
     const HEADER_SIZE: usize = size_of::<ExtensionType>() + Self::LEN_SIZE;
@@ -255,6 +271,7 @@ fn strip_len(exts: &[u8]) -> Result<&[u8], TurtlsAlert> {
 
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    offered: &OfferedExts,
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
     let mut found = 0;
@@ -263,11 +280,22 @@ pub(crate) fn parse_encrypted_extensions(
         check_duplicate(&mut found, ext.ext_type)?;
         match ext.ext_type {
             // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
+            x if x == ExtensionType::ServerName.to_be_bytes() && offered.server_name => {
+                if !ext.data.is_empty() {
+                    return Err(TurtlsAlert::DecodeError);
+                }
+            },
             // SupportedGroups from server is ignored
-            x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
-            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
-                parse_app_proto_client(ext.data, &mut global_state.app_proto)?
+            x if x == ExtensionType::SupportedGroups.to_be_bytes() => {
+                let groups = strip_len(ext.data)?;
+                if groups.is_empty() || groups.len() % size_of::<NamedGroup>() != 0 {
+                    return Err(TurtlsAlert::DecodeError);
+                }
+            },
+            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes()
+                && !offered.app_protos.is_empty() =>
+            {
+                parse_app_proto_client(ext.data, &offered.app_protos, &mut global_state.app_proto)?
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..3608665 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -20,22 +20,26 @@ impl TurtlsExts {
         if len == 0 {
             return;
         }
-        // SAFETY: We just checked for null and the caller guarantees the string is
-        // nul-terminated.
-        let as_slice = unsafe {
-            std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len)
-        };
-
         shake_buf.extend_from_slice(&ExtensionType::AppLayerProtoNeg.to_be_bytes());
 
         shake_buf.extend_from_slice(&len.to_be_bytes());
         shake_buf.extend_from_slice(&(len - size_of::<u16>() as u16).to_be_bytes());
-        shake_buf.extend_from_slice(as_slice)
+        shake_buf.extend_from_slice(self.app_protos())
+    }
+
+    /// Returns the encoded list of application protocols, which is empty if there are none.
+    pub(super) fn app_protos(&self) -> &[u8] {
+        if self.app_protos_len() == 0 {
+            return &[];
+        }
+        // SAFETY: We just checked for null and the caller guarantees the length is correct.
+        unsafe { std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len) }
     }
 }
 
 pub(crate) fn parse_app_proto_client(
     alpn: &[u8],
+    offered: &[u8],
     alpn_state: &mut [u8; 256],
 ) -> Result<(), TurtlsAlert> {
     if alpn.len() < 4 {
@@ -53,12 +57,29 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    if !is_offered(offered, alpn) {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
     // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
     // a single byte
     alpn_state[..alpn.len()].copy_from_slice(alpn);
     Ok(())
 }
 
+fn is_offered(mut offered: &[u8], name: &[u8]) -> bool {
+    while let Some((&len, rest)) = offered.split_first() {
+        let Some((offered_name, rest)) = rest.split_at_checked(len as usize) else {
+            return false;
+        };
+        if offered_name == name {
+            return true;
+        }
+        offered = rest;
+    }
+    false
+}
+
 /// Returns a pointer to name of the negotiated application protocol.
 ///
 /// The string is nul-terminated.
diff --git a/src/handshake.rs b/src/handshake.rs
index 98ddc3f..29dfed2 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -102,12 +102,15 @@ pub(crate) fn handshake_client(
                             global_state.rl.close(alert, aead);
                             global_state.error = FullError::sending_alert(alert);
                         })?;
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
-                            global_state.rl.close(alert, aead);
-                            global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                    parse_encrypted_extensions(
+                        shake_state.buf.data(),
+                        &shake_state.offered,
+                        global_state,
+                    )
+                    .map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
diff --git a/src/state.rs b/src/state.rs
index ccf4397..b53b847 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -5,6 +5,7 @@ use crate::cipher_suites::TurtlsCipherList;
 use crate::config::TurtlsConfig;
 use crate::error::FullError;
 use crate::extensions::key_share::GroupKeys;
+use crate::extensions::OfferedExts;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
 use crate::TurtlsError;
@@ -102,6 +103,7 @@ pub(crate) enum ProtShakeMsg {
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
     pub(crate) buf: ShakeBuf,
+    pub(crate) offered: OfferedExts,
 }
 
 impl ShakeState {
@@ -117,6 +119,7 @@ impl ShakeState {
                 },
             },
             buf: ShakeBuf::new(0x20000),
+            offered: OfferedExts::new(&config.extensions),
         })
     }
 }
-- 
2.43.0


From a85a6274161af0044f755306483d99e3519a8bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 49/56] fix: ignore unknown configuration flags when lengths
 are computed

---
 src/cipher_suites.rs        | 5 ++++-
 src/extensions/key_share.rs | 7 +++++--
 src/extensions/sig_algs.rs  | 7 +++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..2a1e9e5 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -20,10 +20,13 @@ impl TurtlsCipherList {
     /// This is a good option. You should probably leave it enabled.
     pub const TURTLS_AES_128_GCM_SHA256: u8 = 0b00000010;
 
+    /// All flags that have a meaning.
+    const SUPPORTED: u8 = Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256;
+
     pub(crate) const LEN_SIZE: usize = 2;
 
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        (self.suites & Self::SUPPORTED).count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 9f76d3e..52d55e6 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -58,7 +58,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -120,7 +120,10 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        if self.sup_groups & TURTLS_SECP256R1 == 0 {
+            return 0;
+        }
+        Self::LEN_SIZE + size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..00c6396 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,11 +57,14 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        if self.sig_algs & TURTLS_ECDSA_SECP256R1 == 0 {
+            return 0;
+        }
+        size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
-        if self.sig_algs == 0 {
+        if self.sig_algs & TURTLS_ECDSA_SECP256R1 == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SignatureAlgorithms.to_be_bytes());
-- 
2.43.0


From 71062586fffb08dcf344bbf4c4a1d96b54929996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 50/56] fix: do not send an empty server name

---
 src/extensions/server_name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 13f425c..5641a00 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -12,11 +12,15 @@ impl TurtlsExts {
             return 0;
         }
         let str_len = unsafe { CStr::from_ptr(self.server_name).count_bytes() };
+        // An empty name is not a valid name.
+        if str_len == 0 {
+            return 0;
+        }
         Self::LEN_SIZE + size_of_val(&SERVER_NAME_TYPE) + Self::LEN_SIZE + str_len
     }
 
     pub(super) fn write_server_name(&self, shake_buf: &mut ShakeBuf) {
-        if self.server_name.is_null() {
+        if self.server_name_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::ServerName.to_be_bytes());
-- 
2.43.0


From af5c3988e84a9ae2dd6a0f69e07d8b47eca8791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 51/56] fix: fail if the configuration does not fit into a
 ClientHello

---
 src/client_hello.rs | 17 ++++++++++++-----
 src/handshake.rs    |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/client_hello.rs b/src/client_hello.rs
index 32fe6c4..05a5606 100644
--- a/src/client_hello.rs
+++ b/src/client_hello.rs
@@ -1,8 +1,9 @@
 use crate::config::TurtlsConfig;
+use crate::error::FullError;
 use crate::extensions::versions::LEGACY_PROTO_VERS;
 use crate::handshake::{ShakeBuf, ShakeType};
 use crate::state::UnprotShakeState;
-use crate::TurtlsError;
+use crate::{TurtlsAlert, TurtlsError};
 use getrandom::getrandom;
 
 pub(crate) const RANDOM_BYTES_LEN: usize = 32;
@@ -13,14 +14,21 @@ pub(crate) fn client_hello_client(
     unprot_state: &mut UnprotShakeState,
     shake_buf: &mut ShakeBuf,
     config: &TurtlsConfig,
-) -> Result<(), TurtlsError> {
+) -> Result<(), FullError> {
+    // Without a cipher suite or with too long extensions, there is no valid ClientHello.
+    let exts_len = u16::try_from(config.extensions.len_client())
+        .map_err(|_| FullError::sending_alert(TurtlsAlert::InternalError))?;
+    if config.cipher_suites.len() == 0 {
+        return Err(FullError::sending_alert(TurtlsAlert::InternalError));
+    }
+
     shake_buf.start(ShakeType::ClientHello);
 
     shake_buf.extend_from_slice(&LEGACY_PROTO_VERS.to_be_bytes());
 
     let mut random_bytes = [0; RANDOM_BYTES_LEN];
     if let Err(_) = getrandom(&mut random_bytes) {
-        return Err(TurtlsError::Rng);
+        return Err(FullError::error(TurtlsError::Rng));
     }
     shake_buf.extend_from_slice(&random_bytes);
 
@@ -33,8 +41,7 @@ pub(crate) fn client_hello_client(
 
     shake_buf.extend_from_slice(&LEGACY_COMPRESSION_METHODS);
 
-    let len = (config.extensions.len_client() as u16).to_be_bytes();
-    shake_buf.extend_from_slice(&len);
+    shake_buf.extend_from_slice(&exts_len.to_be_bytes());
     config
         .extensions
         .write_client(shake_buf, &unprot_state.priv_keys);
diff --git a/src/handshake.rs b/src/handshake.rs
index 29dfed2..ac63671 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -31,7 +31,7 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ClientHello => {
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .map_err(|err| global_state.error = err)?;
 
                     shake_state.buf.finish(&mut global_state.transcript);
                     *next = UnprotShakeMsg::SendClientHello;
-- 
2.43.0


From 3ec49cf74de6b46230f6b723efb3394fd14f058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 52/56] fix: refuse private keys that are zero modulo the order

---
 src/extensions/key_share.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 52d55e6..a860ef7 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -64,15 +64,15 @@ impl GroupKeys {
         let mut buf = [0; 32];
         getrandom(&mut buf).map_err(|_| TurtlsError::Rng)?;
 
-        if buf == [0; 32] {
-            return Err(TurtlsError::PrivKeyIsZero);
-        }
-
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+
+        // Multiples of the order are zero, too.
+        if secp256r1 == FieldElement::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From 636ec40a78b81a52f76443b3137951d75f48987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 53/56] fix: refuse indefinite lengths in certificates

---
 src/certificates/der.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/certificates/der.rs b/src/certificates/der.rs
index 81f3d5d..c8cfc59 100644
--- a/src/certificates/der.rs
+++ b/src/certificates/der.rs
@@ -113,6 +113,10 @@ impl<'a> Iterator for DerIter<'a> {
 
         if self.der_objs[1] > 127 {
             let num_len_bytes = (self.der_objs[1] & 0x7f) as usize;
+            // The indefinite form isn't DER.
+            if num_len_bytes == 0 {
+                return None;
+            }
             // Do not accept extremely large objects.
             if num_len_bytes > 4 || num_len_bytes > self.der_objs.len() - 2 {
                 return None;
-- 
2.43.0


From c95d63d7888abbb9e87788533aeeea54c7859eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 54/56] fix: keep masking with a bool free of branches

---
 crylib/src/big_int/unsigned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 2b29e78..6b0b2c5 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -360,7 +360,8 @@ impl<const N: usize> UBigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn and_bool_assign(&mut self, rhs: bool) {
-        let mask = (rhs as u64).wrapping_neg();
+        // `black_box` keeps the compiler from turning the mask into a branch.
+        let mask = core::hint::black_box((rhs as u64).wrapping_neg());
         for digit in self.0.iter_mut() {
             *digit &= mask
         }
-- 
2.43.0


From 360d548ee4840a84e10cf9f947cbf2108eea4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 55/56] fix: keep shifts free of branches on the amount

---
 crylib/src/big_int/unsigned.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 6b0b2c5..faec587 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -389,7 +389,8 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_right_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let left_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        // see `and_bool_assign`
+        let mask = core::hint::black_box(((rhs != 0) as u64).wrapping_neg());
 
         for i in 0..N - 1 {
             self.0[i] >>= rhs;
@@ -415,7 +416,8 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_left_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let right_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        // see `and_bool_assign`
+        let mask = core::hint::black_box(((rhs != 0) as u64).wrapping_neg());
 
         for i in (1..N).rev() {
             self.0[i] <<= rhs;
@@ -697,7 +699,8 @@ macro_rules! impl_non_generic {
                 rhs %= 64;
                 let mut expanded = [0u64; $n + 1];
                 let right_shift = (64 - rhs) % 64;
-                let mask = ((rhs != 0) as u64).wrapping_neg();
+                // see `and_bool_assign`
+                let mask = core::hint::black_box(((rhs != 0) as u64).wrapping_neg());
 
                 expanded[$n] = self.0[$n - 1] >> right_shift & mask;
                 for i in (1..$n).rev() {
-- 
2.43.0


From 7fb6e1a72e755e87cfb7af6c6cfd029f94ca9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 56/56] fix: look at all digits for the sign

---
 crylib/src/big_int/signed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 5db414f..9d63ef7 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -152,7 +152,9 @@ impl<const N: usize> BigInt<N> {
     /// This is a constant-time operation.
     #[inline]
     pub fn is_positive(&self) -> bool {
-        !self.is_negative & (self.digits != UBigInt::ZERO)
+        // A comparison of arrays may end at the first difference.
+        let digits = self.digits.0.iter().fold(0, |all, digit| all | digit);
+        !self.is_negative & (digits != 0)
     }
 
     /// Converts `self` into its one's compliment
-- 
2.43.0

