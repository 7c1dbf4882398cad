From acbf113ab1b06c3694a04710e3f43aa7812bd71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 01/19] fix: generate_prime returns None for an upper bound of
 zero

The subtraction upper_bound - 1 underflowed (a panic with overflow checks).
---
 crates/fhe-math/src/zq/primes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/zq/primes.rs b/crates/fhe-math/src/zq/primes.rs
index 75c9011..b6df10d 100644
--- a/crates/fhe-math/src/zq/primes.rs
+++ b/crates/fhe-math/src/zq/primes.rs
@@ -38,7 +38,7 @@ pub fn generate_prime(num_bits: usize, modulo: u64, upper_bound: u64) -> Option<
 
         let leading_zeros = (64 - num_bits) as u32;
 
-        let mut tentative_prime = upper_bound - 1;
+        let mut tentative_prime = upper_bound.checked_sub(1)?;
         while tentative_prime % modulo != 1 && tentative_prime.leading_zeros() == leading_zeros {
             tentative_prime -= 1
         }
-- 
2.43.0


From 6790227f7ef44ab7a47288bd8c97e18adecbe931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 02/19] fix: use the native NTT for 51-bit moduli with the
 tfhe-ntt feature

The AVX-512 IFMA path of tfhe-ntt for moduli in [2^50, 2^51) returns
values that are not reduced, and sometimes wrong.
---
 crates/fhe-math/src/ntt/tfhe.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/ntt/tfhe.rs b/crates/fhe-math/src/ntt/tfhe.rs
index dc199f7..9f5f273 100644
--- a/crates/fhe-math/src/ntt/tfhe.rs
+++ b/crates/fhe-math/src/ntt/tfhe.rs
@@ -40,7 +40,13 @@ impl NttOperator {
     #[must_use]
     pub fn new(p: &Modulus, size: usize) -> Option<Self> {
         let native_operator = native::NttOperator::new(p, size)?;
-        let tfhe_operator = Plan::try_new(size, p.p);
+        // The AVX-512 IFMA code of tfhe-ntt for moduli in [2^50, 2^51) does not
+        // always return reduced (or correct) values: use the native operator.
+        let tfhe_operator = if p.p >> 50 == 1 {
+            None
+        } else {
+            Plan::try_new(size, p.p)
+        };
         Some(Self {
             tfhe_operator,
             native_operator,
-- 
2.43.0


From 4d4567e9e08627e328afd7dce731dccc342a4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 03/19] fix: take the sign of the RNS scaling correction from
 the top bit

The sum of the fractional corrections is below n * 2^189 for n moduli of 62
bits, not below 2^191: for more than a few moduli a positive sum could be
taken for a negative one.
---
 crates/fhe-math/src/rns/scaler.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 064a17b..06fbbd5 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -301,8 +301,10 @@ impl RnsScaler {
                 sum_theta_omega = sum_theta_omega.wrapping_sub(v_theta_gamma);
             }
 
-            // Let's compute w = round(sum_theta_omega / 2^(192)).
-            w_sign = (sum_theta_omega >> (63 + 128)) > u256::ZERO;
+            // Let's compute w = round(sum_theta_omega / 2^127). The sum is in
+            // two's complement on 256 bits, and with many moduli its absolute
+            // value can exceed 2^191: only the top bit tells its sign.
+            w_sign = (sum_theta_omega >> (127 + 128)) > u256::ZERO;
 
             if w_sign {
                 w = ((!sum_theta_omega) >> 126isize).as_u128() + 1;
-- 
2.43.0


From 388e669c665d230fc9b7ddd98131b8557113453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 04/19] fix: multiply_inverse_power_of_x accepts powers above 2
 * degree

The subtraction 2 * degree - power underflowed for such powers: the call
panicked with overflow checks although x^(-power) is well defined.
---
 crates/fhe-math/src/rq/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index a80af39..c68cee5 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -508,7 +508,8 @@ impl Poly<PowerBasis> {
 
     /// Multiplies a polynomial in PowerBasis representation by x^(-power).
     pub fn multiply_inverse_power_of_x(&mut self, power: usize) -> Result<()> {
-        let shift = ((self.ctx.degree << 1) - power) % (self.ctx.degree << 1);
+        let order = self.ctx.degree << 1;
+        let shift = (order - power % order) % order;
         let mask = self.ctx.degree - 1;
         let mut new_coefficients = Array2::zeros((self.ctx.q.len(), self.ctx.degree));
         izip!(
-- 
2.43.0


From d15614ce40193c1e3e023e6afb5757bf431d4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 05/19] fix: NTT support check no longer divides by zero for
 size 2^63

---
 crates/fhe-math/src/ntt/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/ntt/mod.rs b/crates/fhe-math/src/ntt/mod.rs
index 5174823..5de0784 100644
--- a/crates/fhe-math/src/ntt/mod.rs
+++ b/crates/fhe-math/src/ntt/mod.rs
@@ -19,7 +19,7 @@ pub use tfhe::NttOperator;
 pub(crate) fn supports_ntt(p: u64, n: usize) -> bool {
     assert!(n >= 8 && n.is_power_of_two());
 
-    p % ((n as u64) << 1) == 1 && is_prime(p)
+    u128::from(p) % ((n as u128) << 1) == 1 && is_prime(p)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 754dd3db6ae4271e6b88f571b88e5f6cb6c53621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 06/19] fix: report i64 decoding of large plaintext values as
 an error

Decoding a plaintext with a plaintext modulus above 64 bits into Vec<i64>
panicked when a centered coefficient did not fit in an i64. Return an error
instead, as the u64 decoder does.
---
 crates/fhe/src/bfv/plaintext.rs | 9 +++++----
 crates/fhe/src/errors.rs        | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index f5e863b..3413ebe 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -445,17 +445,18 @@ impl FheDecoder<Plaintext> for Vec<i64> {
             let modulus_int = BigInt::from_biguint(Sign::Plus, modulus_big.clone());
             let half_modulus = modulus_big / 2u32;
 
-            Ok(values
+            values
                 .iter()
                 .map(|value| {
                     if value >= &half_modulus {
                         let value_int = BigInt::from_biguint(Sign::Plus, value.clone());
-                        (value_int - &modulus_int).to_i64().unwrap()
+                        (value_int - &modulus_int).to_i64()
                     } else {
-                        value.to_i64().unwrap()
+                        value.to_i64()
                     }
+                    .ok_or(crate::PlaintextError::ValueTooLargeForI64.into())
                 })
-                .collect())
+                .collect()
         }
     }
 
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9521636..fd83683 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -140,6 +140,9 @@ pub enum PlaintextError {
 
     #[error("Plaintext value does not fit in u64")]
     ValueTooLargeForU64,
+
+    #[error("Centered plaintext value does not fit in i64")]
+    ValueTooLargeForI64,
 }
 
 /// Plaintext encoding failures.
-- 
2.43.0


From 6575100b6c5ea9c0a8ebb3aaedcf178442350fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 07/19] fix: size the plaintext context by the product of its
 moduli

The number of moduli of the plaintext context was chosen from the sum of the
bit sizes of the moduli, which overstates their product by up to one bit per
modulus. With many moduli just above a power of two and a large plaintext
modulus, the context was smaller than the plaintext modulus and decryption
returned wrong values.
---
 crates/fhe/src/bfv/parameters.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/parameters.rs b/crates/fhe/src/bfv/parameters.rs
index 46720f0..2038c6b 100644
--- a/crates/fhe/src/bfv/parameters.rs
+++ b/crates/fhe/src/bfv/parameters.rs
@@ -582,7 +582,8 @@ impl BfvParametersBuilder {
         let mut accumulated_bits = 0;
         let mut plaintext_moduli_count = 0;
         for size in &moduli_sizes {
-            accumulated_bits += size;
+            // A modulus of `size` bits only guarantees a factor 2^(size - 1).
+            accumulated_bits += size - 1;
             plaintext_moduli_count += 1;
             if accumulated_bits as u64 >= t_bits + 60 {
                 break;
-- 
2.43.0


From f1a9ab84665654da37d2c10562c694e85e1ba139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 08/19] fix: decrypt with a plaintext modulus close to or above
 the first modulus

The word-sized decryption path recovered the centered plaintext from its first
residue only, which loses information as soon as 3t/2 exceeds the first
ciphertext modulus. Use the multi-precision path in that case.
---
 crates/fhe/src/bfv/keys/secret_key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index b339f6a..f4938aa 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -225,7 +225,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
         let d = Zeroizing::new(c_pb.as_ref().scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
         let poly = match self.par.plaintext.small() {
-            Some(plaintext_modulus) => {
+            // The first residue determines the centered value only when the
+            // shifted value, which is below 3t/2, stays below the first modulus.
+            Some(plaintext_modulus) if **plaintext_modulus <= self.par.moduli[0] / 2 => {
                 let mut v = Vec::<u64>::try_from(d.as_ref())?;
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
                 let mut w = v[..self.par.degree()].to_vec();
@@ -235,7 +237,7 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
                 plaintext_modulus.reduce_vec(&mut w);
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
-            None => {
+            _ => {
                 let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
                     .into_iter()
                     .map(|vi| vi + self.par.plaintext_big())
-- 
2.43.0


From 5ef152dcd6cb081fa9445eb4b2983bfea46054f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 09/19] fix: multiplying by an empty ciphertext gives the empty
 ciphertext

---
 crates/fhe/src/bfv/ops/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index de4aa98..c27b133 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -260,9 +260,14 @@ impl Mul<&Ciphertext> for &Ciphertext {
     type Output = Ciphertext;
 
     fn mul(self, rhs: &Ciphertext) -> Ciphertext {
+        assert!(Arc::ptr_eq(&self.par, &rhs.par));
+
         if self.is_empty() {
             return self.clone();
         }
+        if rhs.is_empty() {
+            return rhs.clone();
+        }
 
         if rhs == self {
             // Squaring operation
@@ -304,7 +309,6 @@ impl Mul<&Ciphertext> for &Ciphertext {
                 level: rhs.level,
             }
         } else {
-            assert!(Arc::ptr_eq(&self.par, &rhs.par));
             assert_eq!(self.level, rhs.level);
 
             let ctx_lvl = self.par.context_level_at(self.level).unwrap();
-- 
2.43.0


From 1df0ce61393fc0bb2d03228962e0147f53654238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 10/19] fix: public-key switching refuses ciphertexts without
 two parts

---
 crates/fhe/src/mbfv/public_key_switch.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 8ad7667..82e855d 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -48,6 +48,15 @@ impl PublicKeySwitchShare {
                 right: crate::ParameterSource::Ciphertext,
             });
         }
+        // Note: M-BFV implementation only supports ciphertext of length 2
+        if ct.len() != 2 {
+            return Err(crate::CiphertextError::InvalidPolynomialCount {
+                operation: crate::CiphertextOperation::MultipartyKeySwitch,
+                actual: ct.len(),
+                expected: 2,
+            }
+            .into());
+        }
         let par = sk_share.par.clone();
 
         // Get appropriate context / level for the following computations
-- 
2.43.0


From c89be7e209ca1a86e875c64e94282dc98aa3a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 11/19] fix: polynomial deserialization refuses non-residues
 and foreign degrees

---
 crates/fhe-math/src/errors.rs     |  4 ++++
 crates/fhe-math/src/rq/convert.rs | 25 ++++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/fhe-math/src/errors.rs b/crates/fhe-math/src/errors.rs
index 9066e64..b7b7094 100644
--- a/crates/fhe-math/src/errors.rs
+++ b/crates/fhe-math/src/errors.rs
@@ -144,6 +144,10 @@ pub enum PolynomialSerializationError {
     /// The serialized coefficient byte count is invalid.
     #[error("Invalid coefficient length: found {actual} bytes, expected {expected}.")]
     InvalidCoefficientCount { actual: usize, expected: usize },
+
+    /// A serialized coefficient is not a residue modulo its modulus.
+    #[error("Serialized coefficient is not a residue modulo {modulus}.")]
+    NonCanonicalCoefficient { modulus: u64 },
 }
 
 #[cfg(test)]
diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 34b5057..6c34b96 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -63,7 +63,7 @@ fn parse_proto(
     };
 
     let degree = value.degree as usize;
-    if !degree.is_multiple_of(8) || degree < 8 {
+    if !degree.is_multiple_of(8) || degree < 8 || degree != ctx.degree {
         return Err(PolynomialSerializationError::InvalidDegree { degree }.into());
     }
 
@@ -80,16 +80,19 @@ fn parse_proto(
     }
 
     let mut index = 0;
-    let power_basis_coefficients: Vec<u64> = ctx
-        .q
-        .iter()
-        .flat_map(|qi| {
-            let size = qi.serialization_length(degree);
-            let v = qi.deserialize_vec(&value.coefficients[index..index + size]);
-            index += size;
-            v
-        })
-        .collect();
+    let mut power_basis_coefficients: Vec<u64> = Vec::with_capacity(ctx.q.len() * degree);
+    for qi in ctx.q.iter() {
+        let size = qi.serialization_length(degree);
+        let v = qi.deserialize_vec(&value.coefficients[index..index + size]);
+        index += size;
+        // The wire format has room for values that are not residues modulo qi.
+        if v.iter().any(|vi| *vi >= qi.p) {
+            return Err(
+                PolynomialSerializationError::NonCanonicalCoefficient { modulus: qi.p }.into(),
+            );
+        }
+        power_basis_coefficients.extend_from_slice(&v);
+    }
 
     Ok((
         representation_from_proto,
-- 
2.43.0


From 4c4415af0c9c8108c31ca29c14b2e619b6882405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 12/19] fix: key-switching keys refuse decomposition bases that
 are never generated

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 9 +++++++++
 crates/fhe/src/errors.rs                     | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 1f83458..28642b6 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -405,6 +405,15 @@ impl BfvTryConvertFrom<&KeySwitchingKeyProto> for KeySwitchingKey {
             } else {
                 let log_modulus: usize =
                     par.moduli().first().unwrap().next_power_of_two().ilog2() as usize;
+                // Keys are only generated with this base.
+                if log_base != log_modulus / 2 {
+                    return Err(Error::SerializationError(
+                        SerializationError::InvalidKeySwitchingDecompositionBase {
+                            actual: log_base,
+                            expected: log_modulus / 2,
+                        },
+                    ));
+                }
                 c0_size = log_modulus.div_ceil(log_base);
             }
         } else {
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index fd83683..dc97f2d 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -272,6 +272,10 @@ pub enum SerializationError {
         expected: usize,
     },
 
+    /// Decomposition was encoded for a base that is never generated.
+    #[error("Key-switching decomposition has base 2^{actual}; expected 2^{expected}")]
+    InvalidKeySwitchingDecompositionBase { actual: usize, expected: usize },
+
     /// A serialized key-switching seed has the wrong length.
     #[error("Serialized key-switching seed has {actual} bytes; expected {expected}")]
     InvalidKeySwitchingSeedLength { actual: usize, expected: usize },
-- 
2.43.0


From c2a7c770562ac7e1187ab97df38e89435270f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 13/19] fix: public keys are deserialized from exactly two
 polynomials

---
 crates/fhe/src/bfv/keys/public_key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5e68e1d..5b338dd 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -129,6 +129,13 @@ impl DeserializeParametrized for PublicKey {
                         expected: 0,
                     },
                 ))
+            } else if c.len() != 2 {
+                Err(Error::SerializationError(
+                    SerializationError::InvalidCiphertextPolynomialCount {
+                        actual: proto_c.c.len(),
+                        seed_present: !proto_c.seed.is_empty(),
+                    },
+                ))
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-- 
2.43.0


From 5f9b9b48b96dafbaa554b7f9c7a8e96257493e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 14/19] fix: mutable access to the polynomials of a ciphertext
 drops its seed

---
 crates/fhe/src/bfv/ciphertext.rs      | 5 +++++
 crates/fhe/src/bfv/keys/public_key.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ciphertext.rs b/crates/fhe/src/bfv/ciphertext.rs
index 3d59901..b57f293 100644
--- a/crates/fhe/src/bfv/ciphertext.rs
+++ b/crates/fhe/src/bfv/ciphertext.rs
@@ -39,6 +39,8 @@ impl Deref for Ciphertext {
 
 impl DerefMut for Ciphertext {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The seed may no longer generate the last polynomial.
+        self.seed = None;
         &mut self.c
     }
 }
@@ -139,6 +141,9 @@ impl Ciphertext {
 
     /// Truncate the underlying vector of polynomials.
     pub(crate) fn truncate(&mut self, len: usize) {
+        if len < self.c.len() {
+            self.seed = None;
+        }
         self.c.truncate(len)
     }
 
diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5b338dd..46aaa66 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -28,7 +28,7 @@ impl PublicKey {
         let mut c: Ciphertext = sk.try_encrypt(&zero, rng).unwrap();
         // The polynomials of a public key should not allow for variable time
         // computation.
-        c.iter_mut()
+        c.c.iter_mut()
             .for_each(|p| p.disallow_variable_time_computations());
         Self {
             par: sk.par.clone(),
@@ -139,7 +139,7 @@ impl DeserializeParametrized for PublicKey {
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-                c.iter_mut()
+                c.c.iter_mut()
                     .for_each(|p| p.disallow_variable_time_computations());
                 Ok(Self {
                     par: par.clone(),
-- 
2.43.0


From ba45e40610383ccb0dd225cffee0d9956a42600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 15/19] fix: multiplicators refuse relinearization keys of
 other parameters

---
 crates/fhe/src/bfv/ops/mul.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/fhe/src/bfv/ops/mul.rs b/crates/fhe/src/bfv/ops/mul.rs
index 3bfd317..f3db178 100644
--- a/crates/fhe/src/bfv/ops/mul.rs
+++ b/crates/fhe/src/bfv/ops/mul.rs
@@ -139,6 +139,12 @@ impl Multiplicator {
 
     /// Enable relinearization after multiplication.
     pub fn enable_relinearization(&mut self, rk: &RelinearizationKey) -> Result<()> {
+        if !Arc::ptr_eq(&rk.ksk.par, &self.par) {
+            return Err(Error::ParameterMismatch {
+                left: crate::ParameterSource::RelinearizationKey,
+                right: crate::ParameterSource::Multiplicator,
+            });
+        }
         let rk_ctx = self.par.context_at_level(rk.ksk.ciphertext_level)?;
         if rk_ctx != &self.base_ctx {
             return Err(Error::ParameterMismatch {
-- 
2.43.0


From 85cfcc515a437baeb24f9ced30241e8cd6b7bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 16/19] fix: substitution refuses exponents made for another
 degree

---
 crates/fhe-math/src/rq/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index c68cee5..c38bc93 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -358,6 +358,12 @@ impl<R: RepresentationTag> Poly<R> {
     /// multiple of 2 * degree. In Ntt and NttShoup representation, i can be any
     /// odd integer that is not a multiple of 2 * degree.
     pub fn substitute(&self, i: &SubstitutionExponent) -> Result<Poly<R>> {
+        if i.ctx.degree != self.ctx.degree {
+            return Err(Error::DegreeMismatch {
+                found: i.ctx.degree,
+                expected: self.ctx.degree,
+            });
+        }
         let mut q = Poly::<R>::zero(&self.ctx);
         if self.allow_variable_time_computations {
             q.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From 4bd8804882d473c5c1e5ebd5db22789fa12bf0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 17/19] fix: default_parameters_128 reports zero plaintext bits
 as an error

---
 crates/fhe/src/bfv/parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/parameters.rs b/crates/fhe/src/bfv/parameters.rs
index 2038c6b..0c4225f 100644
--- a/crates/fhe/src/bfv/parameters.rs
+++ b/crates/fhe/src/bfv/parameters.rs
@@ -256,7 +256,9 @@ impl BfvParameters {
                 generate_prime(
                     plaintext_nbits,
                     2 * n as u64,
-                    u64::MAX >> (64 - plaintext_nbits),
+                    u64::MAX
+                        .checked_shr(64 - plaintext_nbits as u32)
+                        .unwrap_or(0),
                 )
                 .and_then(|plaintext_modulus| {
                     // Calculate the bitlength of the product of moduli
-- 
2.43.0


From 5feaa953323e2c39bb8abf9db295402ac5c20e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 18/19] fix: supports_expansion answers false for levels beyond
 the word size

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 728b1ed..4260bf4 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -177,11 +177,8 @@ impl EvaluationKey {
         } else if self.evaluation_key_level == self.par.moduli().len() {
             false
         } else {
-            let mut ret = level <= self.par.degree().ilog2() as usize;
-            for l in 0..level {
-                ret &= self.gk.contains_key(&((self.par.degree() >> l) + 1));
-            }
-            ret
+            level <= self.par.degree().ilog2() as usize
+                && (0..level).all(|l| self.gk.contains_key(&((self.par.degree() >> l) + 1)))
         }
     }
 
-- 
2.43.0


From cbc66fb30f669934c780cdcfed518d37b9b38cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 19/19] fix: encoding reduces the values modulo the plaintext
 modulus

---
 crates/fhe/src/bfv/plaintext_vec.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index be310ca..c60a064 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -77,11 +77,19 @@ impl PlaintextVec {
     ) -> Result<Poly<Ntt>> {
         let mut coefficients = vec![0u64; par.degree()];
         match encoding.encoding {
-            EncodingEnum::Poly => coefficients[..value.len()].copy_from_slice(value),
+            EncodingEnum::Poly => {
+                coefficients[..value.len()].copy_from_slice(value);
+                if let Some(modulus) = par.plaintext.small() {
+                    modulus.reduce_vec(&mut coefficients);
+                }
+            }
             EncodingEnum::Simd => {
                 for (index, &coefficient) in value.iter().enumerate() {
                     coefficients[par.matrix_reps_index_map[index]] = coefficient;
                 }
+                if let Some(modulus) = par.plaintext.small() {
+                    modulus.reduce_vec(&mut coefficients);
+                }
                 let ntt_operator = par
                     .ntt_operator
                     .as_ref()
@@ -112,6 +120,7 @@ impl PlaintextVec {
             EncodingEnum::Poly => {
                 let mut coefficients = vec![BigUint::zero(); par.degree()];
                 coefficients[..value.len()].clone_from_slice(value);
+                par.plaintext.reduce_vec(&mut coefficients);
                 Ok(
                     Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
                         .into_ntt(),
-- 
2.43.0

