From 7c57abd46241374755d7fe9100d507ca09978e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 01/21] fix: generate_prime handles modulo 1, large moduli and
 an empty range

---
 crates/fhe-math/src/zq/primes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/fhe-math/src/zq/primes.rs b/crates/fhe-math/src/zq/primes.rs
index 75c9011..b40c7f1 100644
--- a/crates/fhe-math/src/zq/primes.rs
+++ b/crates/fhe-math/src/zq/primes.rs
@@ -38,10 +38,10 @@ pub fn generate_prime(num_bits: usize, modulo: u64, upper_bound: u64) -> Option<
 
         let leading_zeros = (64 - num_bits) as u32;
 
-        let mut tentative_prime = upper_bound - 1;
-        while tentative_prime % modulo != 1 && tentative_prime.leading_zeros() == leading_zeros {
-            tentative_prime -= 1
-        }
+        // Start from the largest integer congruent to 1 mod `modulo` that is strictly
+        // smaller than `upper_bound`. Every integer is congruent to 1 mod 1.
+        let mut tentative_prime = upper_bound.checked_sub(1)?;
+        tentative_prime -= tentative_prime.checked_sub(1)?.checked_rem(modulo)?;
 
         while tentative_prime.leading_zeros() == leading_zeros
             && !is_prime(tentative_prime)
-- 
2.43.0


From 93c9dbcde0d5f5a8ad0feaf2b3fcf6e9f1331d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 02/21] fix: reject serialized polynomials of another degree or
 with unreduced residues

---
 crates/fhe-math/src/errors.rs     |  4 ++++
 crates/fhe-math/src/rq/convert.rs | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/errors.rs b/crates/fhe-math/src/errors.rs
index 9066e64..6586251 100644
--- a/crates/fhe-math/src/errors.rs
+++ b/crates/fhe-math/src/errors.rs
@@ -144,6 +144,10 @@ pub enum PolynomialSerializationError {
     /// The serialized coefficient byte count is invalid.
     #[error("Invalid coefficient length: found {actual} bytes, expected {expected}.")]
     InvalidCoefficientCount { actual: usize, expected: usize },
+
+    /// A serialized residue is not reduced modulo its modulus.
+    #[error("Coefficient is not reduced modulo {modulus}.")]
+    CoefficientOutOfRange { modulus: u64 },
 }
 
 #[cfg(test)]
diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 34b5057..075a12f 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -63,7 +63,7 @@ fn parse_proto(
     };
 
     let degree = value.degree as usize;
-    if !degree.is_multiple_of(8) || degree < 8 {
+    if degree != ctx.degree {
         return Err(PolynomialSerializationError::InvalidDegree { degree }.into());
     }
 
@@ -91,6 +91,15 @@ fn parse_proto(
         })
         .collect();
 
+    for (qi, residues) in izip!(&ctx.q, power_basis_coefficients.chunks_exact(degree)) {
+        if residues.iter().any(|residue| *residue >= **qi) {
+            return Err(PolynomialSerializationError::CoefficientOutOfRange {
+                modulus: **qi,
+            }
+            .into());
+        }
+    }
+
     Ok((
         representation_from_proto,
         power_basis_coefficients,
-- 
2.43.0


From c459619766b129ae28bb81a684b802cf85cc926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 03/21] fix: reduce full-length single-modulus coefficient
 vectors

---
 crates/fhe-math/src/rq/convert.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 075a12f..36c24e5 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -156,17 +156,7 @@ impl TryConvertFrom<&Rq> for Poly<NttShoup> {
 
 impl TryConvertFrom<Vec<u64>> for Poly<PowerBasis> {
     fn try_convert_from(mut v: Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> Result<Self> {
-        if v.len() == ctx.q.len() * ctx.degree {
-            let coefficients = Array2::from_shape_vec((ctx.q.len(), ctx.degree), v).unwrap();
-            Ok(Self {
-                ctx: ctx.clone(),
-                allow_variable_time_computations: variable_time,
-                coefficients,
-                coefficients_shoup: None,
-                has_lazy_coefficients: false,
-                _repr: std::marker::PhantomData,
-            })
-        } else if v.len() <= ctx.degree {
+        if v.len() <= ctx.degree {
             let mut out = Self::zero(ctx);
             if variable_time {
                 unsafe {
@@ -190,6 +180,16 @@ impl TryConvertFrom<Vec<u64>> for Poly<PowerBasis> {
                 v.zeroize();
             }
             Ok(out)
+        } else if v.len() == ctx.q.len() * ctx.degree {
+            let coefficients = Array2::from_shape_vec((ctx.q.len(), ctx.degree), v).unwrap();
+            Ok(Self {
+                ctx: ctx.clone(),
+                allow_variable_time_computations: variable_time,
+                coefficients,
+                coefficients_shoup: None,
+                has_lazy_coefficients: false,
+                _repr: std::marker::PhantomData,
+            })
         } else {
             Err(Error::InvalidCoefficientCount {
                 representation: Representation::PowerBasis,
-- 
2.43.0


From 6718579fbfe9467a1e9b3c45e5068e29990b9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 04/21] fix: store residue arrays in row-major order whatever
 the caller's layout

---
 crates/fhe-math/src/rq/convert.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 36c24e5..75fb450 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -249,6 +249,15 @@ impl TryConvertFrom<Vec<u64>> for Poly<NttShoup> {
     }
 }
 
+/// Returns the same array in row-major order, the order rows are sliced in.
+fn into_row_major(a: Array2<u64>) -> Array2<u64> {
+    if a.is_standard_layout() {
+        a
+    } else {
+        a.as_standard_layout().into_owned()
+    }
+}
+
 impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
     fn try_convert_from(a: Array2<u64>, ctx: &Arc<Context>, variable_time: bool) -> Result<Self> {
         if a.shape() != [ctx.q.len(), ctx.degree] {
@@ -262,7 +271,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
             Ok(Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: into_row_major(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
@@ -284,7 +293,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<Ntt> {
             Ok(Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: into_row_major(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
@@ -306,7 +315,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<NttShoup> {
             let mut p = Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: into_row_major(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
-- 
2.43.0


From 21dbda591ac67f331acab7575569499985fad855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 05/21] fix: multiply_inverse_power_of_x accepts any power

---
 crates/fhe-math/src/rq/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index a80af39..c68cee5 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -508,7 +508,8 @@ impl Poly<PowerBasis> {
 
     /// Multiplies a polynomial in PowerBasis representation by x^(-power).
     pub fn multiply_inverse_power_of_x(&mut self, power: usize) -> Result<()> {
-        let shift = ((self.ctx.degree << 1) - power) % (self.ctx.degree << 1);
+        let order = self.ctx.degree << 1;
+        let shift = (order - power % order) % order;
         let mask = self.ctx.degree - 1;
         let mut new_coefficients = Array2::zeros((self.ctx.q.len(), self.ctx.degree));
         izip!(
-- 
2.43.0


From 2ac01c19991a1aee052eff1a9bd3bfacc8242e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 06/21] fix: substitute rejects exponents made for another
 degree

---
 crates/fhe-math/src/rq/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index c68cee5..c38bc93 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -358,6 +358,12 @@ impl<R: RepresentationTag> Poly<R> {
     /// multiple of 2 * degree. In Ntt and NttShoup representation, i can be any
     /// odd integer that is not a multiple of 2 * degree.
     pub fn substitute(&self, i: &SubstitutionExponent) -> Result<Poly<R>> {
+        if i.ctx.degree != self.ctx.degree {
+            return Err(Error::DegreeMismatch {
+                found: i.ctx.degree,
+                expected: self.ctx.degree,
+            });
+        }
         let mut q = Poly::<R>::zero(&self.ctx);
         if self.allow_variable_time_computations {
             q.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From d999aacdc4abd2aa714b369b0c55431cb4f0be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 07/21] fix: decrypt with plaintext moduli close to or above
 the first ciphertext modulus

---
 crates/fhe/src/bfv/keys/secret_key.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index b339f6a..0140d83 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -225,7 +225,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
         let d = Zeroizing::new(c_pb.as_ref().scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
         let poly = match self.par.plaintext.small() {
-            Some(plaintext_modulus) => {
+            // The machine-word path maps the centered values to [0, 3t/2)
+            // modulo the first ciphertext modulus, which must be large enough.
+            Some(plaintext_modulus) if **plaintext_modulus <= self.par.moduli[0] / 2 => {
                 let mut v = Vec::<u64>::try_from(d.as_ref())?;
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
                 let mut w = v[..self.par.degree()].to_vec();
@@ -235,17 +237,20 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
                 plaintext_modulus.reduce_vec(&mut w);
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
-            None => {
-                let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
+            _ => {
+                let t = self.par.plaintext_big();
+                let q_poly = d.as_ref().ctx().modulus();
+                let q_half: BigUint = q_poly >> 1;
+                let w: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
                     .into_iter()
-                    .map(|vi| vi + self.par.plaintext_big())
+                    .map(|vi| {
+                        if vi > q_half {
+                            (t - (q_poly - vi) % t) % t
+                        } else {
+                            vi % t
+                        }
+                    })
                     .collect_vec();
-
-                let mut w = v[..self.par.degree()].to_vec();
-                let q_poly = d.as_ref().ctx().modulus();
-                w.iter_mut().for_each(|wi| *wi %= q_poly);
-
-                self.par.plaintext.reduce_vec(&mut w);
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
         };
-- 
2.43.0


From 1bf236665c771c2d5926971b98b0148e571801e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 08/21] fix: products with the empty ciphertext are empty

---
 crates/fhe/src/bfv/ops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index de4aa98..2a22736 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -260,8 +260,9 @@ impl Mul<&Ciphertext> for &Ciphertext {
     type Output = Ciphertext;
 
     fn mul(self, rhs: &Ciphertext) -> Ciphertext {
-        if self.is_empty() {
-            return self.clone();
+        if self.is_empty() || rhs.is_empty() {
+            assert!(Arc::ptr_eq(&self.par, &rhs.par));
+            return Ciphertext::zero(&self.par);
         }
 
         if rhs == self {
-- 
2.43.0


From 30a24dc11294a6578813c92340abccfafaf9b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 09/21] fix: forget the seed of a ciphertext whose polynomials
 may be modified

---
 crates/fhe/src/bfv/ciphertext.rs      | 6 ++++++
 crates/fhe/src/bfv/keys/public_key.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ciphertext.rs b/crates/fhe/src/bfv/ciphertext.rs
index 3d59901..d11c8da 100644
--- a/crates/fhe/src/bfv/ciphertext.rs
+++ b/crates/fhe/src/bfv/ciphertext.rs
@@ -39,6 +39,9 @@ impl Deref for Ciphertext {
 
 impl DerefMut for Ciphertext {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The polynomials may be modified, in which case the seed does not
+        // describe the last one anymore.
+        self.seed = None;
         &mut self.c
     }
 }
@@ -139,6 +142,9 @@ impl Ciphertext {
 
     /// Truncate the underlying vector of polynomials.
     pub(crate) fn truncate(&mut self, len: usize) {
+        if len < self.c.len() {
+            self.seed = None;
+        }
         self.c.truncate(len)
     }
 
diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5e68e1d..4e585b3 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -28,7 +28,7 @@ impl PublicKey {
         let mut c: Ciphertext = sk.try_encrypt(&zero, rng).unwrap();
         // The polynomials of a public key should not allow for variable time
         // computation.
-        c.iter_mut()
+        c.c.iter_mut()
             .for_each(|p| p.disallow_variable_time_computations());
         Self {
             par: sk.par.clone(),
@@ -132,7 +132,7 @@ impl DeserializeParametrized for PublicKey {
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-                c.iter_mut()
+                c.c.iter_mut()
                     .for_each(|p| p.disallow_variable_time_computations());
                 Ok(Self {
                     par: par.clone(),
-- 
2.43.0


From 831fd56ccfdf1c41feb42d8bf3b95bc4e1acab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 10/21] fix: default_parameters_128 rejects unsupported
 plaintext sizes

---
 crates/fhe/src/bfv/parameters.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/parameters.rs b/crates/fhe/src/bfv/parameters.rs
index 46720f0..7462b69 100644
--- a/crates/fhe/src/bfv/parameters.rs
+++ b/crates/fhe/src/bfv/parameters.rs
@@ -218,7 +218,13 @@ impl BfvParameters {
     pub fn default_parameters_128(
         plaintext_nbits: usize,
     ) -> Result<impl Iterator<Item = Arc<BfvParameters>>> {
-        debug_assert!(plaintext_nbits < 64);
+        if !(1..64).contains(&plaintext_nbits) {
+            return Err(Error::ParametersError(
+                ParametersError::NoDefaultParameters {
+                    plaintext_bits: plaintext_nbits,
+                },
+            ));
+        }
 
         let mut n_and_qs = HashMap::new();
         n_and_qs.insert(1024, vec![0x7e00001]);
-- 
2.43.0


From 32804f71755835efafee5846767faffcee45ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 11/21] fix: reduce plaintext values modulo the plaintext
 modulus when encoding

---
 crates/fhe/src/bfv/plaintext_vec.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index be310ca..0d0ef69 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -4,6 +4,7 @@ use fhe_math::rq::{Context, Ntt, Poly, PowerBasis, traits::TryConvertFrom};
 use fhe_traits::{FheEncoder, FheEncoderVariableTime, FheParametrized, FhePlaintext, VariableTime};
 use num_bigint::BigUint;
 use num_traits::{ToPrimitive, Zero};
+use zeroize::Zeroize as _;
 use zeroize_derive::{Zeroize, ZeroizeOnDrop};
 
 use crate::{
@@ -76,12 +77,22 @@ impl PlaintextVec {
         variable_time: Option<VariableTime>,
     ) -> Result<Poly<Ntt>> {
         let mut coefficients = vec![0u64; par.degree()];
+        coefficients[..value.len()].copy_from_slice(value);
+        if let Some(modulus) = par.plaintext.small() {
+            if variable_time.is_some() {
+                unsafe { modulus.reduce_vec_vt(&mut coefficients) };
+            } else {
+                modulus.reduce_vec(&mut coefficients);
+            }
+        }
         match encoding.encoding {
-            EncodingEnum::Poly => coefficients[..value.len()].copy_from_slice(value),
+            EncodingEnum::Poly => {}
             EncodingEnum::Simd => {
-                for (index, &coefficient) in value.iter().enumerate() {
+                let mut values = std::mem::replace(&mut coefficients, vec![0u64; par.degree()]);
+                for (index, &coefficient) in values.iter().enumerate() {
                     coefficients[par.matrix_reps_index_map[index]] = coefficient;
                 }
+                values.zeroize();
                 let ntt_operator = par
                     .ntt_operator
                     .as_ref()
@@ -112,6 +123,7 @@ impl PlaintextVec {
             EncodingEnum::Poly => {
                 let mut coefficients = vec![BigUint::zero(); par.degree()];
                 coefficients[..value.len()].clone_from_slice(value);
+                par.plaintext.reduce_vec(&mut coefficients);
                 Ok(
                     Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
                         .into_ntt(),
@@ -121,7 +133,7 @@ impl PlaintextVec {
                 let values = value
                     .iter()
                     .map(|coefficient| {
-                        coefficient
+                        (coefficient % par.plaintext.as_biguint())
                             .to_u64()
                             .ok_or(crate::PlaintextError::ValueTooLargeForU64)
                     })
-- 
2.43.0


From 85d509ec57b7fec1fe32f9cfea242a2df46a913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 12/21] fix: report signed decodings that do not fit in i64 as
 errors

---
 crates/fhe/src/bfv/plaintext.rs | 9 +++++----
 crates/fhe/src/errors.rs        | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index f5e863b..3413ebe 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -445,17 +445,18 @@ impl FheDecoder<Plaintext> for Vec<i64> {
             let modulus_int = BigInt::from_biguint(Sign::Plus, modulus_big.clone());
             let half_modulus = modulus_big / 2u32;
 
-            Ok(values
+            values
                 .iter()
                 .map(|value| {
                     if value >= &half_modulus {
                         let value_int = BigInt::from_biguint(Sign::Plus, value.clone());
-                        (value_int - &modulus_int).to_i64().unwrap()
+                        (value_int - &modulus_int).to_i64()
                     } else {
-                        value.to_i64().unwrap()
+                        value.to_i64()
                     }
+                    .ok_or(crate::PlaintextError::ValueTooLargeForI64.into())
                 })
-                .collect())
+                .collect()
         }
     }
 
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9521636..93a4b53 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -140,6 +140,9 @@ pub enum PlaintextError {
 
     #[error("Plaintext value does not fit in u64")]
     ValueTooLargeForU64,
+
+    #[error("Plaintext value does not fit in i64")]
+    ValueTooLargeForI64,
 }
 
 /// Plaintext encoding failures.
-- 
2.43.0


From 2b9166045e19259ea61d62b0a585220a76fc6031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 13/21] fix: refuse relinearization keys of other parameters in
 a multiplicator

---
 crates/fhe/src/bfv/ops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/ops/mul.rs b/crates/fhe/src/bfv/ops/mul.rs
index 3bfd317..219f531 100644
--- a/crates/fhe/src/bfv/ops/mul.rs
+++ b/crates/fhe/src/bfv/ops/mul.rs
@@ -140,7 +140,7 @@ impl Multiplicator {
     /// Enable relinearization after multiplication.
     pub fn enable_relinearization(&mut self, rk: &RelinearizationKey) -> Result<()> {
         let rk_ctx = self.par.context_at_level(rk.ksk.ciphertext_level)?;
-        if rk_ctx != &self.base_ctx {
+        if !Arc::ptr_eq(&rk.ksk.par, &self.par) || rk_ctx != &self.base_ctx {
             return Err(Error::ParameterMismatch {
                 left: crate::ParameterSource::RelinearizationKey,
                 right: crate::ParameterSource::Multiplicator,
-- 
2.43.0


From 71f853b19e4e1bfdc691ec4e018d7c7329d150e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 14/21] fix: refuse serialized evaluation keys above their
 ciphertext level

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 728b1ed..bb62c7d 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -505,6 +505,13 @@ impl From<&EvaluationKey> for EvaluationKeyProto {
 
 impl TryConvertFrom<&EvaluationKeyProto> for EvaluationKey {
     fn try_convert_from(value: &EvaluationKeyProto, par: &Arc<BfvParameters>) -> Result<Self> {
+        if value.evaluation_key_level > value.ciphertext_level {
+            return Err(Error::InvalidLevel {
+                level: value.evaluation_key_level as usize,
+                min_level: 0,
+                max_level: value.ciphertext_level as usize,
+            });
+        }
         let mut gk = HashMap::new();
         for gkp in &value.gk {
             let key = GaloisKey::try_convert_from(gkp, par)?;
-- 
2.43.0


From d015438f2189fac33d71e599d45feb8140f021ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 15/21] fix: refuse serialized public keys that do not have two
 polynomials

---
 crates/fhe/src/bfv/keys/public_key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 4e585b3..46aaa66 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -129,6 +129,13 @@ impl DeserializeParametrized for PublicKey {
                         expected: 0,
                     },
                 ))
+            } else if c.len() != 2 {
+                Err(Error::SerializationError(
+                    SerializationError::InvalidCiphertextPolynomialCount {
+                        actual: proto_c.c.len(),
+                        seed_present: !proto_c.seed.is_empty(),
+                    },
+                ))
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-- 
2.43.0


From 3fa2d503dc4da6fcf662a81b616d4dba61d6d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 16/21] fix: refuse serialized key-switching keys with an
 oversized decomposition base

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 8 ++++++++
 crates/fhe/src/errors.rs                     | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 1f83458..a56dfba 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -405,6 +405,14 @@ impl BfvTryConvertFrom<&KeySwitchingKeyProto> for KeySwitchingKey {
             } else {
                 let log_modulus: usize =
                     par.moduli().first().unwrap().next_power_of_two().ilog2() as usize;
+                if log_base > log_modulus {
+                    return Err(Error::SerializationError(
+                        SerializationError::InvalidKeySwitchingDecompositionBase {
+                            actual: log_base,
+                            max: log_modulus,
+                        },
+                    ));
+                }
                 c0_size = log_modulus.div_ceil(log_base);
             }
         } else {
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 93a4b53..95bc5cf 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -272,6 +272,10 @@ pub enum SerializationError {
         expected: usize,
     },
 
+    /// The decomposition base of a key-switching key exceeds the modulus size.
+    #[error("Serialized key-switching decomposition base 2^{actual} exceeds 2^{max}")]
+    InvalidKeySwitchingDecompositionBase { actual: usize, max: usize },
+
     /// A serialized key-switching seed has the wrong length.
     #[error("Serialized key-switching seed has {actual} bytes; expected {expected}")]
     InvalidKeySwitchingSeedLength { actual: usize, expected: usize },
-- 
2.43.0


From ea53b6e681ffcfbfe8380430b9f7ddfa1e56806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 17/21] fix: refuse inconsistent shares in multiparty key
 generation and switching

---
 crates/fhe/src/errors.rs                 |  6 ++++++
 crates/fhe/src/mbfv/public_key_gen.rs    |  6 ++++++
 crates/fhe/src/mbfv/public_key_switch.rs | 12 ++++++++++++
 crates/fhe/src/mbfv/secret_key_switch.rs |  3 +++
 4 files changed, 27 insertions(+)

diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 95bc5cf..e59a788 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -229,6 +229,12 @@ pub enum MultipartyError {
     #[error("Expected {expected} common random polynomials, got {actual}")]
     InvalidCommonRandomPolynomialCount { actual: usize, expected: usize },
 
+    #[error("Common random polynomial does not match the parameters of the protocol")]
+    CommonRandomPolynomialMismatch,
+
+    #[error("Protocol shares belong to different protocol runs")]
+    InconsistentShares,
+
     #[error("Round-two relinearization share is missing its round-one aggregation")]
     MissingRelinearizationRoundOneShare,
 }
diff --git a/crates/fhe/src/mbfv/public_key_gen.rs b/crates/fhe/src/mbfv/public_key_gen.rs
index 05e39f4..3d36509 100644
--- a/crates/fhe/src/mbfv/public_key_gen.rs
+++ b/crates/fhe/src/mbfv/public_key_gen.rs
@@ -36,6 +36,9 @@ impl PublicKeyShare {
     ) -> Result<Self> {
         let par = sk_share.par.clone();
         let ctx = par.context_at_level(0)?;
+        if crp.poly.ctx() != ctx {
+            return Err(crate::MultipartyError::CommonRandomPolynomialMismatch.into());
+        }
 
         // Convert secret key to usable polynomial
         let s = Zeroizing::new(
@@ -66,6 +69,9 @@ impl Aggregate<PublicKeyShare> for PublicKey {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut p0 = share.p0_share;
         for sh in shares {
+            if sh.par != share.par || sh.crp != share.crp {
+                return Err(crate::MultipartyError::InconsistentShares.into());
+            }
             p0 += &sh.p0_share;
         }
 
diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 8ad7667..48f5e3d 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -48,6 +48,15 @@ impl PublicKeySwitchShare {
                 right: crate::ParameterSource::Ciphertext,
             });
         }
+        // Note: M-BFV implementation only supports ciphertext of length 2
+        if ct.len() != 2 {
+            return Err(crate::CiphertextError::InvalidPolynomialCount {
+                operation: crate::CiphertextOperation::MultipartyKeySwitch,
+                actual: ct.len(),
+                expected: 2,
+            }
+            .into());
+        }
         let par = sk_share.par.clone();
 
         // Get appropriate context / level for the following computations
@@ -102,6 +111,9 @@ impl Aggregate<PublicKeySwitchShare> for Ciphertext {
         let mut h0 = share.h0_share;
         let mut h1 = share.h1_share;
         for sh in shares {
+            if sh.par != share.par || sh.c0 != share.c0 {
+                return Err(crate::MultipartyError::InconsistentShares.into());
+            }
             h0 += &sh.h0_share;
             h1 += &sh.h1_share;
         }
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index e5f6de5..7862082 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -104,6 +104,9 @@ impl Aggregate<SecretKeySwitchShare> for Ciphertext {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut h = share.h_share;
         for sh in shares {
+            if sh.par != share.par || sh.ct != share.ct {
+                return Err(crate::MultipartyError::InconsistentShares.into());
+            }
             h += &sh.h_share;
         }
 
-- 
2.43.0


From 28f1203953fb23de3f84636622b48e5a6e310413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 18/21] fix: refuse inconsistent inputs in multiparty
 relinearization key generation

---
 crates/fhe/src/mbfv/relin_key_gen.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/fhe/src/mbfv/relin_key_gen.rs b/crates/fhe/src/mbfv/relin_key_gen.rs
index 5fae0cd..2c9e3df 100644
--- a/crates/fhe/src/mbfv/relin_key_gen.rs
+++ b/crates/fhe/src/mbfv/relin_key_gen.rs
@@ -88,6 +88,8 @@ impl<'a, 'b> RelinKeyGenerator<'a, 'b> {
                 expected: ctx.moduli().len(),
             }
             .into())
+        } else if crp.iter().any(|a| a.poly.ctx() != ctx) {
+            Err(crate::MultipartyError::CommonRandomPolynomialMismatch.into())
         } else {
             let u = Zeroizing::new(Poly::<Ntt>::small(ctx, par.variance, rng)?);
             Ok(Self { sk_share, crp, u })
@@ -207,6 +209,9 @@ impl Aggregate<RelinKeyShare<R1>> for RelinKeyShare<R1Aggregated> {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != share.par {
+                return Err(crate::MultipartyError::InconsistentShares.into());
+            }
             izip!(h0.iter_mut(), sh.h0.iter()).for_each(|(h0i, sh_h0i)| *h0i += sh_h0i);
             izip!(h1.iter_mut(), sh.h1.iter()).for_each(|(h1i, sh_h1i)| *h1i += sh_h1i);
         }
@@ -229,6 +234,9 @@ impl RelinKeyShare<R2> {
         rng: &mut R,
     ) -> Result<Self> {
         let par = sk_share.par.clone();
+        if r1.par != par {
+            return Err(crate::MultipartyError::InconsistentShares.into());
+        }
         let h0 = Self::generate_h0(sk_share, &r1.h0, rng)?;
         let h1 = Self::generate_h1(sk_share, u, &r1.h1, rng)?;
         Ok(Self {
@@ -312,6 +320,9 @@ impl Aggregate<RelinKeyShare<R2>> for RelinearizationKey {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != par || sh.last_round.as_ref() != Some(&r1) {
+                return Err(crate::MultipartyError::InconsistentShares.into());
+            }
             izip!(h0.iter_mut(), h1.iter_mut(), sh.h0.iter(), sh.h1.iter()).for_each(
                 |(h0, h1, h0i, h1i)| {
                     *h0 += h0i;
-- 
2.43.0


From f7e155a76efa0cd286f8b689f664cdeb656de6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 19/21] fix: erase secret-dependent intermediates of
 key-switching key generation

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index a56dfba..85f7a02 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -173,7 +173,7 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
@@ -218,13 +218,14 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
 
                 let power = BigUint::from(1u64 << (i * log_base));
-                b += &(from * &power);
+                let power_from = Zeroizing::new(from * &power);
+                b += &power_from;
 
                 // It is now safe to enable variable time computations.
                 b.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From 3a7625e2d9558806b35251421c4961cd9dff6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 20/21] fix: erase the copy of the coefficients made to
 serialize a secret key

---
 crates/fhe/src/bfv/keys/secret_key.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index 0140d83..19d353b 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -144,7 +144,10 @@ impl From<&SecretKey> for SecretKeyProto {
 
 impl Serialize for SecretKey {
     fn to_bytes(&self) -> Vec<u8> {
-        SecretKeyProto::from(self).encode_to_vec()
+        let mut proto = SecretKeyProto::from(self);
+        let bytes = proto.encode_to_vec();
+        proto.coeffs.zeroize();
+        bytes
     }
 }
 
-- 
2.43.0


From a5ec334126f7d1c53a2eb24362bd5ac3501e016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:31 +0000
Subject: [PATCH 21/21] fix: take the sign of the scaling correction from the
 top bit of the sum

With nine or more 62-bit moduli the sum of the rounded-away parts can reach
2^191 while positive; it was then taken as negative and the scaled residues
were wrong.
---
 crates/fhe-math/src/rns/scaler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 064a17b..66ab4a7 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -302,7 +302,8 @@ impl RnsScaler {
             }
 
             // Let's compute w = round(sum_theta_omega / 2^(192)).
-            w_sign = (sum_theta_omega >> (63 + 128)) > u256::ZERO;
+            // The sum is in two's complement over 256 bits.
+            w_sign = (sum_theta_omega >> 255) > u256::ZERO;
 
             if w_sign {
                 w = ((!sum_theta_omega) >> 126isize).as_u128() + 1;
-- 
2.43.0

