From 7d74b04bf97cd921f251bcfa2cb7045762cae727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 01/12] fix: accumulate seeds of dependents that share a value
 in the reverse sweep

---
 src/tape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..f2e06f2 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From d3001b106d850496e9d7e3d9255c9ed54db01a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 02/12] fix: evaluate the written operator for a plain number
 on the left

---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From fe39364afbec22df588901d1529abf5986238383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 03/12] fix: copy the source before releasing the target on
 assignment

---
 src/cxx/ADouble.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..04fb48b 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,9 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
+	auto val = ::adv_adouble_copy(other.m_impl->val);
 	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
-- 
2.43.0


From cc10e93a761ab213a6984a04179b2f4cfd3d6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 04/12] fix: convert active scalars to floats without going
 through integers

---
 src/afloat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..6c45925 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,14 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_f32(&self) -> Option<f32> {
+        self.v.to_f32()
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From b0e4396ab2bd7411a8c77cb1e27bb65a8944f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 05/12] fix: abs_sub is the positive difference

---
 src/afloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 6c45925..9f08e55 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -378,7 +378,7 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        (self - other).max(Self::zero())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From 691019dcb5f1a72e91468bc6af5bf93875e4694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 06/12] fix: epsilon is the epsilon of the underlying float

---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 9f08e55..903d3bc 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -300,6 +300,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(min_value);
     float_constant!(min_positive_value);
     float_constant!(max_value);
+    float_constant!(epsilon);
 
     float_passthrough!(bool, is_nan);
     float_passthrough!(bool, is_infinite);
-- 
2.43.0


From 3f0bbab92ba108718897be2521d9616b3faafb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 07/12] fix: default checkpoint count is admissible for chains
 of length one

---
 src/drivers/generalized_jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..aa72f08 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,7 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From bb2518b18700c59cd1c7579365abebda135f298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 08/12] fix: extract a column with a column vector

---
 src/drivers/abs_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..806792e 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,8 +220,8 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
-                ind[i] = 1.0;
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
+                ind[(i, 0)] = 1.0;
                 self.mul_right(&ind)
             }
         }
-- 
2.43.0


From d872fc8c9e8432b00f3ff2d957975bb80451cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 09/12] fix: pass attributes on in the component form of adv_fn

---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index da363d1..80e1a45 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -80,8 +80,8 @@ macro_rules! adv_fn {
             $($tt:tt)*
         }
     } => {
-        adv_fn! {
-            $(#[$attr:meta])*
+        $crate::adv_fn! {
+            $(#[$attr])*
             $vis fn $func_name (__input: [[0 $(+ $crate::adv_replace!($arg_name 1usize))*]] $( , $extra_arg : $extra_type)* ) -> [[$($result_dim)*]] {
                 let __arg_counter = 0;
                 $(
-- 
2.43.0


From 6583c12cd65993a98a66650c0dbed8b4cbb1e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 10/12] fix: convert active scalars to 128 bit integers without
 going through 64 bit

---
 src/afloat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 903d3bc..f37065c 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -206,6 +206,14 @@ impl<S: Float> ToPrimitive for AFloat<S> {
         self.v.to_u64()
     }
 
+    fn to_i128(&self) -> Option<i128> {
+        self.v.to_i128()
+    }
+
+    fn to_u128(&self) -> Option<u128> {
+        self.v.to_u128()
+    }
+
     fn to_f32(&self) -> Option<f32> {
         self.v.to_f32()
     }
-- 
2.43.0


From 58500da718e555988ed50630a297eca320c898fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 11/12] fix: the derivative of x^0 at x = 0 is zero, not NaN

---
 src/operation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..4bed900 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,7 +68,7 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
+            let rv1 = if dx != S::zero() && y != S::zero() {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
@@ -318,7 +318,9 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                if y != 0.0 {
+                    vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                }
                 vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
             }
             OpCode::Abs => {
-- 
2.43.0


From 8419f18ee155da72dcfe00cdc6502a5f15a4b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 12/12] fix: check the dimension of results returned early from
 adv_fn bodies

---
 src/macros.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 80e1a45..94eb7af 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -56,9 +56,11 @@ macro_rules! adv_fn {
             f64: $crate::Arithmetic<Scalar, Scalar>,
         {
             assert_eq!($arg_name.nrows(), $($arg_dim)*);
-            let result = {
+            // The closure keeps a `return` in the body from skipping the check of the result
+            #[allow(clippy::redundant_closure_call)]
+            let result = (|| -> $crate::DVector<Scalar> {
                 $($tt)*
-            };
+            })();
             assert_eq!(result.nrows(), $($result_dim)*);
             result
         }
-- 
2.43.0

