From 63fee68458931eb01d3a086045bfc55848b033cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:51 +0000
Subject: [PATCH 01/23] fix: Isometry3::look_*_inv place the origin at the eye,
 so that they invert look_*

---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From ffe6962ceb884618886d341da85e59e5765f1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:11 +0000
Subject: [PATCH 02/23] fix: Complex::powi for negative exponents that are not
 powers of two

---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From 864fd86d8a498eace86b9400cb55ff6b457bec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:11 +0000
Subject: [PATCH 03/23] fix: Complex::acos, asinh and asin lose all digits to
 cancellation away from the origin

---
 crates/cglinalg_core/src/complex.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index cefc515..b429f8d 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1506,8 +1506,16 @@ where
             return Self::new(S::frac_pi_2(), -self.im);
         }
 
-        let z = Self::ln((Self::unit_im() * Self::sqrt(Self::one() - self * self)) + self);
-        (-Self::unit_im()) * z
+        // The numbers `z_plus` and `z_minus` are reciprocals of each other, so either one determines the
+        // arccosine. The smaller one suffers from cancellation.
+        let root = Self::unit_im() * Self::sqrt(Self::one() - self * self);
+        let z_plus = self + root;
+        let z_minus = self - root;
+        if z_plus.norm_squared() >= z_minus.norm_squared() {
+            (-Self::unit_im()) * Self::ln(z_plus)
+        } else {
+            Self::unit_im() * Self::ln(z_minus)
+        }
     }
 
     /// Compute the complex sine of a complex number.
@@ -1789,7 +1797,16 @@ where
             return Self::new(S::copysign(self.im, self.re), S::copysign(S::frac_pi_2(), self.im));
         }
 
-        Self::ln(self + Self::sqrt(Self::one() + self * self))
+        // The numbers `z_plus` and `z_minus` are reciprocals of each other, so either one determines the
+        // inverse hyperbolic sine. The smaller one suffers from cancellation.
+        let root = Self::sqrt(Self::one() + self * self);
+        let z_plus = root + self;
+        let z_minus = root - self;
+        if z_plus.norm_squared() >= z_minus.norm_squared() {
+            Self::ln(z_plus)
+        } else {
+            -Self::ln(z_minus)
+        }
     }
 
     /// Compute the complex hyperbolic tangent of a complex number.
-- 
2.43.0


From 57b24ff2db1c4185fff3ca030988b1c34587ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:11 +0000
Subject: [PATCH 04/23] fix: Complex::tanh and tan are not a number where the
 hyperbolic cosine overflows

---
 crates/cglinalg_core/src/complex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index b429f8d..385b8aa 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1842,6 +1842,10 @@ where
         let two_times_re = self.re + self.re;
         let two_times_im = self.im + self.im;
         let denominator = S::cosh(two_times_re) + S::cos(two_times_im);
+        if denominator.is_infinite() && self.im.is_finite() {
+            return Self::new(S::copysign(S::one(), self.re), S::copysign(S::zero(), S::sin(two_times_im)));
+        }
+
         let tanh_re = S::sinh(two_times_re) / denominator;
         let tanh_im = S::sin(two_times_im) / denominator;
 
-- 
2.43.0


From 851ee0de589288541f453c4323aab0c8584db34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:16 +0000
Subject: [PATCH 05/23] fix: Quaternion::sqrt is not a number, or loses its
 digits, near the negative real axis

---
 crates/cglinalg_core/src/quaternion.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..345ad00 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2123,6 +2123,14 @@ where
             // Otherwise, we can treat the quaternion as normal.
             let one = S::one();
             let one_half = one / (one + one);
+            if self.scalar() < S::zero() {
+                // The sum `|q| + scalar(q)` cancels near the negative real axis.
+                let norm_v = S::sqrt(norm_v_squared);
+                let d = S::sqrt(one_half * (norm_self - self.scalar()));
+
+                return Self::from_parts(one_half * norm_v / d, self.vector() * (d / norm_v));
+            }
+
             let c = S::sqrt(one_half / (norm_self + self.scalar()));
 
             Self::from_parts((norm_self + self.scalar()) * c, self.vector() * c)
-- 
2.43.0


From 0296e19e332ba71335b3053f6f955b7bbd546fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:16 +0000
Subject: [PATCH 06/23] fix: Quaternion::ln loses half of the digits of small
 arguments to the arccosine

---
 crates/cglinalg_core/src/quaternion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 345ad00..f3b3daf 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -1892,9 +1892,10 @@ where
             Self::from_parts(norm.ln(), Vector3::zero())
         } else {
             let norm = self.norm();
-            let arccos_s_over_norm_q = S::acos(self.scalar() / norm);
+            let norm_v = norm_v_squared.sqrt();
+            let arg_q = S::atan2(norm_v, self.scalar());
             let q_scalar = S::ln(norm);
-            let q_vector = self.vector() * (arccos_s_over_norm_q / norm_v_squared.sqrt());
+            let q_vector = self.vector() * (arg_q / norm_v);
 
             Self::from_parts(q_scalar, q_vector)
         }
-- 
2.43.0


From eda476d6b0a66489a5b55bb6f8e23c66461a82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:16 +0000
Subject: [PATCH 07/23] fix: Quaternion::polar_decomposition describes another
 quaternion when the scalar part is negative

---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f3b3daf..65c3962 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3065,7 +3065,7 @@ where
         let pair = Unit::try_from_value_with_norm(*self, S::zero());
         if let Some((unit_q, norm_q)) = pair {
             if let Some(axis) = Unit::try_from_value(self.vector(), S::zero()) {
-                let cos_angle_over_two = unit_q.scalar().abs();
+                let cos_angle_over_two = unit_q.scalar();
                 let sin_angle_over_two = unit_q.vector().norm();
                 let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);
 
-- 
2.43.0


From ffe8223d21417f40d635111bba1b5586e3b2a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:00 +0000
Subject: [PATCH 08/23] fix: Quaternion::asinh loses all digits to cancellation
 for negative scalar parts

---
 crates/cglinalg_core/src/quaternion.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 65c3962..9a0c0bb 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3533,7 +3533,16 @@ where
     pub fn asinh(&self) -> Self {
         let identity = Self::identity();
 
-        (self + (self.squared() + identity).sqrt()).ln()
+        // The quaternions `q_plus` and `q_minus` are reciprocals of each other, so either one determines
+        // the inverse hyperbolic sine. The smaller one suffers from cancellation.
+        let root = (self.squared() + identity).sqrt();
+        let q_plus = root + self;
+        let q_minus = root - self;
+        if q_plus.norm_squared() >= q_minus.norm_squared() {
+            q_plus.ln()
+        } else {
+            -q_minus.ln()
+        }
     }
 
     /// Compute the quaternionic hyperbolic tangent of `self`.
-- 
2.43.0


From ffa21cb81d9dc3824722f2a923fd05f6e79d8116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:00 +0000
Subject: [PATCH 09/23] fix: Quaternion::acos, asin and atan of real
 quaternions, their branch and their cancellation

---
 crates/cglinalg_core/src/quaternion.rs | 43 ++++++++++++++++++++------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 9a0c0bb..574cc7b 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3170,6 +3170,17 @@ where
         Self::from_parts(scalar, vector)
     }
 
+    /// Compute the direction of the vector part of `self` as a pure quaternion. A real
+    /// quaternion has no direction, so we canonically choose the **x-axis** there.
+    #[inline]
+    fn vector_direction(&self) -> Self {
+        if self.vector().is_zero() {
+            Self::unit_x()
+        } else {
+            Self::from_pure(self.vector().normalize())
+        }
+    }
+
     /// Compute the quaternionic arccosine of `self`.
     ///
     /// # Example
@@ -3196,11 +3207,18 @@ where
     /// ```
     #[inline]
     pub fn acos(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = self.vector_direction();
         let identity = Self::identity();
-        let q = (self + (self.squared() - identity).sqrt()).ln();
-
-        -(signum_vec_self * q)
+        // The quaternions `q_plus` and `q_minus` are reciprocals of each other, so either one determines
+        // the arccosine. The smaller one suffers from cancellation.
+        let root = signum_vec_self * (identity - self.squared()).sqrt();
+        let q_plus = self + root;
+        let q_minus = self - root;
+        if q_plus.norm_squared() >= q_minus.norm_squared() {
+            -(signum_vec_self * q_plus.ln())
+        } else {
+            signum_vec_self * q_minus.ln()
+        }
     }
 
     /// Compute the quaternionic sine of `self`.
@@ -3278,11 +3296,18 @@ where
     /// ```
     #[inline]
     pub fn asin(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = self.vector_direction();
         let identity = Self::identity();
-        let q = ((signum_vec_self * self) + (identity - self.squared()).sqrt()).ln();
-
-        -(signum_vec_self * q)
+        // The quaternions `q_plus` and `q_minus` are reciprocals of each other, so either one determines
+        // the arcsine. The smaller one suffers from cancellation.
+        let root = (identity - self.squared()).sqrt();
+        let q_plus = root + signum_vec_self * self;
+        let q_minus = root - signum_vec_self * self;
+        if q_plus.norm_squared() >= q_minus.norm_squared() {
+            -(signum_vec_self * q_plus.ln())
+        } else {
+            signum_vec_self * q_minus.ln()
+        }
     }
 
     /// Compute the quaternionic tangent of `self`.
@@ -3376,7 +3401,7 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = Self::from_pure(self.vector().normalize());
+        let signum_vec_self = self.vector_direction();
         let numerator = signum_vec_self + self;
         let denominator = signum_vec_self - self;
         let q = numerator.div_right(&denominator).unwrap();
-- 
2.43.0


From 236ae119eb4d0d866575e63a5a5bbfb49ab232ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:17 +0000
Subject: [PATCH 10/23] fix: Euler angles of a rotation are not a number, or
 describe another rotation, at and near gimbal lock

---
 crates/cglinalg_core/src/euler.rs         | 25 +++++++++++++----------
 crates/cglinalg_transform/src/rotation.rs | 25 +++++++++++++----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..8c9f54b 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -492,19 +492,22 @@ where
 
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(matrix[1][2], matrix[1][1]);
-
-            (_pitch, _roll)
+        // NOTE: The arc tangent is accurate near gimbal lock, where the arc sine
+        // loses half of the digits, and not a number for entries that round above one.
+        let cos_yaw = S::hypot(matrix[0][0], matrix[1][0]);
+        let yaw = Radians::atan2(matrix[2][0], cos_yaw);
+        let pitch = if cos_yaw.is_zero() {
+            Radians::zero()
         } else {
-            let _pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
-            let _roll = Radians::atan2(-matrix[2][1], matrix[2][2]);
-
-            (_pitch, _roll)
+            Radians::atan2(-matrix[1][0], matrix[0][0])
         };
+        // NOTE: Undoing the pitch leaves `[0, cos(roll), sin(roll)]` in the second
+        // column, which determines the roll whichever pitch was chosen at gimbal lock.
+        let (sin_pitch, cos_pitch) = Radians::sin_cos(pitch);
+        let roll = Radians::atan2(
+            sin_pitch * matrix[0][2] + cos_pitch * matrix[1][2],
+            sin_pitch * matrix[0][1] + cos_pitch * matrix[1][1],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 487fbea..db4bd10 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -1835,19 +1835,22 @@ where
     /// ```
     #[inline]
     pub fn euler_angles(&self) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(self.matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(self.matrix[1][2], self.matrix[1][1]);
-
-            (_pitch, _roll)
+        // NOTE: The arc tangent is accurate near gimbal lock, where the arc sine
+        // loses half of the digits, and not a number for entries that round above one.
+        let cos_yaw = S::hypot(self.matrix[0][0], self.matrix[1][0]);
+        let yaw = Radians::atan2(self.matrix[2][0], cos_yaw);
+        let pitch = if cos_yaw.is_zero() {
+            Radians::zero()
         } else {
-            let _pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
-            let _roll = Radians::atan2(-self.matrix[2][1], self.matrix[2][2]);
-
-            (_pitch, _roll)
+            Radians::atan2(-self.matrix[1][0], self.matrix[0][0])
         };
+        // NOTE: Undoing the pitch leaves `[0, cos(roll), sin(roll)]` in the second
+        // column, which determines the roll whichever pitch was chosen at gimbal lock.
+        let (sin_pitch, cos_pitch) = Radians::sin_cos(pitch);
+        let roll = Radians::atan2(
+            sin_pitch * self.matrix[0][2] + cos_pitch * self.matrix[1][2],
+            sin_pitch * self.matrix[0][1] + cos_pitch * self.matrix[1][1],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
-- 
2.43.0


From 7426313bad76945e8d78c6c965a31c1401905b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 11/23] fix: Rotation3::angle is not a number when the trace
 rounds above three, and loses half of its digits near zero and half turns

---
 crates/cglinalg_transform/src/rotation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index db4bd10..6b8fd2f 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -979,7 +979,16 @@ where
         let two = cglinalg_numeric::cast(2);
         let trace_self = self.matrix.c0r0 + self.matrix.c1r1 + self.matrix.c2r2;
 
-        Radians::acos((trace_self - S::one()) / two)
+        // NOTE: The arc cosine is inaccurate near `0` and `pi`, and not a number
+        // when the trace rounds outside of the range `[-1, 3]`.
+        let cos_angle = (trace_self - S::one()) / two;
+        let sin_angle = Vector3::new(
+            self.matrix.c1r2 - self.matrix.c2r1,
+            self.matrix.c2r0 - self.matrix.c0r2,
+            self.matrix.c0r1 - self.matrix.c1r0,
+        ).norm() / two;
+
+        Radians::atan2(sin_angle, cos_angle)
     }
 
     /// Compute the axis of the rotation if it exists.
-- 
2.43.0


From 1ba019db1f551eb498177d9f1578ec35df6b4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 12/23] fix: Matrix2x2::rotation_between rotates the wrong way
 between vectors in clockwise order

---
 crates/cglinalg_core/src/matrix.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..e078b8a 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3233,8 +3233,10 @@ where
     /// ```
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
-        let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let unit_v1 = v1.as_ref();
+        let unit_v2 = v2.as_ref();
+        let cos_angle = unit_v1.dot(unit_v2);
+        let sin_angle = unit_v1[0] * unit_v2[1] - unit_v1[1] * unit_v2[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From d9800f74fdfeb7156e8c7ed7eed98aba6fc626c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 13/23] fix: Matrix3x3::rotation_between is not a number for
 nearly parallel vectors whose cosine rounds above one

---
 crates/cglinalg_core/src/matrix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index e078b8a..6e6802d 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -5257,8 +5257,8 @@ where
         if let (Some(unit_v1), Some(unit_v2)) = (v1.try_normalize(S::zero()), v2.try_normalize(S::zero())) {
             let cross = unit_v1.cross(&unit_v2);
 
-            if let Some(axis) = Unit::try_from_value(cross, threshold) {
-                return Some(Self::from_axis_angle(&axis, Radians::acos(unit_v1.dot(&unit_v2))));
+            if let Some((axis, sin_angle)) = Unit::try_from_value_with_norm(cross, threshold) {
+                return Some(Self::from_axis_angle(&axis, Radians::atan2(sin_angle, unit_v1.dot(&unit_v2))));
             }
 
             if unit_v1.dot(&unit_v2) < S::zero() {
@@ -5305,8 +5305,8 @@ where
         let cross = unit_v1.as_ref().cross(unit_v2.as_ref());
         let cos_angle = unit_v1.as_ref().dot(unit_v2.as_ref());
 
-        if let Some(axis) = Unit::try_from_value(cross, threshold) {
-            return Some(Self::from_axis_angle(&axis, Radians::acos(cos_angle)));
+        if let Some((axis, sin_angle)) = Unit::try_from_value_with_norm(cross, threshold) {
+            return Some(Self::from_axis_angle(&axis, Radians::atan2(sin_angle, cos_angle)));
         }
 
         if cos_angle < S::zero() {
-- 
2.43.0


From eeec551162917af6b6d82d6d91531eca6b39cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 14/23] fix: Quaternion::rotation_between refuses nearly
 opposite vectors and loses half of the digits of small angles

---
 crates/cglinalg_core/src/quaternion.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 574cc7b..bfaa5ea 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -2381,21 +2381,10 @@ where
         let v2 = unit_v2.as_ref();
         let v1_cross_v2 = v1.cross(v2);
 
-        if let Some(axis) = Unit::try_from_value(v1_cross_v2, threshold) {
-            let cos_theta = v1.dot(v2);
-
-            if cos_theta <= -S::one() {
-                // The cosines may fall outside the interval [-1, 1] because of floating
-                // point inaccuracies.
-                None
-            } else if cos_theta >= S::one() {
-                // The cosines may fall outside the interval [-1, 1] because of floating
-                // point inaccuracies.
-                Some(Self::identity())
-            } else {
-                // The cosine falls inside the interval [-1, 1].
-                Some(Self::from_axis_angle(&axis, Radians::acos(cos_theta)))
-            }
+        if let Some((axis, sin_theta)) = Unit::try_from_value_with_norm(v1_cross_v2, threshold) {
+            // The arc tangent is accurate for every angle, and does not mind cosines that
+            // fall outside the interval [-1, 1] because of floating point inaccuracies.
+            Some(Self::from_axis_angle(&axis, Radians::atan2(sin_theta, v1.dot(v2))))
         } else if v1.dot(v2) < S::zero() {
             // There are two ways to rotate around the unit circle between two vectors.
             // If both one vector is the negation of the other one, i.e. they are pi radians
-- 
2.43.0


From 1b75cf31887933293f3de58609c1b992a2ba6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:29 +0000
Subject: [PATCH 15/23] fix: Isometry::abs_diff_all_eq ignores the translation

---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From 7909ea0f58bead6df659c1f266ace8a9cecbfdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:32 +0000
Subject: [PATCH 16/23] fix: Perspective3::project_point ignores the vertical
 asymmetry of the frustum

---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 0c2433031c3f755beec36897bb3266fd9e3c7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 17/23] fix: Perspective3::vfov is negative for vertical fields
 of view beyond a right angle

---
 crates/cglinalg_transform/src/projection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..3734320 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,8 +826,9 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
+        // The vertical field of view may exceed a right angle, in which case the
+        // denominator is negative. The numerator is always positive.
+        let vfov = numerator.atan2(denominator);
 
         Radians(vfov)
     }
-- 
2.43.0


From acb26775c46f4c1b59c7f8562c6f24beaa1fd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:38 +0000
Subject: [PATCH 18/23] fix: derive component pointers from the whole value,
 not its first component

---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 crates/cglinalg_core/src/matrix.rs  | 4 ++--
 crates/cglinalg_core/src/vector.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 385b8aa..06f731d 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -58,13 +58,13 @@ impl<S> Complex<S> {
     /// Get a pointer to the underlying array.
     #[inline]
     pub const fn as_ptr(&self) -> *const S {
-        &self.re
+        self as *const Complex<S> as *const S
     }
 
     /// Get a mutable pointer to the underlying array.
     #[inline]
     pub const fn as_mut_ptr(&mut self) -> *mut S {
-        &mut self.re
+        self as *mut Complex<S> as *mut S
     }
 
     /// Get a slice of the underlying elements of the data type.
diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 6e6802d..b548399 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -165,13 +165,13 @@ impl<S, const R: usize, const C: usize> Matrix<S, R, C> {
     /// Get a pointer to the underlying array.
     #[inline]
     pub const fn as_ptr(&self) -> *const S {
-        &self.data[0][0]
+        self.data.as_ptr() as *const S
     }
 
     /// Get a mutable pointer to the underlying array.
     #[inline]
     pub const fn as_mut_ptr(&mut self) -> *mut S {
-        &mut self.data[0][0]
+        self.data.as_mut_ptr() as *mut S
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index eb703f5..c57df65 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -75,13 +75,13 @@ impl<S, const N: usize> Vector<S, N> {
     /// Get a pointer to the underlying array.
     #[inline]
     pub const fn as_ptr(&self) -> *const S {
-        &self.data[0]
+        self.data.as_ptr()
     }
 
     /// Get a mutable pointer to the underlying array.
     #[inline]
     pub const fn as_mut_ptr(&mut self) -> *mut S {
-        &mut self.data[0]
+        self.data.as_mut_ptr()
     }
 
     /// Get a slice of the underlying elements of the data type.
-- 
2.43.0


From c46683879e72e5dd2142a1790a2e89fdab476ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:20 +0000
Subject: [PATCH 19/23] fix: do not build values by zeroing element types

---
 crates/cglinalg_core/src/matrix.rs | 52 +++++++-----------------------
 crates/cglinalg_core/src/vector.rs | 16 ++++-----
 2 files changed, 17 insertions(+), 51 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index b548399..7531829 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -429,19 +429,11 @@ where
     /// assert_eq!(matrix[1][0], r0[1]); assert_eq!(matrix[1][1], r1[1]); assert_eq!(matrix[1][2], r2[1]);
     /// assert_eq!(matrix[2][0], r0[2]); assert_eq!(matrix[2][1], r1[2]); assert_eq!(matrix[2][2], r2[2]);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn from_rows(rows: &[Vector<S, C>; R]) -> Self {
-        // SAFETY: Every location gets written into with a valid value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[S; R]; C] = unsafe { core::mem::zeroed() };
-        for r in 0..R {
-            for c in 0..C {
-                data[c][r] = rows[r][c];
-            }
+        Self {
+            data: core::array::from_fn(|c| core::array::from_fn(|r| rows[r][c])),
         }
-
-        Self { data }
     }
 
     /// Map an operation on the elements of a matrix, returning a matrix whose
@@ -468,22 +460,14 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn map<T, F>(&self, mut op: F) -> Matrix<T, R, C>
     where
         F: FnMut(S) -> T,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = op(self.data[c][r]);
-            }
+        Matrix {
+            data: self.data.map(|column| column.map(|value| op(value))),
         }
-
-        Matrix { data }
     }
 
     /// Get the row of the matrix by value.
@@ -509,17 +493,9 @@ where
     /// assert_eq!(matrix.row(1), expected_1);
     /// assert_eq!(matrix.row(2), expected_2);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn row(&self, r: usize) -> Vector<S, C> {
-        // SAFETY: Every location gets written into with a value value of type `S`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [S; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            data[c] = self.data[c][r];
-        }
-
-        Vector::from(data)
+        Vector::from(core::array::from_fn(|c| self.data[c][r]))
     }
 
     /// Get the column of the matrix by value.
@@ -659,25 +635,19 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn try_cast<T>(&self) -> Option<Matrix<T, R, C>>
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [[T; R]; C] = unsafe { core::mem::zeroed() };
-        for c in 0..C {
-            for r in 0..R {
-                data[c][r] = match cglinalg_numeric::try_cast(self.data[c][r]) {
-                    Some(value) => value,
-                    None => return None,
-                };
-            }
+        let mut values = self.data.map(|column| column.map(|value| cglinalg_numeric::try_cast(value)));
+        if values.iter().flatten().any(|value| value.is_none()) {
+            return None;
         }
 
-        Some(Matrix { data })
+        Some(Matrix {
+            data: core::array::from_fn(|c| core::array::from_fn(|r| values[c][r].take().unwrap())),
+        })
     }
 }
 
diff --git a/crates/cglinalg_core/src/vector.rs b/crates/cglinalg_core/src/vector.rs
index c57df65..f4b2818 100644
--- a/crates/cglinalg_core/src/vector.rs
+++ b/crates/cglinalg_core/src/vector.rs
@@ -108,23 +108,19 @@ where
     ///
     /// assert_eq!(result, expected);
     /// ```
-    #[allow(clippy::needless_range_loop)]
     #[inline]
     pub fn try_cast<T>(&self) -> Option<Vector<T, N>>
     where
         T: SimdCast,
     {
-        // SAFETY: Every location gets written into with a valid value of type `T`.
-        // PERFORMANCE: The const loop should get unrolled during optimization.
-        let mut data: [T; N] = unsafe { core::mem::zeroed() };
-        for i in 0..N {
-            data[i] = match cglinalg_numeric::try_cast(self.data[i]) {
-                Some(value) => value,
-                None => return None,
-            };
+        let mut values = self.data.map(|value| cglinalg_numeric::try_cast(value));
+        if values.iter().any(|value| value.is_none()) {
+            return None;
         }
 
-        Some(Vector { data })
+        Some(Vector {
+            data: core::array::from_fn(|i| values[i].take().unwrap()),
+        })
     }
 }
 
-- 
2.43.0


From abf5c9156baa89c3338847bcc7510d0f64b6589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:12 +0000
Subject: [PATCH 20/23] fix: Matrix::diagonal returns one entry per diagonal
 element

---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index 7531829..aec6c5b 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -1334,7 +1334,7 @@ where
     /// assert_eq!(result, expected);
     /// ```
     #[inline]
-    pub fn diagonal(&self) -> Vector4<S> {
+    pub fn diagonal(&self) -> Vector<S, N> {
         // PERFORMANCE: The const loop should get unrolled during optimization.
         let mut result = Vector::zero();
         for i in 0..N {
-- 
2.43.0


From eb297aad40781af7b6795589d1b2d93fb3faef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 21/23] fix: Quaternion::atan beyond the unit pure quaternions
 points in an arbitrary direction, and panics at them

---
 crates/cglinalg_core/src/quaternion.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index bfaa5ea..943c3c7 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3390,12 +3390,18 @@ where
     /// ```
     #[inline]
     pub fn atan(&self) -> Self {
-        let signum_vec_self = self.vector_direction();
-        let numerator = signum_vec_self + self;
-        let denominator = signum_vec_self - self;
-        let q = numerator.div_right(&denominator).unwrap();
+        // In the complex plane spanned by the identity and the direction of the vector part, this is
+        // the complex arctangent of `s + i * |v|`.
+        let one = S::one();
+        let two = one + one;
+        let four = two + two;
+        let s = self.scalar();
+        let norm_v = self.vector().norm();
+        let norm_v_minus_one = norm_v - one;
+        let scalar = S::atan2(two * s, (one - norm_v) * (one + norm_v) - s * s) / two;
+        let norm_vector = S::ln_1p(four * norm_v / (s * s + norm_v_minus_one * norm_v_minus_one)) / four;
 
-        signum_vec_self.half() * q.ln()
+        Self::from_real(scalar) + self.vector_direction() * norm_vector
     }
 
     /// Compute the quaternionic hyperbolic cosine of `self`.
-- 
2.43.0


From 914c6b26494c32bb0a2e09620af037b371939be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:47 +0000
Subject: [PATCH 22/23] fix: Quaternion::asinh of pure quaternions longer than
 one leaves their plane

---
 crates/cglinalg_core/src/quaternion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 943c3c7..d61ffe5 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3555,7 +3555,14 @@ where
 
         // The quaternions `q_plus` and `q_minus` are reciprocals of each other, so either one determines
         // the inverse hyperbolic sine. The smaller one suffers from cancellation.
-        let root = (self.squared() + identity).sqrt();
+        let radicand = self.squared() + identity;
+        let root = if radicand.is_real() && radicand.scalar() < S::zero() {
+            // The square root of a negative real quaternion points along the x-axis, so we
+            // choose the one in the plane of `self`.
+            self.vector_direction() * (-radicand.scalar()).sqrt()
+        } else {
+            radicand.sqrt()
+        };
         let q_plus = root + self;
         let q_minus = root - self;
         if q_plus.norm_squared() >= q_minus.norm_squared() {
-- 
2.43.0


From 1014044dc0233c220e5efacbf81b16dedcbdc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 23/23] fix: projection parameters and unprojection are not a
 number when a plane distance ratio rounds to infinity

---
 crates/cglinalg_transform/src/projection.rs | 64 +++++++++------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 3734320..468507c 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -944,11 +944,10 @@ where
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[2][2] + one) / (-self.matrix[2][2] - one);
-
-        ((one - ratio) / (two * ratio)) * self.matrix[3][2]
+        // NOTE: Substituting `ratio` gives `near == m[3, 2] / (m[2, 2] - 1)`, which
+        // does not divide by zero when `m[2, 2]` rounds to `-1` for distant far planes.
+        //
+        self.matrix[3][2] / (self.matrix[2][2] - S::one())
     }
 
     /// Get the position of the **far plane** of the viewing
@@ -1181,12 +1180,10 @@ where
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (self.matrix[2][0] + one) / (-self.matrix[2][0] + one);
-        let near = self.near();
-
-        ((two * near) * (ratio / (ratio + one))) * (one / self.matrix[0][0])
+        // NOTE: Substituting `ratio` gives `right == near * (m[2, 0] + 1) / m[0, 0]`, which
+        // is defined when the `left` plane is so close to the axis that `ratio` is infinite.
+        //
+        (self.near() * (self.matrix[2][0] + S::one())) * (S::one() / self.matrix[0][0])
     }
 
     /// Get the position of the **left plane** of the viewing
@@ -1416,12 +1413,10 @@ where
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (self.matrix[2][1] + one) / (-self.matrix[2][1] + one);
-        let near = self.near();
-
-        ((two * near) * (ratio / (ratio + one))) * (one / self.matrix[1][1])
+        // NOTE: Substituting `ratio` gives `top == near * (m[2, 1] + 1) / m[1, 1]`, which
+        // is defined when the `bottom` plane is so close to the axis that `ratio` is infinite.
+        //
+        (self.near() * (self.matrix[2][1] + S::one())) * (S::one() / self.matrix[1][1])
     }
 
     /// Get the position of the **bottom plane** of the viewing
@@ -2064,11 +2059,11 @@ where
         let two = one + one;
         let c0r0 = (self.right() + self.left()) / (two * self.near());
         let c1r1 = (self.top() + self.bottom()) / (two * self.near());
-        let c2r3 = (self.near() - self.far()) / (two * self.far() * self.near());
+        let c2r3 = one / self.matrix[3][2];
         let c3r0 = (self.right() - self.left()) / (two * self.near());
         let c3r1 = (self.top() - self.bottom()) / (two * self.near());
         let c3r2 = -one;
-        let c3r3 = (self.far() + self.near()) / (two * self.far() * self.near());
+        let c3r3 = self.matrix[2][2] / self.matrix[3][2];
         let w = c2r3 * point.z + c3r3;
         let inverse_w = one / w;
 
@@ -2159,11 +2154,11 @@ where
         let two = one + one;
         let c0r0 = (self.right() + self.left()) / (two * self.near());
         let c1r1 = (self.top() + self.bottom()) / (two * self.near());
-        let c2r3 = (self.near() - self.far()) / (two * self.far() * self.near());
+        let c2r3 = one / self.matrix[3][2];
         let c3r0 = (self.right() - self.left()) / (two * self.near());
         let c3r1 = (self.top() - self.bottom()) / (two * self.near());
         let c3r2 = -one;
-        let c3r3 = (self.far() + self.near()) / (two * self.far() * self.near());
+        let c3r3 = self.matrix[2][2] / self.matrix[3][2];
         let w = c2r3 * vector.z + c3r3;
         let inverse_w = one / w;
 
@@ -3176,11 +3171,10 @@ where
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][2] + one) / (-self.matrix[3][2] - one);
-
-        (-two * (ratio / (ratio - one))) * (one / self.matrix[2][2])
+        // NOTE: Substituting `ratio` gives `far == (m[3, 2] - 1) / m[2, 2]`, which is
+        // defined when the `near` plane is so close to the viewer that `ratio` is infinite.
+        //
+        (self.matrix[3][2] - S::one()) * (S::one() / self.matrix[2][2])
     }
 
     /// Get the position of the **right plane** of the viewing
@@ -3276,11 +3270,10 @@ where
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][0] + one) / (self.matrix[3][0] + one);
-
-        (two * (ratio / (ratio + one))) * (one / self.matrix[0][0])
+        // NOTE: Substituting `ratio` gives `right == (1 - m[3, 0]) / m[0, 0]`, which
+        // is defined when the `left` plane is so close to the axis that `ratio` is infinite.
+        //
+        (S::one() - self.matrix[3][0]) * (S::one() / self.matrix[0][0])
     }
 
     /// Get the position of the **left plane** of the viewing
@@ -3474,11 +3467,10 @@ where
         // ```
         // which is the desired formula.
         //
-        let one = S::one();
-        let two = one + one;
-        let ratio = (-self.matrix[3][1] + one) / (self.matrix[3][1] + one);
-
-        (two * (ratio / (ratio + one))) * (one / self.matrix[1][1])
+        // NOTE: Substituting `ratio` gives `top == (1 - m[3, 1]) / m[1, 1]`, which
+        // is defined when the `bottom` plane is so close to the axis that `ratio` is infinite.
+        //
+        (S::one() - self.matrix[3][1]) * (S::one() / self.matrix[1][1])
     }
 
     /// Get the position of the **bottom plane** of the viewing
-- 
2.43.0

