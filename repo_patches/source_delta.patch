From 079f45b14692e959974a31ec396a1ed10b218b77 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:23:39 +0000
Subject: [PATCH 01/38] fix: release decoded elements when deserialising a
 matrix fails part-way

---
 crates/aether_core/src/math/matrix.rs | 68 ++++++++++++++-------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..9abd13a 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1346,32 +1346,34 @@ where
                         let mut inited = 0usize;
 
                         for i in 0..N {
-                            match seq.next_element()? {
-                                Some(v) => {
+                            let err = match seq.next_element() {
+                                Ok(Some(v)) => {
                                     unsafe { row_ptr.add(i).write(v) };
                                     inited += 1;
+                                    continue;
                                 }
-                                None => {
-                                    unsafe {
-                                        for j in 0..inited {
-                                            ptr::drop_in_place(row_ptr.add(j));
-                                        }
-                                    }
-                                    return Err(serde::de::Error::invalid_length(i, &self));
-                                }
-                            }
-                        }
-
-                        if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                                Ok(None) => serde::de::Error::invalid_length(i, &self),
+                                Err(e) => e,
+                            };
                             unsafe {
                                 for j in 0..inited {
                                     ptr::drop_in_place(row_ptr.add(j));
                                 }
                             }
-                            return Err(serde::de::Error::invalid_length(N + 1, &self));
+                            return Err(err);
                         }
 
-                        Ok(unsafe { row.assume_init() })
+                        let err = match seq.next_element::<serde::de::IgnoredAny>() {
+                            Ok(None) => return Ok(unsafe { row.assume_init() }),
+                            Ok(Some(_)) => serde::de::Error::invalid_length(N + 1, &self),
+                            Err(e) => e,
+                        };
+                        unsafe {
+                            for j in 0..inited {
+                                ptr::drop_in_place(row_ptr.add(j));
+                            }
+                        }
+                        Err(err)
                     }
                 }
 
@@ -1401,32 +1403,34 @@ where
                 let mut inited = 0usize;
 
                 for i in 0..M {
-                    match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
-                        Some(row) => {
+                    let err = match seq.next_element_seed(RowSeed::<T, N>(PhantomData)) {
+                        Ok(Some(row)) => {
                             unsafe { out_ptr.add(i).write(row) };
                             inited += 1;
+                            continue;
                         }
-                        None => {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(out_ptr.add(j));
-                                }
-                            }
-                            return Err(serde::de::Error::invalid_length(i, &self));
-                        }
-                    }
-                }
-
-                if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
+                        Ok(None) => serde::de::Error::invalid_length(i, &self),
+                        Err(e) => e,
+                    };
                     unsafe {
                         for j in 0..inited {
                             ptr::drop_in_place(out_ptr.add(j));
                         }
                     }
-                    return Err(serde::de::Error::invalid_length(M + 1, &self));
+                    return Err(err);
                 }
 
-                Ok(Matrix { data: unsafe { out.assume_init() } })
+                let err = match seq.next_element::<serde::de::IgnoredAny>() {
+                    Ok(None) => return Ok(Matrix { data: unsafe { out.assume_init() } }),
+                    Ok(Some(_)) => serde::de::Error::invalid_length(M + 1, &self),
+                    Err(e) => e,
+                };
+                unsafe {
+                    for j in 0..inited {
+                        ptr::drop_in_place(out_ptr.add(j));
+                    }
+                }
+                Err(err)
             }
         }
 
-- 
2.43.0


From 3bf8edbfe92ed0029e5c728c3786b16c077be6c6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 02/38] fix: no-std signum of zero and single-precision integer
 powers beyond 2^24 match the std back end

---
 crates/aether_core/src/real/no_std_impl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 690a6bc..6d6b7c7 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -11,7 +11,7 @@ impl Real for f32 {
 
     #[inline] fn abs(self) -> Self { libm::fabsf(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysignf(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floorf(self) }
     #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
@@ -38,7 +38,7 @@ impl Real for f32 {
     #[inline] fn ln(self) -> Self { libm::logf(self) }
     #[inline] fn log2(self) -> Self { libm::log2f(self) }
     #[inline] fn log10(self) -> Self { libm::log10f(self) }
-    #[inline] fn powi(self, n: i32) -> Self { libm::powf(self, n as f32) }
+    #[inline] fn powi(self, n: i32) -> Self { libm::pow(self as f64, n as f64) as f32 }
     #[inline] fn powf(self, n: Self) -> Self { libm::powf(self, n) }
     #[inline] fn to_degrees(self) -> Self { self * (180.0 / core::f32::consts::PI) }
     #[inline] fn to_radians(self) -> Self { self * (core::f32::consts::PI / 180.0) }
@@ -55,7 +55,7 @@ impl Real for f64 {
 
     #[inline] fn abs(self) -> Self { libm::fabs(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floor(self) }
     #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-- 
2.43.0


From 7062d2bfaaa880be8ee707466957bbba6e4b6da9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:38:57 +0000
Subject: [PATCH 03/38] fix: Quaternion::to_dcm returns the From->To matrix,
 not its transpose

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..f472d5f 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -164,9 +164,9 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let yz = y * z;
 
         let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
+            [ ww + xx - yy - zz, two * (xy + wz),     two * (xz - wy) ],
+            [ two * (xy - wz),   ww - xx + yy - zz,  two * (yz + wx) ],
+            [ two * (xz + wy),   two * (yz - wx),    ww - xx - yy + zz ],
         ]);
 
         DirectionCosineMatrix::from_matrix(m)
-- 
2.43.0


From eaca585d3856ee964eb6c3f28b9f92990f183a11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:39:01 +0000
Subject: [PATCH 04/38] fix: quaternion composition chains passive rotations in
 the documented order

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index f472d5f..58597ff 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -248,9 +248,9 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // Passive rotation is q* v q, so chaining is the Hamilton product rhs x self
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From eb2682c6f19173358eb5a7cd0990f1540254774d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 05/38] fix: Quaternion::integrate uses pure-vector rates and
 the Taylor coefficients

---
 crates/aether_core/src/attitude/quaternion.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 58597ff..6050eba 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -203,19 +203,19 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let two = one + one;
         let three = two + one;
         let four = two + two;
-        let nine = three * three;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let sixth = one / (three + three);
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        // rates are pure vector quaternions
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (half * quarter)
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -223,8 +223,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From 3209d5bd7bcdc7fe4a9fbbf3993ce88817e197c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:39:55 +0000
Subject: [PATCH 06/38] fix: Euler extraction at the gimbal singularity
 preserves the rotation and gives no NaN

---
 crates/aether_core/src/attitude/euler.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 8fdd4c5..5aba3f9 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -47,19 +47,20 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         let two = T::ONE + T::ONE;
         let one = T::ONE;
 
+        // Gimbal lock: only yaw -+ roll is determined, so take roll as zero
+        let sinp = two * (w * y - z * x);
+        if sinp.abs() >= one - T::from_f32(16.0) * T::EPSILON {
+            let yaw = (two * (w * z - x * y)).atan2(one - two * (x * x + z * z));
+            return Self::new(T::ZERO, T::FRAC_PI_2 * sinp.signum(), yaw);
+        }
+
         // Roll (x-axis)
         let sinr_cosp = two * (w * x + y * z);
         let cosr_cosp = one - two * (x * x + y * y);
         let roll = sinr_cosp.atan2(cosr_cosp);
 
         // Pitch (y-axis)
-        let sinp = two * (w * y - z * x);
-        let half_pi = T::FRAC_PI_2;
-        let pitch = if sinp.abs() >= one {
-            half_pi * sinp.signum()
-        } else {
-            sinp.asin()
-        };
+        let pitch = sinp.asin();
 
         // Yaw (z-axis)
         let siny_cosp = two * (w * z + x * y);
@@ -77,6 +78,12 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
     fn from(dcm: &DirectionCosineMatrix<T, From, To>) -> Self {
         let m = &dcm.as_matrix().data;
 
+        // Gimbal lock: only yaw -+ roll is determined, so take roll as zero
+        if m[0][2].abs() >= T::ONE - T::from_f32(16.0) * T::EPSILON {
+            let yaw = (-m[1][0]).atan2(m[1][1]);
+            return Self::new(T::ZERO, -(T::FRAC_PI_2 * m[0][2].signum()), yaw);
+        }
+
         // ZYX convention (yaw-pitch-roll), passive From -> To
         let yaw   = m[0][1].atan2(m[0][0]);
         let pitch = -(m[0][2]).asin();
-- 
2.43.0


From f0e992c9f4043afce9cf0e5a2ca0bfd0fa0fa6d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 07/38] fix: spherical inclination keeps its precision near the
 z axis

---
 crates/aether_core/src/coordinate/spherical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/coordinate/spherical.rs b/crates/aether_core/src/coordinate/spherical.rs
index 2c080f9..c87078e 100644
--- a/crates/aether_core/src/coordinate/spherical.rs
+++ b/crates/aether_core/src/coordinate/spherical.rs
@@ -40,7 +40,7 @@ impl<T: Real, RF: ReferenceFrame> From<&Cartesian<T, RF>> for Spherical<T> {
         let phi = if rho == T::ZERO {
             T::ZERO
         } else {
-            (z / rho).acos()
+            (x * x + y * y).sqrt().atan2(z)
         }; // inclination from z-axis
         Spherical::new(rho, theta, phi)
     }
@@ -54,7 +54,7 @@ impl<T: Real> From<&Cylindrical<T>> for Spherical<T> {
 
         let rho = (r_cyl * r_cyl + z * z).sqrt(); // spherical radius
         let phi = if rho != T::ZERO {
-            (z / rho).acos() // inclination from z-axis
+            r_cyl.atan2(z) // inclination from z-axis
         } else {
             T::ZERO
         };
-- 
2.43.0


From 634a358d1a614345168b5a98419c95eb5a485585 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 08/38] fix: durations from negative nanosecond counts are in
 normal form

---
 crates/aether_time/src/time/duration.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..1209d99 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,19 +15,14 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 08532b828ffd33587353d849f244452b20a44ff7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 09/38] fix: GPS week and seconds of week stay in range before
 the GPS epoch

---
 crates/aether_time/src/time/gps.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..b14f318 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -15,8 +15,8 @@ pub struct GpsWeekTime {
 impl Time<GPS> {
     pub fn to_gps_week(self, current_full_week_hint: u32) -> GpsWeekTime {
         let total = self.sec;
-        let raw_week = ((total / GPS_WEEK_SECONDS) % GPS_WEEK_MODULUS as i64) as u16;
-        let sow = total % GPS_WEEK_SECONDS;
+        let raw_week = total.div_euclid(GPS_WEEK_SECONDS).rem_euclid(GPS_WEEK_MODULUS as i64) as u16;
+        let sow = total.rem_euclid(GPS_WEEK_SECONDS);
 
         // Compute the nearest rollover-corrected week
         let raw = raw_week as i64;
-- 
2.43.0


From 60e0a34bc9e4bb936ff5d6392b9ace036b004ca3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:54:05 +0000
Subject: [PATCH 10/38] fix: calendar conversion of instants before 1970 and of
 negative years

---
 crates/aether_time/src/time/schedule.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..80f6dc0 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -245,12 +245,12 @@ impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
         let mut secs = self.sec;
-        let second = (secs % 60) as u8;
-        secs /= 60;
-        let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let second = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let minute = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let hour = secs.rem_euclid(24) as u8;
+        let days = secs.div_euclid(24);
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
@@ -271,7 +271,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From 87763e02b28150da27adcc1cf7374a559208476f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 11/38] fix: next hourly/daily occurrence for instants before
 1970

---
 crates/aether_time/src/time/schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 80f6dc0..1411d86 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -117,7 +117,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -130,7 +130,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
-- 
2.43.0


From 3c1f85d0864170db05a4c1b49497c576be4e80c6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:54:12 +0000
Subject: [PATCH 12/38] fix: a yearly February 29 waits for the next leap year
 instead of firing on March 1

---
 crates/aether_time/src/time/schedule.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 1411d86..a40d6b4 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -107,6 +107,9 @@ const SECS_PER_MIN: i64 = 60;
 const SECS_PER_HOUR: i64 = 60 * SECS_PER_MIN;
 const SECS_PER_DAY:  i64 = 24 * SECS_PER_HOUR;
 
+/// Due time of a schedule that does not fire (again).
+const NEVER: Time<UTC> = Time::<UTC>::new(i64::MAX, 999_999_999);
+
 fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
     // basic: step forward at least one period, catching up if we’re far behind
     let mut t = after + period;
@@ -148,23 +151,19 @@ fn next_yearly(after: Time<UTC>, month: u8, day: u8,
     // Use your existing YMD conversion:
     let dt = after.to_utc_datetime();
 
-    // first try this year
-    let mut year = dt.year;
-    let mut candidate_dt = UtcDateTime::new(
-        year, month, day, hour, minute, second, 0,
-    );
-    let mut candidate = Time::<UTC>::from_utc_datetime(candidate_dt);
-
-    if candidate <= after {
-        // move to next year
-        year += 1;
-        candidate_dt = UtcDateTime::new(
+    // this year or a later one; February 29 can be up to eight years away
+    for year in dt.year..=dt.year + 8 {
+        let candidate_dt = UtcDateTime::new(
             year, month, day, hour, minute, second, 0,
         );
-        candidate = Time::<UTC>::from_utc_datetime(candidate_dt);
+        let candidate = Time::<UTC>::from_utc_datetime(candidate_dt);
+        // a date that does not exist in this year comes back as another one
+        if candidate > after && candidate.to_utc_datetime() == candidate_dt {
+            return candidate;
+        }
     }
 
-    candidate
+    NEVER
 }
 
 
-- 
2.43.0


From fdf7683c460c5d7ee7650ebb896cc65b648ab586 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 19:54:16 +0000
Subject: [PATCH 13/38] fix: a one-shot schedule fires once instead of at every
 poll

---
 crates/aether_time/src/time/schedule.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index a40d6b4..c820eb6 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -211,9 +211,7 @@ impl UtcSchedule {
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                self.next_fire = NEVER;
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From 50df13988db0aecc662b6e697ac44c4af61f2cbd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 14/38] fix: convert prefixed units with factors accurate to
 the number type

---
 crates/aether_units/src/si/si_prefix.rs | 72 +++++++++++++++++--------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/crates/aether_units/src/si/si_prefix.rs b/crates/aether_units/src/si/si_prefix.rs
index fc79de3..01d9be0 100644
--- a/crates/aether_units/src/si/si_prefix.rs
+++ b/crates/aether_units/src/si/si_prefix.rs
@@ -10,7 +10,7 @@ pub const FEMTO: f32 = 1.0e-15_f32;
 pub const PICO:  f32 = 1.0e-12_f32;
 pub const NANO:  f32 = 1.0e-9_f32;
 pub const MICRO: f32 = 1.0e-6_f32;
-pub const MILLI: f32 = 1.0e-3_f32;
+pub const MILLI: f32 = 1.0e-3;
 pub const CENTI: f32 = 1.0e-2_f32;
 pub const DECI:  f32 = 1.0e-1_f32;
 pub const DECA:  f32 = 1.0e1_f32;
@@ -24,6 +24,30 @@ pub const EXA:   f32 = 1.0e18_f32;
 pub const ZETTA: f32 = 1.0e21_f32;
 pub const YOTTA: f32 = 1.0e24_f32;
 
+// The same factors at full precision, used by the conversions below.
+mod exact {
+    pub const YOCTO: f64 = 1.0e-24;
+    pub const ZEPTO: f64 = 1.0e-21;
+    pub const ATTO: f64 = 1.0e-18;
+    pub const FEMTO: f64 = 1.0e-15;
+    pub const PICO: f64 = 1.0e-12;
+    pub const NANO: f64 = 1.0e-9;
+    pub const MICRO: f64 = 1.0e-6;
+    pub const MILLI: f64 = 1.0e-3;
+    pub const CENTI: f64 = 1.0e-2;
+    pub const DECI: f64 = 1.0e-1;
+    pub const DECA: f64 = 1.0e1;
+    pub const HECTO: f64 = 1.0e2;
+    pub const KILO: f64 = 1.0e3;
+    pub const MEGA: f64 = 1.0e6;
+    pub const GIGA: f64 = 1.0e9;
+    pub const TERA: f64 = 1.0e12;
+    pub const PETA: f64 = 1.0e15;
+    pub const EXA: f64 = 1.0e18;
+    pub const ZETTA: f64 = 1.0e21;
+    pub const YOTTA: f64 = 1.0e24;
+}
+
 macro_rules! si_prefixed_unit {
     ($PrefixUnit:ident, $BaseUnit:ident, $factor:expr,
      $to_prefixed:ident, $to_base:ident) =>
@@ -35,7 +59,9 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$BaseUnit, T> {
             #[inline]
             pub fn $to_prefixed(self) -> $crate::Quantity<$PrefixUnit, T> {
-                let k = T::from_f32($factor);
+                #[allow(unused_imports)]
+                use $crate::si::si_prefix::exact::*;
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() / k)
             }
         }
@@ -44,7 +70,9 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$PrefixUnit, T> {
             #[inline]
             pub fn $to_base(self) -> $crate::Quantity<$BaseUnit, T> {
-                let k = T::from_f32($factor);
+                #[allow(unused_imports)]
+                use $crate::si::si_prefix::exact::*;
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() * k)
             }
         }
@@ -129,24 +157,24 @@ si_prefixed_family! {
     base = Kilogram;
     to_base = to_kilogram;
 
-    (Yoctogram,  YOCTO * 1.0e-3_f32, to_yoctogram),
-    (Zeptogram,  ZEPTO * 1.0e-3_f32, to_zeptogram),
-    (Attogram,   ATTO  * 1.0e-3_f32, to_attogram),
-    (Femtogram,  FEMTO * 1.0e-3_f32, to_femtogram),
-    (Picogram,   PICO  * 1.0e-3_f32, to_picogram),
-    (Nanogram,   NANO  * 1.0e-3_f32, to_nanogram),
-    (Microgram,  MICRO * 1.0e-3_f32, to_microgram),
-    (Milligram,  MILLI * 1.0e-3_f32, to_milligram),
-    (Centigram,  CENTI * 1.0e-3_f32, to_centigram),
-    (Decigram,   DECI  * 1.0e-3_f32, to_decigram),
+    (Yoctogram,  YOCTO * 1.0e-3, to_yoctogram),
+    (Zeptogram,  ZEPTO * 1.0e-3, to_zeptogram),
+    (Attogram,   ATTO  * 1.0e-3, to_attogram),
+    (Femtogram,  FEMTO * 1.0e-3, to_femtogram),
+    (Picogram,   PICO  * 1.0e-3, to_picogram),
+    (Nanogram,   NANO  * 1.0e-3, to_nanogram),
+    (Microgram,  MICRO * 1.0e-3, to_microgram),
+    (Milligram,  MILLI * 1.0e-3, to_milligram),
+    (Centigram,  CENTI * 1.0e-3, to_centigram),
+    (Decigram,   DECI  * 1.0e-3, to_decigram),
 
-    (Decagram,   DECA  * 1.0e-3_f32, to_decagram),
-    (Hectogram,  HECTO * 1.0e-3_f32, to_hectogram),
-    (Megagram,   MEGA  * 1.0e-3_f32, to_megagram),
-    (Gigagram,   GIGA  * 1.0e-3_f32, to_gigagram),
-    (Teragram,   TERA  * 1.0e-3_f32, to_teragram),
-    (Petagram,   PETA  * 1.0e-3_f32, to_petagram),
-    (Exagram,    EXA   * 1.0e-3_f32, to_exagram),
-    (Zettagram,  ZETTA * 1.0e-3_f32, to_zettagram),
-    (Yottagram,  YOTTA * 1.0e-3_f32, to_yottagram),
+    (Decagram,   DECA  * 1.0e-3, to_decagram),
+    (Hectogram,  HECTO * 1.0e-3, to_hectogram),
+    (Megagram,   MEGA  * 1.0e-3, to_megagram),
+    (Gigagram,   GIGA  * 1.0e-3, to_gigagram),
+    (Teragram,   TERA  * 1.0e-3, to_teragram),
+    (Petagram,   PETA  * 1.0e-3, to_petagram),
+    (Exagram,    EXA   * 1.0e-3, to_exagram),
+    (Zettagram,  ZETTA * 1.0e-3, to_zettagram),
+    (Yottagram,  YOTTA * 1.0e-3, to_yottagram),
 }
-- 
2.43.0


From 22617b2a1976ebe98881d3cac018e1db513307dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:07:29 +0000
Subject: [PATCH 15/38] fix: WGS-84 normal gravity squares the sines and
 cosines and takes the roots its formulas state

---
 .../src/terrestrial/wgs84/gravity/mod.rs              | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index b166853..bdb0a2a 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -11,7 +11,8 @@ use crate::{
 use core::marker::PhantomData;
 
 pub fn gravity_normal(latitude: f64) -> f64 {
-    return g_e * (1.0 + k * latitude.sin().sin()) / (1.0 - e2 * latitude.sin().sin());
+    return g_e * (1.0 + k * latitude.sin().powf(2.0))
+        / (1.0 - e2 * latitude.sin().powf(2.0)).sqrt();
 }
 
 fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {
@@ -31,7 +32,7 @@ fn ellipsoidal_height(x: f64, y: f64, z: f64) -> f64 {
 
 fn ellipsoidal_w(u: f64, beta: f64) -> f64 {
     let ellip_w =
-        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().sin())) / (u.powf(2.0) + E.powf(2.0))).sqrt();
+        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().powf(2.0))) / (u.powf(2.0) + E.powf(2.0))).sqrt();
     return ellip_w;
 }
 
@@ -53,9 +54,9 @@ pub fn gravity_ellipsoidal(x: f64, y: f64, z: f64) -> Vector<f64, 3> {
         * ((GM / (u.powf(2.0) + E.powf(2.0)))
             + (w.powf(2.0) * a.powf(2.0) * E) / (u.powf(2.0) + E.powf(2.0))
                 * (qprime / q_0)
-                * (0.5 * beta.sin().sin() - 1.0 / 6.0))
-        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().cos();
-    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0))) * q / q_0
+                * (0.5 * beta.sin().powf(2.0) - 1.0 / 6.0))
+        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().powf(2.0);
+    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0)).sqrt()) * q / q_0
         * beta.sin()
         * beta.cos()
         - 1.0 / ellip_w
-- 
2.43.0


From 9e54c25bfa746e80fcc60cfd4e19562454154311 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:07:34 +0000
Subject: [PATCH 16/38] fix: closed-form geodetic inversion takes the square
 root inside its cube root

---
 crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ecf8c2c 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -70,7 +70,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
-- 
2.43.0


From d397d89d6dab392054ff5b04be5fe7791daa7cd8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 17/38] fix: lunar inertial/rotating frame transforms count
 time from the moon's epoch

---
 crates/aether_models/src/lunar/moon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/lunar/moon.rs b/crates/aether_models/src/lunar/moon.rs
index 11e9d21..b83d2c8 100644
--- a/crates/aether_models/src/lunar/moon.rs
+++ b/crates/aether_models/src/lunar/moon.rs
@@ -95,11 +95,11 @@ impl Moon {
     }
 
     pub fn lirf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, LIRF, LTRF> {
-        transforms::lirf_to_ltrf(time)
+        transforms::lirf_to_ltrf(time - self.epoch_time)
     }
 
     pub fn ltrf_to_lirf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, LIRF> {
-        transforms::ltrf_to_lirf(time)
+        transforms::ltrf_to_lirf(time - self.epoch_time)
     }
 
     pub fn icrf_to_lirf(&self) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> {
-- 
2.43.0


From 36e2c80b998a64cd6f27646bacdc12eada1e38bc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 18/38] fix: the US standard atmosphere refuses altitudes above
 its range instead of panicking

---
 .../src/terrestrial/atmospheres/ussa.rs       | 16 ++++++++++------
 crates/aether_models/src/terrestrial/earth.rs | 19 +++++--------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index b4cdb2c..4cf7e3d 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -47,7 +47,7 @@ impl USSA {
 
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
         let mut i = 0;
-        for _value in Self::base_geometric_heights {
+        while i + 1 < Self::base_geometric_heights.len() {
             if geometric_height < Self::base_geometric_heights[i + 1] {
                 return Ok(i);
             } else {
@@ -84,7 +84,7 @@ impl USSA {
     pub fn temperature(&self, geometric_height: f64) -> Result<f64, Constraint> {
         let base_index = self
             .get_base_index(geometric_height)
-            .expect("Could not determine base index.");
+            .map_err(|_| Constraint::NoGradient)?;
         let gradient_index_result = self.get_gradient_index(base_index);
         match gradient_index_result {
             Ok(gradient_index) => {
@@ -134,7 +134,9 @@ impl USSA {
             Ok(gradient_index) => {
                 let base_temperature = Self::base_geometric_temperatures[base_index];
                 let base_pressure = Self::base_geometric_pressures[base_index];
-                let temperature = self.temperature(geometric_height).unwrap();
+                let temperature = self
+            .temperature(geometric_height)
+            .map_err(|_| "Could not determine temperature.")?;
                 let lapse_rate = Self::base_lapse_rates[gradient_index];
 
                 if lapse_rate != 0.0 {
@@ -158,7 +160,9 @@ impl USSA {
     }
 
     pub fn density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        let temperature = self.temperature(geometric_height).unwrap();
+        let temperature = self
+            .temperature(geometric_height)
+            .map_err(|_| "Could not determine temperature.")?;
         let pressure = self.pressure(geometric_height)?;
         let density = (pressure * Self::air_molar_mass) / (Self::R_Star * temperature);
         return Ok(density);
@@ -167,14 +171,14 @@ impl USSA {
     pub fn speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         let viscosity = Self::dynamic_viscosity_nist_A * (temperature).powf(1.5)
             / (temperature + Self::dynamic_viscosity_nist_B)
             * 0.1; // 0.1 is to convert to Pascal*second
diff --git a/crates/aether_models/src/terrestrial/earth.rs b/crates/aether_models/src/terrestrial/earth.rs
index f1026c8..f3b2584 100644
--- a/crates/aether_models/src/terrestrial/earth.rs
+++ b/crates/aether_models/src/terrestrial/earth.rs
@@ -120,28 +120,19 @@ impl Earth {
     }
 
     pub fn get_temperature(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .temperature(geometric_height)
-            .expect("Could not get temperature."));
+            .map_err(|_| "Could not get temperature.");
     }
     pub fn get_pressure(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .pressure(geometric_height)
-            .expect("Could not get pressure."));
+        return self.atmosphere.pressure(geometric_height);
     }
     pub fn get_density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .density(geometric_height)
-            .expect("Could not get density."));
+        return self.atmosphere.density(geometric_height);
     }
     pub fn get_speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .speed_of_sound(geometric_height)
-            .expect("Could not get speed of sound."));
+        return self.atmosphere.speed_of_sound(geometric_height);
     }
 }
 
-- 
2.43.0


From 2b4a8eca49facd594dada83f192c4bf79a83fb5e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 19/38] fix: US standard atmosphere temperature follows the
 published profile above 91 km

---
 .../src/terrestrial/atmospheres/ussa.rs            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 4cf7e3d..eacba70 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -36,7 +36,7 @@ impl USSA {
         9.708e-8, 2.222e-8, 5.215e-13, 3.561e-15,
     ];
     const base_lapse_rates: [f64; 12] = [
-        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0, 12.0, 0.0,
+        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0e-3, 12.0e-3, 0.0,
     ];
     const dynamic_viscosity_nist_B: f64 = 110.4; // Sutherland constant in the USSA model - documented wrong in the atmosphere document (NASA wrong, never) but in here it is 110.4 -> (https://doi.org/10.6028/NBS.CIRC.564)
     const dynamic_viscosity_nist_A: f64 = 145.8 * 1e-7; // is a constant in the expression for dynamic viscosity in the USSA model -> (https://doi.org/10.6028/NBS.CIRC.564)
@@ -103,17 +103,21 @@ impl USSA {
                         + A * ((1.0
                             - ((geometric_height - Self::base_geometric_heights[base_index]) / a)
                                 .powf(2.0))
-                        .exp());
+                        .sqrt());
                     return Ok(temperature);
+                } else if geometric_height < 120000.0 {
+                    return Ok(Self::base_geometric_temperatures[base_index]
+                        + Self::base_lapse_rates[gradient_index]
+                            * (geometric_height - Self::base_geometric_heights[base_index]));
                 } else if geometric_height < 1000000.0 {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
-                    let eta = (geometric_height - Self::base_geometric_heights[9])
-                        * (Self::r_0 + Self::base_geometric_heights[9])
+                    let eta = (geometric_height - Self::base_geometric_heights[10])
+                        * (Self::r_0 + Self::base_geometric_heights[10])
                         / (Self::r_0 + geometric_height)
                         * 1e-3;
                     let expo = (-lambda * eta).exp();
-                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
+                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[10]) * expo;
                     return Ok(temperature);
                 } else {
                     return Ok(0.0);
-- 
2.43.0


From 2b38cd19bf7320dc640c82d290110991fd27bee2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/38] fix: US standard atmosphere surface gravity and
 high-altitude base pressures are the published ones

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index eacba70..147e30e 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -17,7 +17,7 @@ impl USSA {
     pub const R_Star: f64 = 8.31432e3; // J/(mol*K)
     pub const air_molar_mass: f64 = 28.9644; // kg/mol
     pub const R_Air: f64 = USSA::R_Star / USSA::air_molar_mass; // J/(kg*K)
-    pub const g_0: f64 = 9.80655; // m/s^2
+    pub const g_0: f64 = 9.80665; // m/s^2
     pub const gamma: f64 = 1.4; // dimensionless
     const base_geometric_heights: [f64; 13] = [
         0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0,
@@ -29,7 +29,7 @@ impl USSA {
     ];
     const base_geometric_pressures: [f64; 13] = [
         101.325e3, 226.32e2, 547.48e1, 868.01, 110.90, 669.38e-1, 395.64e-2, 373.38e-3, 153.81e-3,
-        710.42e-5, 253.82e-5, 302.36e-6, 751.38e-8,
+        710.42e-5, 253.82e-5, 302.36e-9, 751.38e-11,
     ];
     const base_geometric_densities: [f64; 13] = [
         1.225, 0.35822, 8.8035e-2, 1.3225e-2, 1.4275e-3, 8.6160e-4, 6.4211e-5, 6.958e-6, 2.860e-6,
-- 
2.43.0


From f7e335d0ae7d00415ac42859e377184e3d5464f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 21/38] fix: speed of sound is the square root of gamma R T

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 147e30e..f5612cc 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -176,7 +176,7 @@ impl USSA {
         let temperature = self
             .temperature(geometric_height)
             .map_err(|_| "Could not determine temperature.")?;
-        return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
+        return Ok((1.4 * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
-- 
2.43.0


From 6e5296df8c69aed8f36443a2af6c8d739662ccdb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:08:57 +0000
Subject: [PATCH 22/38] fix: US standard atmosphere layers use geopotential
 height, keeping temperature continuous

---
 .../src/terrestrial/atmospheres/ussa.rs            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index f5612cc..5697af3 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -57,6 +57,16 @@ impl USSA {
         return Err("yikes...");
     }
 
+    // Lapse rates and the hydrostatic equation below 86 km are stated per geopotential meter
+    fn geopotential_height(geometric_height: f64) -> f64 {
+        Self::r_0 * geometric_height / (Self::r_0 + geometric_height)
+    }
+
+    fn height_above_base(geometric_height: f64, base_index: usize) -> f64 {
+        Self::geopotential_height(geometric_height)
+            - Self::geopotential_height(Self::base_geometric_heights[base_index])
+    }
+
     fn get_gradient_index(&self, base_index: usize) -> Result<usize, Constraint> {
         if base_index == Self::base_geometric_heights.len() {
             return Err(Constraint::NoGradient);
@@ -91,7 +101,7 @@ impl USSA {
                 if geometric_height < 86000.0 {
                     return Ok(Self::base_geometric_temperatures[base_index]
                         + Self::base_lapse_rates[gradient_index]
-                            * (geometric_height - Self::base_geometric_heights[base_index]));
+                            * Self::height_above_base(geometric_height, base_index));
                 } else if geometric_height < 91000.0 {
                     let temperature = Self::base_geometric_temperatures[base_index];
                     return Ok(temperature);
@@ -153,7 +163,7 @@ impl USSA {
                     let pressure = base_pressure
                         * ((-Self::g_0
                             * Self::air_molar_mass
-                            * (geometric_height - Self::base_geometric_heights[base_index]))
+                            * Self::height_above_base(geometric_height, base_index))
                             / (Self::R_Star * temperature))
                             .exp();
                     return Ok(pressure);
-- 
2.43.0


From bd7ff7fe875598ca6ee44b136305d4b44c57e636 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:39 +0000
Subject: [PATCH 23/38] fix: interpolators refuse NaN sample positions instead
 of accepting them

---
 crates/aether_interp/src/polynomial.rs | 2 +-
 crates/aether_interp/src/spline.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_interp/src/polynomial.rs b/crates/aether_interp/src/polynomial.rs
index 721273b..c17baa4 100644
--- a/crates/aether_interp/src/polynomial.rs
+++ b/crates/aether_interp/src/polynomial.rs
@@ -22,7 +22,7 @@ impl<const N: usize> PolynomialInterpolator<N> {
                     continue;
                 }
                 let diff = xs[j] - xs[k];
-                if diff.abs() <= f64::EPSILON {
+                if !(diff.abs() > f64::EPSILON) {
                     return Err("x samples must be unique");
                 }
                 weights[j] /= diff;
diff --git a/crates/aether_interp/src/spline.rs b/crates/aether_interp/src/spline.rs
index c9242ce..22623c7 100644
--- a/crates/aether_interp/src/spline.rs
+++ b/crates/aether_interp/src/spline.rs
@@ -15,7 +15,7 @@ impl<const N: usize> CubicSpline<N> {
             return Err("at least two samples are required");
         }
         for i in 0..N - 1 {
-            if xs[i + 1] <= xs[i] {
+            if !(xs[i + 1] > xs[i]) {
                 return Err("x samples must be strictly increasing");
             }
         }
-- 
2.43.0


From 0d8e3a975302f1df0464628793287daa66f0812d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:43 +0000
Subject: [PATCH 24/38] fix: momentum follows the documented recursion, not
 scaled by the learning rate

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 49d2ef9..cb06413 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -238,7 +238,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
             } else {
                 // Fixed step
                 for i in 0..N {
-                    x[i] = x[i] + step * d[i];
+                    x[i] = x[i] - step * grad[i] + self.momentum * v[i];
                 }
                 x = self.project(x);
                 fx = f(&x);
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 245fab8..9010a9f 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -226,7 +226,7 @@ impl<const N: usize> GDStochastic<N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                x_next[i] = x[i] + alpha * (-g[i] + self.momentum * v[i]);
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
             for i in 0..N {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..bb4a23f 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -307,8 +307,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                let d_i = -g[i] + self.momentum * v[i];
-                x_next[i] = x[i] + alpha * d_i;
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
 
-- 
2.43.0


From 6a1a615105116c9ef3d18ea9efe541239f1d2823 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 25/38] fix: stochastic descent no longer stops at once when
 the objective is not positive

---
 crates/aether_opt/src/gradient_descent/stochastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 9010a9f..65dcdfd 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -217,7 +217,7 @@ impl<const N: usize> GDStochastic<N> {
             };
 
             if k >= self.min_iters {
-                if ema_hat <= self.tol_grad_ema || fx <= self.tol_f {
+                if ema_hat <= self.tol_grad_ema || (self.tol_f > 0.0 && fx <= self.tol_f) {
                     return (x, fx, k, true);
                 }
             }
-- 
2.43.0


From 3c8a9c8a027627b4cb9f04de3f2ec9d8932df2ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 26/38] fix: optimisers project the start into the bounds

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 1 +
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 1 +
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index cb06413..6dfb763 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -175,6 +175,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
         // Momentum state (v = x_k - x_{k-1}); initial 0
         let mut v = Vector::new([F::ZERO; N]);
 
+        x = self.project(x);
         let mut fx = f(&x);
         let mut converged = false;
 
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 65dcdfd..8c88391 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -187,6 +187,7 @@ impl<const N: usize> GDStochastic<N> {
     {
         let mut v = Vector::new([0.0; N]);
         let mut ema_g = 0.0;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index bb4a23f..6a5507e 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -230,6 +230,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
 
         let mut v = Vector::new([F::ZERO; N]); // momentum buffer (Δx)
         let mut ema_g = F::ZERO;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
-- 
2.43.0


From 54c3d3f8c262642fd23da081de8b0300433170fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 27/38] fix: the line search measures the decrease along the
 projected step

---
 crates/aether_opt/src/gradient_descent/basic.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 6dfb763..a20acb0 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -220,7 +220,18 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
                     }
                     trial = self.project(trial);
                     let f_trial = f(&trial);
-                    let rhs = fx_old + self.armijo_c1 * step * gd;
+                    // Measure the decrease along the step actually taken: the projection
+                    // may cut off the components that point out of the box.
+                    let slope = if self.has_bounds {
+                        let mut s = F::ZERO;
+                        for i in 0..N {
+                            s = s + grad[i] * (trial[i] - x_old[i]);
+                        }
+                        if s < F::ZERO { s } else { F::ZERO }
+                    } else {
+                        step * gd
+                    };
+                    let rhs = fx_old + self.armijo_c1 * slope;
 
                     if f_trial <= rhs {
                         x = trial;
-- 
2.43.0


From c963fedbd8ee5e8d919bb8f504529765c081da30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:46:02 +0000
Subject: [PATCH 28/38] fix: a failed line search stays at the current point
 instead of moving uphill

---
 crates/aether_opt/src/gradient_descent/basic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index a20acb0..551ee2d 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -241,9 +241,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
 
                     step = step * self.backtrack_tau;
                     if step <= F::from_f64(1e-20_f64) {
-                        // give up this iteration; behave like tiny step
-                        x = trial;
-                        fx = f_trial;
+                        // no acceptable step: stay at the current point
                         break;
                     }
                 }
-- 
2.43.0


From a911f612dcc7c8deedc9bb7e1f2dcac3549644e3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:46:06 +0000
Subject: [PATCH 29/38] fix: single-precision unit draws never reach one

---
 crates/aether_rand/src/randomizers/xor_shift.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..f97d2af 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,13 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let value = T::from_f64(unit);
+        if value < T::ONE {
+            value
+        } else {
+            // rounded up by a narrow type: keep the interval half open
+            T::ONE - T::EPSILON / (T::ONE + T::ONE)
+        }
     }
 
     #[inline]
-- 
2.43.0


From e4fb68850bab932389ceb52c1b5e51dec8faafe0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 30/38] fix: logistic regression fits the cross-entropy its
 gradient belongs to

---
 crates/aether_ml/src/regression/logistic.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..ecfc6ea 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,8 +94,6 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
-
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
             for (x, &yi) in x_data.iter().zip(y.iter()) {
@@ -103,10 +101,11 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
                 for i in 0..N {
                     s = s + pv[i] * x[i];
                 }
-                let p = F::ONE / (F::ONE + (-s).exp());
-                let yv: F = if yi == 0 { F::ZERO } else { F::ONE };
-                // binary cross-entropy: -(y ln p + (1-y) ln (1-p))
-                loss = loss - (yv * (p + tiny).ln() + (F::ONE - yv) * (F::ONE - p + tiny).ln());
+                // binary cross-entropy -(y ln p + (1-y) ln (1-p)) in overflow-free form:
+                // ln(1 + e^z) with z = -s for y = 1 and z = s for y = 0
+                let z = if yi == 0 { s } else { -s };
+                let soft = (F::ONE + (-z.abs()).exp()).ln();
+                loss = loss + if z > F::ZERO { z + soft } else { soft };
             }
             loss / m
         };
-- 
2.43.0


From 162135710e492243078003a35a31160415814876 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:30:55 +0000
Subject: [PATCH 31/38] fix: CSV tailing survives characters split across
 writes and bytes that are not UTF-8

---
 crates/aether_viz/src/realtime.rs | 43 +++++++++++++------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7d8fed..375da7c 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -80,7 +80,7 @@ pub struct CsvRealtimePlotter {
     y_indices: Vec<usize>,
     x_values: Vec<f64>,
     y_values: Vec<Vec<f64>>,
-    partial_line: String,
+    partial_line: Vec<u8>,
     file_pos: u64,
     last_identity: Option<FileIdentity>,
 }
@@ -95,7 +95,7 @@ impl CsvRealtimePlotter {
             y_indices: Vec::new(),
             x_values: Vec::new(),
             y_values: vec![Vec::new(); y_count],
-            partial_line: String::new(),
+            partial_line: Vec::new(),
             file_pos: 0,
             last_identity: None,
         }
@@ -209,45 +209,38 @@ impl CsvRealtimePlotter {
         }
 
         let mut file = File::open(&self.cfg.csv_path)?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = text.as_bytes().len() as u64;
+        let mut bytes = Vec::new();
+        file.read_to_end(&mut bytes)?;
+        self.file_pos = bytes.len() as u64;
         self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
 
-        let _ = self.parse_text_chunk(&text)?;
+        let _ = self.parse_chunk(&bytes)?;
         Ok(())
     }
 
     fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
         let mut file = File::open(&self.cfg.csv_path)?;
         file.seek(SeekFrom::Start(start))?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
+        let mut bytes = Vec::new();
+        file.read_to_end(&mut bytes)?;
         self.file_pos = file.stream_position()?;
-        if text.is_empty() {
+        if bytes.is_empty() {
             return Ok(false);
         }
-        self.parse_text_chunk(&text)
+        self.parse_chunk(&bytes)
     }
 
-    fn parse_text_chunk(&mut self, text: &str) -> Result<bool, Box<dyn std::error::Error>> {
+    fn parse_chunk(&mut self, chunk: &[u8]) -> Result<bool, Box<dyn std::error::Error>> {
         let mut changed = false;
-        let mut buf = String::new();
-        if !self.partial_line.is_empty() {
-            buf.push_str(&self.partial_line);
-            self.partial_line.clear();
-        }
-        buf.push_str(text);
+        let mut buf = std::mem::take(&mut self.partial_line);
+        buf.extend_from_slice(chunk);
 
-        let has_trailing_newline = buf.ends_with('\n');
-        let mut lines: Vec<&str> = buf.lines().collect();
-        if !has_trailing_newline {
-            if let Some(last) = lines.pop() {
-                self.partial_line.push_str(last);
-            }
-        }
+        // Decode complete lines only: a write may end inside a multi-byte character.
+        let complete = buf.iter().rposition(|&b| b == b'\n').map_or(0, |i| i + 1);
+        self.partial_line = buf.split_off(complete);
+        let text = String::from_utf8_lossy(&buf);
 
-        for raw in lines {
+        for raw in text.lines() {
             let line = raw.trim();
             if line.is_empty() {
                 continue;
-- 
2.43.0


From e92067a94ae4ac285c7b9240e7708ec9970ea409 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 32/38] fix: initializing a CSV plotter again does not
 duplicate its rows

---
 crates/aether_viz/src/realtime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 375da7c..c766781 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -102,6 +102,7 @@ impl CsvRealtimePlotter {
     }
 
     pub fn initialize(&mut self) -> Result<(), Box<dyn std::error::Error>> {
+        self.reset_series();
         self.reload_from_start()
     }
 
-- 
2.43.0


From 096821f7f1b81776c6ae91b069aba2e66ee57535 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 33/38] fix: orbit camera yaws about the world vertical and
 pitches after it

---
 .../aether_graphics/src/cameras/orbit_camera.rs  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..e157276 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -14,6 +14,11 @@ impl<T: Real> ReferenceFrame for OpenGL<T> {}
 
 type CamQuat<T> = Quaternion<T, OpenGL<T>, Camera<T>>;
 
+/// Turns `v` about the quaternion's axis (`rotate_vec` is the passive frame transform).
+fn rotate<T: Real>(q: &CamQuat<T>, v: &Vector<T, 3>) -> Vector<T, 3> {
+    q.conjugate().rotate_vec(v)
+}
+
 #[derive(Debug, Clone)]
 pub struct OrbitCamera<T: Real = f64> {
     pub target: Vector<T, 3>, // look-at point
@@ -59,7 +64,7 @@ impl<T: Real> OrbitCamera<T> {
 
         // Compute the post-yaw forward and right axis.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
+        let fwd = rotate(&q_yaw, &base_forward).normalize();
         let mut right = world_up.cross(&fwd);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
@@ -67,7 +72,8 @@ impl<T: Real> OrbitCamera<T> {
         }
         right = right.normalize();
 
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, pitch);
+        // `right` is up × forward, so positive pitch (nose up) turns the other way about it.
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -pitch);
         self.orientation = q_pitch.mul_hamilton_same(&q_yaw).normalized();
     }
 
@@ -90,14 +96,14 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
+        let fwd_tmp = rotate(&tmp, &base_forward).normalize();
         let mut right = world_up.cross(&fwd_tmp);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
             right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
         }
         right = right.normalize();
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -dpitch);
 
         self.orientation = q_pitch.mul_hamilton_same(&tmp).normalized();
 
@@ -142,7 +148,7 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        rotate(&self.orientation, &base_forward).normalize()
     }
 
     #[inline]
-- 
2.43.0


From 85fed0de8f7ee402266267859cd3e8b5e144e500 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 34/38] fix: magnetic model stays accurate and finite next to
 the poles

---
 crates/aether_catalogs/src/wmm/mod.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/aether_catalogs/src/wmm/mod.rs b/crates/aether_catalogs/src/wmm/mod.rs
index 6eab05a..bd34366 100644
--- a/crates/aether_catalogs/src/wmm/mod.rs
+++ b/crates/aether_catalogs/src/wmm/mod.rs
@@ -371,7 +371,7 @@ fn geodetic_to_geocentric(point: GeodeticPoint) -> GeocentricPoint {
 	let p = (prime_vertical_radius + point.height_m) * cos_lat;
 	let z = (prime_vertical_radius * (1.0 - eccentricity_sq) + point.height_m) * sin_lat;
 	let radius_m = (p * p + z * z).sqrt();
-	let latitude_rad = (z / radius_m).asin();
+	let latitude_rad = z.atan2(p);
 
 	GeocentricPoint {
 		radius_m,
@@ -414,21 +414,15 @@ fn schmidt_semi_normalized_legendre(
 			let schmidt = schmidt_factor(degree, order);
 			p_bar[degree][order] = schmidt * p[degree][order];
 
-			let previous = if degree > 0 && order < degree {
-				p[degree - 1][order]
-			} else {
-				0.0
-			};
-
-			let derivative_wrt_x = if cos_lat.abs() <= DEFAULT_POLE_EPSILON {
+			// dP/dphi = P[n][m + 1] - m tan(phi) P[n][m]: no cancellation near the poles
+			let next = if order < degree { p[degree][order + 1] } else { 0.0 };
+			let tangent_term = if order == 0 || cos_lat.abs() <= DEFAULT_POLE_EPSILON {
 				0.0
 			} else {
-				((degree as f64) * sin_lat * p[degree][order]
-					- ((degree + order) as f64) * previous)
-					/ (sin_lat * sin_lat - 1.0)
+				(order as f64) * sin_lat * p[degree][order] / cos_lat
 			};
 
-			dp_bar_dphi[degree][order] = schmidt * cos_lat * derivative_wrt_x;
+			dp_bar_dphi[degree][order] = schmidt * (next - tangent_term);
 		}
 	}
 
-- 
2.43.0


From 05fbd8bb1c7a195b46356698894aa9390ed7c3f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 35/38] fix: star propagation divides the right-ascension rate
 by cos(dec)

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..5ae4e7a 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -195,7 +195,9 @@ impl IcrsPropagator for GncRecord {
     fn icrs_sample(&self, epoch: f64) -> GncCatalogMotionSample {
         let dt = epoch - 2016.0;
 
-        let ra_deg = self.ra_2016 + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
+        // pmra is mu_alpha* (it includes cos(dec)), so the angle itself moves faster
+        let ra_deg = self.ra_2016
+            + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0) / self.de_2016.to_radians().cos();
         let dec_deg = self.de_2016 + (self.pmde.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
 
         let ra_rad = ra_deg.to_radians();
-- 
2.43.0


From a69cd92f9c5d4692ea6ec3e9c502a5ac46ee6bea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 36/38] fix: star velocities are in au per year as named, not
 km/s

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 5ae4e7a..a9cd5b5 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -225,7 +225,7 @@ impl IcrsPropagator for GncRecord {
         let velocity = match (self.plx, self.pmra, self.pmde) {
             (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {
                 let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas;
+                let scale = 1.0 / plx_mas; // au/yr per mas/yr
                 let mu_ra = pmra as f64;
                 let mu_de = pmde as f64;
 
-- 
2.43.0


From 8622f73d44330ef2b585d1e7edc59f6fc6c07e05 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 37/38] fix: drawing values that span nearly the whole float
 range is refused instead of never ending

---
 crates/aether_viz/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/aether_viz/src/lib.rs b/crates/aether_viz/src/lib.rs
index a33e316..b11d0fd 100644
--- a/crates/aether_viz/src/lib.rs
+++ b/crates/aether_viz/src/lib.rs
@@ -214,6 +214,11 @@ pub fn plot_series(
     if x_min == x_max { x_max = x_min + 1.0; }
     if y_min == y_max { y_max = y_min + 1.0; }
 
+    // An infinite span would keep the axis ticks searching forever.
+    if !((x_max - x_min) * 1.1).is_finite() || !((y_max - y_min) * 1.1).is_finite() {
+        return Err("plot_series: values span more than can be drawn".into());
+    }
+
     let x_pad = (x_max - x_min).abs() * 0.03;
     let y_pad = (y_max - y_min).abs() * 0.03;
     let x_range = (x_min - x_pad)..(x_max + x_pad);
-- 
2.43.0


From 944ad5b8f482d23f6e4b098c954e25b504e605f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 38/38] fix: singularity tolerances shrink with the entries, so
 small well-conditioned matrices are not refused

---
 crates/aether_core/src/math/matrix.rs         | 21 ++++++++++++++++---
 .../src/numerical_methods/solvers/lu.rs       |  3 ++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index 9abd13a..b379158 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -642,6 +642,20 @@ impl<T: Real + AddAssign, const N: usize> Matrix<T, N, N> {
 /* -------------------- Determinant (generic N×N) -------------------- */
 
 impl<T: Real, const N: usize> Matrix<T, N, N> {
+    /// Largest entry by magnitude, at most one: a matrix of small entries is not singular for
+    /// that, so the tolerances that tell singular matrices shrink with them.
+    pub(crate) fn singularity_scale(&self) -> T {
+        let mut largest = T::ZERO;
+        for row in &self.data {
+            for value in row {
+                if value.abs() > largest {
+                    largest = value.abs();
+                }
+            }
+        }
+        if largest < T::ONE { largest } else { T::ONE }
+    }
+
     /// Compute the determinant using an LU-style elimination with partial pivoting.
     /// Returns zero if the matrix is (near-)singular up to a small tolerance.
     pub fn determinant(&self) -> T {
@@ -649,7 +663,7 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
         let mut det = T::ONE;
 
         // crude tolerance;
-        let eps = T::from_f64(1e-12);
+        let eps = T::from_f64(1e-12) * self.singularity_scale();
 
         for k in 0..N {
             // pivot selection
@@ -700,7 +714,8 @@ impl<T: Real> Matrix<T, 3, 3> {
         let m = &self.data;
 
         let det = self.determinant();
-        let eps = T::from_f64(1e-12);
+        let scale = self.singularity_scale();
+        let eps = T::from_f64(1e-12) * scale * scale * scale;
         if det.abs() <= eps {
             return None;
         }
@@ -993,7 +1008,7 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
         let mut a = *self;
         let mut i = Matrix::<T, N, N>::identity();
 
-        let eps = T::from_f64(1e-12);
+        let eps = T::from_f64(1e-12) * self.singularity_scale();
 
         for k in 0..N {
             // pivot row
diff --git a/crates/aether_core/src/numerical_methods/solvers/lu.rs b/crates/aether_core/src/numerical_methods/solvers/lu.rs
index b8c76e2..603a83b 100644
--- a/crates/aether_core/src/numerical_methods/solvers/lu.rs
+++ b/crates/aether_core/src/numerical_methods/solvers/lu.rs
@@ -16,6 +16,7 @@ impl<T: Real + Copy, const N: usize> Matrix<T, N, N> {
         let mut piv = [0usize; N];
         for i in 0..N { piv[i] = i; }
         let mut sign: i8 = 1;
+        let eps = T::EPSILON * self.singularity_scale();
 
         for k in 0..N {
             // Find pivot row
@@ -25,7 +26,7 @@ impl<T: Real + Copy, const N: usize> Matrix<T, N, N> {
                 let v = lu[(r, k)].abs();
                 if v > pval { p = r; pval = v; }
             }
-            if pval <= T::EPSILON { return None; } // singular
+            if pval <= eps { return None; } // singular
 
             // Swap rows if needed
             if p != k {
-- 
2.43.0

