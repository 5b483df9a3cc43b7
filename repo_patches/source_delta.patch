From 080c81b96acaca83ba743396cdc7db744aebb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 01/22] fix: give no mass to more binomial successes than
 trials

---
 src/distribution/binomial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..74b45c3 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -100,6 +100,8 @@ impl distribution::Discrete for Binomial {
             (n * self.q.ln()).exp()
         } else if x == self.n {
             (n * self.p.ln()).exp()
+        } else if x > self.n {
+            0.0
         } else {
             let x = x as f64;
             let n_m_x = n - x;
-- 
2.43.0


From ab0bc8a3738be29e710c3e14cd619a0bfbf2b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 02/22] fix: compute the binomial distribution at zero for any
 number of trials

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 74b45c3..8d26c40 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -128,7 +128,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From 98ceaa06d984936879a0ac0c93067de2ab8d5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 03/22] fix: skip vanishing masses in the binomial entropy

---
 src/distribution/binomial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 8d26c40..a8477db 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -147,7 +147,10 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1)).fold(0.0, |sum, i| match self.mass(i) {
+                0.0 => sum,
+                mass => sum + mass * mass.ln(),
+            })
         }
     }
 }
-- 
2.43.0


From 97af63ad60d42117c03fa3699b1774b73769f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 04/22] fix: correct the coefficients of the normal
 approximation of the binomial inverse

---
 src/distribution/binomial.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a8477db..0babd13 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -329,16 +329,15 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     sd * w +
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
-    sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em1 * (w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 - w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
         w * (433.0 * p4 - 866.0 * p3 - 921.0 * p2 + 1354.0 * p - 671.0) / 38880.0
     ) +
     sd_em4 * (
-        w6 * (2.0 * p - 1.0) * (p2 - p + 1.0) * (p2 - p + 19.0) / 34020.0 +
+        -w6 * (2.0 * p - 1.0) * (p2 - p + 1.0) * (p2 - p + 19.0) / 34020.0 +
         w4 * (2.0 * p - 1.0) * (9.0 * p4 - 18.0 * p3 - 35.0 * p2 + 44.0 * p - 25.0) / 15120.0 +
         w2 * (2.0 * p - 1.0) * (
                 923.0 * p4 - 1846.0 * p3 + 5271.0 * p2 - 4348.0 * p + 5189.0
-- 
2.43.0


From a28200355c23d24226ed6d582befdb396c3325b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 05/22] fix: terminate the summation in the binomial inverse

---
 src/distribution/binomial.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 0babd13..8cdf454 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -177,12 +177,14 @@ impl distribution::Inverse for Binomial {
                 let mut k = 1;
                 let mut a = self.q.powi(self.n as i32);
                 let mut sum = a - p;
-                while sum < 0.0 {
+                while sum < 0.0 && a >= f64::MIN_POSITIVE {
                     a *= $prod_term(k);
                     sum += a;
                     k += 1;
                 }
-                k - 1
+                if sum >= 0.0 {
+                    return k - 1;
+                }
             });
         );
         macro_rules! sum_top_down(
@@ -190,12 +192,14 @@ impl distribution::Inverse for Binomial {
                 let mut k = 1;
                 let mut a = self.p.powi(self.n as i32);
                 let mut sum = (1.0 - p) - a;
-                while sum >= 0.0 {
+                while sum >= 0.0 && a >= f64::MIN_POSITIVE {
                     a *= $prod_term(k);
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                if sum < 0.0 {
+                    return self.n + 1 - k;
+                }
             });
         );
 
@@ -206,10 +210,21 @@ impl distribution::Inverse for Binomial {
         } else if self.n < 1000 {
             // Find if top-down or bottom-up summation is better.
             if p <= self.distribution((self.n / 2) as f64) {
-                sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
+                sum_bottom_up!(|k| self.p / self.q * ((self.n + 1 - k) as f64 / k as f64))
             } else {
-                sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
+                sum_top_down!(|k| self.q / self.p * ((self.n + 1 - k) as f64 / k as f64))
+            }
+            // Use bisection as the summation ran out of precision.
+            let (mut low, mut high) = (0, self.n);
+            while low < high {
+                let k = low + (high - low) / 2;
+                if self.distribution(k as f64) < p {
+                    low = k + 1;
+                } else {
+                    high = k;
+                }
             }
+            low
         } else if self.npq > 80.0 {
             // Use a normal approximation.
             inverse_normal(self.p, self.np, self.npq, p).floor() as usize
-- 
2.43.0


From bf7606f4cf5123498d037245769dd062a22256a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 06/22] =?UTF-8?q?fix:=20terminate=20Newton=E2=80=99s=20met?=
 =?UTF-8?q?hod=20in=20the=20binomial=20inverse?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/distribution/binomial.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 8cdf454..b48b200 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -229,18 +229,25 @@ impl distribution::Inverse for Binomial {
             // Use a normal approximation.
             inverse_normal(self.p, self.np, self.npq, p).floor() as usize
         } else {
-            // Use Newton’s method starting at the mode.
-            const ALPHA: f64 = 0.999;
-            let mut q = self.modes()[0] as f64;
-            let mut alpha = 1.0;
-            loop {
-                let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
+            // Use Newton’s method starting at the mode and keep the solution
+            // bracketed.
+            let (mut low, mut high) = (0, self.n);
+            let mut k = self.modes()[0].min(self.n - 1);
+            while low < high {
+                let delta = (p - self.distribution(k as f64)) / self.mass(k);
                 if delta.abs() < 0.5 {
-                    return q as usize;
+                    return k;
                 }
-                q += delta;
-                alpha *= ALPHA;
+                if delta > 0.0 {
+                    low = k + 1;
+                } else {
+                    high = k;
+                }
+                k = ((k as f64 + delta) as usize)
+                    .min(high.saturating_sub(1))
+                    .max(low);
             }
+            low
         }
     }
 }
-- 
2.43.0


From 2c48767b02b60bf4b7aa9658bb14ea1a47299308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 07/22] fix: drop incorrect shortcuts of the binomial median

---
 src/distribution/binomial.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index b48b200..1171175 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -268,19 +268,12 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
         use distribution::Inverse;
 
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
         } else {
             self.inverse(0.5) as f64
         }
-- 
2.43.0


From dd80744e68fe36a7d8221bdf80be84559dd2d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 08/22] fix: keep the binomial modes within the support

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 1171175..16c696b 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -285,7 +285,7 @@ impl distribution::Modes for Binomial {
         let r = self.p * (self.n + 1) as f64;
         if r == 0.0 {
             vec![0]
-        } else if self.p == 1.0 {
+        } else if r >= (self.n + 1) as f64 {
             vec![self.n]
         } else if (r - r.trunc()) != 0.0 {
             vec![r.floor() as usize]
-- 
2.43.0


From 4495b7b2778240636fd1407414c31d7233a042f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 09/22] fix: skip impossible outcomes in the categorical
 entropy

---
 src/distribution/categorical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From 5b58cb883836a52ed8f42150d155b47bab41ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 10/22] fix: never draw impossible trailing outcomes of the
 categorical distribution

---
 src/distribution/categorical.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..787ee6e 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -29,7 +29,10 @@ impl Categorical {
         for i in 1..(k - 1) {
             cumsum[i] += cumsum[i - 1];
         }
-        cumsum[k - 1] = 1.0;
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap_or(k - 1);
+        for sum in cumsum[last..].iter_mut() {
+            *sum = 1.0;
+        }
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From 42cf5c857057ea55084f97af8adf892cdc3502c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 11/22] fix: center the median of the symmetric beta
 distribution

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..895451f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            0.5 * (self.a + self.b)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From 7d57e2822f2cdaeb8abb20daa256c4e324143d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 12/22] fix: avoid overflow in the logistic density

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..004c64e 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,7 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        let exp = (-((x - self.mu) / self.s).abs()).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 9c199c2c49b9638ee61a9c6300de613b3fdbc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 13/22] fix: evaluate the beta density at the endpoints with
 unit shapes

---
 src/distribution/beta.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 895451f..c62a3c4 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,7 +65,11 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
+            let ln_power = |shape: f64, ln_x: f64| match shape {
+                1.0 => 0.0,
+                _ => (shape - 1.0) * ln_x,
+            };
+            (ln_power(self.alpha, x.ln()) + ln_power(self.beta, (-x).ln_1p()) - self.ln_beta).exp()
                 / scale
         }
     }
-- 
2.43.0


From 2dc63b088956e8e94a4a3529c9921015366bcb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 14/22] fix: avoid overflow in the gamma density

---
 src/distribution/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..fe4c910 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_norm: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_norm: k.ln_gamma().0 + k * theta.ln(),
         }
     }
 
@@ -44,10 +44,10 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x <= 0.0 || x.is_infinite() {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From f467cdf40402992be6c15a0f68c295a933fabcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 15/22] fix: draw from the beta distribution with small shapes
 without underflow

---
 src/distribution/beta.rs  | 10 ++++++++++
 src/distribution/gamma.rs |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index c62a3c4..56eb2aa 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -169,6 +169,16 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
+        if self.alpha < 1.0 && self.beta < 1.0 {
+            // Use logarithms as both terms can underflow.
+            loop {
+                let x = gamma::sample_ln(self.alpha, source);
+                let y = gamma::sample_ln(self.beta, source);
+                if x > f64::NEG_INFINITY || y > f64::NEG_INFINITY {
+                    return self.a + (self.b - self.a) / (1.0 + (y - x).exp());
+                }
+            }
+        }
         let x = gamma::sample(self.alpha, source);
         let y = gamma::sample(self.beta, source);
         self.a + (self.b - self.a) * x / (x + y)
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index fe4c910..b378cb1 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -127,6 +127,15 @@ impl distribution::Variance for Gamma {
     }
 }
 
+/// Draw the logarithm of a sample from the standard Gamma distribution, which
+/// does not underflow for small shapes.
+pub(crate) fn sample_ln<S: Source>(k: f64, source: &mut S) -> f64 {
+    if k < 1.0 {
+        return sample(1.0 + k, source).ln() + source.read::<f64>().ln() / k;
+    }
+    sample(k, source).ln()
+}
+
 /// Draw a sample from the standard Gamma distribution.
 pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     use distribution::gaussian;
-- 
2.43.0


From 572311b673003fdc220173fa69a88bb941b9eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 16/22] fix: compute beta quantiles of tiny probabilities

---
 src/distribution/beta.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 56eb2aa..e21ed1b 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -106,7 +106,16 @@ impl distribution::Inverse for Beta {
     fn inverse(&self, p: f64) -> f64 {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        // The algorithm squares small probabilities. Where that would underflow,
+        // use the leading term of the distribution function, which is a power.
+        const SMALL: f64 = 1e-150;
+        let x = if p > 0.0 && p < SMALL {
+            SMALL.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+                * ((p.ln() - SMALL.ln()) / self.alpha).exp()
+        } else {
+            p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        };
+        self.a + (self.b - self.a) * x
     }
 }
 
-- 
2.43.0


From 6363d4ec824e3d65abdd92e8da57a20b07818cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 17/22] fix: compute pert quantiles of tiny probabilities

---
 src/distribution/pert.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..2b4a490 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -112,7 +112,16 @@ impl distribution::Inverse for Pert {
     fn inverse(&self, p: f64) -> f64 {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.c - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        // The algorithm squares small probabilities. Where that would underflow,
+        // use the leading term of the distribution function, which is a power.
+        const SMALL: f64 = 1e-150;
+        let x = if p > 0.0 && p < SMALL {
+            SMALL.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+                * ((p.ln() - SMALL.ln()) / self.alpha).exp()
+        } else {
+            p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        };
+        self.a + (self.c - self.a) * x
     }
 }
 
-- 
2.43.0


From f80cce0ad238547df915679651a11f414b1e04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 18/22] fix: compute beta and pert quantiles of small
 probabilities in bounded time

---
 src/distribution/beta.rs | 37 +++++++++++++++++++++++++++----------
 src/distribution/pert.rs | 12 ++----------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index e21ed1b..d47d51b 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -104,17 +104,8 @@ impl distribution::Entropy for Beta {
 impl distribution::Inverse for Beta {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        // The algorithm squares small probabilities. Where that would underflow,
-        // use the leading term of the distribution function, which is a power.
-        const SMALL: f64 = 1e-150;
-        let x = if p > 0.0 && p < SMALL {
-            SMALL.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
-                * ((p.ln() - SMALL.ln()) / self.alpha).exp()
-        } else {
-            p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
-        };
+        let x = inverse(p, self.alpha, self.beta, self.ln_beta);
         self.a + (self.b - self.a) * x
     }
 }
@@ -210,6 +201,32 @@ impl distribution::Variance for Beta {
     }
 }
 
+/// Compute the quantile of the standard beta distribution.
+pub(crate) fn inverse(p: f64, alpha: f64, beta: f64, ln_beta: f64) -> f64 {
+    use special::Beta;
+    // Small probabilities take the iterations of `inv_inc_beta` to where the
+    // density underflows, and they do not return from there.
+    const SMALL: f64 = 1e-20;
+    if p <= 0.0 || p >= SMALL {
+        return p.inv_inc_beta(alpha, beta, ln_beta);
+    }
+    let (mut low, mut high) = (f64::MIN_POSITIVE.ln(), 0.0);
+    if f64::MIN_POSITIVE.inc_beta(alpha, beta, ln_beta) >= p {
+        return ((p.ln() + alpha.ln() + ln_beta) / alpha).exp();
+    }
+    loop {
+        let middle = 0.5 * (low + high);
+        if middle <= low || middle >= high {
+            return high.exp();
+        }
+        if middle.exp().inc_beta(alpha, beta, ln_beta) < p {
+            low = middle;
+        } else {
+            high = middle;
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 2b4a490..23168ca 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -3,6 +3,7 @@ use alloc::{vec, vec::Vec};
 use special::Primitive;
 
 use distribution;
+use distribution::beta;
 use source::Source;
 
 /// A PERT distribution.
@@ -110,17 +111,8 @@ impl distribution::Entropy for Pert {
 impl distribution::Inverse for Pert {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        // The algorithm squares small probabilities. Where that would underflow,
-        // use the leading term of the distribution function, which is a power.
-        const SMALL: f64 = 1e-150;
-        let x = if p > 0.0 && p < SMALL {
-            SMALL.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
-                * ((p.ln() - SMALL.ln()) / self.alpha).exp()
-        } else {
-            p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
-        };
+        let x = beta::inverse(p, self.alpha, self.beta, self.ln_beta);
         self.a + (self.c - self.a) * x
     }
 }
-- 
2.43.0


From 4e515e8c6ba32ad23e0233f25e706a990205d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 19/22] fix: compute binomial quantiles of tiny probabilities
 beyond the normal approximation

---
 src/distribution/binomial.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 16c696b..0069285 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -203,6 +203,19 @@ impl distribution::Inverse for Binomial {
             });
         );
 
+        let bisect = || {
+            let (mut low, mut high) = (0, self.n);
+            while low < high {
+                let k = low + (high - low) / 2;
+                if self.distribution(k as f64) < p {
+                    low = k + 1;
+                } else {
+                    high = k;
+                }
+            }
+            low
+        };
+
         if p == 0.0 {
             0
         } else if p == 1.0 {
@@ -215,16 +228,10 @@ impl distribution::Inverse for Binomial {
                 sum_top_down!(|k| self.q / self.p * ((self.n + 1 - k) as f64 / k as f64))
             }
             // Use bisection as the summation ran out of precision.
-            let (mut low, mut high) = (0, self.n);
-            while low < high {
-                let k = low + (high - low) / 2;
-                if self.distribution(k as f64) < p {
-                    low = k + 1;
-                } else {
-                    high = k;
-                }
-            }
-            low
+            bisect()
+        } else if self.npq > 80.0 && p < 1e-20 {
+            // The normal approximation does not hold that far in the tail.
+            bisect()
         } else if self.npq > 80.0 {
             // Use a normal approximation.
             inverse_normal(self.p, self.np, self.npq, p).floor() as usize
-- 
2.43.0


From 4a55d9b3d1adb4719f987b185b0bbef4655006cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 20/22] fix: compute beta quantiles near ends of infinite
 density

---
 src/distribution/beta.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index d47d51b..04c0997 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -205,15 +205,30 @@ impl distribution::Variance for Beta {
 pub(crate) fn inverse(p: f64, alpha: f64, beta: f64, ln_beta: f64) -> f64 {
     use special::Beta;
     // Small probabilities take the iterations of `inv_inc_beta` to where the
-    // density underflows, and they do not return from there.
+    // density underflows, and they do not return from there. Likewise, they do
+    // not resolve an end at which the density is infinite.
     const SMALL: f64 = 1e-20;
-    if p <= 0.0 || p >= SMALL {
-        return p.inv_inc_beta(alpha, beta, ln_beta);
+    if p <= 0.0 || p >= 1.0 {
+        p
+    } else if p < SMALL {
+        inverse_low(p, 1.0, alpha, beta, ln_beta)
+    } else if alpha >= 1.0 && beta >= 1.0 {
+        p.inv_inc_beta(alpha, beta, ln_beta)
+    } else if p <= 0.5.inc_beta(alpha, beta, ln_beta) {
+        inverse_low(p, 0.5, alpha, beta, ln_beta)
+    } else {
+        1.0 - inverse_low(1.0 - p, 0.5, beta, alpha, ln_beta)
     }
-    let (mut low, mut high) = (f64::MIN_POSITIVE.ln(), 0.0);
+}
+
+/// Compute the quantile of the standard beta distribution that is at most `x`
+/// using bisection with respect to its logarithm.
+fn inverse_low(p: f64, x: f64, alpha: f64, beta: f64, ln_beta: f64) -> f64 {
+    use special::Beta;
     if f64::MIN_POSITIVE.inc_beta(alpha, beta, ln_beta) >= p {
         return ((p.ln() + alpha.ln() + ln_beta) / alpha).exp();
     }
+    let (mut low, mut high) = (f64::MIN_POSITIVE.ln(), x.ln());
     loop {
         let middle = 0.5 * (low + high);
         if middle <= low || middle >= high {
-- 
2.43.0


From 1dd0b9be31e38b553b9d8d0c16c34ecc42f780ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 21/22] fix: give mass to binomial failures that are as rare as
 rounding errors

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 0069285..b016b2d 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -91,7 +91,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From e2fcc49497dc71996441304e0020d827f012dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 22/22] fix: avoid cancellation in the variance and skewness of
 the triangular distribution

---
 src/distribution/triangular.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..094ee43 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,9 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        let (u, v) = (c - a, b - c);
+        let npart = (v - u) * (2.0 * u + v) * (u + 2.0 * v);
+        let dpart = (u + v).powi(2) - u * v;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +166,7 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        ((b - a).powi(2) - (c - a) * (b - c)) / 18.0
     }
 }
 
-- 
2.43.0

