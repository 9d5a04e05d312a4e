From c023c941e0ad62755b9ae4620aabc85f26edcead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 001/177] fix: Empty is satisfied by arrays of length zero, not
 by the others

---
 src/params/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index faedb27..12c8d9f 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -397,7 +397,7 @@ impl Display for Empty {
 }
 
 impl<const N: usize, T> Constraint<[T; N]> for Empty {
-    fn is_satisfied_by(&self, vec: &[T; N]) -> bool { N > 0 }
+    fn is_satisfied_by(&self, _: &[T; N]) -> bool { N == 0 }
 }
 
 impl<T> Constraint<Vec<T>> for Empty {
-- 
2.43.0


From 551a6d1756b60ccac38ab461c0ecfabee48143c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 002/177] fix: choose is exact whenever the coefficient fits,
 and zero for k > n

---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 08220d5..2850346 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -21,9 +21,14 @@ pub fn log_factorial_stirling(n: u64) -> f64 {
 }
 
 pub fn choose(n: u64, k: u64) -> u64 {
+    if k > n {
+        return 0;
+    }
+
     let k = if k > n - k { n - k } else { k };
 
-    (0..k).fold(1, |acc, i| acc * (n - i) / (i + 1))
+    // The intermediate product can exceed u64 where the coefficient does not.
+    (0..k).fold(1u128, |acc, i| acc * ((n - i) as u128) / ((i + 1) as u128)) as u64
 }
 
 #[cfg(feature = "serde")]
-- 
2.43.0


From c815251601ba44384ab3f5d12def95d133f7b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 003/177] fix: a random simplex vector is uniform over the
 simplex

---
 src/probability.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/probability.rs b/src/probability.rs
index 81c0782..ee876c3 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -1,7 +1,5 @@
 use crate::{
     params::{Param, constraints::{Constraints, Interval}},
-    univariate::uniform::Uniform,
-    Distribution,
 };
 use failure::Fail;
 use rand::Rng;
@@ -374,7 +372,7 @@ impl<const K: usize> SimplexVector<K> {
     /// 1. Draw \\(K\\) independent points, \\(x_i \in [0, 1]\\), uniformly at
     /// random.
     /// 2. Apply the transformation \\(z_i = -\ln{x_i}\\).
-    /// 3. Compute the sum \\(s = \sum_i x_i\\).
+    /// 3. Compute the sum \\(s = \sum_i z_i\\).
     /// 4. Return the vector of values \\(z_i / s\\).
     ///
     /// # Examples
@@ -390,22 +388,17 @@ impl<const K: usize> SimplexVector<K> {
         let mut sum = 0.0;
         let mut probs = [0.0; K];
 
-        for i in 1..K {
-            let s = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);
+        for i in 0..K {
+            let x: f64 = rng.sample(rand_distr::OpenClosed01);
 
-            sum += s;
-            probs[i] = -s.ln();
+            probs[i] = -x.ln();
+            sum += probs[i];
         }
 
-        let mut alt = 0.0;
-
-        for i in 1..K {
+        for i in 0..K {
             probs[i] /= sum;
-            alt += probs[i];
         }
 
-        probs[0] = 1.0 - alt;
-
         SimplexVector(probs)
     }
 }
-- 
2.43.0


From 0f04230f53a7070bc5de54b77fae75f4aa1522e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 004/177] fix: sampling an index falls back to the last index
 of positive weight

---
 src/probability.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index ee876c3..cb5cd58 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -344,7 +344,10 @@ impl<const K: usize> SimplexVector<K> {
         });
         let rval: f64 = rng.gen();
 
-        cdf.position(|p| rval < p).unwrap_or(self.len() - 1)
+        // The weights may add up to slightly less than one.
+        cdf.position(|p| rval < p).unwrap_or_else(|| {
+            self.0.iter().rposition(|&p| p > 0.0).unwrap_or(self.len() - 1)
+        })
     }
 
     /// Compute the central point of the simplex \\(x_i = 1 / K\\).
-- 
2.43.0


From 3592db5a150c5557cc379b13886ea10aa2f57fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 005/177] fix: the default correlation divides by the standard
 deviations

---
 src/statistics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics.rs b/src/statistics.rs
index dca7062..376fa67 100644
--- a/src/statistics.rs
+++ b/src/statistics.rs
@@ -65,7 +65,7 @@ pub trait MvMoments<const N: usize>: Multivariate<N> {
 
         for i in 0..N {
             for j in 0..N {
-                cor[i][j] = cov[i][j] * (cov[i][i] * cov[j][j]).sqrt();
+                cor[i][j] = cov[i][j] / (cov[i][i] * cov[j][j]).sqrt();
             }
         }
 
-- 
2.43.0


From 328834b7c1d03ee69b2b85b34db7b2ea82bf9f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 006/177] fix: discrete uniform: the quantile is the least
 point whose cumulative probability reaches p

---
 src/univariate/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/uniform.rs b/src/univariate/uniform.rs
index dcdfac5..06533ac 100644
--- a/src/univariate/uniform.rs
+++ b/src/univariate/uniform.rs
@@ -288,7 +288,7 @@ impl Quantiles for Uniform<i64> {
     fn quantile(&self, p: Probability) -> f64 {
         let n = self.span() as f64;
 
-        self.params.lb.0 as f64 + (p * n).floor()
+        self.params.lb.0 as f64 + ((p * n).ceil() - 1.0).max(0.0)
     }
 
     fn median(&self) -> f64 { self.params.lb.0 as f64 + self.params.width.0 as f64 / 2.0 }
-- 
2.43.0


From b1ecd8aca70277bde293191916166a037703c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 007/177] fix: arcsine: cumulative function and density outside
 the support

---
 src/univariate/arcsine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 7eb766b..1aaff17 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -56,7 +56,7 @@ impl Distribution for Arcsine {
         let a = self.0.a.0;
         let w = self.0.w.0;
 
-        let xab = (x - a) / w;
+        let xab = ((x - a) / w).max(0.0).min(1.0);
 
         Probability::new_unchecked(TWO_OVER_PI * xab.sqrt().asin())
     }
@@ -67,6 +67,10 @@ impl Distribution for Arcsine {
 impl ContinuousDistribution for Arcsine {
     fn pdf(&self, x: &f64) -> f64 {
         let (a, b) = get_params!(self);
+        if *x < a || *x > b {
+            return 0.0;
+        }
+
         let xab = (x - a) * (b - x);
 
         ONE_OVER_PI / xab.sqrt()
-- 
2.43.0


From 188352d841cc55dadcf82e3446e276bedb8f07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 008/177] fix: arcsine: entropy depends on the width

---
 src/univariate/arcsine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/arcsine.rs b/src/univariate/arcsine.rs
index 1aaff17..06dbfa0 100644
--- a/src/univariate/arcsine.rs
+++ b/src/univariate/arcsine.rs
@@ -114,7 +114,7 @@ impl Modes for Arcsine {
 }
 
 impl ShannonEntropy for Arcsine {
-    fn shannon_entropy(&self) -> f64 { PI_OVER_4.ln() }
+    fn shannon_entropy(&self) -> f64 { (PI_OVER_4 * self.0.w.0).ln() }
 }
 
 impl fmt::Display for Arcsine {
-- 
2.43.0


From d7d0073fe0dc911aea503002280001471cfc993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 009/177] fix: bernoulli: the cumulative function at false is
 the mass of false

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index fffb0e8..52a880b 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -65,7 +65,7 @@ impl Distribution for Bernoulli {
         if *k {
             Probability::one()
         } else {
-            Probability::zero()
+            self.q
         }
     }
 
-- 
2.43.0


From 4350826cb7f9a84675dcb8a7c8141e24b26860d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 010/177] fix: bernoulli: kurtosis and excess kurtosis

---
 src/univariate/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 52a880b..0c4d44f 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -92,9 +92,9 @@ impl UvMoments for Bernoulli {
 
     fn skewness(&self) -> f64 { (1.0 - 2.0 * self.params.p.unwrap()) / self.variance.sqrt() }
 
-    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
+    fn kurtosis(&self) -> f64 { 1.0 / self.variance - 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 9.0 }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / self.variance - 6.0 }
 }
 
 impl Quantiles for Bernoulli {
-- 
2.43.0


From 42a5b3f2400126db15d3784dce5f8a0cba7d891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 011/177] fix: bernoulli: true is the mode when p exceeds a
 half

---
 src/univariate/bernoulli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 0c4d44f..16c20b8 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -116,7 +116,7 @@ impl Modes for Bernoulli {
         match self.params.p.partial_cmp(&self.q) {
             Some(Less) => vec![false],
             Some(Equal) => vec![false, true],
-            Some(Greater) => vec![false],
+            Some(Greater) => vec![true],
             None => unreachable!(),
         }
     }
-- 
2.43.0


From bda5b7fa443f406a0ded4f293c7d6f69c3aa283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 012/177] fix: bernoulli: failures lower the score

---
 src/univariate/bernoulli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/bernoulli.rs b/src/univariate/bernoulli.rs
index 16c20b8..677204d 100644
--- a/src/univariate/bernoulli.rs
+++ b/src/univariate/bernoulli.rs
@@ -150,7 +150,10 @@ impl Score for Bernoulli {
 
     fn score(&self, samples: &[bool]) -> Grad {
         Grad {
-            p: samples.into_iter().map(|x| 1.0 / self.pmf(x)).sum(),
+            p: samples
+                .into_iter()
+                .map(|x| if *x { 1.0 / self.pmf(x) } else { -1.0 / self.pmf(x) })
+                .sum(),
         }
     }
 }
-- 
2.43.0


From fff501cf548d9aa1743ff0e25ce07ac9e23f9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 013/177] fix: beta: cumulative function and density outside
 the unit interval

---
 src/univariate/beta.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 00dc52c..5280e2e 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -55,7 +55,7 @@ impl Distribution for Beta {
     fn cdf(&self, x: &f64) -> Probability {
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(x.betainc(alpha, beta))
+        Probability::new_unchecked(x.max(0.0).min(1.0).betainc(alpha, beta))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -69,6 +69,10 @@ impl Distribution for Beta {
 
 impl ContinuousDistribution for Beta {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-- 
2.43.0


From c4cc9e5330c85e1556c5b60858b01cc0a49e33b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 014/177] fix: beta: excess kurtosis

---
 src/univariate/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 5280e2e..26f0046 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -114,7 +114,7 @@ impl UvMoments for Beta {
 
         let apbp2 = apb + 2.0;
 
-        3.0 * asb * asb * (apb + 1.0) - amb * apbp2 / amb / apbp2 / (apb + 3.0)
+        6.0 * (asb * asb * (apb + 1.0) - amb * apbp2) / (amb * apbp2 * (apb + 3.0))
     }
 }
 
-- 
2.43.0


From 24b4d2aa5e733547c4d0870d1227dc5b82649835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 015/177] fix: beta: the median inverts the cumulative function

---
 src/univariate/beta.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 26f0046..4f6adfe 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -1,5 +1,4 @@
 use crate::{
-    consts::{ONE_THIRD, TWO_THIRDS},
     fitting::{Likelihood, Score},
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
     ContinuousDistribution,
@@ -126,8 +125,6 @@ impl Quantiles for Beta {
 
         if (a - b).abs() < 1e-7 {
             0.5
-        } else if a > 1.0 && b > 1.0 {
-            (a - ONE_THIRD) / (a + b - TWO_THIRDS)
         } else if (a - 1.0).abs() < 1e-7 {
             1.0 - 2.0f64.powf(-1.0 / b)
         } else if (b - 1.0).abs() < 1e-7 {
@@ -137,7 +134,7 @@ impl Quantiles for Beta {
         } else if (a - 2.0).abs() < 1e-7 && (b - 3.0).abs() < 1e-7 {
             0.38572756813238945
         } else {
-            undefined!()
+            0.5f64.betainc_inv(a, b)
         }
     }
 }
-- 
2.43.0


From 3caf886824847bbe1223bad9aa34b5a0f1dcef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 016/177] fix: beta-binomial: the support ends at n and the
 mass is zero beyond it

---
 src/univariate/beta_binomial.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 224f163..15c6334 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -48,6 +48,10 @@ impl BetaBinomial {
     fn pmf_raw(&self, k: usize) -> f64 {
         let (n, alpha, beta) = get_params!(self);
 
+        if k > n {
+            return 0.0;
+        }
+
         let c = choose(n as u64, k as u64) as f64;
         let z = alpha.beta(beta);
         let k = k as f64;
@@ -71,7 +75,7 @@ impl Distribution for BetaBinomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
-- 
2.43.0


From 5a8c337a85a61afe805561084981a271341d080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 017/177] fix: beta-binomial: skewness

---
 src/univariate/beta_binomial.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index 15c6334..e4addbd 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -108,14 +108,10 @@ impl UvMoments for BetaBinomial {
     fn skewness(&self) -> f64 {
         let (n, alpha, beta) = get_params!(self);
         let n = n as f64;
+        let apb = alpha + beta;
 
-        let ap1 = alpha + 1.0;
-        let ap2 = ap1 + 1.0;
-
-        // Compute bracket term:
-        let b = n * n * ap1 * ap2 + 3.0 * n * ap1 * beta + beta * (beta - alpha);
-
-        self.pi * self.rho * n * b / (ap2 + beta)
+        (apb + 2.0 * n) * (beta - alpha) / (apb + 2.0)
+            * ((1.0 + apb) / (n * alpha * beta * (n + apb))).sqrt()
     }
 
     fn kurtosis(&self) -> f64 {
-- 
2.43.0


From 5adcb6167fea57b43d14ab9a3fbdb5017048b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 018/177] fix: beta-binomial: kurtosis

---
 src/univariate/beta_binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index e4addbd..c89bcbf 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -122,7 +122,7 @@ impl UvMoments for BetaBinomial {
 
         let b1 = alpha
             / (n * self.pi * self.pi * self.rho * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
-        let b2 = (apb - 1.0 + 6.0 * n) / alpha;
+        let b2 = apb * (apb - 1.0 + 6.0 * n);
         let b3 = 3.0 * alpha * beta * (n - 2.0);
         let b4 = 6.0 * n * n;
         let b5 = -3.0 * self.pi * beta * n * (6.0 - n);
-- 
2.43.0


From 8d50dd4782c99a3b498759131350acda7c9f3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 019/177] fix: beta prime: cumulative function and density
 below zero

---
 src/univariate/beta_prime.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 8484564..62684f4 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -52,6 +52,8 @@ impl Distribution for BetaPrime {
 
         let (alpha, beta) = get_params!(self);
 
+        let x = x.max(0.0);
+
         Probability::new_unchecked((x / (1.0 + x)).betainc(alpha, beta))
     }
 
@@ -62,6 +64,10 @@ impl ContinuousDistribution for BetaPrime {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         let numerator = x.powf(a - 1.0) * (1.0 + x).powf(-a - b);
-- 
2.43.0


From a74266067d28843376b7e92b10b98fca411c418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 020/177] fix: beta prime: excess kurtosis, which needs beta >
 4

---
 src/univariate/beta_prime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 62684f4..784ca65 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -116,9 +116,14 @@ impl UvMoments for BetaPrime {
 
     fn excess_kurtosis(&self) -> f64 {
         let (a, b) = get_params!(self);
+
+        if b <= 4.0 {
+            undefined!("kurtosis is undefined for values of beta <= 4.")
+        }
+
         let bm1 = b - 1.0;
 
-        let numerator = 6.0 * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0);
+        let numerator = 6.0 * (a * (a + bm1) * (5.0 * b - 11.0) + bm1 * bm1 * (b - 2.0));
         let denominator = a * (a + bm1) * (b - 3.0) * (b - 4.0);
 
         numerator / denominator
-- 
2.43.0


From 4e3f71e7c62c3ab50119ab090910174c94cac866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 021/177] fix: beta prime: entropy

---
 src/univariate/beta_prime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 784ca65..62666c2 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -149,8 +149,8 @@ impl ShannonEntropy for BetaPrime {
         let (a, b) = get_params!(self);
         let apb = a + b;
 
-        a.logbeta(b) - (a - 1.0) * a.digamma() - (b - 1.0) * b.digamma()
-            + (apb - 2.0) * apb.digamma()
+        a.logbeta(b) - (a - 1.0) * a.digamma() - (b + 1.0) * b.digamma()
+            + apb * apb.digamma()
     }
 }
 
-- 
2.43.0


From a3c8889d1502f1e531ca363eda2b3c0af59e3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 022/177] fix: binomial: the support ends at n, with mass zero
 and cumulative probability one beyond it

---
 src/univariate/binomial.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 8e19d6c..de7789f 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -59,13 +59,17 @@ impl Distribution for Binomial {
     type Support = Closed<usize>;
     type Params = Params;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0 + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }
 
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &usize) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *k >= self.params.n.0 {
+            return Probability::one();
+        }
+
         let a = (self.params.n.0 - k) as f64;
         let b = (k + 1) as f64;
 
@@ -86,6 +90,10 @@ impl DiscreteDistribution for Binomial {
     fn pmf(&self, k: &usize) -> Probability {
         let (n, p) = get_params!(self);
 
+        if *k > n {
+            return Probability::zero();
+        }
+
         let bc = choose(n as u64, *k as u64) as f64;
 
         let prob_successes = p.powi(*k as i32);
-- 
2.43.0


From 433b56c6b5ac66ca295b9a5eed7b8d4afd810b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 023/177] fix: binomial: the mass does not overflow the
 binomial coefficient

---
 src/univariate/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index de7789f..242b839 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -2,7 +2,6 @@ use crate::{
     consts::PI_E,
     statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments},
     univariate::bernoulli::Bernoulli,
-    utils::*,
     Convolution,
     DiscreteDistribution,
     Distribution,
@@ -94,7 +93,8 @@ impl DiscreteDistribution for Binomial {
             return Probability::zero();
         }
 
-        let bc = choose(n as u64, *k as u64) as f64;
+        let bc = (0..(*k).min(n - *k))
+            .fold(1.0, |acc, i| acc * (n - i) as f64 / (i + 1) as f64);
 
         let prob_successes = p.powi(*k as i32);
         let prob_failures = self.q.powi((n - *k) as i32);
-- 
2.43.0


From 40f79ba27d6902b21ee62c92fdcfa968e60fbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 024/177] fix: binomial: the formula is that of the excess
 kurtosis

---
 src/univariate/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 242b839..3b876ab 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -122,7 +122,7 @@ impl UvMoments for Binomial {
 
     fn skewness(&self) -> f64 { (1.0 - self.params.p * 2.0) / self.variance().sqrt() }
 
-    fn kurtosis(&self) -> f64 {
+    fn excess_kurtosis(&self) -> f64 {
         let (n, p) = get_params!(self);
         let (p, q) = (p.unwrap(), self.q.unwrap());
 
-- 
2.43.0


From 2eb65bd4de7ca2ae7348f7794f43fa06fc7bf6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 025/177] fix: binomial: the median halves the cumulative
 function

---
 src/univariate/binomial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 3b876ab..fefa5ad 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -133,7 +133,12 @@ impl UvMoments for Binomial {
 impl Quantiles for Binomial {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { self.mean().round() }
+    fn median(&self) -> f64 {
+        // A median lies between the integers either side of the mean.
+        let m = self.mean().floor();
+
+        if self.cdf(&(m as usize)) >= Probability::half() { m } else { m + 1.0 }
+    }
 }
 
 impl Modes for Binomial {
-- 
2.43.0


From 03a58dd65da16b03945451983996cae323134419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 026/177] fix: binomial: modes

---
 src/univariate/binomial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index fefa5ad..fe75a5a 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -145,7 +145,10 @@ impl Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
         let (n, p) = get_params!(self);
 
-        vec![(p * n as f64).floor() as usize]
+        let m = p * (n + 1) as f64;
+        let k = (m.floor() as usize).min(n);
+
+        if k > 0 && m == k as f64 { vec![k - 1, k] } else { vec![k] }
     }
 }
 
-- 
2.43.0


From 569c9b4565069c049c019e03b865c9d89c79666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 027/177] fix: binomial: entropy in nats, for small variances
 too

---
 src/univariate/binomial.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index fe75a5a..903794e 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -1,5 +1,4 @@
 use crate::{
-    consts::PI_E,
     statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments},
     univariate::bernoulli::Bernoulli,
     Convolution,
@@ -153,7 +152,13 @@ impl Modes for Binomial {
 }
 
 impl ShannonEntropy for Binomial {
-    fn shannon_entropy(&self) -> f64 { (2.0 * PI_E * self.variance()).log2() / 2.0 }
+    fn shannon_entropy(&self) -> f64 {
+        (0..=self.params.n.0)
+            .map(|k| self.pmf(&k).unwrap())
+            .filter(|&p| p > 0.0)
+            .map(|p| -p * p.ln())
+            .sum()
+    }
 }
 
 impl FisherInformation<1> for Binomial {
-- 
2.43.0


From 2c17caf85278ac6d4bdf4bedb83086045d4059fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 028/177] fix: categorical: the cumulative function includes
 its argument

---
 src/univariate/categorical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 5ee79bf..85f9f69 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(*x).sum())
+        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From 832925907e7ac37ade09161809d67a2710c222b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 029/177] fix: categorical: the support ends at N - 1, with
 mass zero beyond it

---
 src/univariate/categorical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 85f9f69..79e3e34 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -50,7 +50,7 @@ impl<const N: usize> Distribution for Categorical<N> {
     type Support = Closed<usize>;
     type Params = Params<N>;
 
-    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N + 1) }
+    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, N - 1) }
 
     fn params(&self) -> Params<N> { self.0.clone() }
 
@@ -66,7 +66,7 @@ impl<const N: usize> DiscreteDistribution for Categorical<N> {
         let i = *i;
 
         if i >= N {
-            panic!("Index must lie in the support: i < k.")
+            return Probability::zero();
         }
 
         Probability::new_unchecked(self.0.ps[i])
-- 
2.43.0


From 818b351cfb3822049ad1012ddd6482e78a5a0977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 030/177] fix: chi: cumulative function

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 0b1a937..fb9d3bd 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -43,7 +43,7 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked((get_k!(self) / 2.0).gammainc(x * x / 2.0))
+        Probability::new_unchecked((x.max(0.0).powi(2) / 2.0).gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From c06c9bf39b852b03253e398952c12951f707a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 031/177] fix: chi: density below zero

---
 src/univariate/chi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index fb9d3bd..a2639a6 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -51,6 +51,10 @@ impl Distribution for Chi {
 
 impl ContinuousDistribution for Chi {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
-- 
2.43.0


From bc0a7eacd37358aceca095ded95ab3e2d6cb82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 032/177] fix: chi: the median inverts the cumulative function

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index a2639a6..674859b 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -102,7 +102,7 @@ impl Quantiles for Chi {
     fn median(&self) -> f64 {
         let k = get_k!(self);
 
-        (k * (1.0 - 2.0 / 9.0 / k).powi(3)).sqrt()
+        (2.0 * 0.5f64.gammac_inv(k / 2.0)).sqrt()
     }
 }
 
-- 
2.43.0


From ce04014aed965982e93f89d3076cdebdaeb55649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 033/177] fix: chi: entropy

---
 src/univariate/chi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 674859b..8ba9a2b 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -123,7 +123,7 @@ impl ShannonEntropy for Chi {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2.gamma().ln() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma())
+        ko2.loggamma() + (k - 2.0f64.ln() - (k - 1.0) * ko2.digamma()) / 2.0
     }
 }
 
-- 
2.43.0


From 19f776a47fe2436974351ff4c9a2db9636754456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 034/177] fix: chi-squared: cumulative function

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index b72f1dc..5b2eafe 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -46,7 +46,7 @@ impl Distribution for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        Probability::new_unchecked(ko2.gammainc(x / 2.0) / ko2.gamma())
+        Probability::new_unchecked((x.max(0.0) / 2.0).gammainc(ko2))
     }
 
     fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 9584547add6d1b4b319fa4c742bf9fc5a1842033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 035/177] fix: chi-squared: density below zero

---
 src/univariate/chi_sq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 5b2eafe..00190f6 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -60,6 +60,10 @@ impl Distribution for ChiSq {
 
 impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
         let norm = 2.0f64.powf(ko2) * ko2.gamma();
-- 
2.43.0


From fd48a166cb1d421039d8ee69b181c02f2c592100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 036/177] fix: chi-squared: the median inverts the cumulative
 function

---
 src/univariate/chi_sq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 00190f6..1581d55 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -90,7 +90,7 @@ impl Quantiles for ChiSq {
     fn median(&self) -> f64 {
         let k = get_k!(self);
 
-        k * (1.0 - 2.0 / 9.0 / k).powi(3)
+        2.0 * 0.5f64.gammac_inv(k / 2.0)
     }
 }
 
-- 
2.43.0


From 06551e77d2e4da722589986260d4b5f827db2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 037/177] fix: chi-squared: the degrees of freedom of the
 summands may differ

---
 src/univariate/chi_sq.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 1581d55..d4ee874 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -114,8 +114,6 @@ impl Convolution<ChiSq> for ChiSq {
         let k1 = self.0.k.0;
         let k2 = rv.0.k.0;
 
-        assert_constraint!(k1 == k2)?;
-
         Ok(ChiSq::new_unchecked(k1 + k2))
     }
 }
-- 
2.43.0


From d77239bb4559f3faa531851571eb77d09d026984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 038/177] fix: cosine: density scales with s and vanishes
 outside the support

---
 src/univariate/cosine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index ffbaa21..0ef85a1 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -66,7 +66,9 @@ impl Distribution for Cosine {
 }
 
 impl ContinuousDistribution for Cosine {
-    fn pdf(&self, x: &f64) -> f64 { 0.5 * self.hvc(*x) }
+    fn pdf(&self, x: &f64) -> f64 {
+        if self.z(*x).abs() > 1.0 { 0.0 } else { self.hvc(*x) / self.0.s.0 }
+    }
 }
 
 impl Univariate for Cosine {}
-- 
2.43.0


From 93277522c5e8a261ad8b0ea517b35d0fd6b59481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 039/177] fix: cosine: cumulative function outside the support

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 0ef85a1..7ac0480 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -57,7 +57,7 @@ impl Distribution for Cosine {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        let z = self.z(*x);
+        let z = self.z(*x).max(-1.0).min(1.0);
 
         Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
     }
-- 
2.43.0


From b84a10e59855bfc5ec462115fe297f9baadc8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 040/177] fix: cosine: excess kurtosis

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 7ac0480..a468695 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -87,7 +87,7 @@ impl UvMoments for Cosine {
     fn excess_kurtosis(&self) -> f64 {
         let v = PI2 - 6.0;
 
-        6.0 * (60.0 - PI4) / 5.0 / v / v
+        6.0 * (90.0 - PI4) / 5.0 / v / v
     }
 }
 
-- 
2.43.0


From 1a2bf406fdd0d78baa1fd3e1b3e753ef54bde566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 041/177] fix: degenerate: the support is the single point the
 law can produce

---
 src/univariate/degenerate.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/univariate/degenerate.rs b/src/univariate/degenerate.rs
index 2d18f96..15e4ca6 100644
--- a/src/univariate/degenerate.rs
+++ b/src/univariate/degenerate.rs
@@ -7,10 +7,7 @@ use crate::{
     statistics::{UvMoments, Quantiles, Modes, ShannonEntropy},
 };
 use rand::Rng;
-use spaces::{
-    real::Reals,
-    discrete::Integers,
-};
+use spaces::intervals::Closed;
 use std::fmt;
 
 pub use crate::params::Loc;
@@ -45,10 +42,10 @@ where
 
 // Continuous variant:
 impl Distribution for Degenerate<f64> {
-    type Support = Reals<f64>;
+    type Support = Closed<f64>;
     type Params = Loc<f64>;
 
-    fn support(&self) -> Reals<f64> { Reals::unbounded() }
+    fn support(&self) -> Closed<f64> { Closed::closed_unchecked(self.k.0, self.k.0) }
 
     fn params(&self) -> Loc<f64> { self.k }
 
@@ -103,10 +100,10 @@ impl ShannonEntropy for Degenerate<f64> {
 
 // Discrete variant:
 impl Distribution for Degenerate<i64> {
-    type Support = Integers<i64>;
+    type Support = Closed<i64>;
     type Params = Loc<i64>;
 
-    fn support(&self) -> Integers<i64> { Integers::unbounded() }
+    fn support(&self) -> Closed<i64> { Closed::closed_unchecked(self.k.0, self.k.0) }
 
     fn params(&self) -> Loc<i64> { self.k }
 
-- 
2.43.0


From 8c3b4cefd4b5ec7771e2b39d7260d9af2cd1f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 042/177] fix: degenerate: no mass beside the point

---
 src/univariate/degenerate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/degenerate.rs b/src/univariate/degenerate.rs
index 15e4ca6..3cebc5c 100644
--- a/src/univariate/degenerate.rs
+++ b/src/univariate/degenerate.rs
@@ -62,7 +62,7 @@ impl Distribution for Degenerate<f64> {
 
 impl ContinuousDistribution for Degenerate<f64> {
     fn pdf(&self, x: &f64) -> f64 {
-        if (x - self.k.0).abs() < 1e-7 { 1.0 } else { 0.0 }
+        if *x == self.k.0 { 1.0 } else { 0.0 }
     }
 }
 
-- 
2.43.0


From 7c965d56bbbc7eb1d8e72833e3fc015c1e250f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 043/177] fix: erlang: cumulative function

---
 src/univariate/erlang.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index b189d5d..93b4098 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,7 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (k as f64).gammainc(lambda * x).ln() - crate::utils::log_factorial_stirling(k as u64)
+        (lambda * x.max(0.0)).gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From ab06afa3a456f83fe992cdbbd3b6a44b4d9cf2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 044/177] fix: erlang: density

---
 src/univariate/erlang.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 93b4098..7177c0a 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -61,9 +61,14 @@ impl Distribution for Erlang {
 
 impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return f64::NEG_INFINITY;
+        }
+
         let (k, lambda) = get_params!(self);
+        let log_power = if k > 1 { (k - 1) as f64 * x.ln() } else { 0.0 };
 
-        k as f64 * lambda.ln() + (k - 1) as f64 * x
+        k as f64 * lambda.ln() + log_power
             - lambda * x
             - crate::utils::log_factorial_stirling(k as u64 - 1)
     }
-- 
2.43.0


From 4ce10238e7e48d059e9bca6910b6eb7489e2bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 045/177] fix: exponential: cumulative function and density
 below zero

---
 src/univariate/exponential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 0740380..2c0348c 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -47,7 +47,7 @@ impl Distribution for Exponential {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked(1.0 - (-get_lambda!(self) * x).exp())
+        Probability::new_unchecked(1.0 - (-get_lambda!(self) * x.max(0.0)).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -59,6 +59,10 @@ impl Distribution for Exponential {
 
 impl ContinuousDistribution for Exponential {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let l = get_lambda!(self);
 
         l * (-l * x).exp()
-- 
2.43.0


From be5d1cb44b5a47c86b78d083ad9261cac039e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 046/177] fix: exponential: kurtosis

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 2c0348c..248e083 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -82,7 +82,7 @@ impl UvMoments for Exponential {
 
     fn skewness(&self) -> f64 { 2.0 }
 
-    fn kurtosis(&self) -> f64 { 3.0 }
+    fn kurtosis(&self) -> f64 { 9.0 }
 
     fn excess_kurtosis(&self) -> f64 { 6.0 }
 }
-- 
2.43.0


From cb5503ad43253c5d92dacdd84269a05f75f4c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 047/177] fix: exponential: quantile

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 248e083..486805d 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -88,7 +88,7 @@ impl UvMoments for Exponential {
 }
 
 impl Quantiles for Exponential {
-    fn quantile(&self, p: Probability) -> f64 { -(p.not().unwrap()) / get_lambda!(self) }
+    fn quantile(&self, p: Probability) -> f64 { -(p.not().ln()) / get_lambda!(self) }
 
     fn median(&self) -> f64 { self.mean() * 2.0f64.ln() }
 }
-- 
2.43.0


From c64ad8ff4857f8af7c7cbef473c98c7e11f2cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 048/177] fix: exponential: Fisher information

---
 src/univariate/exponential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/exponential.rs b/src/univariate/exponential.rs
index 486805d..c9bb03a 100644
--- a/src/univariate/exponential.rs
+++ b/src/univariate/exponential.rs
@@ -105,7 +105,7 @@ impl FisherInformation<1> for Exponential {
     fn fisher_information(&self) -> [[f64; 1]; 1] {
         let l = get_lambda!(self);
 
-        [[l * l]]
+        [[1.0 / l / l]]
     }
 }
 
-- 
2.43.0


From a08ed140e0510c8f82f5c767ae6b7b3c448ad8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 049/177] fix: F: cumulative function and density below zero

---
 src/univariate/f_dist.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 0004375..230b5a9 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -49,6 +49,7 @@ impl Distribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
+        let x = x.max(0.0);
         let x = d1 * x / (d1 * x + d2);
 
         Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
@@ -69,6 +70,10 @@ impl ContinuousDistribution for FDist {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-- 
2.43.0


From 4242603f2949d81e96a195972e2c27c53f922c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 050/177] fix: F: the powers in the density do not overflow

---
 src/univariate/f_dist.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 230b5a9..cb36a39 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -77,7 +77,8 @@ impl ContinuousDistribution for FDist {
         let (d1, d2) = get_params!(self);
         let (d1, d2) = (d1 as f64, d2 as f64);
 
-        let numerator = ((d1 * x).powf(d1) * d2.powf(d2) / (d1 * x + d2).powf(d1 + d2)).sqrt();
+        let z = d1 * x / (d1 * x + d2);
+        let numerator = z.powf(d1 / 2.0) * (d2 / (d1 * x + d2)).powf(d2 / 2.0);
         let denominator = x * (d1 / 2.0).beta(d2 / 2.0);
 
         numerator / denominator
-- 
2.43.0


From 03fddf16d22377f2b8cba39959689bd2b1b26e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 051/177] fix: F: skewness and kurtosis need d2 > 6 and d2 > 8

---
 src/univariate/f_dist.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index cb36a39..b96ec15 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -113,7 +113,7 @@ impl UvMoments for FDist {
 
     fn skewness(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Skewness is undefined for values of d2 <= 6."),
+            d2 if d2 <= 6 => undefined!("Skewness is undefined for values of d2 <= 6."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
 
@@ -127,7 +127,7 @@ impl UvMoments for FDist {
 
     fn excess_kurtosis(&self) -> f64 {
         match self.0.d2.0 {
-            d2 if d2 <= 4 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
+            d2 if d2 <= 8 => undefined!("Kurtosis is undefined for values of d2 <= 8."),
             d2 => {
                 let (d1, d2) = (self.0.d1.0 as f64, d2 as f64);
                 let d2m2 = d2 - 2.0;
-- 
2.43.0


From 7e1356f1a9a21bcb18ab7de0547c95907c4bf910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 052/177] fix: F: excess kurtosis

---
 src/univariate/f_dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index b96ec15..3893615 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -133,7 +133,7 @@ impl UvMoments for FDist {
                 let d2m2 = d2 - 2.0;
 
                 let numerator =
-                    12.0 * d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2;
+                    12.0 * (d1 * (5.0 * d2 - 22.0) * (d1 + d2m2) + (d2 - 4.0) * d2m2 * d2m2);
                 let denominator = d1 * (d2 - 6.0) * (d2 - 8.0) * (d1 + d2m2);
 
                 numerator / denominator
-- 
2.43.0


From d40120859dde1c3ac80a6ca1a3cfa9fc6a577b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 053/177] fix: F: entropy

---
 src/univariate/f_dist.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 3893615..1c18bb9 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -166,10 +166,10 @@ impl ShannonEntropy for FDist {
         let d2o2 = d2 / 2.0;
 
         d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
-            + (1.0 - d1o2) * (1.0 + d1o2).digamma()
-            - (1.0 - d2o2) * (1.0 + d2o2).digamma()
+            + (1.0 - d1o2) * d1o2.digamma()
+            - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
-            + (d1 / d2).ln()
+            + (d2 / d1).ln()
     }
 }
 
-- 
2.43.0


From cc5b4e3f2237643dc21903c9153494da8fc78ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 054/177] fix: folded normal: cumulative function and density
 below zero

---
 src/univariate/folded_normal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index d856ac8..24bf45f 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -64,6 +64,7 @@ impl Distribution for FoldedNormal {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        let x = x.max(0.0);
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
 
@@ -86,6 +87,10 @@ impl Distribution for FoldedNormal {
 
 impl ContinuousDistribution for FoldedNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (mu, sigma) = get_params!(self);
 
         let norm = PI_2.sqrt() * sigma;
-- 
2.43.0


From f6c4cf4e028c7523a12820a16518916cbe70a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 055/177] fix: folded normal: mode

---
 src/univariate/folded_normal.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 24bf45f..a0fb8ec 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -131,10 +131,25 @@ impl Modes for FoldedNormal {
     fn modes(&self) -> Vec<f64> {
         let (mu, sigma) = get_params!(self);
 
-        if mu < sigma {
+        let z = (mu / sigma).abs();
+
+        if z <= 1.0 {
             vec![0.0]
         } else {
-            vec![mu]
+            // The stationary point away from zero solves t = z tanh(z t).
+            let mut t = z;
+
+            for _ in 0..10000 {
+                let next = z * (z * t).tanh();
+
+                if (t - next).abs() <= f64::EPSILON * t {
+                    break;
+                }
+
+                t = next;
+            }
+
+            vec![sigma * t]
         }
     }
 }
-- 
2.43.0


From 4d8c22724195f3df5e1ba49a92353a093304e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 056/177] fix: frechet: cumulative function and density at and
 below zero

---
 src/univariate/frechet.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index 8b18dcf..e090f3f 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -45,7 +45,7 @@ impl Distribution for Frechet {
     fn params(&self) -> Params { Params::new_unchecked(get_alpha!(self)) }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked((-(x.powf(-get_alpha!(self)))).exp())
+        Probability::new_unchecked((-(x.max(0.0).powf(-get_alpha!(self)))).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -57,10 +57,13 @@ impl Distribution for Frechet {
 
 impl ContinuousDistribution for Frechet {
     fn pdf(&self, x: &f64) -> f64 {
-        let cdf = self.cdf(x).unwrap();
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let alpha = get_alpha!(self);
 
-        alpha * x.powf(-1.0 - alpha) * cdf
+        (alpha.ln() - (1.0 + alpha) * x.ln() - x.powf(-alpha)).exp()
     }
 }
 
-- 
2.43.0


From ad6a2f66285ea432960cc322fa0482c01a422dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 057/177] fix: frechet: samples invert the cumulative function

---
 src/univariate/frechet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index e090f3f..be7c95c 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -51,7 +51,7 @@ impl Distribution for Frechet {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         let u = Uniform::default();
 
-        (-u.sample(rng).ln()).powf(1.0 / get_alpha!(self))
+        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From 379a32546616b2ccf0725460366d69870e28d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 058/177] fix: gamma: cumulative function

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 1dceb84..27493c4 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -67,7 +67,7 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked(a.gammainc(b * x) / a.gamma())
+        Probability::new_unchecked((b * x.max(0.0)).gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From ad26f1a8d10d333f58af7c44d790da100d2f9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 059/177] fix: gamma: density below zero

---
 src/univariate/gamma.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 27493c4..ac6210e 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -81,6 +81,10 @@ impl Distribution for Gamma {
 
 impl ContinuousDistribution for Gamma {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
-- 
2.43.0


From eb561ca111118d203bdcce1ea5c75aac55703f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 060/177] fix: gamma: beta is a rate, rand_distr takes the
 scale

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index ac6210e..3e5396f 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -52,7 +52,7 @@ impl Into<rand_distr::Gamma<f64>> for &Gamma {
     fn into(self) -> rand_distr::Gamma<f64> {
         let (a, b) = get_params!(self);
 
-        rand_distr::Gamma::new(a, b).unwrap()
+        rand_distr::Gamma::new(a, 1.0 / b).unwrap()
     }
 }
 
-- 
2.43.0


From cc16146b4f0495dba82a31c160c61da41a82ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 061/177] fix: gamma: log-likelihood

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 3e5396f..38dc023 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -139,10 +139,10 @@ impl Likelihood for Gamma {
 
         let t1 = samples
             .into_iter()
-            .map(|x| am1 * (x + JITTER).ln() - b * (1.0 - x))
+            .map(|x| am1 * x.max(JITTER).ln() - b * x)
             .sum::<f64>();
 
-        t1 - n * (a * (1.0 / b).max(JITTER) + a.gamma().ln())
+        t1 + n * (a * b.ln() - a.loggamma())
     }
 }
 
-- 
2.43.0


From 7d19b8925c6d7520027341d92f836dbbadb67ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 062/177] fix: gamma: score

---
 src/univariate/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 38dc023..9f6e981 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -158,7 +158,7 @@ impl Score for Gamma {
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x / b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + (x * b).max(JITTER).ln(), acc[1] - x]
         });
 
         Grad {
-- 
2.43.0


From d7e9b688e7a70e008f968b19738fd3c12999ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 063/177] fix: gamma: the sum is gamma when the rates agree,
 whatever the shapes

---
 src/univariate/gamma.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 9f6e981..0605b03 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -172,12 +172,13 @@ impl Convolution<Gamma> for Gamma {
     type Output = Gamma;
 
     fn convolve(self, rv: Gamma) -> Result<Gamma, failure::Error> {
-        let (a1, beta) = get_params!(self);
+        let (a1, b1) = get_params!(self);
         let a2 = rv.0.alpha.0;
+        let b2 = rv.0.beta.0;
 
-        assert_constraint!(a1 == a2)?;
+        assert_constraint!(b1 == b2)?;
 
-        Ok(Gamma::new_unchecked(a1 + a2, beta))
+        Ok(Gamma::new_unchecked(a1 + a2, b1))
     }
 }
 
-- 
2.43.0


From f437a047c119906a6c137bf0c8bf8b21dc693efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 064/177] fix: geometric: large arguments do not wrap around

---
 src/univariate/geometric.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 4210129..78f0cfc 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -47,7 +47,7 @@ impl Distribution for Geometric {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(1.0 - self.q.powi(*k as i32 + 1))
+        Probability::new_unchecked(1.0 - self.q.powf(*k as f64 + 1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> u64 {
@@ -61,7 +61,7 @@ impl Distribution for Geometric {
 
 impl DiscreteDistribution for Geometric {
     fn pmf(&self, k: &u64) -> Probability {
-        Probability::new_unchecked(self.params.p * self.q.powi(*k as i32))
+        Probability::new_unchecked(self.params.p * self.q.powf(*k as f64))
     }
 }
 
-- 
2.43.0


From 945623295bd8c2d9c72a36a09188f951fbd1b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 065/177] fix: geometric: the median is an integer of the
 support

---
 src/univariate/geometric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 78f0cfc..23cd768 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -88,7 +88,7 @@ impl UvMoments for Geometric {
 impl Quantiles for Geometric {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
-    fn median(&self) -> f64 { (-1.0 / self.q.log2()) - 1.0 }
+    fn median(&self) -> f64 { ((-1.0 / self.q.log2()).ceil() - 1.0).max(0.0) }
 }
 
 impl Modes for Geometric {
-- 
2.43.0


From 41988ddb428cd2b51d222d2adac8349e7718fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 066/177] fix: geometric: entropy in nats

---
 src/univariate/geometric.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/geometric.rs b/src/univariate/geometric.rs
index 23cd768..5dc6921 100644
--- a/src/univariate/geometric.rs
+++ b/src/univariate/geometric.rs
@@ -99,7 +99,11 @@ impl ShannonEntropy for Geometric {
     fn shannon_entropy(&self) -> f64 {
         let (p, q) = (self.params.p.unwrap(), self.q.unwrap());
 
-        (-q * q.log2() - p * p.log2()) / p
+        if q > 0.0 {
+            (-q * q.ln() - p * p.ln()) / p
+        } else {
+            0.0
+        }
     }
 }
 
-- 
2.43.0


From 7529a3fed0fde2fce34b916930b557e750ca3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 067/177] fix: generalised extreme value: the support is
 bounded below

---
 src/univariate/gev.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 681cd71..c32ceec 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -7,7 +7,7 @@ use crate::{
     Univariate,
 };
 use rand::Rng;
-use spaces::real::{Reals, reals};
+use spaces::intervals::LeftClosed;
 use special_fun::FloatSpecial;
 use std::{f64::INFINITY, fmt};
 
@@ -58,10 +58,14 @@ impl GeneralisedExtremeValue {
 }
 
 impl Distribution for GeneralisedExtremeValue {
-    type Support = Reals<f64>;
+    type Support = LeftClosed<f64>;
     type Params = Params;
 
-    fn support(&self) -> Reals<f64> { reals() }
+    fn support(&self) -> LeftClosed<f64> {
+        let (mu, sigma, zeta) = get_params!(self);
+
+        LeftClosed::left_closed(mu - sigma / zeta)
+    }
 
     fn params(&self) -> Params { self.0 }
 
-- 
2.43.0


From fd48141b7015915e9f9c64647a83d92fe8692482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 068/177] fix: generalised Pareto: the support is bounded below

---
 src/univariate/gpd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index dca93f8..e281ba1 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -7,7 +7,7 @@ use crate::{
     Univariate,
 };
 use rand::Rng;
-use spaces::real::{Reals, reals};
+use spaces::intervals::LeftClosed;
 use std::fmt;
 
 pub use crate::params::{Loc, Shape};
@@ -40,10 +40,10 @@ impl GeneralisedPareto {
 }
 
 impl Distribution for GeneralisedPareto {
-    type Support = Reals<f64>;
+    type Support = LeftClosed<f64>;
     type Params = Params;
 
-    fn support(&self) -> Reals<f64> { reals() }
+    fn support(&self) -> LeftClosed<f64> { LeftClosed::left_closed(self.0.mu.0) }
 
     fn params(&self) -> Params { self.0 }
 
-- 
2.43.0


From 61f325190bf9548f663b3685c94dc99fb7d81fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 069/177] fix: generalised extreme value: cumulative function
 and density below the support

---
 src/univariate/gev.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index c32ceec..84fefca 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -52,7 +52,7 @@ impl GeneralisedExtremeValue {
         if (zeta - 0.0) < 1e-7 {
             (-z).exp()
         } else {
-            (1.0 + zeta * z).powf(-1.0 / zeta)
+            (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta)
         }
     }
 }
@@ -78,6 +78,10 @@ impl ContinuousDistribution for GeneralisedExtremeValue {
     fn pdf(&self, x: &f64) -> f64 {
         let tx = self.t_func(*x);
 
+        if (-tx).exp() == 0.0 {
+            return 0.0;
+        }
+
         tx.powf(self.0.zeta.0 + 1.0) * (-tx).exp() / self.0.sigma.0
     }
 }
-- 
2.43.0


From 318089e7e347b6ee9302bce074b78c5f8458cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 070/177] fix: generalised Pareto: cumulative function and
 density below the support

---
 src/univariate/gpd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index e281ba1..6f4bab4 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -49,7 +49,7 @@ impl Distribution for GeneralisedPareto {
 
     fn cdf(&self, x: &f64) -> Probability {
         let (mu, sigma, zeta) = get_params!(self);
-        let z = (x - mu) / sigma;
+        let z = ((x - mu) / sigma).max(0.0);
 
         Probability::new_unchecked(1.0 - (1.0 + zeta * z).powf(-1.0 / zeta))
     }
@@ -62,6 +62,10 @@ impl ContinuousDistribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = (x - mu) / sigma;
 
+        if z < 0.0 {
+            return 0.0;
+        }
+
         (1.0 + zeta * z).powf(-1.0 / zeta - 1.0) / sigma
     }
 }
-- 
2.43.0


From b92a9fb682ae04f6e40b8a7cc3737ee766c405c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 071/177] fix: generalised Pareto: moments exist for small
 zeta, not for large

---
 src/univariate/gpd.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index 6f4bab4..6cd0e31 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -76,8 +76,8 @@ impl UvMoments for GeneralisedPareto {
     fn mean(&self) -> f64 {
         let (mu, sigma, zeta) = get_params!(self);
 
-        if zeta <= 1.0 {
-            undefined!("Mean is undefined for zeta <= 1.")
+        if zeta >= 1.0 {
+            undefined!("Mean is undefined for zeta >= 1.")
         } else {
             mu + sigma / (1.0 - zeta)
         }
@@ -87,8 +87,8 @@ impl UvMoments for GeneralisedPareto {
         let zeta = self.0.zeta.0;
         let sigma = self.0.sigma.0;
 
-        if zeta <= 0.5 {
-            undefined!("Variance is undefined for zeta <= 1/2.")
+        if zeta >= 0.5 {
+            undefined!("Variance is undefined for zeta >= 1/2.")
         } else {
             sigma * sigma / (1.0 - zeta).powi(2) / (1.0 - 2.0 * zeta)
         }
@@ -97,8 +97,8 @@ impl UvMoments for GeneralisedPareto {
     fn skewness(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= ONE_THIRD {
+            undefined!("Skewness is undefined for zeta >= 1/3.")
         } else {
             2.0 * (1.0 + zeta) * (1.0 - 2.0 * zeta).sqrt() / (1.0 - 3.0 * zeta)
         }
@@ -107,8 +107,8 @@ impl UvMoments for GeneralisedPareto {
     fn excess_kurtosis(&self) -> f64 {
         let zeta = self.0.zeta.0;
 
-        if zeta <= ONE_THIRD {
-            undefined!("Skewness is undefined for zeta <= 1/3.")
+        if zeta >= 0.25 {
+            undefined!("Kurtosis is undefined for zeta >= 1/4.")
         } else {
             3.0 * (1.0 - 2.0 * zeta) * (2.0 * zeta * zeta + zeta + 3.0)
                 / (1.0 - 3.0 * zeta)
-- 
2.43.0


From 6e0f06fdade93c2939cf18608866767e8822427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 072/177] fix: inverse gamma: cumulative function

---
 src/univariate/inverse_gamma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index f78a3c4..411942f 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -50,9 +50,13 @@ impl Distribution for InvGamma {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (alpha, beta) = get_params!(self);
 
-        Probability::new_unchecked(alpha.gammainc(beta / x) / alpha.gamma())
+        Probability::new_unchecked((beta / x).gammac(alpha))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 22e012e434eebd81b313bf591cfe2b6dd0d87df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 073/177] fix: inverse gamma: density at, below and just above
 zero

---
 src/univariate/inverse_gamma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 411942f..14906fb 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -66,9 +66,13 @@ impl ContinuousDistribution for InvGamma {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (alpha, beta) = get_params!(self);
 
-        beta.powf(alpha) * x.powf(-alpha - 1.0) * (-beta / x).exp() / alpha.gamma()
+        (alpha * beta.ln() - (alpha + 1.0) * x.ln() - beta / x - alpha.loggamma()).exp()
     }
 }
 
-- 
2.43.0


From c8014c643aa3580a55d9534988b9af2797c1a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 074/177] fix: inverse normal: cumulative function

---
 src/univariate/inverse_normal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index ecaca85..f8799bf 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -69,14 +69,18 @@ impl Distribution for InvNormal {
     fn params(&self) -> Params { self.params }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (mu, lambda) = get_params!(self);
 
         let xom = x / mu;
         let lox_sqrt = (lambda / x).sqrt();
-        let inner_term = lox_sqrt * (xom - 1.0);
 
-        let term1 = self.std_norm.cdf(&inner_term).unwrap();
-        let term2 = (2.0 * lambda / mu).exp() * self.std_norm.cdf(&(&inner_term)).unwrap();
+        let term1 = self.std_norm.cdf(&(lox_sqrt * (xom - 1.0))).unwrap();
+        let term2 = self.std_norm.cdf(&(-lox_sqrt * (xom + 1.0))).unwrap();
+        let term2 = if term2 > 0.0 { (2.0 * lambda / mu).exp() * term2 } else { 0.0 };
 
         Probability::new_unchecked(term1 + term2)
     }
-- 
2.43.0


From f3fef4f4952a20ff28c1c4e3e793960a24468b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 075/177] fix: inverse normal: density at, below and just above
 zero

---
 src/univariate/inverse_normal.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index f8799bf..4a1a75a 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -106,13 +106,17 @@ impl Distribution for InvNormal {
 
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let (mu, lambda) = get_params!(self);
-        let z = (lambda / PI_2 / x / x / x).sqrt();
+        let log_z = 0.5 * (lambda / PI_2).ln() - 1.5 * x.ln();
 
         let diff = x - mu;
         let exponent = (-lambda * diff * diff) / 2.0 / mu / mu / x;
 
-        z * exponent.exp()
+        (log_z + exponent).exp()
     }
 }
 
-- 
2.43.0


From 70ea2fd6db9d6fcdcf9eaf43ce2077a20db234f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 076/177] fix: inverse normal: excess kurtosis

---
 src/univariate/inverse_normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 4a1a75a..e27c9b2 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -140,7 +140,7 @@ impl UvMoments for InvNormal {
     fn excess_kurtosis(&self) -> f64 {
         let (mu, lambda) = get_params!(self);
 
-        16.0 * mu / lambda
+        15.0 * mu / lambda
     }
 }
 
-- 
2.43.0


From 714571775aea3efe6b34b8b77a9994c12745eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 077/177] fix: inverse normal: entropy

---
 src/univariate/inverse_normal.rs | 33 +++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index e27c9b2..7188e23 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -60,6 +60,31 @@ impl From<Params> for InvNormal {
     }
 }
 
+/// exp(z) E_1(z), with E_1 the exponential integral and z > 0.
+fn exp_e1(z: f64) -> f64 {
+    const EULER_GAMMA: f64 = 0.577_215_664_901_532_9;
+
+    if z < 1.0 {
+        let (mut term, mut sum) = (1.0, -EULER_GAMMA - z.ln());
+
+        for k in 1..=20 {
+            let k = k as f64;
+
+            term *= -z / k;
+            sum -= term / k;
+        }
+
+        z.exp() * sum
+    } else {
+        // Continued fraction 1 / (z + 1 - 1 / (z + 3 - 4 / (z + 5 - ...)))
+        (1..=200).rev().fold(0.0, |tail, k| {
+            let k = k as f64;
+
+            k * k / (z + 2.0 * k + 1.0 - tail)
+        }).mul_add(-1.0, z + 1.0).recip()
+    }
+}
+
 impl Distribution for InvNormal {
     type Support = PositiveReals<f64>;
     type Params = Params;
@@ -156,7 +181,13 @@ impl Modes for InvNormal {
 }
 
 impl ShannonEntropy for InvNormal {
-    fn shannon_entropy(&self) -> f64 { (PI_E_2 * self.variance()).ln() / 2.0 }
+    fn shannon_entropy(&self) -> f64 {
+        let (mu, lambda) = get_params!(self);
+        let z = 2.0 * lambda / mu;
+
+        // E[ln(X / mu)] = -exp(z) E_1(z)
+        (PI_E_2 * self.variance()).ln() / 2.0 - 1.5 * exp_e1(z)
+    }
 }
 
 impl fmt::Display for InvNormal {
-- 
2.43.0


From d3fdd973385d6eca12fc87b960396d0ec503ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 078/177] fix: kumaraswamy: cumulative function and density
 outside the unit interval

---
 src/univariate/kumaraswamy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index 0a65ff7..f94e17d 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -48,6 +48,7 @@ impl Distribution for Kumaraswamy {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        let x = x.max(0.0).min(1.0);
         let (a, b) = get_params!(self);
 
         Probability::new_unchecked(1.0 - (1.0 - x.powf(a)).powf(b))
@@ -63,6 +64,10 @@ impl Distribution for Kumaraswamy {
 
 impl ContinuousDistribution for Kumaraswamy {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x < 0.0 || *x > 1.0 {
+            return 0.0;
+        }
+
         let (a, b) = get_params!(self);
 
         a * b * x.powf(a - 1.0) * (1.0 - x.powf(a)).powf(b - 1.0)
-- 
2.43.0


From 881e3018c2953a6d51f2b7b897e78e815a3f0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 079/177] fix: kumaraswamy: entropy for fractional b

---
 src/univariate/kumaraswamy.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/univariate/kumaraswamy.rs b/src/univariate/kumaraswamy.rs
index f94e17d..cb2406f 100644
--- a/src/univariate/kumaraswamy.rs
+++ b/src/univariate/kumaraswamy.rs
@@ -9,9 +9,6 @@ use rand;
 use spaces::intervals::Closed;
 use std::fmt;
 
-#[inline]
-fn harmonic_n(n: usize) -> f64 { (1..=n).map(|i| 1.0 / i as f64).sum() }
-
 shape_params! {
     #[derive(Copy)]
     Params<f64> { a, b }
@@ -120,8 +117,10 @@ impl Modes for Kumaraswamy {
 
 impl ShannonEntropy for Kumaraswamy {
     fn shannon_entropy(&self) -> f64 {
+        use special_fun::FloatSpecial;
+
         let (a, b) = get_params!(self);
-        let hb = harmonic_n(b.floor() as usize);
+        let hb = (b + 1.0).digamma() - 1.0f64.digamma();
 
         (1.0 - 1.0 / b) + (1.0 - 1.0 / a) * hb - (a * b).ln()
     }
-- 
2.43.0


From 56e9e0e6a9854f3871032c6c574efa58635f5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 080/177] fix: laplace: cumulative function and density

---
 src/univariate/laplace.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 973014e..703ae89 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -43,9 +43,17 @@ impl Distribution for Laplace {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        use std::cmp::Ordering::*;
+
         let (mu, b) = get_params!(self);
 
-        Probability::new_unchecked((-((x - mu).abs() / b).abs()).exp() / 2.0 / b)
+        Probability::new_unchecked(match x
+            .partial_cmp(&mu)
+            .expect("Invalid value provided for `mu`.")
+        {
+            Less | Equal => ((x - mu) / b).exp() / 2.0,
+            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
@@ -60,17 +68,9 @@ impl Distribution for Laplace {
 
 impl ContinuousDistribution for Laplace {
     fn pdf(&self, x: &f64) -> f64 {
-        use std::cmp::Ordering::*;
-
         let (mu, b) = get_params!(self);
 
-        match x
-            .partial_cmp(&mu)
-            .expect("Invalid value provided for `mu`.")
-        {
-            Less | Equal => ((x - mu) / b).exp() / 2.0,
-            Greater => 1.0 - ((mu - x) / b).exp() / 2.0,
-        }
+        (-((x - mu).abs() / b).abs()).exp() / 2.0 / b
     }
 }
 
-- 
2.43.0


From 40c1f4cb98c7cf914501850057599d8c92820d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 081/177] fix: levy: cumulative function

---
 src/univariate/levy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 7d3eae0..137b540 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -45,7 +45,11 @@ impl Distribution for Levy {
 
         let (mu, c) = get_params!(self);
 
-        Probability::new_unchecked((c / 2.0 / (x - mu)).erfc())
+        if *x <= mu {
+            return Probability::zero();
+        }
+
+        Probability::new_unchecked((c / 2.0 / (x - mu)).sqrt().erfc())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From f673c719f90f2d16039dd1f72c5c8ab530154356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 082/177] fix: levy: density at, below and just above mu

---
 src/univariate/levy.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 137b540..634003d 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -62,7 +62,11 @@ impl ContinuousDistribution for Levy {
         let diff = x - mu;
         let c_over_2 = c / 2.0;
 
-        (c_over_2 / PI).sqrt() * (-c_over_2 / diff).exp() / diff.powf(THREE_HALVES)
+        if diff <= 0.0 {
+            return 0.0;
+        }
+
+        (c_over_2 / PI).sqrt() * (-c_over_2 / diff - THREE_HALVES * diff.ln()).exp()
     }
 }
 
-- 
2.43.0


From 2fed09dea51de39a46560818d845faccc0bc5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 083/177] fix: levy: the median and the mode exist for every mu

---
 src/univariate/levy.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/univariate/levy.rs b/src/univariate/levy.rs
index 634003d..3701457 100644
--- a/src/univariate/levy.rs
+++ b/src/univariate/levy.rs
@@ -86,22 +86,20 @@ impl Quantiles for Levy {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
     fn median(&self) -> f64 {
-        if self.0.mu.0.abs() < 1e-7 {
-            // TODO
-            unimplemented!("Need an implementation of the inverse ERFC function.")
-        } else {
-            undefined!("median of the Levy distribution is defined only for mu = 0.")
-        }
+        use special_fun::FloatSpecial;
+
+        let (mu, c) = get_params!(self);
+        let z = 0.75f64.norm_inv();
+
+        mu + c / z / z
     }
 }
 
 impl Modes for Levy {
     fn modes(&self) -> Vec<f64> {
-        if self.0.mu.0.abs() < 1e-7 {
-            vec![self.0.c.0 / 3.0]
-        } else {
-            undefined!("mode of the Levy distribution is defined only for mu = 0.")
-        }
+        let (mu, c) = get_params!(self);
+
+        vec![mu + c / 3.0]
     }
 }
 
-- 
2.43.0


From 3b327fe92c6b00fff57cbd2af970e1ca7da8b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 084/177] fix: logistic: density far below the location

---
 src/univariate/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/logistic.rs b/src/univariate/logistic.rs
index e0e4993..4a32ffb 100644
--- a/src/univariate/logistic.rs
+++ b/src/univariate/logistic.rs
@@ -58,7 +58,7 @@ impl Distribution for Logistic {
 
 impl ContinuousDistribution for Logistic {
     fn pdf(&self, x: &f64) -> f64 {
-        let exp_term = (-self.z(*x)).exp();
+        let exp_term = (-self.z(*x).abs()).exp();
         let exp_term_p1 = 1.0 + exp_term;
 
         exp_term / self.0.s.0 / exp_term_p1 / exp_term_p1
-- 
2.43.0


From f8ff9f9b03c4c0628b55267f8d9af16efd115e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 085/177] fix: lognormal: moments and mode take the second
 parameter for the variance it is

---
 src/univariate/lognormal.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c2d2cbb..6ad7ef5 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -77,28 +77,25 @@ impl Univariate for LogNormal {}
 
 impl UvMoments for LogNormal {
     fn mean(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (mu + sigma * sigma / 2.0).exp()
+        (mu + sigma2 / 2.0).exp()
     }
 
     fn variance(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
-        let sigma2 = sigma * sigma;
+        let (mu, sigma2) = get_params!(self);
 
         (sigma2.exp() - 1.0) * (2.0 * mu + sigma2).exp()
     }
 
     fn skewness(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (sigma2.exp() + 2.0) * (sigma2.exp() - 1.0).sqrt()
     }
 
     fn excess_kurtosis(&self) -> f64 {
-        let sigma = (self.0).0.Sigma.0;
-        let sigma2 = sigma * sigma;
+        let sigma2 = (self.0).0.Sigma.0;
 
         (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
     }
@@ -112,9 +109,9 @@ impl Quantiles for LogNormal {
 
 impl Modes for LogNormal {
     fn modes(&self) -> Vec<f64> {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        vec![(mu - sigma * sigma).exp()]
+        vec![(mu - sigma2).exp()]
     }
 }
 
-- 
2.43.0


From 21b596cd51f253ea90a05d8a688e64e7ea5fc1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 086/177] fix: lognormal: samples are exponentials of normal
 samples

---
 src/univariate/lognormal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index 6ad7ef5..e7549d2 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -59,7 +59,9 @@ impl Distribution for LogNormal {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
         use rand_distr::Distribution as _;
 
-        rand_distr::LogNormal::new(self.mean(), self.standard_deviation())
+        let (mu, sigma2) = get_params!(self);
+
+        rand_distr::LogNormal::new(mu, sigma2.sqrt())
             .unwrap()
             .sample(rng)
     }
-- 
2.43.0


From da528104b590cd0d6b8c6de0ad91fb5575b8dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 087/177] fix: lognormal: density and cumulative function at
 and below zero

---
 src/univariate/lognormal.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index e7549d2..eda4c6d 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -51,6 +51,10 @@ impl Distribution for LogNormal {
     fn into_params(self) -> Params { self.0.into_params() }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let ln_x = x.ln();
 
         self.0.cdf(&ln_x)
@@ -69,9 +73,13 @@ impl Distribution for LogNormal {
 
 impl ContinuousDistribution for LogNormal {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let ln_x = x.ln();
 
-        self.0.pdf(&ln_x)
+        self.0.pdf(&ln_x) / x
     }
 }
 
-- 
2.43.0


From e95b71f98bb8e9638d7077c22a4abf349d6b90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 088/177] fix: lognormal: entropy in nats

---
 src/univariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index eda4c6d..d31202d 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -127,9 +127,9 @@ impl Modes for LogNormal {
 
 impl ShannonEntropy for LogNormal {
     fn shannon_entropy(&self) -> f64 {
-        let (mu, sigma) = get_params!(self);
+        let (mu, sigma2) = get_params!(self);
 
-        (sigma * (mu + 0.5).exp() * PI_2.sqrt()).log2()
+        mu + 0.5 + (PI_2 * sigma2).ln() / 2.0
     }
 }
 
-- 
2.43.0


From 9d2c4fcccc91b8b70bc653c02f0fa6323986f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 089/177] fix: lognormal: Fisher information in the location
 and the variance of the logarithm

---
 src/univariate/lognormal.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index d31202d..c38d2ec 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -135,8 +135,7 @@ impl ShannonEntropy for LogNormal {
 
 impl FisherInformation<2> for LogNormal {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
-        let sigma = (self.0).0.Sigma.0;
-        let one_over_sigma2 = 1.0 / sigma / sigma;
+        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;
 
         [
             [one_over_sigma2, 0.0],
-- 
2.43.0


From 8bc4493f3240779cf225b986b43e9e13df989abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 090/177] fix: pareto: the scale x_m is positive

---
 src/univariate/pareto.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 092c01d..824127a 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -9,11 +9,13 @@ use rand::Rng;
 use spaces::intervals::LeftClosed;
 use std::{f64::INFINITY, fmt};
 
-locscale_params! {
+pub use crate::params::{Scale, Shape};
+
+params! {
     #[derive(Copy)]
     Params {
-        x_m<f64>,
-        alpha<f64>
+        x_m: Scale<f64>,
+        alpha: Shape<f64>
     }
 }
 
-- 
2.43.0


From b28ddb914370581dbd16f289f0c92e98cc587bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 091/177] fix: pareto: cumulative function below x_m

---
 src/univariate/pareto.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 824127a..96beac3 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -48,6 +48,10 @@ impl Distribution for Pareto {
     fn cdf(&self, x: &f64) -> Probability {
         let (x_m, alpha) = get_params!(self);
 
+        if *x <= x_m {
+            return Probability::zero();
+        }
+
         Probability::new_unchecked(1.0 - (x_m / x).powf(alpha))
     }
 
-- 
2.43.0


From 0cdff3dd134706019c13a70e63fadd2c06c29b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 092/177] fix: pareto: the powers in the density do not
 overflow

---
 src/univariate/pareto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 96beac3..924995a 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -75,7 +75,7 @@ impl ContinuousDistribution for Pareto {
         } else {
             let alpha = self.0.alpha.0;
 
-            alpha * x_m.powf(alpha) / x.powf(alpha + 1.0)
+            alpha / x * (x_m / x).powf(alpha)
         }
     }
 }
-- 
2.43.0


From 0877b30d7af881a5a56f53ac0b523fb27f625f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 093/177] fix: poisson: zero belongs to the support

---
 src/univariate/poisson.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 892da4b..daf2d01 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -10,7 +10,7 @@ use crate::{
     Univariate,
 };
 use rand::Rng;
-use spaces::discrete::{Naturals, naturals};
+use spaces::discrete::{NonNegativeIntegers, non_negative_integers};
 use std::fmt;
 
 pub use crate::params::Rate;
@@ -43,10 +43,10 @@ impl Poisson {
 }
 
 impl Distribution for Poisson {
-    type Support = Naturals<u64>;
+    type Support = NonNegativeIntegers<u64>;
     type Params = Params;
 
-    fn support(&self) -> Naturals<u64> { naturals() }
+    fn support(&self) -> NonNegativeIntegers<u64> { non_negative_integers() }
 
     fn params(&self) -> Params { self.0 }
 
-- 
2.43.0


From d03d3af67a759dfb56fef936a7bdd0358cdd0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 094/177] fix: poisson: the formula is that of the excess
 kurtosis

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index daf2d01..f82704d 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -78,7 +78,7 @@ impl UvMoments for Poisson {
 
     fn skewness(&self) -> f64 { get_lambda!(self).powf(-ONE_HALF) }
 
-    fn kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
+    fn excess_kurtosis(&self) -> f64 { 1.0 / get_lambda!(self) }
 }
 
 impl Quantiles for Poisson {
-- 
2.43.0


From b16dd2f91be60e11502b76c9e063d6305c90ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 095/177] fix: poisson: median

---
 src/univariate/poisson.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index f82704d..1d9d634 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -1,5 +1,5 @@
 use crate::{
-    consts::{NINETEEN_OVER_360, ONE_HALF, ONE_THIRD, ONE_TWELTH, ONE_TWENTY_FOURTH, PI_E_2},
+    consts::{NINETEEN_OVER_360, ONE_HALF, ONE_TWELTH, ONE_TWENTY_FOURTH, PI_E_2},
     fitting::{Likelihood, Score, MLE},
     statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments},
     utils::log_factorial_stirling,
@@ -85,9 +85,18 @@ impl Quantiles for Poisson {
     fn quantile(&self, _: Probability) -> f64 { unimplemented!() }
 
     fn median(&self) -> f64 {
+        use special_fun::FloatSpecial;
+
         let l = get_lambda!(self);
 
-        (l + ONE_THIRD - 0.02 / l).floor()
+        // The median is at least lambda - ln(2); P(X <= k) = Q(k + 1, lambda).
+        let mut k = (l - 2.0f64.ln()).floor().max(0.0);
+
+        while l.gammac(k + 1.0) < 0.5 {
+            k += 1.0;
+        }
+
+        k
     }
 }
 
-- 
2.43.0


From 7f4fe9034220a2ed08a7d0720cfb46f1bf34bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 096/177] fix: poisson: entropy for small rates

---
 src/univariate/poisson.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 1d9d634..b95579b 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -108,6 +108,13 @@ impl ShannonEntropy for Poisson {
     fn shannon_entropy(&self) -> f64 {
         let l = get_lambda!(self);
 
+        if l < 100.0 {
+            return (0..256)
+                .map(|k| self.log_pmf(&k))
+                .map(|lp| -lp * lp.exp())
+                .sum();
+        }
+
         (PI_E_2 * l).ln() / 2.0
             - ONE_TWELTH / l
             - ONE_TWENTY_FOURTH / l / l
-- 
2.43.0


From f80c15ec1cc4f74f639cf3f67cea8abc9339f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 097/177] fix: poisson: Fisher information

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index b95579b..7a466b3 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -123,7 +123,7 @@ impl ShannonEntropy for Poisson {
 }
 
 impl FisherInformation<1> for Poisson {
-    fn fisher_information(&self) -> [[f64; 1]; 1] { [[get_lambda!(self)]] }
+    fn fisher_information(&self) -> [[f64; 1]; 1] { [[1.0 / get_lambda!(self)]] }
 }
 
 impl Likelihood for Poisson {
-- 
2.43.0


From 0ec13f6284f133f32adab37559a1c54840320ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 098/177] fix: poisson: score

---
 src/univariate/poisson.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 7a466b3..1075f86 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -148,7 +148,7 @@ impl Score for Poisson {
         let l = get_lambda!(self);
 
         Grad {
-            lambda: n + samples.into_iter().sum::<u64>() as f64 / l,
+            lambda: samples.into_iter().sum::<u64>() as f64 / l - n,
         }
     }
 }
-- 
2.43.0


From 1d7753c280f6cd507c5bb06f9b97ac3994f77ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 099/177] fix: rayleigh: cumulative function

---
 src/univariate/rayleigh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index cc10159..aabc06e 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -50,9 +50,13 @@ impl Distribution for Rayleigh {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let sigma = get_sigma!(self);
 
-        Probability::new_unchecked(1.0 - (-x * x / sigma * sigma / 2.0).exp())
+        Probability::new_unchecked(1.0 - (-x * x / sigma / sigma / 2.0).exp())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 117e140dc8dc91c9ce6bc40563137eacc79d8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 100/177] fix: rayleigh: density below zero

---
 src/univariate/rayleigh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index aabc06e..0c5c5ff 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -64,6 +64,10 @@ impl Distribution for Rayleigh {
 
 impl ContinuousDistribution for Rayleigh {
     fn pdf(&self, x: &f64) -> f64 {
+        if *x <= 0.0 {
+            return 0.0;
+        }
+
         let sigma = get_sigma!(self);
         let sigma2 = sigma * sigma;
 
-- 
2.43.0


From a7c4f3eb4c316d59a882307a342c9beb66ed4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 101/177] fix: rayleigh: kurtosis

---
 src/univariate/rayleigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 0c5c5ff..73c60dc 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -15,7 +15,7 @@ const FOUR_MINUS_PI: f64 = 4.0 - PI;
 const FOUR_MINUS_PI_OVER_2: f64 = FOUR_MINUS_PI / 2.0;
 
 const EXCESS_KURTOSIS: f64 =
-    1.5 * PI2 - 6.0 * PI + 16.0 / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
+    -(1.5 * PI2 - 6.0 * PI + 4.0) / FOUR_MINUS_PI_OVER_2 / FOUR_MINUS_PI_OVER_2;
 const KURTOSIS: f64 = EXCESS_KURTOSIS + 3.0;
 
 pub use crate::params::Shape;
-- 
2.43.0


From d718e1d63b8ce8ae33b14a1ec1baa4f42e04efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 102/177] fix: student's t: the degrees of freedom are positive

---
 src/univariate/student_t.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 10d0d13..41525f2 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -10,12 +10,12 @@ use rand::Rng;
 use spaces::real::{Reals, reals};
 use std::fmt;
 
-pub use crate::params::Loc;
+pub use crate::params::DOF;
 
 params! {
     #[derive(Copy)]
     Params {
-        nu: Loc<f64>
+        nu: DOF<f64>
     }
 }
 
-- 
2.43.0


From c863ae6f378295a11cb75b4fa863c6137bd2a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 103/177] fix: student's t: cumulative function

---
 src/univariate/student_t.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 41525f2..313d7cd 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -45,12 +45,9 @@ impl Distribution for StudentT {
         use special_fun::FloatSpecial;
 
         let nu = get_nu!(self);
-        let np1o2 = (nu + 1.0) / 2.0;
-        let hyp2f1 = 0.5f64.hyp2f1(np1o2, 3.0 / 2.0, -x * x / nu);
+        let tail = (nu / (nu + x * x)).betainc(nu / 2.0, 0.5) / 2.0;
 
-        Probability::new_unchecked(
-            0.5 + x * np1o2.gamma() * hyp2f1 / (nu * PI).sqrt() * (nu / 2.0).gamma(),
-        )
+        Probability::new_unchecked(if *x > 0.0 { 1.0 - tail } else { tail })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From a44b1eef78713eab4528b0322aee40a27f7f745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 104/177] fix: student's t: density for large degrees of
 freedom

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 313d7cd..5243d71 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -65,7 +65,7 @@ impl ContinuousDistribution for StudentT {
 
         let nu = get_nu!(self);
         let np1o2 = (nu + 1.0) / 2.0;
-        let norm = np1o2.gamma() / (nu * PI).sqrt() / (nu / 2.0).gamma();
+        let norm = (np1o2.loggamma() - (nu / 2.0).loggamma()).exp() / (nu * PI).sqrt();
 
         norm * (1.0 + x * x / nu).powf(-np1o2)
     }
-- 
2.43.0


From 52eca7753d6d2c3c9e5cfbf64762c71fe5e6f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 105/177] fix: student's t: entropy

---
 src/univariate/student_t.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/student_t.rs b/src/univariate/student_t.rs
index 5243d71..b11b66f 100644
--- a/src/univariate/student_t.rs
+++ b/src/univariate/student_t.rs
@@ -133,7 +133,7 @@ impl ShannonEntropy for StudentT {
         let no2 = nu / 2.0;
         let np1o2 = (nu + 1.0) / 2.0;
 
-        np1o2 * (np1o2.gamma() - no2.gamma()) + (nu.sqrt() * (no2.beta(0.5)))
+        np1o2 * (np1o2.digamma() - no2.digamma()) + nu.ln() / 2.0 + no2.logbeta(0.5)
     }
 }
 
-- 
2.43.0


From d6984e7708a01affa33141d3f2aae9fbd7d39ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 106/177] fix: triangular: mean

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 2c7b76c..53040fa 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -110,7 +110,7 @@ impl UvMoments for Triangular {
     fn mean(&self) -> f64 {
         let (a, b, c) = get_params!(self);
 
-        (a + b + c) / 2.0
+        (a + b + c) / 3.0
     }
 
     fn variance(&self) -> f64 {
-- 
2.43.0


From 961b063b8c937faf57c35de0e3cd088542a2bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 107/177] fix: triangular: density near the mode of a narrow
 law

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 53040fa..cd37710 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -93,7 +93,7 @@ impl ContinuousDistribution for Triangular {
         match *x {
             x if x <= a => 0.0,
 
-            x if (x - c).abs() < 1e-7 => 2.0 / (b - a),
+            x if x == c => 2.0 / (b - a),
 
             x if x < c => 2.0 * (x - a) / (b - a) / (c - a),
 
-- 
2.43.0


From 98739e6ce485b47e07142e99807ba1358acea9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 108/177] fix: weibull: mode

---
 src/univariate/weibull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 46e91ac..e921d92 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -152,7 +152,7 @@ impl Modes for Weibull {
     fn modes(&self) -> Vec<f64> {
         let k = self.0.k.0;
 
-        vec![if k > 0.0 {
+        vec![if k <= 1.0 {
             0.0
         } else {
             self.0.lambda.0 * ((k - 1.0) / k).powf(1.0 / k)
-- 
2.43.0


From 67594983d0141fc92acd0fded254cc9990c398b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 109/177] fix: pareto: Fisher information

---
 src/univariate/pareto.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/pareto.rs b/src/univariate/pareto.rs
index 924995a..19d3fa7 100644
--- a/src/univariate/pareto.rs
+++ b/src/univariate/pareto.rs
@@ -147,11 +147,10 @@ impl ShannonEntropy for Pareto {
 impl FisherInformation<2> for Pareto {
     fn fisher_information(&self) -> [[f64; 2]; 2] {
         let (x_m, alpha) = get_params!(self);
-        let off_diag = -1.0 / x_m;
 
         [
-            [alpha / x_m / x_m, off_diag],
-            [off_diag, 1.0 / alpha / alpha]
+            [alpha * alpha / x_m / x_m, 0.0],
+            [0.0, 1.0 / alpha / alpha]
         ]
     }
 }
-- 
2.43.0


From 16e51dbb6efcbd67a96ca13de3ee0bb7c9136f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 110/177] fix: normal: kurtosis and excess kurtosis

---
 src/normal/univariate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7caad74..f4f63e9 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -131,9 +131,9 @@ impl UvMoments for UvNormal {
 
     fn skewness(&self) -> f64 { 0.0 }
 
-    fn kurtosis(&self) -> f64 { 0.0 }
+    fn kurtosis(&self) -> f64 { 3.0 }
 
-    fn excess_kurtosis(&self) -> f64 { -3.0 }
+    fn excess_kurtosis(&self) -> f64 { 0.0 }
 }
 
 impl Quantiles for UvNormal {
-- 
2.43.0


From a38ce8ceac2442535780424eb74cf4eb64300ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 111/177] fix: normal: log-likelihood

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index f4f63e9..96f56bb 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -174,7 +174,7 @@ impl Likelihood for UvNormal {
         let ls2 = Sigma.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 / 2.0 * (PI_2.ln() + ls2)
+        -no2 * (PI_2.ln() + ls2)
             - samples
                 .into_iter()
                 .map(|x| (*x - mu).powi(2) / 2.0 / Sigma)
-- 
2.43.0


From b4a3533b4c6f0e9cb13353e027e0a91491db6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 112/177] fix: normal: the score is the derivative in the
 variance

---
 src/normal/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 96f56bb..7fe301b 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -197,7 +197,7 @@ impl Score for UvNormal {
 
         Grad {
             mu: sum / Sigma,
-            Sigma: (sum_sq / Sigma - n) / Sigma.sqrt(),
+            Sigma: (sum_sq / Sigma - n) / 2.0 / Sigma,
         }
     }
 }
-- 
2.43.0


From afd015e92a58e0e3759cf826a0b7d7d4bac4e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 113/177] fix: paired normal: the score is the derivative in
 the variances

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 33923f1..0ed2dfa 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -176,8 +176,8 @@ impl Score for PairedNormal {
         Grad {
             mu: [sum[0] / sigma2_0, sum[1] / sigma2_1],
             Sigma: [
-                (sum_sq[0] / sigma2_0 - n) / sigma2_0.sqrt(),
-                (sum_sq[1] / sigma2_1 - n) / sigma2_1.sqrt()
+                (sum_sq[0] / sigma2_0 - n) / 2.0 / sigma2_0,
+                (sum_sq[1] / sigma2_1 - n) / 2.0 / sigma2_1
             ],
         }
     }
-- 
2.43.0


From 0b8ddbb2e829b4792eb046d30ea006b09e73b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 114/177] fix: paired normal: log-likelihood

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 0ed2dfa..2f4cfee 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -151,9 +151,9 @@ impl Likelihood for PairedNormal {
         let ln_det = (sigma2_0 * sigma2_1).ln();
         let no2 = (samples.len() as f64) / 2.0;
 
-        -no2 * (ln_det + 2.0 * PI_2.ln() + samples.into_iter().map(|x| {
+        -no2 * (ln_det + 2.0 * PI_2.ln()) - samples.into_iter().map(|x| {
             (x[0] - mu[0]).powi(2) / sigma2_0 + (x[1] - mu[1]).powi(2) / sigma2_1
-        }).sum::<f64>())
+        }).sum::<f64>() / 2.0
     }
 }
 
-- 
2.43.0


From 2af84edec9f37b7649ff97007b89cd7e2840ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 115/177] fix: paired normal: entropy

---
 src/normal/paired.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 2f4cfee..2baaf4e 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for PairedNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, Sigma) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * Sigma[0] * Sigma[1]
+        1.0 + PI_2.ln() + 0.5 * (Sigma[0] * Sigma[1]).ln()
     }
 }
 
-- 
2.43.0


From 98ad9aea5133f80fbfc4b45ce862610b13d96a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 116/177] fix: bivariate normal: entropy

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 9d9a20b..d3d949b 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for BvNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, [sigma2_0, sigma2_1], rho) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * sigma2_0 * sigma2_1 * (1.0 - rho)
+        1.0 + PI_2.ln() + 0.5 * (sigma2_0 * sigma2_1 * (1.0 - rho * rho)).ln()
     }
 }
 
-- 
2.43.0


From 6d426b0104001f757a100b9f9c50c1f0faf68b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 117/177] fix: bivariate normal: a scaled gradient scales every
 entry

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index d3d949b..398b385 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -37,7 +37,7 @@ impl std::ops::Mul<f64> for BvNormalGrad {
     fn mul(self, sf: f64) -> Self {
         Grad {
             mu: [self.mu[0] * sf, self.mu[1] * sf],
-            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1]], self.Sigma.1 * sf),
+            Sigma: ([self.Sigma.0[0] * sf, self.Sigma.0[1] * sf], self.Sigma.1 * sf),
         }
     }
 }
-- 
2.43.0


From f2971d0c2faa7f52c298db213c83856a8963a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 118/177] fix: multivariate normal: Mahalanobis distance takes
 the whole precision matrix

---
 src/normal/multivariate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index c4be7b6..e4be1db 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -252,11 +252,11 @@ impl<const N: usize> Mahalanobis for MvNormal<N> {
 
             res
         };
-        let Az = unsafe { linalg::mv_mult(&self.precision, z.clone()) };
 
-        IntoIterator::into_iter(z)
-            .zip(IntoIterator::into_iter(Az))
-            .map(|(zi, Azi)| zi * Azi)
+        self.precision
+            .iter()
+            .zip(z.iter())
+            .map(|(row, zi)| zi * row.iter().zip(z.iter()).map(|(p, zj)| p * zj).sum::<f64>())
             .sum()
     }
 }
-- 
2.43.0


From bb63198b38a9211f89a67426107ad99b3671bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 119/177] fix: diagonal normal: Mahalanobis distance

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index e4be1db..43124c6 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -432,7 +432,7 @@ impl<const N: usize> Mahalanobis for DiagonalNormal<N> {
             .zip(self.params.mu.0.iter())
             .map(|(x, y)| x - y)
             .zip(self.precision.iter())
-            .map(|(d, si)| d * si * si)
+            .map(|(d, si)| d * d * si)
             .sum()
     }
 }
-- 
2.43.0


From 7e7e0b37c1503c2eb7bb8a609126dbcb2dcb1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 120/177] fix: isotropic normal: Mahalanobis distance

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 43124c6..6110715 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -673,7 +673,7 @@ impl<const N: usize> Mahalanobis for IsotropicNormal<N> {
     fn d_mahalanobis_squared(&self, x: &[f64; N]) -> f64 {
         x.into_iter()
             .zip(self.params.mu.0.iter())
-            .map(|(x, y)| (x - y) * self.precision * self.precision)
+            .map(|(x, y)| (x - y) * (x - y) * self.precision)
             .sum()
     }
 }
-- 
2.43.0


From 3c3f1dbaa63d57546cd4ae28eca7b4bf57fdb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 121/177] fix: diagonal normal: samples are scaled by the
 standard deviations

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 6110715..f053ab6 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -362,7 +362,7 @@ impl<const N: usize> DiagonalNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0.clone(),
+            Sigma_lt: params.Sigma.0.map(|v| v.sqrt()),
             Sigma_det: params.Sigma.0.iter().product(),
             precision: params.Sigma.0.map(|v| 1.0 / v),
             params,
-- 
2.43.0


From 3289288bd83d8ada13a23ee56184d8affcd1f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 122/177] fix: isotropic normal: samples are scaled by the
 standard deviation

---
 src/normal/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index f053ab6..9c91e57 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -535,7 +535,7 @@ impl<const N: usize> IsotropicNormal<N> {
         };
 
         MvNormal {
-            Sigma_lt: params.Sigma.0,
+            Sigma_lt: params.Sigma.0.sqrt(),
             Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),
             precision: 1.0 / params.Sigma.0,
             params,
-- 
2.43.0


From 23962ecc111ad31864eb5b9a870a652781953241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 123/177] fix: dirichlet: samples are normalised by their own
 sum

---
 src/multivariate/dirichlet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 0fc42eb..77c9af6 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -69,7 +69,7 @@ impl<const N: usize> Distribution for Dirichlet<N> {
             let a = self.alphas.0[i];
             let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
 
-            sum += a;
+            sum += s;
             sample[i] = s;
         }
 
-- 
2.43.0


From 376c9fe037ec396b6f9ec35212c30dfe46021a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 124/177] fix: dirichlet: density on the boundary and off the
 unit cube

---
 src/multivariate/dirichlet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 77c9af6..9005e19 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -87,9 +87,13 @@ impl<const N: usize> ContinuousDistribution for Dirichlet<N> {
     fn log_pdf(&self, xs: &[f64; N]) -> f64 {
         assert!(xs.len() == N, "Input `xs` must have length {}.", N);
 
+        if xs.iter().any(|x| *x < 0.0 || *x > 1.0) {
+            return -std::f64::INFINITY;
+        }
+
         xs.iter()
             .zip(self.alphas.0.iter())
-            .fold(-self.ln_beta_alphas, |acc, (x, a)| acc + (a - 1.0) * x.ln())
+            .fold(-self.ln_beta_alphas, |acc, (x, a)| if *a == 1.0 { acc } else { acc + (a - 1.0) * x.ln() })
     }
 }
 
-- 
2.43.0


From 6883dfe6237cb43f48e3a6e24f8e72b44e73e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 125/177] fix: dirichlet: there is a single mode only when the
 concentrations exceed one

---
 src/multivariate/dirichlet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 9005e19..7db37e8 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -134,6 +134,10 @@ impl<const N: usize> Modes for Dirichlet<N> {
     fn modes(&self) -> Vec<[f64; N]> {
         let k = self.alphas.0.len() as f64;
 
+        if self.alphas.0.iter().any(|a| *a <= 1.0) {
+            return vec![];
+        }
+
         vec![self.alphas.0.map(|a| (a - 1.0) / (self.alpha0 - k))]
     }
 }
-- 
2.43.0


From 77a005bd5ae811f6edb12924c3830e8952abe2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 126/177] fix: multinomial: the mass is zero unless the counts
 add up to n

---
 src/multivariate/multinomial.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/multivariate/multinomial.rs b/src/multivariate/multinomial.rs
index 901cdc4..3f4166c 100644
--- a/src/multivariate/multinomial.rs
+++ b/src/multivariate/multinomial.rs
@@ -90,10 +90,7 @@ impl<const N: usize> Distribution for Multinomial<N> {
 
 impl<const N: usize> DiscreteDistribution for Multinomial<N> {
     fn pmf(&self, xs: &[usize; N]) -> Probability {
-        match xs.iter().fold(0, |acc, x| acc + x) {
-            0 => Probability::zero(),
-            _ => Probability::new(self.log_pmf(xs).exp()).unwrap(),
-        }
+        Probability::new_unchecked(self.log_pmf(xs).exp().min(1.0))
     }
 
     fn log_pmf(&self, xs: &[usize; N]) -> f64 {
@@ -102,8 +99,8 @@ impl<const N: usize> DiscreteDistribution for Multinomial<N> {
         #[allow(unused_parens)]
         let _ = assert_constraint!(xn == (self.0.ps.len())).unwrap();
 
-        if xs.iter().fold(0, |acc, v| acc + *v) == self.0.n.0 {
-            panic!("Total number of trials must be equal to n.")
+        if xs.iter().fold(0, |acc, v| acc + *v) != self.0.n.0 {
+            return -std::f64::INFINITY;
         }
 
         use special_fun::FloatSpecial;
-- 
2.43.0


From 1b806659f7e8c603486ad0680182dba6941f7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 127/177] fix: multivariate lognormal: density

---
 src/multivariate/lognormal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 2c424c5..1785405 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -95,9 +95,13 @@ where
     Normal<N, [f64; N], S>: ContinuousDistribution,
 {
     fn pdf(&self, x: &[f64; N]) -> f64 {
+        if x.iter().any(|v| *v <= 0.0) {
+            return 0.0;
+        }
+
         let log_x = x.map(|v| v.ln());
 
-        self.0.pdf(&log_x)
+        self.0.pdf(&log_x) / x.iter().product::<f64>()
     }
 }
 
-- 
2.43.0


From 42217bb8f099add56e022ab0a8e696c300766c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 128/177] fix: multivariate lognormal: covariance reads the
 variances before they are overwritten

---
 src/multivariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index 1785405..bc3dde8 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -126,13 +126,13 @@ where
     }
 
     fn covariance(&self) -> [[f64; N]; N] {
-        let mu = self.0.mean();
+        let var = self.0.variance();
         let mut cov = self.0.covariance();
 
         macro_rules! update_index {
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
-                let y = (cov[$i][$i] + cov[$j][$j]) / 2.0;
+                let y = (var[$i] + var[$j]) / 2.0;
                 let z = cov[$i][$j].exp() - 1.0;
 
                 cov[$i][$j] = (x + y).exp() * z;
-- 
2.43.0


From ea7ca99b9c632140fbe8df5ad566a9406d5b58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 129/177] fix: a mixture takes exactly one parameter set per
 component

---
 src/mixture.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 5313203..9e93d8f 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -108,6 +108,11 @@ where
     <C::Support as Union<C::Support>>::Output: Closure<Output = C::Support>,
 {
     fn from(params: Params<N, C::Params>) -> Mixture<N, C> {
+        assert_eq!(
+            params.component_params.len(), N,
+            "A mixture of {} components needs as many component parameters.", N
+        );
+
         let mut components: [std::mem::MaybeUninit<C>; N] = unsafe {
             std::mem::MaybeUninit::uninit().assume_init()
         };
-- 
2.43.0


From 77577203eb3de0e0b5c108e61a399b2586de7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 130/177] fix: a distribution may be convolved with a single
 other

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9e42cd9..28ff269 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -297,7 +297,7 @@ pub trait Convolution<D: Distribution = Self> {
         Self: Sized,
     {
         let n = rvs.len();
-        let _ = assert_constraint!(n > 1).map_err(|e| e.with_target("n"))?;
+        let _ = assert_constraint!(n > 0).map_err(|e| e.with_target("n"))?;
 
         let new_dist = self.convolve(rvs.pop().unwrap());
 
-- 
2.43.0


From aafc97bdde1ff0a35c509f54da75b0376befc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 131/177] fix: a covariance matrix may hold negative
 covariances

---
 src/normal/mod.rs         |  4 ++--
 src/params/constraints.rs | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fd034d9..211cad9 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -33,7 +33,7 @@ impl<const N: usize> MatrixCovariance<N> {
     pub fn matrix(Sigma: [[f64; N]; N]) -> Result<Self, failure::Error> {
         let c = constraints::And((
             constraints::Square,
-            constraints::All(constraints::All(constraints::NonNegative))
+            constraints::PositiveDiagonal
         ));
 
         Ok(Covariance(c.check(Sigma)?))
@@ -50,7 +50,7 @@ impl<const N: usize> Param for MatrixCovariance<N> {
     fn constraints() -> Constraints<Self::Value> {
         vec![
             Box::new(constraints::Square),
-            Box::new(constraints::All(constraints::All(constraints::Positive)))
+            Box::new(constraints::PositiveDiagonal)
         ]
     }
 }
diff --git a/src/params/constraints.rs b/src/params/constraints.rs
index 12c8d9f..a43a871 100644
--- a/src/params/constraints.rs
+++ b/src/params/constraints.rs
@@ -415,6 +415,20 @@ impl<const N: usize, T> Constraint<[[T; N]; N]> for Square {
     fn is_satisfied_by(&self, matrix: &[[T; N]; N]) -> bool { true }
 }
 
+/// A diagonal of variances, with covariances of either sign beside it.
+#[derive(Debug, Clone, Copy)]
+pub struct PositiveDiagonal;
+
+impl Display for PositiveDiagonal {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "PositiveDiagonal") }
+}
+
+impl<const N: usize> Constraint<[[f64; N]; N]> for PositiveDiagonal {
+    fn is_satisfied_by(&self, matrix: &[[f64; N]; N]) -> bool {
+        (0..N).all(|i| matrix[i][i] > 0.0 && matrix[i].iter().all(|v| !v.is_nan()))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 63ac744e9583535303a459b16c96594e1f04a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 132/177] fix: a random simplex vector is defined for every
 stream of bits

---
 src/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability.rs b/src/probability.rs
index cb5cd58..ccfb1fb 100644
--- a/src/probability.rs
+++ b/src/probability.rs
@@ -392,7 +392,7 @@ impl<const K: usize> SimplexVector<K> {
         let mut probs = [0.0; K];
 
         for i in 0..K {
-            let x: f64 = rng.sample(rand_distr::OpenClosed01);
+            let x: f64 = rng.sample(rand_distr::Open01);
 
             probs[i] = -x.ln();
             sum += probs[i];
-- 
2.43.0


From 380047f87745c37c2439568a52ae94fde1f1490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 133/177] fix: gamma, chi, chi-squared: densities and moments
 no longer overflow part way

---
 src/univariate/chi.rs    |  7 ++++---
 src/univariate/chi_sq.rs |  5 +++--
 src/univariate/gamma.rs  |  3 ++-
 src/utils.rs             | 10 ++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 8ba9a2b..a102ad8 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -5,6 +5,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand::Rng;
 use spaces::real::{PositiveReals, positive_reals};
@@ -57,9 +58,9 @@ impl ContinuousDistribution for Chi {
 
         let k = get_k!(self);
         let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2 - 1.0) * ko2.gamma();
+        let log_norm = (ko2 - 1.0) * 2.0f64.ln() + ko2.loggamma();
 
-        x.powf(k - 1.0) * (-x * x / 2.0).exp() / norm
+        (xlogy(k - 1.0, *x) - x * x / 2.0 - log_norm).exp()
     }
 }
 
@@ -69,7 +70,7 @@ impl UvMoments for Chi {
     fn mean(&self) -> f64 {
         let k = get_k!(self);
 
-        2.0f64.sqrt() * ((k + 1.0) / 2.0).gamma() / (k / 2.0).gamma()
+        2.0f64.sqrt() * (((k + 1.0) / 2.0).loggamma() - (k / 2.0).loggamma()).exp()
     }
 
     fn variance(&self) -> f64 {
diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index d4ee874..52ff29c 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -5,6 +5,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand;
 use spaces::real::{PositiveReals, positive_reals};
@@ -66,9 +67,9 @@ impl ContinuousDistribution for ChiSq {
 
         let k = get_k!(self);
         let ko2 = k / 2.0;
-        let norm = 2.0f64.powf(ko2) * ko2.gamma();
+        let log_norm = ko2 * 2.0f64.ln() + ko2.loggamma();
 
-        x.powf(ko2 - 1.0) * (-x / 2.0).exp() / norm
+        (xlogy(ko2 - 1.0, *x) - x / 2.0 - log_norm).exp()
     }
 }
 
diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 0605b03..cd38f0c 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -7,6 +7,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand::Rng;
 use spaces::real::{PositiveReals, positive_reals};
@@ -87,7 +88,7 @@ impl ContinuousDistribution for Gamma {
 
         let (a, b) = get_params!(self);
 
-        b.powf(a) * x.powf(a - 1.0) * (-b * x).exp() / a.gamma()
+        (xlogy(a - 1.0, *x) - b * x + a * b.ln() - a.loggamma()).exp()
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index 2850346..800adfc 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -10,6 +10,16 @@ pub fn factorial(n: u64) -> u64 {
     }
 }
 
+/// `a * x.ln()`, taking the product to be zero when `a` is.
+#[allow(dead_code)]
+pub(crate) fn xlogy(a: f64, x: f64) -> f64 {
+    if a == 0.0 {
+        0.0
+    } else {
+        a * x.ln()
+    }
+}
+
 pub fn log_factorial_stirling(n: u64) -> f64 {
     if n > 254 {
         let x = (n + 1) as f64;
-- 
2.43.0


From 451ac7769583337036c4ce91cd50cc7372f83e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 134/177] fix: gamma, chi-squared, inverse gamma, F: entropy of
 large shapes

---
 src/univariate/chi_sq.rs        | 2 +-
 src/univariate/f_dist.rs        | 2 +-
 src/univariate/gamma.rs         | 2 +-
 src/univariate/inverse_gamma.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 52ff29c..d6193d3 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -104,7 +104,7 @@ impl ShannonEntropy for ChiSq {
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
-        ko2 + (2.0 * ko2.gamma()).ln() + (1.0 - ko2) * ko2.digamma()
+        ko2 + 2.0f64.ln() + ko2.loggamma() + (1.0 - ko2) * ko2.digamma()
     }
 }
 
diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 1c18bb9..7acbf6b 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -165,7 +165,7 @@ impl ShannonEntropy for FDist {
         let d1o2 = d1 / 2.0;
         let d2o2 = d2 / 2.0;
 
-        d1o2.gamma().ln() + d2o2.gamma().ln() - ((d1 + d2) / 2.0).gamma().ln()
+        d1o2.loggamma() + d2o2.loggamma() - ((d1 + d2) / 2.0).loggamma()
             + (1.0 - d1o2) * d1o2.digamma()
             - (1.0 + d2o2) * d2o2.digamma()
             + ((d1 + d2) / 2.0) * ((d1 + d2) / 2.0).digamma()
diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index cd38f0c..d8a9334 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -125,7 +125,7 @@ impl ShannonEntropy for Gamma {
     fn shannon_entropy(&self) -> f64 {
         let (a, b) = get_params!(self);
 
-        a - b.ln() + a.gamma().ln() + (1.0 - a) * a.digamma()
+        a - b.ln() + a.loggamma() + (1.0 - a) * a.digamma()
     }
 }
 
diff --git a/src/univariate/inverse_gamma.rs b/src/univariate/inverse_gamma.rs
index 14906fb..b5c5a82 100644
--- a/src/univariate/inverse_gamma.rs
+++ b/src/univariate/inverse_gamma.rs
@@ -127,7 +127,7 @@ impl ShannonEntropy for InvGamma {
 
         let (alpha, beta) = get_params!(self);
 
-        alpha + (beta * alpha.gamma()).ln() - (1.0 + alpha) * alpha.digamma()
+        alpha + beta.ln() + alpha.loggamma() - (1.0 + alpha) * alpha.digamma()
     }
 }
 
-- 
2.43.0


From 6657a931fbcf8c734c86796851862c867493992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 135/177] fix: beta, beta prime, F: densities on the log scale

---
 src/univariate/beta.rs       | 6 ++----
 src/univariate/beta_prime.rs | 6 ++----
 src/univariate/f_dist.rs     | 6 +++---
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 4f6adfe..53cbe74 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -5,6 +5,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand;
 use spaces::intervals::Closed;
@@ -74,10 +75,7 @@ impl ContinuousDistribution for Beta {
 
         let (a, b) = get_params!(self);
 
-        let numerator = x.powf(a - 1.0) * (1.0 - x).powf(b - 1.0);
-        let denominator = a.beta(b);
-
-        numerator / denominator
+        (xlogy(a - 1.0, *x) + xlogy(b - 1.0, 1.0 - x) - a.logbeta(b)).exp()
     }
 }
 
diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 62666c2..7802d8e 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -4,6 +4,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand::Rng;
 use spaces::real::{PositiveReals, positive_reals};
@@ -70,10 +71,7 @@ impl ContinuousDistribution for BetaPrime {
 
         let (a, b) = get_params!(self);
 
-        let numerator = x.powf(a - 1.0) * (1.0 + x).powf(-a - b);
-        let denominator = a.beta(b);
-
-        numerator / denominator
+        (xlogy(a - 1.0, *x) - (a + b) * x.ln_1p() - a.logbeta(b)).exp()
     }
 }
 
diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 7acbf6b..f3af8a1 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -78,10 +78,10 @@ impl ContinuousDistribution for FDist {
         let (d1, d2) = (d1 as f64, d2 as f64);
 
         let z = d1 * x / (d1 * x + d2);
-        let numerator = z.powf(d1 / 2.0) * (d2 / (d1 * x + d2)).powf(d2 / 2.0);
-        let denominator = x * (d1 / 2.0).beta(d2 / 2.0);
+        let log_numerator = d1 / 2.0 * z.ln() + d2 / 2.0 * (d2 / (d1 * x + d2)).ln();
+        let log_denominator = x.ln() + (d1 / 2.0).logbeta(d2 / 2.0);
 
-        numerator / denominator
+        (log_numerator - log_denominator).exp()
     }
 }
 
-- 
2.43.0


From 12bebd183ff3453dc19c895268154dc914609de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 136/177] fix: Weibull: density far in the tail

---
 src/univariate/weibull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index e921d92..08bc1af 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -5,6 +5,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand::Rng;
 use spaces::real::{PositiveReals, positive_reals};
@@ -69,7 +70,7 @@ impl ContinuousDistribution for Weibull {
             let (lambda, k) = get_params!(self);
             let xol = x / lambda;
 
-            k / lambda * xol.powf(k - 1.0) * (-xol.powf(k)).exp()
+            k / lambda * (xlogy(k - 1.0, xol) - xol.powf(k)).exp()
         } else {
             0.0
         }
-- 
2.43.0


From 74b4ca14475078a5857ee2c85790a2724b1433cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 137/177] fix: binomial, beta-binomial: masses for large n

---
 src/univariate/beta_binomial.rs |  9 +++++----
 src/univariate/binomial.rs      | 13 +++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/univariate/beta_binomial.rs b/src/univariate/beta_binomial.rs
index c89bcbf..151087e 100644
--- a/src/univariate/beta_binomial.rs
+++ b/src/univariate/beta_binomial.rs
@@ -1,6 +1,5 @@
 use crate::{
     statistics::UvMoments,
-    utils::*,
     DiscreteDistribution,
     Distribution,
     Probability,
@@ -52,11 +51,13 @@ impl BetaBinomial {
             return 0.0;
         }
 
-        let c = choose(n as u64, k as u64) as f64;
-        let z = alpha.beta(beta);
+        let log_c: f64 = (0..k.min(n - k))
+            .map(|i| ((n - i) as f64 / (i + 1) as f64).ln())
+            .sum();
+        let log_z = alpha.logbeta(beta);
         let k = k as f64;
 
-        c * (k + alpha).beta(n as f64 - k + beta) / z
+        (log_c + (k + alpha).logbeta(n as f64 - k + beta) - log_z).exp().min(1.0)
     }
 }
 
diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 903794e..38fb0c4 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -6,6 +6,7 @@ use crate::{
     Distribution,
     Probability,
     Univariate,
+    utils::xlogy,
 };
 use rand;
 use spaces::intervals::Closed;
@@ -92,14 +93,14 @@ impl DiscreteDistribution for Binomial {
             return Probability::zero();
         }
 
-        let bc = (0..(*k).min(n - *k))
-            .fold(1.0, |acc, i| acc * (n - i) as f64 / (i + 1) as f64);
+        let log_bc: f64 = (0..(*k).min(n - *k))
+            .map(|i| ((n - i) as f64 / (i + 1) as f64).ln())
+            .sum();
 
-        let prob_successes = p.powi(*k as i32);
-        let prob_failures = self.q.powi((n - *k) as i32);
-        let prob = prob_successes * prob_failures;
+        let log_successes = xlogy(*k as f64, p.unwrap());
+        let log_failures = xlogy((n - *k) as f64, self.q.unwrap());
 
-        Probability::new_unchecked(bc * prob)
+        Probability::new_unchecked((log_bc + log_successes + log_failures).exp().min(1.0))
     }
 }
 
-- 
2.43.0


From 0bf87655e3e72e095d4f8d479d9b8af3872ae0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 138/177] fix: triangular: entropy

---
 src/univariate/triangular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index cd37710..59862ab 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -160,7 +160,7 @@ impl Modes for Triangular {
 }
 
 impl ShannonEntropy for Triangular {
-    fn shannon_entropy(&self) -> f64 { 1.0 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
+    fn shannon_entropy(&self) -> f64 { 0.5 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
 }
 
 impl fmt::Display for Triangular {
-- 
2.43.0


From 4f83441dbfd4fef4115b8c3c8e3baa3b6d41aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 139/177] fix: Cauchy, normal: quantiles of zero and one are
 infinite

---
 src/normal/univariate.rs | 6 +++++-
 src/univariate/cauchy.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index 7fe301b..a11b77b 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -142,7 +142,11 @@ impl Quantiles for UvNormal {
 
         let (mu, Sigma) = get_params!(self);
 
-        mu + Sigma.sqrt() * p.unwrap().norm_inv()
+        match p.unwrap() {
+            p if p == 0.0 => f64::NEG_INFINITY,
+            p if p == 1.0 => f64::INFINITY,
+            p => mu + Sigma.sqrt() * p.norm_inv(),
+        }
     }
 
     fn median(&self) -> f64 { self.0.mu.0 }
diff --git a/src/univariate/cauchy.rs b/src/univariate/cauchy.rs
index 43b419b..6bfafee 100644
--- a/src/univariate/cauchy.rs
+++ b/src/univariate/cauchy.rs
@@ -86,7 +86,11 @@ impl Quantiles for Cauchy {
     fn quantile(&self, p: Probability) -> f64 {
         let (x0, gamma) = get_params!(self);
 
-        x0 + gamma * (PI * (p - 0.5)).tan()
+        match p.unwrap() {
+            p if p == 0.0 => f64::NEG_INFINITY,
+            p if p == 1.0 => f64::INFINITY,
+            p => x0 + gamma * (PI * (p - 0.5)).tan(),
+        }
     }
 
     fn median(&self) -> f64 { self.0.x0.0 }
-- 
2.43.0


From 4f4a826a47b523038e78ecca4fed6641295177fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 140/177] fix: normal: cumulative probability of very large
 arguments

---
 src/normal/univariate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/normal/univariate.rs b/src/normal/univariate.rs
index a11b77b..8234a00 100644
--- a/src/normal/univariate.rs
+++ b/src/normal/univariate.rs
@@ -100,7 +100,8 @@ impl Distribution for UvNormal {
                     1.0
                 }
             },
-            _ => self.z(*x).norm(),
+            // Beyond 40 standard deviations the probability is exactly zero or one.
+            _ => self.z(*x).max(-40.0).min(40.0).norm(),
         })
     }
 
-- 
2.43.0


From a24813d598963d2665d55501bf8f98cf2231b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 141/177] fix: inverse normal, folded normal, cosine, chi:
 cumulative probabilities stay within [0, 1]

---
 src/univariate/chi.rs            | 8 +++++++-
 src/univariate/cosine.rs         | 4 +++-
 src/univariate/folded_normal.rs  | 9 +++++++--
 src/univariate/inverse_normal.rs | 2 +-
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index a102ad8..17053e2 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -44,7 +44,13 @@ impl Distribution for Chi {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
-        Probability::new_unchecked((x.max(0.0).powi(2) / 2.0).gammainc(get_k!(self) / 2.0))
+        let z = x.max(0.0).powi(2) / 2.0;
+
+        if z.is_infinite() {
+            return Probability::one();
+        }
+
+        Probability::new_unchecked(z.gammainc(get_k!(self) / 2.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index a468695..2cb151a 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -59,7 +59,9 @@ impl Distribution for Cosine {
     fn cdf(&self, x: &f64) -> Probability {
         let z = self.z(*x).max(-1.0).min(1.0);
 
-        Probability::new_unchecked(0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin()))
+        Probability::new_unchecked(
+            (0.5 * (1.0 + z + ONE_OVER_PI * (z * PI).sin())).max(0.0).min(1.0),
+        )
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index a0fb8ec..323c561 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -64,12 +64,17 @@ impl Distribution for FoldedNormal {
     fn cdf(&self, x: &f64) -> Probability {
         use special_fun::FloatSpecial;
 
-        let x = x.max(0.0);
+        if *x <= 0.0 {
+            return Probability::zero();
+        }
+
         let (mu, sigma) = get_params!(self);
         let sqrt_2: f64 = 2.0f64.sqrt();
 
         Probability::new_unchecked(
-            0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()),
+            (0.5 * (((x + mu) / sigma / sqrt_2).erf() + ((x - mu) / sigma / sqrt_2).erf()))
+                .max(0.0)
+                .min(1.0),
         )
     }
 
diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 7188e23..2c59237 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -107,7 +107,7 @@ impl Distribution for InvNormal {
         let term2 = self.std_norm.cdf(&(-lox_sqrt * (xom + 1.0))).unwrap();
         let term2 = if term2 > 0.0 { (2.0 * lambda / mu).exp() * term2 } else { 0.0 };
 
-        Probability::new_unchecked(term1 + term2)
+        Probability::new_unchecked((term1 + term2).min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 116a0f42079d3d2bf35d53dadc658636a0412631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 142/177] fix: Poisson: an integer rate has two modes

---
 src/univariate/poisson.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/univariate/poisson.rs b/src/univariate/poisson.rs
index 1075f86..39dcc7a 100644
--- a/src/univariate/poisson.rs
+++ b/src/univariate/poisson.rs
@@ -101,7 +101,16 @@ impl Quantiles for Poisson {
 }
 
 impl Modes for Poisson {
-    fn modes(&self) -> Vec<u64> { vec![get_lambda!(self).floor() as u64] }
+    fn modes(&self) -> Vec<u64> {
+        let l = get_lambda!(self);
+        let m = l.floor() as u64;
+
+        if m as f64 == l && m > 0 {
+            vec![m - 1, m]
+        } else {
+            vec![m]
+        }
+    }
 }
 
 impl ShannonEntropy for Poisson {
-- 
2.43.0


From 917ed78411b41fa21182b0346e2c5dc08f8afbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 143/177] fix: beta: the mode of a monotone density

---
 src/univariate/beta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 53cbe74..66692ac 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -145,6 +145,10 @@ impl Modes for Beta {
             vec![(a - 1.0) / (a + b - 2.0)]
         } else if a < 1.0 && b < 1.0 {
             vec![0.0, 1.0]
+        } else if a > b {
+            vec![1.0]
+        } else if a < b {
+            vec![0.0]
         } else {
             vec![]
         }
-- 
2.43.0


From 76002a576483b51974a764c34965070c299852ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 144/177] fix: F: the mode of two degrees of freedom

---
 src/univariate/f_dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index f3af8a1..d46ad29 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -145,7 +145,7 @@ impl UvMoments for FDist {
 impl Modes for FDist {
     fn modes(&self) -> Vec<f64> {
         match self.0.d1.0 {
-            d1 if d1 <= 2 => undefined!("Mode is undefined for values of d1 <= 2."),
+            d1 if d1 < 2 => undefined!("Mode is undefined for values of d1 < 2."),
             d1 => {
                 let (d1, d2) = (d1 as f64, self.0.d2.0 as f64);
 
-- 
2.43.0


From 5bd932ad452c76a58ae670ee5a0ae7ad73c2b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 145/177] fix: inverse normal: second term of the cumulative
 probability for concentrated laws

---
 src/univariate/inverse_normal.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index 2c59237..fd41bf8 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -104,8 +104,19 @@ impl Distribution for InvNormal {
         let lox_sqrt = (lambda / x).sqrt();
 
         let term1 = self.std_norm.cdf(&(lox_sqrt * (xom - 1.0))).unwrap();
-        let term2 = self.std_norm.cdf(&(-lox_sqrt * (xom + 1.0))).unwrap();
-        let term2 = if term2 > 0.0 { (2.0 * lambda / mu).exp() * term2 } else { 0.0 };
+        let b = lox_sqrt * (xom + 1.0);
+        let term2 = if b > 20.0 {
+            // exp(2 lambda / mu) and the normal probability at -b may overflow and underflow: their
+            // product is the normal density at the argument of term1, times Mills' ratio at b.
+            let a = lox_sqrt * (xom - 1.0);
+            let c = 1.0 / b / b;
+            let series = 1.0
+                - c * (1.0 - 3.0 * c * (1.0 - 5.0 * c * (1.0 - 7.0 * c * (1.0 - 9.0 * c * (1.0 - 11.0 * c)))));
+
+            (-a * a / 2.0).exp() / PI_2.sqrt() / b * series
+        } else {
+            (2.0 * lambda / mu).exp() * self.std_norm.cdf(&-b).unwrap()
+        };
 
         Probability::new_unchecked((term1 + term2).min(1.0))
     }
-- 
2.43.0


From 9dada07800b0cbb9028fb99f87e509bd9124ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 146/177] fix: binomial: small masses keep the exact product

---
 src/univariate/binomial.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/univariate/binomial.rs b/src/univariate/binomial.rs
index 38fb0c4..f8b4f17 100644
--- a/src/univariate/binomial.rs
+++ b/src/univariate/binomial.rs
@@ -93,6 +93,19 @@ impl DiscreteDistribution for Binomial {
             return Probability::zero();
         }
 
+        if n < 1000 {
+            let bc = (0..(*k).min(n - *k))
+                .fold(1.0, |acc, i| acc * (n - i) as f64 / (i + 1) as f64);
+
+            let prob_successes = p.powi(*k as i32);
+            let prob_failures = self.q.powi((n - *k) as i32);
+            let prob = prob_successes * prob_failures;
+
+            if prob >= f64::MIN_POSITIVE {
+                return Probability::new_unchecked(bc * prob);
+            }
+        }
+
         let log_bc: f64 = (0..(*k).min(n - *k))
             .map(|i| ((n - i) as f64 / (i + 1) as f64).ln())
             .sum();
-- 
2.43.0


From 702d2e867072d9b3508a87abb90458664d7eb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 147/177] fix: Frechet: samples are drawn from the open unit
 interval, never the excluded bound

---
 src/univariate/frechet.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/univariate/frechet.rs b/src/univariate/frechet.rs
index be7c95c..7a8ba6b 100644
--- a/src/univariate/frechet.rs
+++ b/src/univariate/frechet.rs
@@ -1,6 +1,5 @@
 use crate::{
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
-    univariate::uniform::Uniform,
     ContinuousDistribution,
     Distribution,
     Probability,
@@ -49,9 +48,9 @@ impl Distribution for Frechet {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        let u = Uniform::default();
+        let u: f64 = rng.sample(rand::distributions::Open01);
 
-        (-u.sample(rng).ln()).powf(-1.0 / get_alpha!(self))
+        (-u.ln()).powf(-1.0 / get_alpha!(self))
     }
 }
 
-- 
2.43.0


From eaace4b4d197eeb7a4623b9a369cbad6753d8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 148/177] fix: Laplace: samples are finite

---
 src/univariate/laplace.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/univariate/laplace.rs b/src/univariate/laplace.rs
index 703ae89..02e6240 100644
--- a/src/univariate/laplace.rs
+++ b/src/univariate/laplace.rs
@@ -57,9 +57,7 @@ impl Distribution for Laplace {
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-        use rand_distr::Distribution as _;
-
-        let u: f64 = rand_distr::Uniform::new(-0.5, 0.5).sample(rng);
+        let u = rng.sample::<f64, _>(rand::distributions::Open01) - 0.5;
         let (mu, b) = get_params!(self);
 
         mu - b * u.signum() * (1.0 - 2.0 * u.abs()).ln()
-- 
2.43.0


From 73cc66721cbe7f48579a0b5af4325a46603fb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 149/177] fix: gamma: the log-likelihood is the sum of the log
 densities, also of small and impossible observations

---
 src/univariate/gamma.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index d8a9334..ff4755e 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -81,14 +81,14 @@ impl Distribution for Gamma {
 }
 
 impl ContinuousDistribution for Gamma {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         if *x < 0.0 {
-            return 0.0;
+            return std::f64::NEG_INFINITY;
         }
 
         let (a, b) = get_params!(self);
 
-        (xlogy(a - 1.0, *x) - b * x + a * b.ln() - a.loggamma()).exp()
+        xlogy(a - 1.0, *x) - b * x + a * b.ln() - a.loggamma()
     }
 }
 
@@ -131,19 +131,7 @@ impl ShannonEntropy for Gamma {
 
 impl Likelihood for Gamma {
     fn log_likelihood(&self, samples: &[f64]) -> f64 {
-        const JITTER: f64 = 1e-9;
-
-        let n = samples.len() as f64;
-
-        let (a, b) = get_params!(self);
-        let am1 = a - 1.0;
-
-        let t1 = samples
-            .into_iter()
-            .map(|x| am1 * x.max(JITTER).ln() - b * x)
-            .sum::<f64>();
-
-        t1 + n * (a * b.ln() - a.loggamma())
+        samples.into_iter().map(|x| self.log_pdf(x)).sum()
     }
 }
 
-- 
2.43.0


From 9d7fdb7e4ed2a47ce8bacd1920c4e94d5665cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 150/177] fix: gamma: the score of small observations

---
 src/univariate/gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index ff4755e..15d98a2 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -139,7 +139,7 @@ impl Score for Gamma {
     type Grad = Grad;
 
     fn score(&self, samples: &[f64]) -> Grad {
-        const JITTER: f64 = 1e-9;
+        const JITTER: f64 = std::f64::MIN_POSITIVE;
 
         let n = samples.len() as f64;
 
@@ -147,7 +147,7 @@ impl Score for Gamma {
         let a_digamma = a.digamma();
 
         let [grad_a, grad_b] = samples.into_iter().fold([0.0; 2], |acc, x| {
-            [acc[0] + (x * b).max(JITTER).ln(), acc[1] - x]
+            [acc[0] + x.max(JITTER).ln() + b.ln(), acc[1] - x]
         });
 
         Grad {
-- 
2.43.0


From 24115997fe76bba17d8549b91dddeb7df20e0596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 151/177] fix: beta: the log-likelihood is the sum of the log
 densities, also of small and impossible observations

---
 src/univariate/beta.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 66692ac..79c2696 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -68,14 +68,14 @@ impl Distribution for Beta {
 }
 
 impl ContinuousDistribution for Beta {
-    fn pdf(&self, x: &f64) -> f64 {
+    fn log_pdf(&self, x: &f64) -> f64 {
         if *x < 0.0 || *x > 1.0 {
-            return 0.0;
+            return std::f64::NEG_INFINITY;
         }
 
         let (a, b) = get_params!(self);
 
-        (xlogy(a - 1.0, *x) + xlogy(b - 1.0, 1.0 - x) - a.logbeta(b)).exp()
+        xlogy(a - 1.0, *x) + xlogy(b - 1.0, 1.0 - x) - a.logbeta(b)
     }
 }
 
@@ -166,18 +166,7 @@ impl ShannonEntropy for Beta {
 
 impl Likelihood for Beta {
     fn log_likelihood(&self, samples: &[f64]) -> f64 {
-        const JITTER: f64 = 1e-9;
-
-        let n = samples.len() as f64;
-
-        let (a, b) = get_params!(self);
-        let (am1, bm1) = (a - 1.0, b - 1.0);
-
-        samples
-            .into_iter()
-            .map(|x| am1 * x.max(JITTER).ln() + bm1 * (1.0 - x).max(JITTER).ln())
-            .sum::<f64>()
-            - n * a.logbeta(b)
+        samples.into_iter().map(|x| self.log_pdf(x)).sum()
     }
 }
 
-- 
2.43.0


From 9a7ed44ec245ba55c829bc603382f2c9a3062918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 152/177] fix: beta: the score of observations near the bounds

---
 src/univariate/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/beta.rs b/src/univariate/beta.rs
index 79c2696..fdd6449 100644
--- a/src/univariate/beta.rs
+++ b/src/univariate/beta.rs
@@ -174,7 +174,7 @@ impl Score for Beta {
     type Grad = Grad;
 
     fn score(&self, samples: &[f64]) -> Grad {
-        const JITTER: f64 = 1e-9;
+        const JITTER: f64 = std::f64::MIN_POSITIVE;
 
         let (a, b) = get_params!(self);
 
-- 
2.43.0


From 10fb7cca2f70f34c3105268ad9b2ab011bcfb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 153/177] fix: mixture: a component of weight zero does not
 count, whatever its mean or density

---
 src/mixture.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 9e93d8f..95990a2 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -179,6 +179,7 @@ where
         self.components
             .iter()
             .zip(self.weights.iter())
+            .filter(|(_, &p)| p != 0.0)
             .map(|(c, p)| p * c.pdf(x))
             .sum()
     }
@@ -193,6 +194,7 @@ where
         self.components
             .iter()
             .zip(self.weights.iter())
+            .filter(|(_, &w)| w != 0.0)
             .fold(0.0, |acc, (c, &w)| acc + w * c.mean())
     }
 
-- 
2.43.0


From 13aab5a3d1baa9ee4564a2365292ead4dbaeb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 154/177] fix: mixture: the variance is summed about the mean,
 and infinite where a component's is

---
 src/mixture.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 95990a2..566fe19 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -199,21 +199,23 @@ where
     }
 
     fn variance(&self) -> f64 {
-        let (mean, var_term) =
-            self.components
-                .iter()
-                .zip(self.weights.iter())
-                .fold((0.0, 0.0), |acc, (c, &p)| {
-                    let c_mean = c.mean();
-                    let c_variance = c.variance();
-
-                    (
-                        acc.0 + p * c_mean,
-                        acc.1 + p * (c_mean * c_mean + c_variance),
-                    )
-                });
-
-        var_term - mean * mean
+        let mean = self.mean();
+
+        self.components
+            .iter()
+            .zip(self.weights.iter())
+            .filter(|(_, &p)| p != 0.0)
+            .fold(0.0, |acc, (c, &p)| {
+                let c_variance = c.variance();
+
+                if c_variance.is_infinite() {
+                    acc + c_variance
+                } else {
+                    let deviation = c.mean() - mean;
+
+                    acc + p * (c_variance + deviation * deviation)
+                }
+            })
     }
 
     fn skewness(&self) -> f64 { todo!() }
-- 
2.43.0


From 5ce316e91eebf022bfa0b0d9c65dae19e77dd54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 155/177] fix: mixture: rounding does not take the cdf above
 one

---
 src/mixture.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixture.rs b/src/mixture.rs
index 566fe19..6da5c04 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -149,14 +149,14 @@ where
     }
 
     fn cdf(&self, x: &<Self::Support as Space>::Value) -> Probability {
-        let p = self
+        let p: f64 = self
             .components
             .iter()
             .zip(self.weights.iter())
             .map(|(c, p)| p * c.cdf(x))
             .sum();
 
-        Probability::new_unchecked(p)
+        Probability::new_unchecked(p.min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> <Self::Support as Space>::Value {
-- 
2.43.0


From ed68d7944bbec5fcfa75b498eda780f8049d900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 156/177] fix: multivariate normal: the determinant of the
 covariance may leave the floating-point range, its logarithm does not

---
 src/normal/multivariate.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/normal/multivariate.rs b/src/normal/multivariate.rs
index 9c91e57..15a7174 100644
--- a/src/normal/multivariate.rs
+++ b/src/normal/multivariate.rs
@@ -22,7 +22,7 @@ type Supp<const N: usize> = [Reals<f64>; N];
 pub struct MvNormal<const N: usize, M = [f64; N], S = [[f64; N]; N]> {
     pub(crate) params: Params<M, S>,
 
-    Sigma_det: f64,
+    Sigma_ln_det: f64,
     Sigma_lt: S,
     precision: S,
 }
@@ -41,7 +41,7 @@ where
     fn shannon_entropy(&self) -> f64 {
         let k = self.params.mu.len() as f64;
 
-        0.5 * (k * (1.0 + PI_2.ln()) + self.Sigma_det.ln())
+        0.5 * (k * (1.0 + PI_2.ln()) + self.Sigma_ln_det)
     }
 }
 
@@ -145,7 +145,7 @@ impl<const N: usize> MvNormal<N> {
 
         unsafe {
             let Sigma_lt = linalg::cholesky(params.Sigma.0.clone());
-            let Sigma_det = (0..N).map(|i| Sigma_lt[i][i]).product::<f64>().powi(2);
+            let Sigma_ln_det = (0..N).map(|i| Sigma_lt[i][i].ln()).sum::<f64>() * 2.0;
 
             let precision = {
                 let lt_inv = linalg::inverse_lt(Sigma_lt.clone());
@@ -157,7 +157,7 @@ impl<const N: usize> MvNormal<N> {
             MvNormal {
                 params,
                 Sigma_lt,
-                Sigma_det,
+                Sigma_ln_det,
                 precision,
             }
         }
@@ -200,9 +200,9 @@ impl<const N: usize> Distribution for MvNormal<N, [f64; N], [[f64; N]; N]> {
 impl<const N: usize> ContinuousDistribution for MvNormal<N> {
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let z = self.d_mahalanobis_squared(x);
-        let norm = (PI_2.powi(N as i32) * self.Sigma_det).sqrt();
+        let ln_norm = N as f64 * PI_2.ln() + self.Sigma_ln_det;
 
-        (-z / 2.0).exp() / norm
+        (-(z + ln_norm) / 2.0).exp()
     }
 }
 
@@ -363,7 +363,7 @@ impl<const N: usize> DiagonalNormal<N> {
 
         MvNormal {
             Sigma_lt: params.Sigma.0.map(|v| v.sqrt()),
-            Sigma_det: params.Sigma.0.iter().product(),
+            Sigma_ln_det: params.Sigma.0.iter().map(|v| v.ln()).sum(),
             precision: params.Sigma.0.map(|v| 1.0 / v),
             params,
         }
@@ -402,9 +402,9 @@ impl<const N: usize> Distribution for DiagonalNormal<N> {
 impl<const N: usize> ContinuousDistribution for DiagonalNormal<N> {
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let z = self.d_mahalanobis_squared(x);
-        let norm = (PI_2.powi(self.params.mu.0.len() as i32) * self.Sigma_det).sqrt();
+        let ln_norm = self.params.mu.0.len() as f64 * PI_2.ln() + self.Sigma_ln_det;
 
-        (-z / 2.0).exp() / norm
+        (-(z + ln_norm) / 2.0).exp()
     }
 }
 
@@ -536,7 +536,7 @@ impl<const N: usize> IsotropicNormal<N> {
 
         MvNormal {
             Sigma_lt: params.Sigma.0.sqrt(),
-            Sigma_det: params.Sigma.0.powi(params.mu.0.len() as i32),
+            Sigma_ln_det: params.Sigma.0.ln() * params.mu.0.len() as f64,
             precision: 1.0 / params.Sigma.0,
             params,
         }
@@ -643,9 +643,9 @@ impl<const N: usize> Distribution for IsotropicNormal<N> {
 impl<const N: usize> ContinuousDistribution for IsotropicNormal<N> {
     fn pdf(&self, x: &[f64; N]) -> f64 {
         let z = self.d_mahalanobis_squared(x);
-        let norm = (PI_2.powi(self.params.mu.0.len() as i32) * self.Sigma_det).sqrt();
+        let ln_norm = self.params.mu.0.len() as f64 * PI_2.ln() + self.Sigma_ln_det;
 
-        (-z / 2.0).exp() / norm
+        (-(z + ln_norm) / 2.0).exp()
     }
 }
 
-- 
2.43.0


From c658342741d09477aa6ae35fb8c3dc1a6de70c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 157/177] fix: bivariate normal: the product of the variances
 may leave the floating-point range

---
 src/normal/bivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/bivariate.rs b/src/normal/bivariate.rs
index 398b385..ca9166b 100644
--- a/src/normal/bivariate.rs
+++ b/src/normal/bivariate.rs
@@ -171,7 +171,7 @@ impl ShannonEntropy for BvNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, [sigma2_0, sigma2_1], rho) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * (sigma2_0 * sigma2_1 * (1.0 - rho * rho)).ln()
+        1.0 + PI_2.ln() + 0.5 * (sigma2_0.ln() + sigma2_1.ln() + (1.0 - rho * rho).ln())
     }
 }
 
-- 
2.43.0


From 01a67b2febc655f63c6ebd907ad508578129270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 158/177] fix: paired normal: the product of the variances may
 leave the floating-point range

---
 src/normal/paired.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normal/paired.rs b/src/normal/paired.rs
index 2baaf4e..2af9a6e 100644
--- a/src/normal/paired.rs
+++ b/src/normal/paired.rs
@@ -140,7 +140,7 @@ impl ShannonEntropy for PairedNormal {
     fn shannon_entropy(&self) -> f64 {
         let (_, Sigma) = get_params!(self);
 
-        1.0 + PI_2.ln() + 0.5 * (Sigma[0] * Sigma[1]).ln()
+        1.0 + PI_2.ln() + 0.5 * (Sigma[0].ln() + Sigma[1].ln())
     }
 }
 
@@ -148,7 +148,7 @@ impl Likelihood for PairedNormal {
     fn log_likelihood(&self, samples: &[[f64; 2]]) -> f64 {
         let (mu, [sigma2_0, sigma2_1]) = get_params!(self);
 
-        let ln_det = (sigma2_0 * sigma2_1).ln();
+        let ln_det = sigma2_0.ln() + sigma2_1.ln();
         let no2 = (samples.len() as f64) / 2.0;
 
         -no2 * (ln_det + 2.0 * PI_2.ln()) - samples.into_iter().map(|x| {
-- 
2.43.0


From ca7f5e896fd38d091fb18ad565192ea641f71693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 159/177] fix: multivariate lognormal: the covariance of nearly
 constant logarithms is not lost to cancellation

---
 src/multivariate/lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multivariate/lognormal.rs b/src/multivariate/lognormal.rs
index bc3dde8..17c5bc4 100644
--- a/src/multivariate/lognormal.rs
+++ b/src/multivariate/lognormal.rs
@@ -133,7 +133,7 @@ where
             ($i:ident, $j:ident) => {
                 let x = self.0.params.mu.0[$i] + self.0.params.mu.0[$j];
                 let y = (var[$i] + var[$j]) / 2.0;
-                let z = cov[$i][$j].exp() - 1.0;
+                let z = cov[$i][$j].exp_m1();
 
                 cov[$i][$j] = (x + y).exp() * z;
             }
@@ -159,7 +159,7 @@ where
         let mut var = self.0.variance();
 
         for i in 0..N {
-            var[i] = (2.0 * self.0.params.mu.0[i] + var[i]).exp() * (var[i].exp() - 1.0)
+            var[i] = (2.0 * self.0.params.mu.0[i] + var[i]).exp() * var[i].exp_m1()
         }
 
         var
-- 
2.43.0


From 09b87255e14044ef7ac3b0988e8c32b96fb9831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 160/177] fix: dirichlet: the density is zero off the simplex

---
 src/multivariate/dirichlet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index 7db37e8..ada9b61 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -87,7 +87,9 @@ impl<const N: usize> ContinuousDistribution for Dirichlet<N> {
     fn log_pdf(&self, xs: &[f64; N]) -> f64 {
         assert!(xs.len() == N, "Input `xs` must have length {}.", N);
 
-        if xs.iter().any(|x| *x < 0.0 || *x > 1.0) {
+        let sum: f64 = xs.iter().sum();
+
+        if xs.iter().any(|x| *x < 0.0 || *x > 1.0) || (sum - 1.0).abs() > 1e-5 {
             return -std::f64::INFINITY;
         }
 
-- 
2.43.0


From d93b264b02783b02caebec97b1ca2c3e3a2be7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 161/177] fix: dirichlet: samples for small concentrations do
 not underflow into NaN

---
 src/multivariate/dirichlet.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/multivariate/dirichlet.rs b/src/multivariate/dirichlet.rs
index ada9b61..3abb11e 100644
--- a/src/multivariate/dirichlet.rs
+++ b/src/multivariate/dirichlet.rs
@@ -60,24 +60,20 @@ impl<const N: usize> Distribution for Dirichlet<N> {
     fn cdf(&self, _: &[f64; N]) -> Probability { todo!() }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> [f64; N] {
-        use rand_distr::Gamma as GammaSampler;
+        use rand_distr::{Gamma as GammaSampler, Open01};
 
-        let mut sum = 0.0f64;
-        let mut sample = [0.0; N];
+        // Gamma(a) = Gamma(a + 1) U^(1/a), on the log-scale:
+        let ln_gammas = self.alphas.0.map(|a| {
+            let g: f64 = rng.sample(GammaSampler::new(a + 1.0, 1.0).unwrap());
+            let u: f64 = rng.sample(Open01);
 
-        for i in 0..N {
-            let a = self.alphas.0[i];
-            let s = rng.sample(GammaSampler::new(a, 1.0).unwrap());
-
-            sum += s;
-            sample[i] = s;
-        }
-
-        for i in 0..N {
-            sample[i] /= sum;
-        }
+            g.ln() + u.ln() / a
+        });
+        let max = ln_gammas.iter().cloned().fold(-std::f64::INFINITY, f64::max);
+        let gammas = ln_gammas.map(|lg| (lg - max).exp());
+        let sum: f64 = gammas.iter().sum();
 
-        sample
+        gammas.map(|g| g / sum)
     }
 }
 
-- 
2.43.0


From 55c80ca8ce1bed7e9a6518b5c78520b6be5b303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 162/177] fix: mixture: parameters are read only with one
 component per weight

---
 src/mixture.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mixture.rs b/src/mixture.rs
index 6da5c04..17e9265 100644
--- a/src/mixture.rs
+++ b/src/mixture.rs
@@ -18,9 +18,33 @@ use spaces::{Space, ops::{Union, Closure}};
 )]
 pub struct Params<const N: usize, CP> {
     pub ps: SimplexVector<N>,
+    #[cfg_attr(
+        feature = "serde",
+        serde(
+            deserialize_with = "read_components::<_, _, N>",
+            bound(deserialize = "CP: serde_crate::Deserialize<'de>")
+        )
+    )]
     pub component_params: Vec<CP>,
 }
 
+#[cfg(feature = "serde")]
+fn read_components<'de, D, CP, const N: usize>(deserializer: D) -> Result<Vec<CP>, D::Error>
+where
+    D: serde_crate::Deserializer<'de>,
+    CP: serde_crate::Deserialize<'de>,
+{
+    use serde_crate::de::{Deserialize, Error};
+
+    let params = Vec::deserialize(deserializer)?;
+
+    if params.len() == N {
+        Ok(params)
+    } else {
+        Err(D::Error::invalid_length(params.len(), &"one component per weight"))
+    }
+}
+
 #[derive(Clone, Debug, Fail)]
 pub enum MixtureError {
     #[fail(display = "Incompatible parameters.")]
-- 
2.43.0


From 843644929b4d737842508afbbe4b4d5449abc648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 163/177] fix: triangular: variance and skewness do not cancel
 far from the origin

---
 src/univariate/triangular.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/univariate/triangular.rs b/src/univariate/triangular.rs
index 59862ab..7b1cfbb 100644
--- a/src/univariate/triangular.rs
+++ b/src/univariate/triangular.rs
@@ -114,22 +114,16 @@ impl UvMoments for Triangular {
     }
 
     fn variance(&self) -> f64 {
-        let (a, b, c) = get_params!(self);
-
-        let sq_terms = a * a + b * b + c * c;
-        let cross_terms = a * b + a * c + b * c;
+        let (l, r) = (self.0.a2c.0, self.0.c2b.0);
 
-        (sq_terms - cross_terms) / 18.0
+        (l * l + l * r + r * r) / 18.0
     }
 
     fn skewness(&self) -> f64 {
-        let (a, b, c) = get_params!(self);
-
-        let sq_terms = a * a + b * b + c * c;
-        let cross_terms = a * b + a * c + b * c;
+        let (l, r) = (self.0.a2c.0, self.0.c2b.0);
 
-        let numerator = 2.0f64.sqrt() * (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let denominator = 5.0 * (sq_terms - cross_terms).powf(THREE_HALVES);
+        let numerator = 2.0f64.sqrt() * (r - l) * (2.0 * l + r) * (l + 2.0 * r);
+        let denominator = 5.0 * (l * l + l * r + r * r).powf(THREE_HALVES);
 
         numerator / denominator
     }
-- 
2.43.0


From 76699a6e7b53675097f95417d4d44dd79ae78a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 164/177] fix: cosine: the density keeps its precision near the
 ends of the support

---
 src/univariate/cosine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/univariate/cosine.rs b/src/univariate/cosine.rs
index 2cb151a..45acfed 100644
--- a/src/univariate/cosine.rs
+++ b/src/univariate/cosine.rs
@@ -41,7 +41,7 @@ impl Cosine {
     }
 
     #[inline]
-    fn hvc(&self, x: f64) -> f64 { ((self.z(x) * PI).cos() + 1.0) / 2.0 }
+    fn hvc(&self, x: f64) -> f64 { (self.z(x) * PI / 2.0).cos().powi(2) }
 }
 
 impl Distribution for Cosine {
-- 
2.43.0


From 37e1bc8a1e41a674bca177850f91708c2ded32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 165/177] fix: gumbel: the density is zero, not NaN, far to the
 left

---
 src/univariate/gumbel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/gumbel.rs b/src/univariate/gumbel.rs
index f9198c8..e32281e 100644
--- a/src/univariate/gumbel.rs
+++ b/src/univariate/gumbel.rs
@@ -66,6 +66,10 @@ impl ContinuousDistribution for Gumbel {
     fn pdf(&self, x: &f64) -> f64 {
         let z = self.z(*x);
 
+        if z == -std::f64::INFINITY {
+            return 0.0;
+        }
+
         (-z - (-z).exp()).exp() / self.0.beta.0
     }
 }
-- 
2.43.0


From c4c5aa69892d973ab4a0b599fdd4e684444e80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 166/177] fix: rayleigh: the density is zero, not NaN, far to
 the right

---
 src/univariate/rayleigh.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/rayleigh.rs b/src/univariate/rayleigh.rs
index 73c60dc..7d9cc15 100644
--- a/src/univariate/rayleigh.rs
+++ b/src/univariate/rayleigh.rs
@@ -69,9 +69,13 @@ impl ContinuousDistribution for Rayleigh {
         }
 
         let sigma = get_sigma!(self);
-        let sigma2 = sigma * sigma;
+        let z = x / sigma;
 
-        x / sigma2 * (-x * x / sigma2 / 2.0).exp()
+        if z == std::f64::INFINITY {
+            return 0.0;
+        }
+
+        z * (-z * z / 2.0).exp() / sigma
     }
 }
 
-- 
2.43.0


From a108aa7d432394812aa03ebfd0e2602e7391dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 167/177] fix: beta prime: cumulative probabilities keep their
 precision far to the right

---
 src/univariate/beta_prime.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index 7802d8e..b841ecf 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -55,7 +55,11 @@ impl Distribution for BetaPrime {
 
         let x = x.max(0.0);
 
-        Probability::new_unchecked((x / (1.0 + x)).betainc(alpha, beta))
+        Probability::new_unchecked(if x > 1.0 {
+            1.0 - (1.0 / (1.0 + x)).betainc(beta, alpha)
+        } else {
+            (x / (1.0 + x)).betainc(alpha, beta)
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
-- 
2.43.0


From 70140dbcc517f99cd98c59281c7ee7c84782dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 168/177] fix: gamma: the cumulative probability at infinity is
 one

---
 src/univariate/gamma.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index 15d98a2..e5a4858 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -68,7 +68,13 @@ impl Distribution for Gamma {
     fn cdf(&self, x: &f64) -> Probability {
         let (a, b) = get_params!(self);
 
-        Probability::new_unchecked((b * x.max(0.0)).gammainc(a))
+        let z = b * x.max(0.0);
+
+        if z == std::f64::INFINITY {
+            return Probability::one();
+        }
+
+        Probability::new_unchecked(z.gammainc(a))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From 5716c1051729aa2b3dbc1454fa4251eda5c270dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 169/177] fix: chi-squared, erlang, F, inverse normal: the
 cumulative probability at infinity is one

---
 src/univariate/chi_sq.rs         | 4 ++++
 src/univariate/erlang.rs         | 8 +++++++-
 src/univariate/f_dist.rs         | 2 +-
 src/univariate/inverse_normal.rs | 4 ++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index d6193d3..45a495f 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -44,6 +44,10 @@ impl Distribution for ChiSq {
     fn params(&self) -> Params { self.0 }
 
     fn cdf(&self, x: &f64) -> Probability {
+        if *x == std::f64::INFINITY {
+            return Probability::one();
+        }
+
         let k = get_k!(self);
         let ko2 = k / 2.0;
 
diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index 7177c0a..bb9491d 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -53,7 +53,13 @@ impl Distribution for Erlang {
     fn log_cdf(&self, x: &f64) -> f64 {
         let (k, lambda) = get_params!(self);
 
-        (lambda * x.max(0.0)).gammainc(k as f64).ln()
+        let z = lambda * x.max(0.0);
+
+        if z == f64::INFINITY {
+            return 0.0;
+        }
+
+        z.gammainc(k as f64).ln()
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index d46ad29..470c73a 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -50,7 +50,7 @@ impl Distribution for FDist {
         let (d1, d2) = (d1 as f64, d2 as f64);
 
         let x = x.max(0.0);
-        let x = d1 * x / (d1 * x + d2);
+        let x = 1.0 / (1.0 + d2 / d1 / x);
 
         Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
     }
diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index fd41bf8..f100764 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -98,6 +98,10 @@ impl Distribution for InvNormal {
             return Probability::zero();
         }
 
+        if *x == std::f64::INFINITY {
+            return Probability::one();
+        }
+
         let (mu, lambda) = get_params!(self);
 
         let xom = x / mu;
-- 
2.43.0


From b285c83f577629e722991818491e2582d6c58ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 170/177] fix: weibull: the density is zero, not NaN, far to
 the right

---
 src/univariate/weibull.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/univariate/weibull.rs b/src/univariate/weibull.rs
index 08bc1af..e97ea54 100644
--- a/src/univariate/weibull.rs
+++ b/src/univariate/weibull.rs
@@ -70,6 +70,10 @@ impl ContinuousDistribution for Weibull {
             let (lambda, k) = get_params!(self);
             let xol = x / lambda;
 
+            if xol == std::f64::INFINITY {
+                return 0.0;
+            }
+
             k / lambda * (xlogy(k - 1.0, xol) - xol.powf(k)).exp()
         } else {
             0.0
-- 
2.43.0


From 073f6ea1196b55f6705555e05f32d9bfb381a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 171/177] fix: beta prime, chi, chi-squared, erlang, F, gamma,
 inverse normal: the density at infinity is zero, not NaN

---
 src/univariate/beta_prime.rs     | 2 +-
 src/univariate/chi.rs            | 2 +-
 src/univariate/chi_sq.rs         | 2 +-
 src/univariate/erlang.rs         | 2 +-
 src/univariate/f_dist.rs         | 2 +-
 src/univariate/gamma.rs          | 2 +-
 src/univariate/inverse_normal.rs | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/univariate/beta_prime.rs b/src/univariate/beta_prime.rs
index b841ecf..16cb4ad 100644
--- a/src/univariate/beta_prime.rs
+++ b/src/univariate/beta_prime.rs
@@ -69,7 +69,7 @@ impl ContinuousDistribution for BetaPrime {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
-        if *x < 0.0 {
+        if *x < 0.0 || *x == std::f64::INFINITY {
             return 0.0;
         }
 
diff --git a/src/univariate/chi.rs b/src/univariate/chi.rs
index 17053e2..8d88751 100644
--- a/src/univariate/chi.rs
+++ b/src/univariate/chi.rs
@@ -58,7 +58,7 @@ impl Distribution for Chi {
 
 impl ContinuousDistribution for Chi {
     fn pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
+        if *x < 0.0 || *x == std::f64::INFINITY {
             return 0.0;
         }
 
diff --git a/src/univariate/chi_sq.rs b/src/univariate/chi_sq.rs
index 45a495f..ca52733 100644
--- a/src/univariate/chi_sq.rs
+++ b/src/univariate/chi_sq.rs
@@ -65,7 +65,7 @@ impl Distribution for ChiSq {
 
 impl ContinuousDistribution for ChiSq {
     fn pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
+        if *x < 0.0 || *x == std::f64::INFINITY {
             return 0.0;
         }
 
diff --git a/src/univariate/erlang.rs b/src/univariate/erlang.rs
index bb9491d..3ce7a13 100644
--- a/src/univariate/erlang.rs
+++ b/src/univariate/erlang.rs
@@ -67,7 +67,7 @@ impl Distribution for Erlang {
 
 impl ContinuousDistribution for Erlang {
     fn log_pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
+        if *x < 0.0 || *x == f64::INFINITY {
             return f64::NEG_INFINITY;
         }
 
diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index 470c73a..d986c73 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -70,7 +70,7 @@ impl ContinuousDistribution for FDist {
     fn pdf(&self, x: &f64) -> f64 {
         use special_fun::FloatSpecial;
 
-        if *x <= 0.0 {
+        if *x <= 0.0 || *x == std::f64::INFINITY {
             return 0.0;
         }
 
diff --git a/src/univariate/gamma.rs b/src/univariate/gamma.rs
index e5a4858..5232c02 100644
--- a/src/univariate/gamma.rs
+++ b/src/univariate/gamma.rs
@@ -88,7 +88,7 @@ impl Distribution for Gamma {
 
 impl ContinuousDistribution for Gamma {
     fn log_pdf(&self, x: &f64) -> f64 {
-        if *x < 0.0 {
+        if *x < 0.0 || *x == std::f64::INFINITY {
             return std::f64::NEG_INFINITY;
         }
 
diff --git a/src/univariate/inverse_normal.rs b/src/univariate/inverse_normal.rs
index f100764..3aee1e5 100644
--- a/src/univariate/inverse_normal.rs
+++ b/src/univariate/inverse_normal.rs
@@ -146,7 +146,7 @@ impl Distribution for InvNormal {
 
 impl ContinuousDistribution for InvNormal {
     fn pdf(&self, x: &f64) -> f64 {
-        if *x <= 0.0 {
+        if *x <= 0.0 || *x == std::f64::INFINITY {
             return 0.0;
         }
 
-- 
2.43.0


From 811cc2beb6b23806497c9b7a76e10df49c068797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 172/177] fix: F: cumulative probabilities keep their precision
 far to the right

---
 src/univariate/f_dist.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/univariate/f_dist.rs b/src/univariate/f_dist.rs
index d986c73..116203b 100644
--- a/src/univariate/f_dist.rs
+++ b/src/univariate/f_dist.rs
@@ -50,9 +50,13 @@ impl Distribution for FDist {
         let (d1, d2) = (d1 as f64, d2 as f64);
 
         let x = x.max(0.0);
-        let x = 1.0 / (1.0 + d2 / d1 / x);
+        let r = d1 / d2 * x;
 
-        Probability::new_unchecked(x.betainc(d1 / 2.0, d2 / 2.0))
+        Probability::new_unchecked(if r > 1.0 {
+            1.0 - (1.0 / (1.0 + r)).betainc(d2 / 2.0, d1 / 2.0)
+        } else {
+            (r / (1.0 + r)).betainc(d1 / 2.0, d2 / 2.0)
+        })
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
-- 
2.43.0


From e588e9c1566da62955ee555ed6cb572636a5ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:46 +0000
Subject: [PATCH 173/177] fix: categorical: cumulative probabilities do not
 exceed one

---
 src/univariate/categorical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/univariate/categorical.rs b/src/univariate/categorical.rs
index 79e3e34..62cd5e1 100644
--- a/src/univariate/categorical.rs
+++ b/src/univariate/categorical.rs
@@ -55,7 +55,9 @@ impl<const N: usize> Distribution for Categorical<N> {
     fn params(&self) -> Params<N> { self.0.clone() }
 
     fn cdf(&self, x: &usize) -> Probability {
-        Probability::new_unchecked(self.0.ps.iter().take(x.saturating_add(1)).sum())
+        let sum: f64 = self.0.ps.iter().take(x.saturating_add(1)).sum();
+
+        Probability::new_unchecked(sum.min(1.0))
     }
 
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.ps.sample_index(rng) }
-- 
2.43.0


From 22c9b610a078e64ad0bb0c25c5a6af55d5d1cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 174/177] fix: generalised extreme value: no loss of precision
 for small shapes

---
 src/univariate/gev.rs | 94 +++++++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 30 deletions(-)

diff --git a/src/univariate/gev.rs b/src/univariate/gev.rs
index 84fefca..5ef94e7 100644
--- a/src/univariate/gev.rs
+++ b/src/univariate/gev.rs
@@ -1,5 +1,5 @@
 use crate::{
-    consts::{ONE_THIRD, PI2_OVER_6, PI3, TWELVE_FIFTHS},
+    consts::ONE_THIRD,
     statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
     ContinuousDistribution,
     Distribution,
@@ -49,10 +49,63 @@ impl GeneralisedExtremeValue {
 
         let z = (x - mu) / sigma;
 
-        if (zeta - 0.0) < 1e-7 {
+        if zeta < f64::EPSILON {
             (-z).exp()
         } else {
-            (1.0 + zeta * z).max(0.0).powf(-1.0 / zeta)
+            (-(zeta * z).max(-1.0).ln_1p() / zeta).exp()
+        }
+    }
+
+    /// Second to fourth moments of \\((X - \\mu) / \\sigma + 1 / \\zeta\\)
+    /// over its mean, less one; each divided by the power of \\(\\zeta\\)
+    /// with which it vanishes.
+    fn relative_moments(&self) -> (f64, f64, f64) {
+        let zeta = self.0.zeta.0;
+
+        if zeta < 0.01 {
+            // ln E[Y^j] - j ln E[Y] is a power series in zeta whose leading
+            // terms cancel from the third and fourth moments.
+            let series = |from: i32, c: &dyn Fn(f64) -> f64| -> f64 {
+                (from..18).fold(0.0, |acc, k| {
+                    let kf = k as f64;
+
+                    acc + kf.riemann_zeta() / kf * c(kf) * zeta.powi(k - from)
+                })
+            };
+
+            // e^(zeta^2 u), less its linear part, over zeta^4:
+            let z2 = zeta * zeta;
+            let rest = |u: f64| {
+                let v = z2 * u;
+
+                u * u * (1.0 / 2.0 + v * (1.0 / 6.0 + v * (1.0 / 24.0 + v * (1.0 / 120.0 + v / 720.0))))
+            };
+
+            let u2 = series(2, &|k| 2.0f64.powf(k) - 2.0);
+            let u3 = series(2, &|k| 3.0f64.powf(k) - 3.0);
+            let u4 = series(2, &|k| 4.0f64.powf(k) - 4.0);
+
+            let l3 = series(3, &|k| 3.0f64.powf(k) - 3.0 * 2.0f64.powf(k) + 3.0);
+            let l4 = series(4, &|k| {
+                4.0f64.powf(k) - 4.0 * 3.0f64.powf(k) + 6.0 * 2.0f64.powf(k) - 4.0
+            });
+
+            (
+                u2 + z2 * rest(u2),
+                l3 + zeta * (rest(u3) - 3.0 * rest(u2)),
+                l4 + rest(u4) - 4.0 * rest(u3) + 6.0 * rest(u2),
+            )
+        } else {
+            let g1 = self.g_func(1.0);
+            let g2 = self.g_func(2.0) / g1 / g1;
+            let g3 = self.g_func(3.0) / g1.powi(3);
+            let g4 = self.g_func(4.0) / g1.powi(4);
+
+            (
+                (g2 - 1.0) / zeta.powi(2),
+                (g3 - 3.0 * g2 + 2.0) / zeta.powi(3),
+                (g4 - 4.0 * g3 + 6.0 * g2 - 3.0) / zeta.powi(4),
+            )
         }
     }
 }
@@ -107,13 +160,10 @@ impl UvMoments for GeneralisedExtremeValue {
 
         if zeta >= 0.5 {
             INFINITY
-        } else if zeta.abs() < 1e-7 {
-            sigma * sigma * PI2_OVER_6
         } else {
-            let g1 = self.g_func(1.0);
-            let g2 = self.g_func(2.0);
+            let sd1 = sigma * self.g_func(1.0);
 
-            sigma * sigma * (g2 - g1 * g1) / zeta / zeta
+            sd1 * sd1 * self.relative_moments().0
         }
     }
 
@@ -122,17 +172,10 @@ impl UvMoments for GeneralisedExtremeValue {
 
         if zeta >= ONE_THIRD {
             INFINITY
-        } else if zeta.abs() < 1e-7 {
-            12.0 * 6.0f64.sqrt() * 3.0f64.riemann_zeta() / PI3
         } else {
-            let g1 = self.g_func(1.0);
-            let g2 = self.g_func(2.0);
-            let g3 = self.g_func(3.0);
-
-            let numerator = g3 - 3.0 * g2 * g1 + 2.0 * g1.powi(3);
-            let denominator = (g2 - g1 * g1).powf(3.0 / 2.0);
+            let (m2, m3, _) = self.relative_moments();
 
-            zeta.signum() * numerator / denominator
+            m3 / m2.powf(3.0 / 2.0)
         }
     }
 
@@ -141,19 +184,10 @@ impl UvMoments for GeneralisedExtremeValue {
 
         if zeta >= 0.25 {
             INFINITY
-        } else if zeta.abs() < 1e-7 {
-            TWELVE_FIFTHS
         } else {
-            let g1 = self.g_func(1.0);
-            let g2 = self.g_func(2.0);
-            let g3 = self.g_func(3.0);
-            let g4 = self.g_func(4.0);
-
-            let numerator =
-                g4 - 4.0 * g3 * g1 - 3.0 * g2 * g2 + 12.0 * g2 * g1 * g1 - 6.0 * g1.powi(4);
-            let denominator = (g2 - g1 * g1).powi(2);
+            let (m2, _, m4) = self.relative_moments();
 
-            numerator / denominator
+            m4 / m2 / m2 - 3.0
         }
     }
 }
@@ -167,7 +201,7 @@ impl Quantiles for GeneralisedExtremeValue {
         if zeta.abs() < 1e-7 {
             mu - sigma * 2.0f64.ln().ln()
         } else {
-            mu + sigma * (2.0f64.ln().powf(-zeta) - 1.0) / zeta
+            mu + sigma * (-zeta * 2.0f64.ln().ln()).exp_m1() / zeta
         }
     }
 }
@@ -179,7 +213,7 @@ impl Modes for GeneralisedExtremeValue {
         vec![if zeta.abs() < 1e-7 {
             mu
         } else {
-            mu + sigma * ((1.0 + zeta).powf(-zeta) - 1.0) / zeta
+            mu + sigma * (-zeta * zeta.ln_1p()).exp_m1() / zeta
         }]
     }
 }
-- 
2.43.0


From dfa95926c2f19dcddbc04ac198780a7ee7718558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 175/177] fix: generalised pareto: no loss of precision for
 small shapes

---
 src/univariate/gpd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/gpd.rs b/src/univariate/gpd.rs
index 6cd0e31..fb55f18 100644
--- a/src/univariate/gpd.rs
+++ b/src/univariate/gpd.rs
@@ -51,7 +51,7 @@ impl Distribution for GeneralisedPareto {
         let (mu, sigma, zeta) = get_params!(self);
         let z = ((x - mu) / sigma).max(0.0);
 
-        Probability::new_unchecked(1.0 - (1.0 + zeta * z).powf(-1.0 / zeta))
+        Probability::new_unchecked(-(-(zeta * z).ln_1p() / zeta).exp_m1())
     }
 
     fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> f64 { unimplemented!() }
@@ -66,7 +66,7 @@ impl ContinuousDistribution for GeneralisedPareto {
             return 0.0;
         }
 
-        (1.0 + zeta * z).powf(-1.0 / zeta - 1.0) / sigma
+        (-(zeta * z).ln_1p() * (1.0 / zeta + 1.0)).exp() / sigma
     }
 }
 
-- 
2.43.0


From 423e8fee1f5a9651fe20cb2a364aadf853bb19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 176/177] fix: folded normal: variance without cancellation far
 from the fold

---
 src/univariate/folded_normal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 323c561..16cb757 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -119,10 +119,15 @@ impl UvMoments for FoldedNormal {
     }
 
     fn variance(&self) -> f64 {
+        use special_fun::FloatSpecial;
+
         let (mu, sigma) = get_params!(self);
-        let mean = self.mean();
 
-        mu * mu + sigma * sigma - mean * mean
+        // |mu| less the mean:
+        let below = mu.abs() * (mu.abs() / sigma / 2.0f64.sqrt()).erfc()
+            - sigma * TWO_OVER_PI.sqrt() * (-mu * mu / 2.0 / sigma / sigma).exp();
+
+        sigma * sigma + below * (mu.abs() + self.mean())
     }
 
     fn skewness(&self) -> f64 { unimplemented!() }
-- 
2.43.0


From a057a80e180a1dd6e0386686b6d532eeac4c67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:29 +0000
Subject: [PATCH 177/177] fix: folded normal, lognormal: print the parameters,
 not the variance

---
 src/univariate/folded_normal.rs | 2 +-
 src/univariate/lognormal.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/univariate/folded_normal.rs b/src/univariate/folded_normal.rs
index 16cb757..d13b676 100644
--- a/src/univariate/folded_normal.rs
+++ b/src/univariate/folded_normal.rs
@@ -166,6 +166,6 @@ impl Modes for FoldedNormal {
 
 impl fmt::Display for FoldedNormal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "FN({}, {})", self.0.mu.0, self.variance())
+        write!(f, "FN({}, {})", self.0.mu.0, self.0.sigma.0)
     }
 }
diff --git a/src/univariate/lognormal.rs b/src/univariate/lognormal.rs
index c38d2ec..3b50c56 100644
--- a/src/univariate/lognormal.rs
+++ b/src/univariate/lognormal.rs
@@ -146,6 +146,6 @@ impl FisherInformation<2> for LogNormal {
 
 impl fmt::Display for LogNormal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, self.variance())
+        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, (self.0).0.Sigma.0)
     }
 }
-- 
2.43.0

