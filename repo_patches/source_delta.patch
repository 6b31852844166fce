From 5da23923aed82024ad2f7e1ad94093d942060969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/36] fix: leave a spin unchanged when it is rotated about a
 zero field

Spin::rotate normalised the field before using it, so a zero field (for
example a decoupled site with no local field) turned the spin into NaN.
---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..301d148 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -171,6 +171,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // No field, no precession (and no direction to normalise)
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From a9452907eaf9c345113336508b3cb29d213796c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 02/36] fix: give the correct azimuth for spins with a
 vanishing x component

Spin::theta chose the branch of atan from the sign of x only, so +y was
reported as 3 pi/2 (that is, -y) and the poles as NaN.
---
 src/spin.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index 301d148..b199ef0 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,11 +131,7 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-- 
2.43.0


From 814b21de0c86f7a65c43225d037d0026bcc033f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 03/36] fix: sample the initial spins for every inverse
 temperature

Inverse transform sampling divided by beta and used e^{beta}, which gave NaN
spins for beta=0 and for beta above ~709, and could round just outside the
domain of acos for small beta.
---
 src/spinchain.rs          | 11 +++++++----
 src/spinchain_langevin.rs | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..f354e71 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -129,8 +129,6 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -152,8 +150,13 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // (written in terms of e^{-2\beta} so that it is finite for every \beta)
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = match beta_eff {
+                    b if b == 0.0 => 1.0 - 2.0 * u,
+                    b => 1.0 + (u * (-2.0 * b).exp_m1()).ln_1p() / b,
+                };
+                let rot_angle: f64 = cos_angle.clamp(-1.0, 1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..ab81694 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -120,8 +120,6 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -143,8 +141,13 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // (written in terms of e^{-2\beta} so that it is finite for every \beta)
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = match beta_eff {
+                    b if b == 0.0 => 1.0 - 2.0 * u,
+                    b => 1.0 + (u * (-2.0 * b).exp_m1()).ln_1p() / b,
+                };
+                let rot_angle: f64 = cos_angle.clamp(-1.0, 1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From b7ac98f213ae3de36565d5ddb04fbc665bc7fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 04/36] fix: solve for the inverse temperature to full
 precision

The fixed-point iteration stopped once successive iterates differed by less
than 0.01, which at small |e| happens far from the solution because it
converges slowly there.
---
 src/spinchain.rs          | 24 ++++++++++++++++++------
 src/spinchain_langevin.rs | 24 ++++++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index f354e71..5819ed3 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -105,14 +105,26 @@ impl SpinChain {
     }
 
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
+        // Energy density 1/beta - coth(beta) decreases with beta: bracket and bisect
+        let energy = |beta: f64| match beta {
+            b if b < 1e-3 => -b / 3.0,
+            b => 1.0 / b - 1.0 / b.tanh(),
+        };
 
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        let mut low: f64 = 0.0;
+        let mut high: f64 = 1.0;
+        while energy(high) > e && high < 1e16 {
+            high *= 2.0;
+        }
+        for _ in 0..200 {
+            let mid: f64 = 0.5 * (low + high);
+            if energy(mid) > e {
+                low = mid;
+            } else {
+                high = mid;
+            }
         }
-        beta
+        0.5 * (low + high)
     }
 
     /// Creates a new spin chain by reading the configuration variables from a toml file
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index ab81694..ed84fff 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -96,14 +96,26 @@ impl SpinChainLangevin {
     }
 
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
+        // Energy density 1/beta - coth(beta) decreases with beta: bracket and bisect
+        let energy = |beta: f64| match beta {
+            b if b < 1e-3 => -b / 3.0,
+            b => 1.0 / b - 1.0 / b.tanh(),
+        };
 
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        let mut low: f64 = 0.0;
+        let mut high: f64 = 1.0;
+        while energy(high) > e && high < 1e16 {
+            high *= 2.0;
+        }
+        for _ in 0..200 {
+            let mid: f64 = 0.5 * (low + high);
+            if energy(mid) > e {
+                low = mid;
+            } else {
+                high = mid;
+            }
         }
-        beta
+        0.5 * (low + high)
     }
 
     /// Creates a new spin chain by reading the configuration variables from a toml file
-- 
2.43.0


From 81459fa58254ef3221a34370315d950887017545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 05/36] fix: sample the first-order Magnus ensemble

The energy difference of a proposed spin used the old S^z, so the -S^z term
cancelled; the prefactor was omega/2 rather than the 1/(2 omega) of the
expansion; and sites next to the driven block ignored the terms of their
driven neighbours, so the update did not satisfy detailed balance.
---
 src/spinchain.rs          | 79 ++++++++++++++++-----------------------
 src/spinchain_langevin.rs | 79 ++++++++++++++++-----------------------
 2 files changed, 66 insertions(+), 92 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 5819ed3..44b1f06 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1003,6 +1003,13 @@ impl SpinChain {
 
         let j_j: &[f64; 3] = &self.j_couple[index];
 
+        // The correction is a sum over driven sites only. Flipping j changes the terms of j-1, j,
+        // and j+1, each of which is present if that site is driven
+        let ss: usize = self.vars.ssize as usize;
+        let driven = |site: usize| if site % s < ss { 1.0 } else { 0.0 };
+        let (d_l, d_c, d_r): (f64, f64, f64) =
+            (driven(index + s - 1), driven(index), driven(index + 1));
+
         //Calculate energy before randomising a spin
         let mut ei: f64 = 0.0;
         for k in 0..3 {
@@ -1014,29 +1021,20 @@ impl SpinChain {
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
         // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
+        ei -= self.vars.tau / (4.0 * PI)
+            * (d_c * s_j.dir[2]
+                + 2.0
+                    * (d_c
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2])
+                        + d_l
+                            * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
+                                    * s_jm1.dir[2])
+                        + d_r
+                            * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
+                                    * s_jp1.dir[2])));
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -1050,31 +1048,20 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
+        de -= self.vars.tau / (4.0 * PI)
+            * (d_c * new_spin.dir[2]
+                + 2.0
+                    * (d_c
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2])
+                        + d_l
+                            * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
+                                    * s_jm1.dir[2])
+                        + d_r
+                            * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
+                                    * s_jp1.dir[2])));
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
         //  Accept if \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index ed84fff..7f174cb 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -338,6 +338,13 @@ impl SpinChainLangevin {
 
         let j_j: &[f64; 3] = &self.j_couple[index];
 
+        // The correction is a sum over driven sites only. Flipping j changes the terms of j-1, j,
+        // and j+1, each of which is present if that site is driven
+        let ss: usize = self.vars.ssize as usize;
+        let driven = |site: usize| if site % s < ss { 1.0 } else { 0.0 };
+        let (d_l, d_c, d_r): (f64, f64, f64) =
+            (driven(index + s - 1), driven(index), driven(index + 1));
+
         //Calculate energy before randomising a spin
         let mut ei: f64 = 0.0;
         for k in 0..3 {
@@ -349,29 +356,20 @@ impl SpinChainLangevin {
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
         // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
+        ei -= self.vars.tau / (4.0 * PI)
+            * (d_c * s_j.dir[2]
+                + 2.0
+                    * (d_c
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2])
+                        + d_l
+                            * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
+                                    * s_jm1.dir[2])
+                        + d_r
+                            * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
+                                    * s_jp1.dir[2])));
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -385,31 +383,20 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
+        de -= self.vars.tau / (4.0 * PI)
+            * (d_c * new_spin.dir[2]
+                + 2.0
+                    * (d_c
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2])
+                        + d_l
+                            * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                                - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
+                                    * s_jm1.dir[2])
+                        + d_r
+                            * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                                - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
+                                    * s_jp1.dir[2])));
         // Evaluate energy difference
 
         // Accept/reject
-- 
2.43.0


From 1ddbb0bdca1b4f0a2a818d77fda107563d5f24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 06/36] fix: use the neighbouring bond in the second-order
 Magnus energy

One of the translated terms mixed the bond two sites to the left into the
square of the local field at j+1, so that it was not the square.
---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 44b1f06..98d4e56 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -625,7 +625,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -806,7 +806,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From ca931d2bb40c63801abce984b91eb5f436cd6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 07/36] fix: count each rotating-frame Magnus term once in the
 energy

The correction was accumulated per site over every term that touches the
site, so bond terms entered twice and three-site terms three times; the
energy was not that of the ensemble being sampled.
---
 src/spinchain.rs | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 98d4e56..7cbb81d 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1599,59 +1599,31 @@ impl SpinChain {
         }
 
         let mut mg: f64 = 0.0;
-        // Now for correction term
+        // Now for correction term: count each bond, and each pair of adjacent bonds, once
         for index in 0..h {
             let s_c: &Spin = &self.spins[index];
             let s_l: &Spin = match index {
                 _ if index == 0 => &self.spins[h - 1],
                 _ => &self.spins[index - 1],
             };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
 
             let s_r: &Spin = match index {
                 _ if index == h - 1 => &self.spins[0],
                 _ => &self.spins[index + 1],
             };
 
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
             let j_l: &[f64; 3] = match index {
                 _ if index == 0 => &self.j_couple[h - 1],
                 _ => &self.j_couple[index - 1],
             };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
 
             let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
 
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From 07e01a1bff8e8f953a627c14cd35e234c357f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 08/36] fix: report the energy of the sampled lab-frame Magnus
 ensemble

mc_system_energy_maglab carried over the rotating-frame correction terms,
which are not part of the energy metropolis_update_maglab samples, so the
fitted temperature targeted the energy of another Hamiltonian.
---
 src/spinchain.rs | 58 ------------------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 7cbb81d..b92b5de 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1498,64 +1498,6 @@ impl SpinChain {
             e += -self.spins[i].dir[2] / (2.0 * om);
         }
 
-        let mut mg: f64 = 0.0;
-        // Now for correction term
-        for index in 0..h {
-            let s_c: &Spin = &self.spins[index];
-            let s_l: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 1],
-                _ => &self.spins[index - 1],
-            };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
-            let s_r: &Spin = match index {
-                _ if index == h - 1 => &self.spins[0],
-                _ => &self.spins[index + 1],
-            };
-
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
-            let j_l: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 1],
-            };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
-            let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
-            mg += (j_l[1] - j_l[0])
-                * (j_r[1] - j_r[0])
-                * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
-        }
-
-        e -= mg / (16.0 * om);
-
         e / (h as f64)
     }
 
-- 
2.43.0


From 277bd4cf83640408de7e2dc6176a689721007afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 09/36] fix: evolve every spin of a chain with an odd number of
 sites

The even/odd sublattices were built from len/2 pairs, so the last spin of an
odd chain never moved and the others evolved as a chain without it (for the
Langevin chain the edge noise acted on the wrong site).
---
 src/spinchain.rs          | 22 +++++++++++++--
 src/spinchain_langevin.rs | 57 ++++++++++++++++++++++++---------------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index b92b5de..e165498 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1680,7 +1680,9 @@ impl SpinChain {
             .collect();
 
         self.rotate_even(&self.even_omega(&h), self.vars.dt / 2.0);
+        self.rotate_last(&h, self.vars.dt / 2.0);
         self.rotate_odd(&self.odd_omega(&h), self.vars.dt);
+        self.rotate_last(&h, self.vars.dt / 2.0);
         self.rotate_even(&self.even_omega(&h), self.vars.dt / 2.0);
 
         self.t += self.vars.dt;
@@ -1707,7 +1709,9 @@ impl SpinChain {
             .collect();
 
         self.rotate_even(&self.even_omega(&h), self.vars.dt / 2.0);
+        self.rotate_last(&h, self.vars.dt / 2.0);
         self.rotate_odd(&self.odd_omega(&h), self.vars.dt);
+        self.rotate_last(&h, self.vars.dt / 2.0);
         self.rotate_even(&self.even_omega(&h), self.vars.dt / 2.0);
 
         self.t += self.vars.dt;
@@ -1730,6 +1734,18 @@ impl SpinChain {
         }
     }
 
+    ///In a chain of odd length the last site neighbours an even site on both sides of the ring, so
+    ///it is neither in the even nor in the odd set: rotate it separately
+    fn rotate_last(&mut self, h: &[[f64; 3]], dt: f64) {
+        let last: usize = self.spins.len() - 1;
+        if last % 2 == 0 {
+            let left_s: [f64; 3] = Self::j_s(&self.j_couple[last - 1], &self.spins[last - 1]);
+            let right_s: [f64; 3] = Self::j_s(&self.j_couple[last], &self.spins[0]);
+            let omega: [f64; 3] = SpinChain::ssh_sum(&left_s, &right_s, &h[last]);
+            self.spins[last].rotate(&omega, dt);
+        }
+    }
+
     fn ssh_sum(l: &[f64], r: &[f64], h: &[f64]) -> [f64; 3] {
         /*
         l.iter()
@@ -1748,7 +1764,8 @@ impl SpinChain {
         // J_{2n-1} S_{2n-1} + J_{2n} S_{2n+1} - B
         //Do n=0 explicitly
         {
-            let left_s: [f64; 3] = Self::j_s(&self.j_couple[2 * l - 1], &self.spins[2 * l - 1]);
+            let last: usize = self.spins.len() - 1;
+            let left_s: [f64; 3] = Self::j_s(&self.j_couple[last], &self.spins[last]);
 
             let right_s: [f64; 3] = Self::j_s(&self.j_couple[0], &self.spins[1]);
             result.push(SpinChain::ssh_sum(&left_s, &right_s, &h[0]));
@@ -1778,7 +1795,8 @@ impl SpinChain {
         //Do last site explicitly
         {
             let left_s: [f64; 3] = Self::j_s(&self.j_couple[2 * (l - 1)], &self.spins[2 * (l - 1)]);
-            let right_s: [f64; 3] = Self::j_s(&self.j_couple[2 * (l - 1) + 1], &self.spins[0]);
+            let right: usize = (2 * l) % self.spins.len();
+            let right_s: [f64; 3] = Self::j_s(&self.j_couple[2 * (l - 1) + 1], &self.spins[right]);
             result.push(SpinChain::ssh_sum(&left_s, &right_s, &h[2 * (l - 1) + 1]));
         }
 
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 7f174cb..e1ffdbc 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -734,14 +734,14 @@ impl SpinChainLangevin {
         //let h_r: [f64;3] = [0.0,0.0,0.0];
 
         self.rotate_even(
-            &self.even_omega(&h, self.vars.dt / 2.0, &h_l),
+            &self.even_omega(&h, self.vars.dt / 2.0, &h_l, &h_r),
             self.vars.dt / 2.0,
         );
 
         self.rotate_odd(&self.odd_omega(&h, self.vars.dt / 2.0, &h_r), self.vars.dt);
 
         self.rotate_even(
-            &self.even_omega(&h, self.vars.dt / 2.0, &h_l),
+            &self.even_omega(&h, self.vars.dt / 2.0, &h_l, &h_r),
             self.vars.dt / 2.0,
         );
 
@@ -780,9 +780,34 @@ impl SpinChainLangevin {
         ]
     }
 
-    fn even_omega(&self, h: &[[f64; 3]], delta_t: f64, h_l: &[f64; 3]) -> Vec<[f64; 3]> {
+    /// Omega for the right-hand edge, which is an odd site of an even chain and vice versa
+    fn right_edge_omega(&self, h: &[[f64; 3]], h_r: &[f64; 3]) -> [f64; 3] {
+        let last: usize = self.spins.len() - 1;
+        let dh: [f64; 3] = [
+            h_r[0] / self.vars.dt,
+            h_r[1] / self.vars.dt,
+            h_r[2] / self.vars.dt,
+        ];
+        let omega_bare: Vec<f64> = Self::j_s(&self.j_couple[last - 1], &self.spins[last - 1])
+            .iter()
+            .zip(h[last].iter())
+            .map(|(x, y)| x - y)
+            .collect();
+
+        let llg: [f64; 3] = Self::cross(&self.spins[last].dir, &omega_bare, -self.gamma);
+
+        Self::ssh_sum(&omega_bare, &llg, &dh)
+    }
+
+    fn even_omega(
+        &self,
+        h: &[[f64; 3]],
+        delta_t: f64,
+        h_l: &[f64; 3],
+        h_r: &[f64; 3],
+    ) -> Vec<[f64; 3]> {
         let l: usize = self.spins.len() / 2;
-        let mut result: Vec<[f64; 3]> = Vec::with_capacity(l);
+        let mut result: Vec<[f64; 3]> = Vec::with_capacity(l + 1);
         // J_{2n-1} S_{2n-1} + J_{2n} S_{2n+1} - B
         //Do n=0 explicitly
         {
@@ -813,6 +838,9 @@ impl SpinChainLangevin {
 
             result.push(Self::ssh_sum(&left_s, &right_s, &h[2 * n]));
         }
+        if self.spins.len() % 2 == 1 {
+            result.push(self.right_edge_omega(h, h_r));
+        }
 
         result
     }
@@ -821,30 +849,15 @@ impl SpinChainLangevin {
         let mut result: Vec<[f64; 3]> = Vec::with_capacity(l);
         // J_{2n} S_{2n} + J_{2n+1} S_{2n+2}
 
-        for n in 0..l - 1 {
+        for n in 0..(self.spins.len() - 1) / 2 {
             let left_s: [f64; 3] = Self::j_s(&self.j_couple[2 * n], &self.spins[2 * n]);
             let right_s: [f64; 3] = Self::j_s(&self.j_couple[2 * n + 1], &self.spins[2 * n + 2]);
 
             result.push(Self::ssh_sum(&left_s, &right_s, &h[2 * n + 1]));
         }
         //Do last site explicitly
-        {
-            let dh: [f64; 3] = [
-                h_r[0] / self.vars.dt,
-                h_r[1] / self.vars.dt,
-                h_r[2] / self.vars.dt,
-            ];
-            let omega_bare: Vec<f64> =
-                Self::j_s(&self.j_couple[2 * (l - 1)], &self.spins[2 * (l - 1)])
-                    .iter()
-                    .zip(h[2 * (l - 1) + 1].iter())
-                    .map(|(x, y)| x - y)
-                    .collect();
-
-            let llg: [f64; 3] =
-                Self::cross(&self.spins[2 * (l - 1) + 1].dir, &omega_bare, -self.gamma);
-
-            result.push(Self::ssh_sum(&omega_bare, &llg, &dh));
+        if self.spins.len() % 2 == 0 {
+            result.push(self.right_edge_omega(h, h_r));
         }
 
         result
-- 
2.43.0


From 28b2eb6dd1c7e316a11c7c45dec4d4fd2c43f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 10/36] fix: include the static field in the Langevin boundary
 term

The edge spins precess in the static plus driving field, but the reported
energy flow used the driving field only.
---
 src/spinchain_langevin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index e1ffdbc..3291c41 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -552,19 +552,21 @@ impl SpinChainLangevin {
         let slsq: f64 = sq!(self.spins[ell - 1].dir);
 
         let h_e: [f64; 3] = self.h_ext(self.t);
+        let h_el: [f64; 3] = Self::sum_vec(&self.static_h[0], &h_e);
+        let h_er: [f64; 3] = Self::sum_vec(&self.static_h[ell - 1], &h_e);
 
         //Use macro to do these things later, for now just use vec
         //\Omega_1 = J_1 S_2 - B(t)
 
         let om_1: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_e[x])
+            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_el[x])
             .collect();
         let om_1_sq: f64 = sq!(om_1);
         let oms1: f64 = dot!(om_1, self.spins[0].dir);
 
         //\Omega_\ell = J_{\ell-1} S_{\ell-1} - B(t)
         let om_ell: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_e[x])
+            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_er[x])
             .collect();
         let om_ell_sq: f64 = sq!(om_ell);
         let omsell: f64 = dot!(om_ell, self.spins[ell - 1].dir);
-- 
2.43.0


From 83fa27531b0556ba4928ce4e7681e505396411ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 11/36] fix: sample stroboscopically at whole drive periods

t/dt and tau/dt were truncated to integers, so rounding error moved a sample
to the following step (t=10.02 for tau=10, dt=0.02), every time before t=0
counted as a multiple of the period, and a period of a fraction below one
step divided by zero. Round to the nearest step everywhere.
---
 src/obs.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..2856f07 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,5 +1,16 @@
 use super::*;
 
+/// Number of time-steps in `t`. Rounding is necessary: neither `t` nor `dt` is exact, so the quotient
+/// lies on either side of the integer
+fn steps_to(t: f64, vars: &Config) -> i64 {
+    (t / vars.dt).round() as i64
+}
+
+/// Number of time-steps in a drive period
+fn steps_per_period(vars: &Config) -> i64 {
+    steps_to(vars.tau, vars).max(1)
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
     let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
 
@@ -491,8 +502,8 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
     for i in 0..((conf.runs) as usize) {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
-        let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps: usize = steps_to(1000.0 * conf.tau, conf) as usize;
+        let steps_in_cycle: usize = steps_per_period(conf) as usize;
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
@@ -566,15 +577,15 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
-    let steps = (final_t / conf.dt) as usize;
+    let init_steps = steps_to(offset * conf.tau, conf) as usize;
+    let steps = steps_to(final_t, conf) as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    let cycle_steps: u64 = steps_per_period(conf) as u64;
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -619,7 +630,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         )
         .progress_chars("#>-");
 
-    let steps = (conf.t / conf.dt) as usize;
+    let steps = steps_to(conf.t, conf) as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
@@ -905,8 +916,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
+            let tau_steps: i64 = steps_per_period(&spin_chain.vars);
 
             spin_chain.log();
 
@@ -914,7 +924,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if steps_to(spin_chain.t, &spin_chain.vars).rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -971,7 +981,7 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = steps_per_period(&spin_chain.vars);
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -984,8 +994,7 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
-                    {
+                    if steps_to(spin_chain.t, &spin_chain.vars).rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1042,7 +1051,7 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = steps_per_period(&spin_chain.vars);
 
             spin_chain.log();
 
@@ -1050,7 +1059,7 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if steps_to(spin_chain.t, &spin_chain.vars).rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1290,7 +1299,7 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = steps_per_period(&spin_chain.vars);
 
             spin_chain.log();
 
@@ -1298,7 +1307,7 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if steps_to(spin_chain.t, &spin_chain.vars).rem_euclid(tau_steps) == 0 {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From eee84db01c9554df399242c07e67b0f5b5c5e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 12/36] fix: keep the first data row when averaging log files

The first line of every log was skipped as a header, but only Langevin logs
have one: the average lost t=0, and the two-point average, which needs the
t=0 row, panicked.
---
 src/obs.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 2856f07..2e93f76 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1332,6 +1332,14 @@ pub fn run_ext(conf: &mut Config) {
     println!("Finished {} runs", num);
 }
 
+/// Lines of a log file without the header, which only the Langevin logs have
+fn data_lines(reader: BufReader<File>) -> impl Iterator<Item = String> {
+    reader
+        .lines()
+        .map(|line| line.unwrap())
+        .filter(|line| !line.starts_with('#'))
+}
+
 pub fn two_point_average(conf: &mut Config) {
     println!("Calculating two-point-average");
 
@@ -1371,8 +1379,7 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
-                        let line = line.unwrap();
+                    for line in data_lines(reader) {
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
@@ -1388,9 +1395,7 @@ pub fn two_point_average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
+                for (i, line) in data_lines(reader).enumerate() {
 
                     // Read line into appropriate vector
 
@@ -1469,9 +1474,7 @@ pub fn average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
+                for (i, line) in data_lines(reader).enumerate() {
 
                     //                    println!("Line {}: {}", i, &line);
                     // Read line into appropriate vector
-- 
2.43.0


From 6f48da6c75b6329c3b72a67bf19ff113f22673e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 13/36] fix: wait for the background writer before exiting

Samples are written by a background thread that nobody joined, so the rows
still queued when the main thread returned were lost.
---
 src/obs.rs     | 20 ++++++++++++++++----
 src/writers.rs |  9 +++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 2e93f76..cfaeb53 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -622,7 +622,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -679,6 +679,9 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+    //Close the channel, and wait for everything to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -824,7 +827,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -884,6 +887,9 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+    //Close the channel, and wait for everything to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1536,7 +1542,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1610,6 +1616,9 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    //Close the channel, and wait for everything to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1727,7 +1736,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1801,4 +1810,7 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    //Close the channel, and wait for everything to be written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..3daf20f 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+/// Writes every line received to `file`. Drop the sender and join the handle to be sure that they
+/// all are in the file
+pub fn write_in_bg(
+    file: File,
+    rx: std::sync::mpsc::Receiver<String>,
+) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From 7caddc77bebbe9acee374813c21f97864e255ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 14/36] fix: keep command-line overrides out of config.toml

At the end of a batch the whole working configuration was written back, so
-t, the hsize=ssize of -l, the t=4000 tau of -P, and the fields set by the
fitting options replaced the user's settings for good.
---
 src/obs.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index cfaeb53..f5742b2 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -11,6 +11,17 @@ fn steps_per_period(vars: &Config) -> i64 {
     steps_to(vars.tau, vars).max(1)
 }
 
+/// Account for `num` more log files in config.toml. Only the offset and the effective temperature
+/// are written back: the rest of `conf` may have been overridden for this run alone
+fn update_config(conf: &mut Config, num: usize) {
+    conf.offset += num as u32;
+
+    let mut saved: Config = SpinChain::read_config("config.toml");
+    saved.offset = conf.offset;
+    saved.beta = conf.beta;
+    fs::write("config.toml", toml::to_string(&saved).unwrap()).unwrap();
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
     let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
 
@@ -950,8 +961,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    update_config(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1020,8 +1030,7 @@ pub fn run_sim_response(conf: &mut Config) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    update_config(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1085,8 +1094,7 @@ pub fn run_sim(conf: &mut Config) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    update_config(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1268,8 +1276,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
     writing_thread_4000.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    update_config(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1333,8 +1340,7 @@ pub fn run_ext(conf: &mut Config) {
     m.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    update_config(conf, num);
     println!("Finished {} runs", num);
 }
 
-- 
2.43.0


From 2b2dcb78da60b97bb6e0eedeac56b90e659622b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 15/36] fix: count the log files of -n in the offset

The runs of -n write log files from the current offset on, but did not
advance it, so the next batch overwrote them.
---
 src/obs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obs.rs b/src/obs.rs
index f5742b2..ae7e2a7 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -901,6 +901,9 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     //Close the channel, and wait for everything to be written
     drop(tx);
     writing_thread.join().unwrap();
+
+    //Update config
+    update_config(conf, taus.len());
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
-- 
2.43.0


From 2c5af67bae9c06b6ee877d9720d12d1055808f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 16/36] fix: accept the documented comma-separated list of
 periods

-n TAU1,TAU2,... was rejected, as the option had no value delimiter.
---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 66cfb01..f05a043 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_delimiter = ',',
+        value_name = "TAU1,TAU2,..."
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
-- 
2.43.0


From 02aa8bf6470aaa610aba909c4ed52642d3bbc8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 17/36] fix: advance the offset past the logs of -e

-e worked on a copy of the configuration, so another mode in the same
invocation overwrote its log files.
---
 src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f05a043..7cd26a6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -161,7 +161,6 @@ fn main() {
     }
     if args.ext {
         println!("Generating ext");
-        let mut conf = conf.clone();
         run_ext(&mut conf);
         default = false;
     }
-- 
2.43.0


From 487f3b88f2c8c46d7ad2544cb16dbded57060212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 18/36] fix: apply -b to every mode

The override was only applied after the modes that run first (-e, -n and the
fits) had used the temperature of the configuration file.
---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 7cd26a6..49282d6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -151,6 +151,9 @@ fn main() {
     if let Some(tau) = args.tau {
         conf.tau = tau;
     }
+    if let Some(beta) = args.beta {
+        conf.beta = beta;
+    }
 
     match args.config_desc {
         false => {}
-- 
2.43.0


From 72bb1e5605a4e8ad69ef068af9f3ab5d4d765e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 19/36] fix: do not truncate log files when only sampling

The Monte Carlo, histogram and fitting modes opened log0.dat (log1.dat, ...)
for chains that never log, destroying the logs of earlier runs.
---
 src/obs.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index ae7e2a7..69dc35a 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -22,8 +22,15 @@ fn update_config(conf: &mut Config, num: usize) {
     fs::write("config.toml", toml::to_string(&saved).unwrap()).unwrap();
 }
 
+/// Chain for sampling only. These never log, so must not create (and so truncate) a log file
+fn unlogged_chain(conf: &Config) -> SpinChain {
+    let mut conf: Config = conf.clone();
+    conf.log = false;
+    SpinChain::new(conf, 0)
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -42,7 +49,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -61,7 +68,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -79,7 +86,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -100,7 +107,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -303,7 +310,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -337,7 +344,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -370,7 +377,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -401,7 +408,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -434,7 +441,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -517,7 +524,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = steps_per_period(conf) as usize;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = unlogged_chain(conf);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -573,7 +580,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -663,7 +670,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = unlogged_chain(conf);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -701,7 +708,7 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = unlogged_chain(conf);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1579,7 +1586,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = unlogged_chain(conf);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1671,7 +1678,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = unlogged_chain(conf);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1773,7 +1780,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = unlogged_chain(conf);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From 081977cb1dcfe2e3a6d4ae84566c10f04017c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 20/36] fix: send every dynamical profile exactly once

A profile was sent only if a time-step fell within dt/5 of a multiple of 500
cycles; otherwise the writer waited for it forever and the run never ended.
---
 src/obs.rs | 62 ++++++++++++------------------------------------------
 1 file changed, 13 insertions(+), 49 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 69dc35a..a55aa6f 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1158,14 +1158,12 @@ pub fn run_dyn_profile(conf: &mut Config) {
         let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
         //        let mut spin_chain: SpinChain = sc_orig.clone();
         //        let txc = mpsc::Sender::clone(&tx);
-        let txc_500 = mpsc::Sender::clone(&tx_500);
-        let txc_1000 = mpsc::Sender::clone(&tx_1000);
-        let txc_1500 = mpsc::Sender::clone(&tx_1500);
-        let txc_2000 = mpsc::Sender::clone(&tx_2000);
-        let txc_2500 = mpsc::Sender::clone(&tx_2500);
-        let txc_3000 = mpsc::Sender::clone(&tx_3000);
-        let txc_3500 = mpsc::Sender::clone(&tx_3500);
-        let txc_4000 = mpsc::Sender::clone(&tx_4000);
+        let txcs: Vec<mpsc::Sender<String>> = [
+            &tx_500, &tx_1000, &tx_1500, &tx_2000, &tx_2500, &tx_3000, &tx_3500, &tx_4000,
+        ]
+        .iter()
+        .map(|&tx| mpsc::Sender::clone(tx))
+        .collect();
 
         // Initialise at a particular temperature, say T=1
 
@@ -1181,7 +1179,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let _tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let mut sent: usize = 0;
 
             while spin_chain.t < spin_chain.vars.t {
                 spin_chain.update();
@@ -1189,46 +1187,12 @@ pub fn run_dyn_profile(conf: &mut Config) {
                     pb.set_position(spin_chain.t as u64);
                 }
 
-                let txc_matched = match spin_chain.t {
-                    _ if (spin_chain.t - 500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_500))
-                    }
-                    _ if (spin_chain.t - 1000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1000))
-                    }
-                    _ if (spin_chain.t - 1500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1500))
-                    }
-                    _ if (spin_chain.t - 2000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2000))
-                    }
-                    _ if (spin_chain.t - 2500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2500))
-                    }
-                    _ if (spin_chain.t - 3000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3000))
-                    }
-                    _ if (spin_chain.t - 3500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3500))
-                    }
-                    _ if (spin_chain.t - 4000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_4000))
+                // Send each profile once, at the time-step closest to a multiple of 500 cycles
+                let t_next: f64 = 500.0 * (sent + 1) as f64 * spin_chain.vars.tau;
+                let txc_matched = match txcs.get(sent) {
+                    Some(txc) if spin_chain.t + spin_chain.vars.dt / 2.0 >= t_next => {
+                        sent += 1;
+                        Some(txc)
                     }
                     _ => None,
                 };
-- 
2.43.0


From aa459ddb86b36446ce35526e397d4afbcd968ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 21/36] fix: read the documented drivetype key

The README documents drivetype, which was silently ignored as the field is
called drive.
---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 53d5ec8..6c58c01 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -60,6 +60,7 @@ pub struct Config {
     pub beta: f64,
     pub mc_points: usize,
     pub e: f64,
+    #[serde(alias = "drivetype")]
     pub drive: DriveType,
     pub log: bool,
 }
-- 
2.43.0


From d9420be8734dd5ee4a2953879621d37a8abbf89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 22/36] fix: print the documented description with
 --config-desc

config-desc.toml was empty.
---
 src/config-desc.toml | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..eb780c0 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,24 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256        # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0       # minus initial time
+tau = 10       # period of drive
+lambda = 1     # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0       # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+e = 0.9        # eccentricity (scale of y-drive if drivetype="xyelliptic")
+drivetype = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+mc_points = 1000 # number of points for Monte-Carlo averages
+log = true     # write log files
-- 
2.43.0


From 1cb852acb6668b5a6ebbb541d4b01fc6d4e8de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 23/36] fix: place every wavenumber of an odd-length spin
 spectrum

---
 src/spinchain.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index e165498..aff3aa1 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1195,9 +1195,11 @@ impl SpinChain {
         fft.process(&mut y_buffer);
         fft.process(&mut z_buffer);
 
-        for i in (l / 2)..l {
+        // Negative wavenumbers first: they start at l/2 rounded up
+        let neg = l - l / 2;
+        for i in neg..l {
             let k = 2.0 * pi * (i as f64) / (l as f64);
-            ek[i - l / 2] = x_buffer[i].re * x_buffer[i].re
+            ek[i - neg] = x_buffer[i].re * x_buffer[i].re
                 + x_buffer[i].im * x_buffer[i].im
                 + y_buffer[i].re * y_buffer[i].re
                 + y_buffer[i].im * y_buffer[i].im
@@ -1205,7 +1207,7 @@ impl SpinChain {
                 + z_buffer[i].im * z_buffer[i].im;
         }
 
-        for i in 0..l / 2 {
+        for i in 0..neg {
             let k = 2.0 * pi * (i as f64) / (l as f64);
             ek[i + l / 2] = x_buffer[i].re * x_buffer[i].re
                 + x_buffer[i].im * x_buffer[i].im
-- 
2.43.0


From 1b61b4ec55aba6b44cfb5a86bcb1fa3c9b3baa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 24/36] fix: do not overwrite a configuration file that cannot
 be read

---
 src/spinchain.rs          | 6 +++++-
 src/spinchain_langevin.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index aff3aa1..d27c24f 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -77,7 +77,7 @@ pub struct SpinChain {
 
 impl SpinChain {
     /// Reads a configuration from a file.
-    /// If the file cannot be opened, write a config.toml with default values and use default
+    /// If there is no such file, write a config.toml with default values and use default
     /// values
     pub fn read_config(filename: &str) -> Config {
         //Read files
@@ -93,6 +93,10 @@ impl SpinChain {
                     //Config::default()
                 }
             },
+            //Only replace a file which is not there: one that cannot be read may still be of use
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                panic!("Cannot read configuration: {:?}", e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 3291c41..3a6f954 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -68,7 +68,7 @@ pub struct SpinChainLangevin {
 
 impl SpinChainLangevin {
     /// Reads a configuration from a file.
-    /// If the file cannot be opened, write a config.toml with default values and use default
+    /// If there is no such file, write a config.toml with default values and use default
     /// values
     pub fn read_config(filename: &str) -> Config {
         //Read files
@@ -84,6 +84,10 @@ impl SpinChainLangevin {
                     //Config::default()
                 }
             },
+            //Only replace a file which is not there: one that cannot be read may still be of use
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                panic!("Cannot read configuration: {:?}", e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
-- 
2.43.0


From 0567bb4695fcd94f2014173bd706f8dda2e2158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 25/36] fix: a single trajectory has as many samples as
 requested whatever its start time

---
 src/obs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obs.rs b/src/obs.rs
index a55aa6f..93c1091 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,8 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         pb.set_position(sc.t as u64);
         step_count += 1;
     }
-    while sc.t < final_t {
+    // Count steps: the clock need not have started at zero
+    for _ in init_steps..steps {
         sc.update();
         step_count += 1;
 
-- 
2.43.0


From 749ddcd26504c9fb2433a9425ee3bc98fb32d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 26/36] fix: finish dynamic profiles whose time-step spans
 several of them

---
 src/obs.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 93c1091..59879b6 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1188,17 +1188,13 @@ pub fn run_dyn_profile(conf: &mut Config) {
                     pb.set_position(spin_chain.t as u64);
                 }
 
-                // Send each profile once, at the time-step closest to a multiple of 500 cycles
-                let t_next: f64 = 500.0 * (sent + 1) as f64 * spin_chain.vars.tau;
-                let txc_matched = match txcs.get(sent) {
-                    Some(txc) if spin_chain.t + spin_chain.vars.dt / 2.0 >= t_next => {
-                        sent += 1;
-                        Some(txc)
-                    }
-                    _ => None,
-                };
-
-                if let Some(txc) = txc_matched {
+                // Send each profile once, at the time-step closest to a multiple of 500 cycles. Several
+                // are due at once if a time-step is longer than that
+                while let Some(txc) = txcs.get(sent).filter(|_| {
+                    let t_next: f64 = 500.0 * (sent + 1) as f64 * spin_chain.vars.tau;
+                    spin_chain.t + spin_chain.vars.dt / 2.0 >= t_next
+                }) {
+                    sent += 1;
                     //Now log with correct log
                     //Write data
                     #[allow(non_snake_case)]
-- 
2.43.0


From 665c1a4c8fef725c02bc9e075b11bdfa04f03854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 27/36] fix: do not store an overridden temperature

---
 src/obs.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 59879b6..9b9cbc3 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -11,14 +11,16 @@ fn steps_per_period(vars: &Config) -> i64 {
     steps_to(vars.tau, vars).max(1)
 }
 
-/// Account for `num` more log files in config.toml. Only the offset and the effective temperature
-/// are written back: the rest of `conf` may have been overridden for this run alone
+/// Account for `num` more log files in config.toml. Only the offset and the temperature determined
+/// by ednsty are written back: `conf` may have been overridden for this run alone
 fn update_config(conf: &mut Config, num: usize) {
     conf.offset += num as u32;
 
     let mut saved: Config = SpinChain::read_config("config.toml");
     saved.offset = conf.offset;
-    saved.beta = conf.beta;
+    if conf.beta == SpinChain::solve_beta(saved.ednsty) {
+        saved.beta = conf.beta;
+    }
     fs::write("config.toml", toml::to_string(&saved).unwrap()).unwrap();
 }
 
-- 
2.43.0


From ab988974c815c4eee64114c2a3a20ea170c5e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 28/36] fix: replace config.toml as a whole, so that an
 interrupted or failed write does not lose it

---
 src/config.rs             | 17 +++++++++++++++++
 src/obs.rs                |  2 +-
 src/spinchain.rs          |  2 +-
 src/spinchain_langevin.rs |  2 +-
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 6c58c01..b62742b 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,4 +1,5 @@
 use serde::{Deserialize, Serialize};
+use std::{fs, io};
 
 #[derive(Deserialize, Serialize, Debug, Clone)]
 #[allow(non_camel_case_types)]
@@ -65,6 +66,22 @@ pub struct Config {
     pub log: bool,
 }
 
+impl Config {
+    /// Writes the configuration to a file, which is replaced as a whole: if this fails or is
+    /// interrupted, what was there stays
+    pub fn save(&self, filename: &str) -> io::Result<()> {
+        // The file itself, not a link to it
+        let path = fs::canonicalize(filename).unwrap_or_else(|_| filename.into());
+        let new = path.with_extension("toml.new");
+
+        fs::write(&new, toml::to_string(self).unwrap())?;
+        if let Ok(old) = fs::metadata(&path) {
+            fs::set_permissions(&new, old.permissions())?;
+        }
+        fs::rename(&new, &path)
+    }
+}
+
 impl Default for Config {
     fn default() -> Self {
         Config {
diff --git a/src/obs.rs b/src/obs.rs
index 9b9cbc3..b797902 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -21,7 +21,7 @@ fn update_config(conf: &mut Config, num: usize) {
     if conf.beta == SpinChain::solve_beta(saved.ednsty) {
         saved.beta = conf.beta;
     }
-    fs::write("config.toml", toml::to_string(&saved).unwrap()).unwrap();
+    saved.save("config.toml").unwrap();
 }
 
 /// Chain for sampling only. These never log, so must not create (and so truncate) a log file
diff --git a/src/spinchain.rs b/src/spinchain.rs
index d27c24f..d9d6fe1 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -102,7 +102,7 @@ impl SpinChain {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().save("config.toml").unwrap();
                 Config::default()
             }
         }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 3a6f954..e878880 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -93,7 +93,7 @@ impl SpinChainLangevin {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().save("config.toml").unwrap();
                 Config::default()
             }
         }
-- 
2.43.0


From c109a4a502ae61e049839312dd9e7b4d2ede56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:09 +0000
Subject: [PATCH 29/36] fix: a batch with failed runs is not accounted for as
 finished

---
 src/obs.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/obs.rs b/src/obs.rs
index b797902..463a42f 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -24,6 +24,15 @@ fn update_config(conf: &mut Config, num: usize) {
     saved.save("config.toml").unwrap();
 }
 
+/// Waits for `num` runs, each of which sends when it is complete. One that failed does not pass for finished
+fn wait_for_runs(tx: mpsc::Sender<()>, rx: mpsc::Receiver<()>, num: usize) {
+    drop(tx);
+    let complete: usize = rx.into_iter().count();
+    if complete != num {
+        panic!("{} of {} runs failed", num - complete, num);
+    }
+}
+
 /// Chain for sampling only. These never log, so must not create (and so truncate) a log file
 fn unlogged_chain(conf: &Config) -> SpinChain {
     let mut conf: Config = conf.clone();
@@ -836,6 +845,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
 
     let threads = conf.threads;
     let pool = ThreadPool::new(threads);
+    let (done_tx, done_rx) = mpsc::channel();
 
     let (tx, rx) = mpsc::channel();
 
@@ -868,6 +878,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         pb.set_style(sty.clone());
         let txc = mpsc::Sender::clone(&tx);
 
+        let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
             pb.set_message(format!("tau={tau}", tau = spin_chain.vars.tau));
 
@@ -904,10 +915,12 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
 
             pb.finish_and_clear();
             //            pb.finish_with_message(&format!("Done {}",i));
+            donec.send(()).unwrap();
         });
     }
 
     m.join().unwrap();
+    wait_for_runs(done_tx, done_rx, taus.len());
     //Close the channel, and wait for everything to be written
     drop(tx);
     writing_thread.join().unwrap();
@@ -927,6 +940,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
     let threads = conf.threads;
     let num: usize = conf.runs as usize;
     let pool = ThreadPool::new(threads);
+    let (done_tx, done_rx) = mpsc::channel();
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -939,6 +953,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
         let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
         pb.set_style(sty.clone());
 
+        let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
             pb.set_message(format!("Run {}", i));
 
@@ -967,11 +982,13 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
             }
             pb.finish_and_clear();
             //            pb.finish_with_message(&format!("Done {}",i));
+            donec.send(()).unwrap();
         });
     }
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    wait_for_runs(done_tx, done_rx, num);
 
     //Update config
     update_config(conf, num);
@@ -989,6 +1006,7 @@ pub fn run_sim_response(conf: &mut Config) {
     let threads = conf.threads;
     let num: usize = conf.runs as usize;
     let pool = ThreadPool::new(threads);
+    let (done_tx, done_rx) = mpsc::channel();
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -1001,6 +1019,7 @@ pub fn run_sim_response(conf: &mut Config) {
         let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
         pb.set_style(sty.clone());
 
+        let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
             pb.set_message(format!("Run {}", i));
 
@@ -1036,11 +1055,13 @@ pub fn run_sim_response(conf: &mut Config) {
             }
             pb.finish_and_clear();
             //            pb.finish_with_message(&format!("Done {}",i));
+            donec.send(()).unwrap();
         });
     }
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    wait_for_runs(done_tx, done_rx, num);
 
     //Update config
     update_config(conf, num);
@@ -1058,6 +1079,7 @@ pub fn run_sim(conf: &mut Config) {
     let threads = conf.threads;
     let num: usize = conf.runs as usize;
     let pool = ThreadPool::new(threads);
+    let (done_tx, done_rx) = mpsc::channel();
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -1070,6 +1092,7 @@ pub fn run_sim(conf: &mut Config) {
         let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
         pb.set_style(sty.clone());
 
+        let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
             pb.set_message(format!("Run {}", i));
 
@@ -1100,11 +1123,13 @@ pub fn run_sim(conf: &mut Config) {
             }
             pb.finish_and_clear();
             //            pb.finish_with_message(&format!("Done {}",i));
+            donec.send(()).unwrap();
         });
     }
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    wait_for_runs(done_tx, done_rx, num);
 
     //Update config
     update_config(conf, num);
@@ -1122,6 +1147,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
     let threads = conf.threads;
     let num: usize = conf.runs as usize;
     let pool = ThreadPool::new(threads);
+    let (done_tx, done_rx) = mpsc::channel();
     // Set up to run for 4000 cycles
     // Log for every 500 cycles
     conf.t = conf.tau * 4000.0;
@@ -1173,6 +1199,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
         let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
         pb.set_style(sty.clone());
 
+        let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
             pb.set_message(format!("Run {}", i));
 
@@ -1234,11 +1261,13 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
             pb.finish_and_clear();
             //            pb.finish_with_message(&format!("Done {}",i));
+            donec.send(()).unwrap();
         });
     }
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    wait_for_runs(done_tx, done_rx, num);
     writing_thread_500.join().unwrap();
     writing_thread_1000.join().unwrap();
     writing_thread_1500.join().unwrap();
@@ -1264,6 +1293,7 @@ pub fn run_ext(conf: &mut Config) {
     let threads = conf.threads;
     let num: usize = conf.runs as usize;
     let pool = ThreadPool::new(threads);
+    let (done_tx, done_rx) = mpsc::channel();
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -1276,6 +1306,7 @@ pub fn run_ext(conf: &mut Config) {
         let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
         pb.set_style(sty.clone());
 
+        let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
             pb.set_message(format!("Run {}", i));
 
@@ -1306,11 +1337,13 @@ pub fn run_ext(conf: &mut Config) {
             }
             pb.finish_and_clear();
             //            pb.finish_with_message(&format!("Done {}",i));
+            donec.send(()).unwrap();
         });
     }
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    wait_for_runs(done_tx, done_rx, num);
 
     //Update config
     update_config(conf, num);
-- 
2.43.0


From 637efe614999978b8b65a39d0bd064beeed12637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 30/36] fix: open the log of a run when it starts, so that a
 batch may have more runs than files may be open

---
 src/obs.rs | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 463a42f..a4f8a11 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -864,22 +864,24 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     println!("Effective temperature: {}", conf.beta);
 
     for (i, tau) in taus.iter().enumerate() {
-        let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
-        spin_chain.vars.tau = *tau;
-        spin_chain.vars.dt = match spin_chain.vars.tau {
-            x if x < 10.0 => spin_chain.vars.tau / 100.0,
+        let mut vars = conf.clone();
+        vars.tau = *tau;
+        vars.dt = match vars.tau {
+            x if x < 10.0 => vars.tau / 100.0,
             _ => 0.1,
         };
-        spin_chain.vars.t = steps as f64 * spin_chain.vars.tau;
+        vars.t = steps as f64 * vars.tau;
 
         // Initialise at a particular temperature, say T=1
 
-        let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
+        let pb = m.add(ProgressBar::new(vars.t as u64));
         pb.set_style(sty.clone());
         let txc = mpsc::Sender::clone(&tx);
 
         let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
+            let log_num = i + vars.offset as usize;
+            let mut spin_chain: SpinChain = SpinChain::new(vars, log_num);
             pb.set_message(format!("tau={tau}", tau = spin_chain.vars.tau));
 
             for _ in 0..2e7 as usize {
@@ -946,15 +948,17 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
     println!("Effective temperature: {}", conf.beta);
 
     for i in 0..num {
-        let mut spin_chain = SpinChainLangevin::new(conf.clone(), i + conf.offset as usize, gamma);
+        let vars = conf.clone();
 
         // Initialise at a particular temperature, say T=1
 
-        let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
+        let pb = m.add(ProgressBar::new(vars.t as u64));
         pb.set_style(sty.clone());
 
         let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
+            let log_num = i + vars.offset as usize;
+            let mut spin_chain = SpinChainLangevin::new(vars, log_num, gamma);
             pb.set_message(format!("Run {}", i));
 
             for _ in 0..2e7 as usize {
@@ -1012,15 +1016,17 @@ pub fn run_sim_response(conf: &mut Config) {
     println!("Effective temperature: {}", conf.beta);
 
     for i in 0..num {
-        let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
+        let vars = conf.clone();
 
         // Initialise at a particular temperature, say T=1
 
-        let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
+        let pb = m.add(ProgressBar::new(vars.t as u64));
         pb.set_style(sty.clone());
 
         let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
+            let log_num = i + vars.offset as usize;
+            let mut spin_chain: SpinChain = SpinChain::new(vars, log_num);
             pb.set_message(format!("Run {}", i));
 
             //            spin_chain.vars.hs=vec![1.0,0.0,-2.0*PI/spin_chain.vars.tau];
@@ -1085,15 +1091,17 @@ pub fn run_sim(conf: &mut Config) {
     println!("Effective temperature: {}", conf.beta);
 
     for i in 0..num {
-        let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
+        let vars = conf.clone();
 
         // Initialise at a particular temperature, say T=1
 
-        let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
+        let pb = m.add(ProgressBar::new(vars.t as u64));
         pb.set_style(sty.clone());
 
         let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
+            let log_num = i + vars.offset as usize;
+            let mut spin_chain: SpinChain = SpinChain::new(vars, log_num);
             pb.set_message(format!("Run {}", i));
 
             //            spin_chain.vars.hs=vec![1.0,0.0,-2.0*PI/spin_chain.vars.tau];
@@ -1184,7 +1192,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
     //    let mut sc_orig: SpinChain = SpinChain::new(conf.clone(), conf.offset as usize).clone();
 
     for i in 0..num {
-        let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
+        let vars = conf.clone();
         //        let mut spin_chain: SpinChain = sc_orig.clone();
         //        let txc = mpsc::Sender::clone(&tx);
         let txcs: Vec<mpsc::Sender<String>> = [
@@ -1196,11 +1204,13 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
         // Initialise at a particular temperature, say T=1
 
-        let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
+        let pb = m.add(ProgressBar::new(vars.t as u64));
         pb.set_style(sty.clone());
 
         let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
+            let log_num = i + vars.offset as usize;
+            let mut spin_chain: SpinChain = SpinChain::new(vars, log_num);
             pb.set_message(format!("Run {}", i));
 
             //            spin_chain.vars.hs=vec![1.0,0.0,-2.0*PI/spin_chain.vars.tau];
@@ -1299,15 +1309,17 @@ pub fn run_ext(conf: &mut Config) {
     println!("Effective temperature: {}", conf.beta);
 
     for i in 0..num {
-        let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
+        let vars = conf.clone();
 
         // Initialise at a particular temperature, say T=1
 
-        let pb = m.add(ProgressBar::new(spin_chain.vars.t as u64));
+        let pb = m.add(ProgressBar::new(vars.t as u64));
         pb.set_style(sty.clone());
 
         let donec = mpsc::Sender::clone(&done_tx);
         pool.execute(move || {
+            let log_num = i + vars.offset as usize;
+            let mut spin_chain: SpinChain = SpinChain::new(vars, log_num);
             pb.set_message(format!("Run {}", i));
 
             //            spin_chain.vars.hs=vec![1.0,0.0,-2.0*PI/spin_chain.vars.tau];
-- 
2.43.0


From 7d0da5bd3899ca7da116a229d1bcb385e11393cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:09 +0000
Subject: [PATCH 31/36] fix: average only the logs of the configured name,
 which is no pattern

---
 src/main.rs |  3 ++-
 src/obs.rs  | 31 +++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 49282d6..fad95ea 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,7 @@ use indicatif::{MultiProgress, ProgressBar, ProgressStyle};
 use std::fs;
 use std::fs::{File, OpenOptions};
 use std::io::{prelude::*, BufReader};
+use std::path::Path;
 use std::sync::mpsc;
 use std::thread;
 use threadpool::ThreadPool;
@@ -135,7 +136,7 @@ struct Args {
     high_freq: Option<f64>,
 }
 
-use glob::glob;
+use glob::{glob, GlobResult, Pattern};
 
 fn print_config_description() {
     println!("{}", CS);
diff --git a/src/obs.rs b/src/obs.rs
index a4f8a11..ed95929 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1370,18 +1370,31 @@ fn data_lines(reader: BufReader<File>) -> impl Iterator<Item = String> {
         .filter(|line| !line.starts_with('#'))
 }
 
+/// Log files of the configured name, i.e. log0.dat, log1.dat, but not log_old0.dat
+fn log_files(conf: &Config) -> impl Iterator<Item = GlobResult> {
+    let file_glob = format!("{}*.dat", Pattern::escape(&conf.file));
+    let prefix: String = conf.file.rsplit('/').next().unwrap().to_string();
+    let numbered = move |path: &Path| -> bool {
+        path.file_stem()
+            .and_then(|stem| stem.to_str()?.strip_prefix(prefix.as_str()))
+            .map_or(false, |num| {
+                !num.is_empty() && num.bytes().all(|b| b.is_ascii_digit())
+            })
+    };
+
+    glob(&file_glob)
+        .expect("Failed to find log files")
+        .filter(move |entry| entry.as_ref().map_or(true, |path| numbered(path)))
+}
+
 pub fn two_point_average(conf: &mut Config) {
     println!("Calculating two-point-average");
 
-    let mut file_glob = conf.file.clone();
-    file_glob.push_str("*.dat");
-
     let mut avg_data: Vec<Vec<f64>> = Vec::with_capacity(2000_usize);
     let mut avg_nums: Vec<f64> = Vec::with_capacity(2000_usize);
 
-    let expect_str = "Failed to find log files".to_string();
-    let entries = glob(&file_glob).expect(&expect_str);
-    let entriesc = glob(&file_glob).expect(&expect_str);
+    let entries = log_files(conf);
+    let entriesc = log_files(conf);
 
     println!("Performing bare average");
 
@@ -1479,13 +1492,11 @@ pub fn two_point_average(conf: &mut Config) {
 
 pub fn average(conf: &mut Config) {
     println!("Averaging");
-    let mut file_prefix = conf.file.clone();
-    file_prefix.push_str("*.dat");
     let mut avg_data: Vec<Vec<f64>> = Vec::with_capacity((conf.t / conf.dt) as usize);
     let mut avg_nums: Vec<f64> = Vec::with_capacity((conf.t / conf.dt) as usize);
-    let entries = glob(&file_prefix).expect("Failed to find log files");
+    let entries = log_files(conf);
     //Can this be done more elegantly?
-    let entriesc = glob(&file_prefix).expect("Failed to find log files");
+    let entriesc = log_files(conf);
     let pb = ProgressBar::new(entriesc.fold(0, |acc, _| acc + 1));
     pb.set_style(
         ProgressStyle::default_bar()
-- 
2.43.0


From 8425b7d6b2c18cbb4ababc3e6c1155e7b4bc26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 32/36] fix: averaging reserves no memory for steps there may
 not be

---
 src/obs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index ed95929..eb573cc 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1492,8 +1492,8 @@ pub fn two_point_average(conf: &mut Config) {
 
 pub fn average(conf: &mut Config) {
     println!("Averaging");
-    let mut avg_data: Vec<Vec<f64>> = Vec::with_capacity((conf.t / conf.dt) as usize);
-    let mut avg_nums: Vec<f64> = Vec::with_capacity((conf.t / conf.dt) as usize);
+    let mut avg_data: Vec<Vec<f64>> = Vec::new();
+    let mut avg_nums: Vec<f64> = Vec::new();
     let entries = log_files(conf);
     //Can this be done more elegantly?
     let entriesc = log_files(conf);
-- 
2.43.0


From 1239692431006bdfcffd4ed62738f0b47d6bdfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:08 +0000
Subject: [PATCH 33/36] fix: the two-point average takes the row closest to
 time zero

---
 src/obs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obs.rs b/src/obs.rs
index eb573cc..eb5e2f7 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1422,12 +1422,15 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
+                    // which is the closest one: time-steps may be small
+                    let mut closest: f64 = 1e-5;
                     for line in data_lines(reader) {
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
                             .collect::<Vec<f64>>();
-                        if line_data[0].abs() < 1e-5 {
+                        if line_data[0].abs() < closest {
+                            closest = line_data[0].abs();
                             t_zero_data = line_data;
                         }
                     }
-- 
2.43.0


From f4ca9029c9b28f9200b9e1308a14988e2ffb8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 34/36] fix: two-point averages of logs with empty lines, or
 without a time zero

---
 src/obs.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index eb5e2f7..5f0acab 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1429,12 +1429,18 @@ pub fn two_point_average(conf: &mut Config) {
                             .split(' ')
                             .flat_map(str::parse::<f64>)
                             .collect::<Vec<f64>>();
-                        if line_data[0].abs() < closest {
+                        // Profile logs have empty lines between the times
+                        if line_data.first().map_or(false, |t| t.abs() < closest) {
                             closest = line_data[0].abs();
                             t_zero_data = line_data;
                         }
                     }
                 }
+                // Nothing to multiply with
+                if t_zero_data.is_empty() {
+                    println!("No data at time zero in {}", path.display());
+                    continue;
+                }
 
                 let file = File::open(&path).expect("Unable to open file");
 
@@ -1453,10 +1459,11 @@ pub fn two_point_average(conf: &mut Config) {
                     // Process line data
                     line_data = line_data
                         .iter()
+                        .zip(t_zero_data.iter())
                         .enumerate()
-                        .map(|(i, &x)| match i {
+                        .map(|(i, (&x, &x0))| match i {
                             0 => x,
-                            i => x * t_zero_data[i],
+                            _ => x * x0,
                         })
                         .collect();
 
-- 
2.43.0


From 9bc45979d159a36cc650e4fa35b9df953cefe7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:53 +0000
Subject: [PATCH 35/36] fix: every mode uses the temperature of ednsty, not
 what an earlier run stored

---
 src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index fad95ea..69024ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -152,9 +152,10 @@ fn main() {
     if let Some(tau) = args.tau {
         conf.tau = tau;
     }
-    if let Some(beta) = args.beta {
-        conf.beta = beta;
-    }
+    // The configuration holds what an earlier run determined, maybe from another ednsty
+    conf.beta = args
+        .beta
+        .unwrap_or_else(|| SpinChain::solve_beta(conf.ednsty));
 
     match args.config_desc {
         false => {}
-- 
2.43.0


From 15070ab7ffdec51598a67e2196ae55062fa15037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:32 +0000
Subject: [PATCH 36/36] fix: -E takes a negative energy density, as the other
 fits do

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 69024ec..3a23482 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        value_name = "E",
+        allow_hyphen_values = true
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0

