From ffeac3b2aa4238fe3a498936b0e7380e4c549f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 01/20] fix: transpose terms consistently in ADMM demixing
 filter update

The least-squares step of ADMMBSS and MaskingADMMBSS solved for the
transposed filter without transposing the auxiliary terms, so iterates
were not the minimiser of the augmented Lagrangian and could diverge.
---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..85ba769 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -427,7 +428,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From 955bad8089fda71bab5425efdc0dbbee2dfaacde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 02/20] fix: accept initial_call in IPSDTA like every other
 method

IPSDTABase.__call__ swallowed initial_call into **kwargs, so a resumed run
recorded the loss and notified callbacks of its initial state twice.
---
 ssspy/bss/ipsdta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..20a38f5 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -93,7 +93,9 @@ class IPSDTABase(IterativeMethodBase):
 
         self.rng = rng
 
-    def __call__(self, input: np.ndarray, n_iter: int = 100, **kwargs) -> np.ndarray:
+    def __call__(
+        self, input: np.ndarray, n_iter: int = 100, initial_call: bool = True, **kwargs
+    ) -> np.ndarray:
         r"""Separate a frequency-domain multichannel signal.
 
         Args:
@@ -103,6 +105,9 @@ class IPSDTABase(IterativeMethodBase):
             n_iter (int):
                 The number of iterations of demixing filter updates.
                 Default: ``100``.
+            initial_call (bool):
+                If ``True``, perform callbacks (and computation of loss if necessary)
+                before iterations.
 
         Returns:
             numpy.ndarray of the separated signal in frequency-domain.
@@ -112,7 +117,7 @@ class IPSDTABase(IterativeMethodBase):
 
         self._reset(**kwargs)
 
-        super().__call__(n_iter=n_iter)
+        super().__call__(n_iter=n_iter, initial_call=initial_call)
 
         if self.scale_restoration:
             self.restore_scale()
-- 
2.43.0


From 1f6c54404b902cc57704f6423312fcc04bdbc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 03/20] fix: overwrite sequence in score-based permutation
 solver as documented

With overwrite=True the global step replaced the local name only, so the
caller's sequence kept its unaligned order while args were aligned.
---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..a7ca41b 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -213,7 +213,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From 391d1f67fe7a80bea14cc9174a0a1ce1b9638276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 04/20] fix: avoid loss of significance in solve_cubic

-Q/2 + sqrt(D) cancels to zero when |P| is small against Q > 0, which
returned nan instead of the roots.
---
 ssspy/linalg/polynomial.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ssspy/linalg/polynomial.py b/ssspy/linalg/polynomial.py
index eaefacc..8d8bf08 100644
--- a/ssspy/linalg/polynomial.py
+++ b/ssspy/linalg/polynomial.py
@@ -79,9 +79,16 @@ def _find_cubic_roots(P: np.ndarray, Q: np.ndarray) -> np.ndarray:
 
     discriminant = (Q / 2) ** 2 + (P / 3) ** 3
 
-    U = cbrt(-Q / 2 + np.sqrt(discriminant))
+    sqrt_discriminant = np.sqrt(discriminant)
+    U3 = -Q / 2 + sqrt_discriminant
+    V3 = -Q / 2 - sqrt_discriminant
+    # To avoid loss of significance, use U^{3}V^{3} = -(P/3)^{3} if U^{3} is cancelled.
+    is_cancelled = 2 * np.abs(U3) < np.abs(V3)
+    V3 = np.where(is_cancelled, V3, 1)
+    U3 = np.where(is_cancelled, -((P / 3) ** 3) / V3, U3)
+    U = cbrt(U3)
     # U = 0, when P = 0.
-    is_singular = P == 0
+    is_singular = U == 0
     U = np.where(is_singular, 1, U)
     V = -P / (3 * U)
 
-- 
2.43.0


From 700c23b6790c14097c61a6058a17485b34cf1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 05/20] fix: resolve record_loss and penalty_fn before
 initialising prox-based methods

record_loss=None is turned into True when penalty_fn is given, but only
after the base class had been set up, so no loss was recorded; the masking
variants additionally could not evaluate a recorded loss at all because
penalty_fn was not stored as a list.
---
 ssspy/bss/admmbss.py | 12 +++++++-----
 ssspy/bss/pdsbss.py  | 12 +++++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 85ba769..bb64a2f 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -295,11 +295,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -310,9 +305,16 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -287,9 +282,16 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From 56500f0c2f19d52905e4351529c8bcbccd121089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 06/20] fix: key cached sample data by what was requested

The npz caches were named by the number of channels only, so asking for
another tag or reverberation time returned the previously cached data.
---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..5761aa8 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -50,7 +50,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(rir_path):
         shutil.unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(reverb_duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..389d8c8 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -33,7 +33,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From ef62427027845ae45965252d1f7f62ece4df49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 07/20] fix: saturate full-scale float samples in wavwrite
 instead of wrapping

1.0 became 32768 and wrapped around to -32768 when cast to 16 bits, so a
full-scale positive sample was written with inverted sign.
---
 ssspy/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..b1a4fec 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,8 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = np.clip(_waveform.astype("f8") * vmax, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From cf9ae9a9bd7fea359ae9013704976cac28b23a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 08/20] fix: refuse negative frame_offset in wavread

A negative offset made the header bytes in front of the data chunk be
returned as samples.
---
 ssspy/io/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index b1a4fec..ea72674 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -155,6 +155,11 @@ def _read_data_chunk(
     return_2d: Optional[bool] = None,
     channels_first: Optional[bool] = None,
 ) -> np.ndarray:
+    if frame_offset < 0:
+        raise ValueError(
+            f"Invalid frame_offset={frame_offset} is given. Set nonnegative integer."
+        )
+
     data_chunk_size = struct.unpack("<I", f.read(4))[0]
     bytes_per_sample = block_align // n_channels
     n_full_samples = data_chunk_size // bytes_per_sample
-- 
2.43.0


From d22961a375e322dd0d97e7f2062b39b2d223316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 09/20] fix: correlation coefficients in
 score_based_permutation_solver

The score divided each correlation by the deviation of the wrong sequence:
the permuted row's centroid instead of the centroid it is compared with, and,
in the local optimization, a left-over centroid deviation although both
sequences are already normalized. The chosen permutation was therefore not
the one maximizing the score.
---
 ssspy/algorithm/permutation_alignment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index a7ca41b..82e9f07 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -203,9 +203,10 @@ def score_based_permutation_solver(
         scores = []
 
         for perm in permutations:
+            # correlation coefficients between permuted sequences (rows) and centroids (columns)
             num = np.mean(sequence_normalized[:, perm, na] * centroid[na, :], axis=-1)
             denom = flooring_fn(centroid_std)
-            corr = num / denom
+            corr = num / denom.squeeze(axis=-1)
             score = np.sum(eye * corr - (1 - eye) * corr, axis=(1, 2))
             scores.append(score)
 
@@ -240,12 +241,11 @@ def score_based_permutation_solver(
             scores = []
 
             for perm in permutations:
-                num = np.mean(
+                # standard deviations of both sequences are already normalized to 1
+                corr = np.mean(
                     sequence_normalized[bin_idx, perm, na] * covariant_sequence[:, na],
                     axis=-1,
                 )
-                denom = flooring_fn(centroid_std)
-                corr = num / denom
                 score = np.sum(eye * corr - (1 - eye) * corr, axis=(1, 2))
                 score = score.sum(axis=0)
                 scores.append(score)
-- 
2.43.0


From eda9dfbd3f6e16f955fa4f92428e847a50768a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 10/20] fix: minimal distortion principle in FastIVA works on
 the whitened input

---
 ssspy/bss/iva.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..f7dff7e 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -549,6 +549,25 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From dd68361be82e5fc49e0030da2284938cac4c6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 11/20] fix: do not rescale the linear term when normalizing
 the LQPQM secular equation

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..ca362e4 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From 267ec60cd6752a7aaba2e528a5e1892cd036d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 12/20] fix: take the dominant eigenvector (column) in LQPQM
 when the linear term is zero

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index ca362e4..16c52d6 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[:, :, -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From e3ec589edf0da90e41e6eabbd35f5c7dc304430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 13/20] fix: treat an exactly zero value as singular when
 flooring is disabled

With flooring_fn=None the threshold of the singular case is zero, and the
strict comparison never held, so that IPSDTA with blocks of one bin divided
zero by zero in its first update.
---
 ssspy/bss/_update_spatial_model.py | 2 +-
 ssspy/bss/ipsdta.py                | 4 ++--
 ssspy/linalg/lqpqm.py              | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssspy/bss/_update_spatial_model.py b/ssspy/bss/_update_spatial_model.py
index 01fde1b..a3542b3 100644
--- a/ssspy/bss/_update_spatial_model.py
+++ b/ssspy/bss/_update_spatial_model.py
@@ -483,7 +483,7 @@ def update_by_ipa(
             v_n,
             z_n,
             flooring_fn=flooring_fn,
-            singular_fn=lambda x: x < flooring_fn(0),
+            singular_fn=lambda x: x <= flooring_fn(0),
             max_iter=max_iter,
         )
 
diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index 20a38f5..38201e1 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -1107,7 +1107,7 @@ class GaussIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
@@ -1723,7 +1723,7 @@ class TIPSDTA(BlockDecompositionIPSDTABase):
             RXX = np.mean(pi_R_inverse[:, :, :, :, na, na] * XX[:, :, :, na, :, :], axis=-1)
 
             W = update_by_block_decomposition_vcd(
-                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) < flooring_fn(0)
+                W, weighted_covariance=RXX, singular_fn=lambda x: np.abs(x) <= flooring_fn(0)
             )
 
             return W
diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index 16c52d6..dc29d1f 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -67,7 +67,7 @@ def lqpqm2(
     elif singular_fn == "flooring":
 
         def _is_lower_than_floor(x: np.ndarray) -> np.ndarray:
-            return x < flooring_fn(0)
+            return x <= flooring_fn(0)
 
         singular_fn = _is_lower_than_floor
     else:
-- 
2.43.0


From 0ea0336c202fc8f6c3ded20b3d24ff7c36ff1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 14/20] fix: sqrtmh and invsqrtmh return nan for rank-deficient
 positive semidefinite matrices

---
 ssspy/linalg/sqrtm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ssspy/linalg/sqrtm.py b/ssspy/linalg/sqrtm.py
index 2206ba5..a7646d5 100644
--- a/ssspy/linalg/sqrtm.py
+++ b/ssspy/linalg/sqrtm.py
@@ -22,6 +22,8 @@ def sqrtmh(X: np.ndarray) -> np.ndarray:
     if np.iscomplexobj(X):
         P_Hermite = P_Hermite.conj()
 
+    # eigenvalues of positive semidefinite matrix may be slightly negative by rounding error
+    Lamb = np.maximum(Lamb, 0)
     Lamb = np.sqrt(Lamb)[..., np.newaxis] * np.eye(Lamb.shape[-1])
 
     return P @ Lamb @ P_Hermite
@@ -58,6 +60,8 @@ def invsqrtmh(
     if np.iscomplexobj(X):
         P_Hermite = P_Hermite.conj()
 
+    # eigenvalues of positive semidefinite matrix may be slightly negative by rounding error
+    Lamb = np.maximum(Lamb, 0)
     Lamb = 1 / flooring_fn(np.sqrt(Lamb))
     Lamb = Lamb[..., np.newaxis] * np.eye(Lamb.shape[-1])
 
-- 
2.43.0


From 91bf87d3cc6f9460aedd85789064fc3ba3237f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 15/20] fix: lqpqm2 ignores dominant eigenvector when linear
 term is orthogonal to it

---
 ssspy/linalg/lqpqm.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index dc29d1f..3491e40 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -108,9 +108,22 @@ def lqpqm2(
         normalization=True,
     )
 
-    num = phi_non_singular * v_tilde_non_singular
+    # when v is orthogonal to dominant eigenvector, it is ignored in solve_equation
+    phi_max_non_singular = phi_non_singular[:, -1]
+    is_ignored = lamb_non_singular < phi_max_non_singular
+    lamb_non_singular = np.where(is_ignored, phi_max_non_singular, lamb_non_singular)
+    is_zero = phi_non_singular * np.abs(v_tilde_non_singular) ** 2 < flooring_fn(0)
+    is_zero = is_zero | (phi_non_singular >= phi_max_non_singular[:, np.newaxis])
+    is_zero = is_zero & is_ignored[:, np.newaxis]
+
+    num = np.where(is_zero, 0, phi_non_singular * v_tilde_non_singular)
     denom = lamb_non_singular[..., np.newaxis] - phi_non_singular
-    v_nonsingular = num / denom
+    v_nonsingular = num / np.where(is_zero, 1, denom)
+
+    phi_non_zero = np.where(is_zero, 0, phi_non_singular)
+    f = _fn(lamb_non_singular, phi_non_zero, v_tilde_non_singular, z_non_singular)
+    scale = np.sqrt(np.where(is_ignored, -f, 0) / lamb_non_singular)
+    v_nonsingular[:, -1] = v_nonsingular[:, -1] + scale
     y_non_singular = np.sum(sigma_non_singular * v_nonsingular[:, np.newaxis, :], axis=-1)
 
     y = np.zeros_like(v)
-- 
2.43.0


From 5ef0ff99d4763a4fd3566e3183dfd922c39d980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 16/20] fix: accept flooring_fn=None in update methods as
 documented

---
 ssspy/utils/flooring.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/utils/flooring.py b/ssspy/utils/flooring.py
index edcf5db..e56ff3c 100644
--- a/ssspy/utils/flooring.py
+++ b/ssspy/utils/flooring.py
@@ -10,8 +10,6 @@ def choose_flooring_fn(
     method: Optional[Any] = None,
 ) -> Callable[[np.ndarray], np.ndarray]:
     if flooring_fn is None:
-        assert method is None, "method is given, but flooring function is not specified."
-
         flooring_fn = identity
     elif type(flooring_fn) is str and flooring_fn == "self":
         if method is None or not hasattr(method, "flooring_fn"):
-- 
2.43.0


From cb957c2e588617d52c863f55e98ead2a7b48be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 17/20] fix: document the actual default of is_holonomic in IVA

---
 ssspy/bss/iva.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index f7dff7e..67af36c 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -685,7 +685,7 @@ class GradIVA(GradIVABase):
             Default: ``None``.
         is_holonomic (bool):
             If ``is_holonomic=True``, Holonomic-type update is used.
-            Otherwise, Nonholonomic-type update is used. Default: ``False``.
+            Otherwise, Nonholonomic-type update is used. Default: ``True``.
         scale_restoration (bool or str):
             Technique to restore scale ambiguity.
             If ``scale_restoration=True``, the projection back technique is applied to
@@ -862,7 +862,7 @@ class NaturalGradIVA(GradIVABase):
             Default: ``None``.
         is_holonomic (bool):
             If ``is_holonomic=True``, Holonomic-type update is used.
-            Otherwise, Nonholonomic-type update is used. Default: ``False``.
+            Otherwise, Nonholonomic-type update is used. Default: ``True``.
         scale_restoration (bool or str):
             Technique to restore scale ambiguity.
             If ``scale_restoration=True``, the projection back technique is applied to
@@ -2379,7 +2379,7 @@ class GradLaplaceIVA(GradIVA):
             Default: ``None``.
         is_holonomic (bool):
             If ``is_holonomic=True``, Holonomic-type update is used.
-            Otherwise, Nonholonomic-type update is used. Default: ``False``.
+            Otherwise, Nonholonomic-type update is used. Default: ``True``.
         scale_restoration (bool or str):
             Technique to restore scale ambiguity.
             If ``scale_restoration=True``, the projection back technique is applied to
@@ -2545,7 +2545,7 @@ class GradGaussIVA(GradIVA):
             Default: ``None``.
         is_holonomic (bool):
             If ``is_holonomic=True``, Holonomic-type update is used.
-            Otherwise, Nonholonomic-type update is used. Default: ``False``.
+            Otherwise, Nonholonomic-type update is used. Default: ``True``.
         scale_restoration (bool or str):
             Technique to restore scale ambiguity.
             If ``scale_restoration=True``, the projection back technique is applied to
@@ -2695,7 +2695,7 @@ class NaturalGradLaplaceIVA(NaturalGradIVA):
             Default: ``None``.
         is_holonomic (bool):
             If ``is_holonomic=True``, Holonomic-type update is used.
-            Otherwise, Nonholonomic-type update is used. Default: ``False``.
+            Otherwise, Nonholonomic-type update is used. Default: ``True``.
         scale_restoration (bool or str):
             Technique to restore scale ambiguity.
             If ``scale_restoration=True``, the projection back technique is applied to
@@ -2864,7 +2864,7 @@ class NaturalGradGaussIVA(NaturalGradIVA):
             Default: ``None``.
         is_holonomic (bool):
             If ``is_holonomic=True``, Holonomic-type update is used.
-            Otherwise, Nonholonomic-type update is used. Default: ``False``.
+            Otherwise, Nonholonomic-type update is used. Default: ``True``.
         scale_restoration (bool or str):
             Technique to restore scale ambiguity.
             If ``scale_restoration=True``, the projection back technique is applied to
-- 
2.43.0


From f17c18c5d0c0ac9b855c89c6e392b018e935df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 18/20] fix: an interrupted dataset download is not taken for
 the archive

---
 ssspy/utils/dataset/mird.py      | 5 ++++-
 ssspy/utils/dataset/sisec2010.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index 5761aa8..cbeb3bd 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -43,7 +43,10 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     os.makedirs(root, exist_ok=True)
 
     if not os.path.exists(zip_path):
-        urllib.request.urlretrieve(url, zip_path)
+        # An interrupted transfer must not be taken for the archive.
+        part_path = zip_path + ".part"
+        urllib.request.urlretrieve(url, part_path)
+        os.replace(part_path, zip_path)
 
     rir_path = os.path.join(root, template_rir_name.format(reverb_duration, 0))
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 389d8c8..20754de 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -15,7 +15,10 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     os.makedirs(root, exist_ok=True)
 
     if not os.path.exists(zip_path):
-        urllib.request.urlretrieve(url, zip_path)
+        # An interrupted transfer must not be taken for the archive.
+        part_path = zip_path + ".part"
+        urllib.request.urlretrieve(url, part_path)
+        os.replace(part_path, zip_path)
 
     if not os.path.exists(os.path.join(root, "{}_inst_matrix.mat".format(tag))):
         shutil.unpack_archive(zip_path, root)
-- 
2.43.0


From 8a031c260f6591cfb7abd319439d1efb01ca8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 19/20] fix: floor the variance of Gaussian IVA so that silent
 frames do not give nan

---
 ssspy/bss/iva.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 67af36c..b5cd089 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -2667,7 +2667,7 @@ class GradGaussIVA(GradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class NaturalGradLaplaceIVA(NaturalGradIVA):
@@ -2989,7 +2989,7 @@ class NaturalGradGaussIVA(NaturalGradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class AuxLaplaceIVA(AuxIVA):
@@ -3351,7 +3351,7 @@ class AuxGaussIVA(AuxIVA):
                 Default: ``self``.
 
         """
-        self.update_source_model()
+        self.update_source_model(flooring_fn=flooring_fn)
 
         super().update_once(flooring_fn=flooring_fn)
 
@@ -3481,12 +3481,28 @@ class AuxGaussIVA(AuxIVA):
 
         self.demix_filter = W
 
-    def update_source_model(self) -> None:
-        r"""Update variance of Gaussian distribution."""
+    def update_source_model(
+        self,
+        flooring_fn: Optional[Union[str, Callable[[np.ndarray], np.ndarray]]] = "self",
+    ) -> None:
+        r"""Update variance of Gaussian distribution.
+
+        Args:
+            flooring_fn (callable or str, optional):
+                A flooring function for numerical stability.
+                This function is expected to return the same shape tensor as the input.
+                If you explicitly set ``flooring_fn=None``,
+                the identity function (``lambda x: x``) is used.
+                If ``self`` is given as str, ``self.flooring_fn`` is used.
+                Default: ``self``.
+
+        """
+        flooring_fn = choose_flooring_fn(flooring_fn, method=self)
+
         if self.demix_filter is None:
             Y = self.output
         else:
             X, W = self.input, self.demix_filter
             Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
-- 
2.43.0


From 643cc058aa5815a15251ad8f4420606ecc03e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 20/20] fix: FasterIVA takes the eigenvector of the smallest
 eigenvalue, the minimizer of its auxiliary function

---
 ssspy/bss/iva.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index b5cd089..63f5e36 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -1386,7 +1386,7 @@ class FasterIVA(FastIVABase):
                 Default: ``self``.
 
         In FasterIVA, we compute the eigenvector of :math:`\boldsymbol{U}_{in}`
-        which corresponds to the largest eigenvalue by solving
+        which corresponds to the smallest eigenvalue by solving
 
         .. math::
             \boldsymbol{U}_{in}\boldsymbol{w}_{in}
@@ -1412,7 +1412,7 @@ class FasterIVA(FastIVABase):
         U = np.mean(varphi_ZZ, axis=-1)  # (n_bins, n_sources, n_channels, n_channels)
 
         _, w = eigh(U)  # (n_bins, n_sources, n_channels, n_channels)
-        W = w[..., -1].conj()  # eigenvector that corresponds to largest eigenvalue
+        W = w[..., 0].conj()  # eigenvector that corresponds to smallest eigenvalue
         u, _, v_Hermite = np.linalg.svd(W)
         W = u @ v_Hermite
 
-- 
2.43.0

