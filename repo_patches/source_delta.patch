From 23addf03711f3442a0ba887e2badcbc3d3a161eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 01/21] fix: u0 antiderivative when there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..e3a0ce2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From 3c3a7145e332b1d5f5ef591cd7bfddbd23e84833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 02/21] fix: downward flux antiderivative for multi-layer
 atmospheres (scale factors were indexed by layer twice)

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e3a0ce2..72d70cb 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
                 direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
             
-- 
2.43.0


From 592baed6ba400fede91f98e0ce8694be614cae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 03/21] fix: isotropic-source antiderivative used the scale
 factors of all layers instead of those of the layers evaluated

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 72d70cb..ab697aa 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..f26be56 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -744,7 +744,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor for each input optical depth
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From ddbb85f753702ef8ad5a051517169054856a2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 04/21] fix: Fourier convergence evaluation used the wrong axis
 of the beam particular solution (wrong or raised for multi-layer atmospheres)

---
 .../_assemble_intensity_and_fluxes.py         | 38 +------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index ab697aa..e40c947 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -263,43 +263,7 @@ def _assemble_intensity_and_fluxes(
             output_is_tuple = False
 
             if return_Fourier_error:
-                exponent = np.concatenate(
-                    [
-                        K_collect[-1, l, :N] * (scaled_tau - scaled_tau_arr_lm1)[:, None],
-                        K_collect[-1, l, N:] * (scaled_tau - scaled_tau_arr_l)[:, None],
-                    ],
-                    axis=-1,
-                )
-                
-                direct_beam_contribution = 0
-                if is_antiderivative_wrt_tau:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
-                        )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it",
-                            GC_collect[-1, l, :, :],
-                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],
-                            optimize=True,
-                        )
-                        + direct_beam_contribution
-                    )
-                else:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
-                        )
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it", GC_collect[-1, l, :, :], np.exp(exponent), optimize=True
-                        )
-                        + direct_beam_contribution
-                    )
-        
+                ulast = um[-1, :, :]
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From f9b390d1ff08f9868d40cc0061a9934cb2eaf07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 05/21] fix: boundary conditions of shape NQuad/2 x NFourier
 were mistaken for vectors (or for scalars if NQuad is 2)

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..80fdfd8 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.size(b_pos) == 1 and not np.ndim(b_pos) == 2:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.size(b_neg) == 1 and not np.ndim(b_neg) == 2:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From ace1fb8be589c10bf2e8dd190907c06b84d46682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 06/21] fix: actinic flux reclassification ignored the
 rescaling of sources, and was undefined without a beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e40c947..4dd918d 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -313,6 +313,7 @@ def _assemble_intensity_and_fluxes(
         l = np.argmax(tau[:, None] <= tau_arr[None, :], axis=1)
         scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
         scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
+        act_dscale_reclassification = 0
 
         # Delta-M scaling
         if np.any(scale_tau != np.ones(NLayers)):
@@ -321,7 +322,7 @@ def _assemble_intensity_and_fluxes(
             scaled_tau = scaled_tau_arr_l - scaled_tau_dist_from_top
             # The following complements the function `subroutines.generate_diff_act_flux_funcs`
             # in performing the reclassification of delta-scaled actinic flux
-            if _return_act_dscale_for_reclass: 
+            if _return_act_dscale_for_reclass and there_is_beam_source: 
                 if is_antiderivative_wrt_tau:
                     act_dscale_reclassification = (
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
@@ -331,8 +332,6 @@ def _assemble_intensity_and_fluxes(
                     act_dscale_reclassification = I0 * np.exp(-scaled_tau / mu0) - I0 * np.exp(-tau / mu0)
         else:
             scaled_tau = tau
-            if _return_act_dscale_for_reclass:
-                act_dscale_reclassification = 0
 
         exponent = np.concatenate(
             [
@@ -392,7 +391,7 @@ def _assemble_intensity_and_fluxes(
             outputs += (tau_arr,)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
-            outputs += (act_dscale_reclassification,)
+            outputs += (rescale_factor * act_dscale_reclassification,)
             outputs_len += 1
         return outputs[0] if outputs_len == 1 else outputs
         
-- 
2.43.0


From b433fd086fba6a6b3ccfd7076adea732ab74883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 07/21] fix: interpolated u0 passed its flags to the wrong
 arguments and returned an internal value instead of tau_arr

---
 src/PythonicDISORT/subroutines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f26be56..e48a5fe 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -678,8 +678,9 @@ def interpolate(u):
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            # There is no Fourier convergence to evaluate for `u0`, so `return_Fourier_error` has no effect
+            if return_tau_arr:
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
@@ -695,7 +696,7 @@ def interpolate(u):
                 u_neg_interpol.set_yi(u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
-            if return_Fourier_error or return_tau_arr:
+            if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
             else:
                 return np.squeeze(results)[()]
-- 
2.43.0


From 37702ecb1e0d14dd5dd59e82efa82677bb39ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 08/21] fix: do not rescale the sources by zero

---
 src/PythonicDISORT/pydisort.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 80fdfd8..57211ba 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -358,16 +358,20 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if not rescale_factor > 0:
+            rescale_factor = np.float64(1)
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
         scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
     else:
         rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))
-        if rescale_factor != 0:
+        if rescale_factor > 0:
             I0 = (I0 / rescale_factor).copy()
             b_pos = (b_pos / rescale_factor).copy()
             b_neg = (b_neg / rescale_factor).copy()
+        else:
+            rescale_factor = 1
             
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 97b5f1633679a8dd9872b3cd36a6d1d47494968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 09/21] fix: do not modify the caller's phase function Legendre
 coefficients

---
 src/PythonicDISORT/pydisort.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 57211ba..7e60b3e 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -245,6 +245,7 @@ def pydisort(
     # Value checks on the phase function Legendre coefficients
     if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):
         warnings.warn("The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.")
+        Leg_coeffs_all = Leg_coeffs_all.copy() # Do not modify the user's array
         Leg_coeffs_all[:, 0] = 1
     if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):
         raise ValueError("The phase function Legendre coefficients must all be between -1 and 1 exclusive (only the zeroth coefficient can equal 1).")
-- 
2.43.0


From 14a45ce5c45521e7c79f09dbc7ffda7ae0c765ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 10/21] fix: reject a fractional scattering of 1, which leads
 to division by zero

---
 src/PythonicDISORT/pydisort.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 7e60b3e..26580b3 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -284,9 +284,9 @@ def pydisort(
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-    # The fractional scattering must be between 0 and 1
-    if not (np.all(0 <= f_arr) and np.all(f_arr <= 1)):
-        raise ValueError("The fractional scattering must be between 0 and 1.")
+    # The fractional scattering must be between 0 and 1, excluding 1
+    if not (np.all(0 <= f_arr) and np.all(f_arr < 1)):
+        raise ValueError("The fractional scattering must be between 0 and 1, excluding 1.")
     # The minimum threshold is 3 else the matrix will not be banded
     if not use_banded_solver_NLayers >= 3:
         raise ValueError("The minimum threshold `use_banded_solver_NLayers` is 3, else the matrix will not be banded.")
-- 
2.43.0


From e73a802622cb07f24b3b4d94176801b84bc9426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 11/21] fix: affine_transform_poly_coeffs must reject any zero
 scale factor

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index e48a5fe..7e96912 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -591,7 +591,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From 4d710b5075771fa97d3fc8ea844b8c9e475ecdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 12/21] fix: direct flux must have the size of tau even if
 there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 4dd918d..552ffa2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -536,7 +536,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
+        direct_beam = np.zeros(np.shape(tau))
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-- 
2.43.0


From acf9db861fec0276178c3f52e65f7cbf230c5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 13/21] fix: cached scalar BDRF modes could not be used with a
 beam source

---
 src/PythonicDISORT/_solve_for_coeffs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..2d6ddcc 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,8 +129,8 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)
                     )[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9376468189abd3c24d5f6610b8eb7876e7e520d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 14/21] fix: BDRF modes cached for a single stream per
 hemisphere mistook the quadrature node for mu0

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 7e96912..994514d 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -537,7 +537,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    if len(neg_mup) == 1 and (N > 1 or neg_mup[0] == mu0)
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From e29c61956e1835befa1d0b886a3e71fb21352f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 15/21] fix: NT corrections divided by zero if only
 non-scattering layers have fractional scattering

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 26580b3..3ff2481 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -377,7 +377,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all and np.any(omega_arr * f_arr > 0):
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From 04dd0707e36c4efe56e2dda3ca1ee65b5ebdfb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 16/21] fix: IMS correction mixed up the polar and azimuthal
 axes if NQuad is 2

---
 src/PythonicDISORT/pydisort.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 3ff2481..9bcffbe 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -616,9 +616,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape((N, len(phi)))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From aeef1ef3bdacbb481b3114129ef449faa8f4d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 17/21] fix: IMS averages must be weighted by the optical
 thickness of each layer, not by the optical depth of its lower boundary

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 9bcffbe..9c587f4 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -603,14 +603,14 @@ def pydisort(
 
         # IMS correction for the intensity (see section 3.7.2)
         # --------------------------------------------------------------------------------------------------------------------------
-        sum1 = np.sum(omega_arr * tau_arr)
-        omega_avg = sum1 / np.sum(tau_arr)
-        sum2 = np.sum(f_arr * omega_arr * tau_arr)
+        sum1 = np.sum(omega_arr * thickness_arr)
+        omega_avg = sum1 / np.sum(thickness_arr)
+        sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
         Leg_coeffs_residue = Leg_coeffs_all.copy()
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
-            np.sum(Leg_coeffs_residue * omega_arr[:, None] * tau_arr[:, None], axis=0)
+            np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
             / sum2
         )
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
-- 
2.43.0


From 7c3a3cf29f56df425f941c236de82b2502a3bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:49 +0000
Subject: [PATCH 18/21] fix: TMS contributions from other layers must use the
 source of the contributing layer

The contributions from the other layers were computed with the single-scattering
source of the layer in which the intensity is evaluated, so the corrected intensity
was discontinuous at layer interfaces; they were also divided by exponentials that
underflow in thick atmospheres (NaN), and their antiderivatives used the scale factor
of the wrong layer.
---
 src/PythonicDISORT/pydisort.py | 156 +++++++++------------------------
 1 file changed, 42 insertions(+), 114 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 9c587f4..8196429 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -434,24 +434,24 @@ def pydisort(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_Leg_coeffs_all[l_uniq])
+                    for f in map(Legendre, weighted_Leg_coeffs_all)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             p_trun = np.concatenate(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_scaled_Leg_coeffs[l_uniq])
+                    for f in map(Legendre, weighted_scaled_Leg_coeffs)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             
             mathscr_B = (
-                (scaled_omega_arr[l_uniq] * I0_div_4pi)[None, :, None]
+                (scaled_omega_arr * I0_div_4pi)[None, :, None]
                 * (mu0 / (mu0 + mu_arr))[:, None, None]
-                * (p_true / (1 - f_arr)[None, l_uniq, None] - p_trun)
-            ) # (NQuad, NLayers_uniq, Nphi)
+                * (p_true / (1 - f_arr)[None, :, None] - p_trun)
+            ) # (NQuad, NLayers, Nphi)
             # --------------------------------------------------------------------------------------------------------------------------
             
             neg_scaled_tau_div_mu0 = -scaled_tau / mu0
@@ -484,121 +484,49 @@ def pydisort(
                 )
 
             
-            ## Contribution from other layers
+            ## Contribution from other layers (see section 3.7.2)
             # --------------------------------------------------------------------------------------------------------------------------
             solution = (
-                mathscr_B[:, l_inv, :]
+                mathscr_B[:, l, :]
                 * np.concatenate((TMS_correction_pos, TMS_correction_neg), axis=0)[:, :, None]
             )
-            
-            if is_atmos_multilayered:
-                any_pos = (l.min() < NLayers - 1)
-                any_neg = (l.max() > 0)
-
-                mu0_inv = 1 / mu0
-
-                scaled_tauwith0_front = scaled_tau_arr_with_0[:-1]          # (NLayers,)
-                scaled_tauwith0_back  = scaled_tau_arr_with_0[1:]           # (NLayers,); i.e. `scaled_tau_arr`
-
-                exp_taufront_mu0_inv = np.concatenate(
-                    ([1], np.exp(-scaled_tauwith0_front[1:] * mu0_inv))
-                )  # (Nlayers, )
-
-
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
-
-                # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
-                log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
-
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
 
+            if is_atmos_multilayered:
+                # Only decaying exponentials are evaluated, and nothing is divided by them
+                exp_tau_mu0 = np.exp(-scaled_tau_arr_with_0 / mu0)                  # (NLayers + 1,)
+                decay = np.exp(-scaled_thickness_arr[None, :] * M_inv[:, None])     # (N, NLayers)
+                # Single-scattering contribution of each layer at its upper and lower boundary respectively
+                contrib_pos = mathscr_B[:N, :, :] * (
+                    exp_tau_mu0[None, :-1] - decay * exp_tau_mu0[None, 1:]
+                )[:, :, None]                                                       # (N, NLayers, Nphi)
+                contrib_neg = mathscr_B[N:, :, :] * (
+                    exp_tau_mu0[None, 1:] - decay * exp_tau_mu0[None, :-1]
+                )[:, :, None]                                                       # (N, NLayers, Nphi)
+
+                # Accumulate "contribution from below" and "contribution from above"
+                Rpos = [np.zeros((N, Nphi))]
+                Rneg = [np.zeros((N, Nphi))]
+                for i in range(NLayers - 1):
+                    j = NLayers - 1 - i
+                    Rpos.append(contrib_pos[:, j, :] + decay[:, [j]] * Rpos[-1])
+                    Rneg.append(contrib_neg[:, i, :] + decay[:, [i]] * Rneg[-1])
+                Rpos = np.stack(Rpos[::-1], axis=1)                                 # (N, NLayers, Nphi)
+                Rneg = np.stack(Rneg, axis=1)                                       # (N, NLayers, Nphi)
+
+                # Apply to all `tau`
+                expfac_pos = np.exp((scaled_tau - scaled_tau_arr_l)[None, :] * M_inv[:, None])    # (N, Ntau)
+                expfac_neg = np.exp((scaled_tau_arr_lm1 - scaled_tau)[None, :] * M_inv[:, None])  # (N, Ntau)
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
-
-                # ====================================================================
-                # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
-                # ====================================================================
-                if any_pos:
-                    thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
-                    # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
-                    em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
-
-                    layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
-
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[None, l]
+                    expfac_pos = expfac_pos * integration_factor
+                    expfac_neg = -expfac_neg * integration_factor
 
-                    # Apply to all `tau`
-                    # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
-                    expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
-                    
-                    if autograd_compatible:
-                        solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
-                    else:
-                        solution[:N, :, :] += tmp
-
-                # ====================================================================
-                # NEG: pre-accumulate "contribution from above" sums Rneg[N, l, Nphi]
-                # ====================================================================
-                if any_neg:
-                    decay = np.exp(log_decay)                                                    # (N, NLayers)
-                    
-                    # Ensure no positive exponents
-                    thickness_neg = scaled_thickness_arr[None, :] * (M_inv - mu0_inv)[:, None]   # (N, NLayers)
-                    mask = (thickness_neg >= 0)
-
-                    exp_x1 = np.exp(-scaled_tauwith0_back * mu0_inv)[None, :]                    # (1, NLayers)
-                    exp_x0 = decay * exp_taufront_mu0_inv[None, :]                               # (N, NLayers)
-
-                    # Let a = |thickness_neg| >= 0. Then expm1(-a) uses only non-positive inputs.
-                    em1_neg = np.expm1(-np.abs(thickness_neg))                                       # (N, NLayers)
-
-                    # thickness_neg>=0: exp_x1 * (1 - exp(-a)) = exp_x1 * (-expm1(-a)) = exp_x1 * (-em1_neg)
-                    # thickness_neg<0 : exp_x0 * (exp(-a) - 1) = exp_x0 * expm1(-a)    = exp_x0 * ( em1_neg)
-                    layer_term_negthick = em1_neg * exp_x0                                       # (N, NLayers)
-                    layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
-                    layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
-
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
-
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
-
-                    # Apply to all `tau`
-                    expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
-                    
-                    if autograd_compatible:
-                        solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-                    else:
-                        solution[N:, :, :] += tmp
-
-                return solution
+                solution = solution + np.concatenate(
+                    (Rpos[:, l, :] * expfac_pos[:, :, None], Rneg[:, l, :] * expfac_neg[:, :, None]),
+                    axis=0,
+                )
 
-            # --------------------------------------------------------------------------------------------------------------------------
-            
-            else:
-                return solution
+            return solution
         # --------------------------------------------------------------------------------------------------------------------------
 
         # IMS correction for the intensity (see section 3.7.2)
-- 
2.43.0


From 03ef13c7e590878b43c67c3dd3721baf74a6ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 19/21] fix: discard the vanishing imaginary parts explicitly,
 as recent versions of NumPy return complex eigenpairs and warn when they are
 cast

---
 src/PythonicDISORT/_solve_for_gen_and_part_sols.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
index d85f3ec..92d0bf7 100644
--- a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
+++ b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
@@ -184,13 +184,13 @@ def _solve_for_gen_and_part_sols(
         
         # Eigenvalues arranged negative then positive, from largest to smallest magnitude
         K_arr_pos = np.sqrt(K_squared_arr)
-        K_arr = np.concatenate((-K_arr_pos, K_arr_pos), axis=1)
+        K_arr = np.concatenate((-K_arr_pos, K_arr_pos), axis=1).real # Recent versions of NumPy always return complex arrays
         
         # Build eigenvector matrix from four blocks
         eigenvecs_GpG_arr /= 2
         eigenvecs_GmG_arr = np.einsum("lij, ljk -> lik", apb, eigenvecs_GpG_arr / K_arr_pos[:, None, :], optimize=True)
-        GpG_p_GmG_div_2 = eigenvecs_GpG_arr + eigenvecs_GmG_arr
-        GpG_m_GmG_div_2 = eigenvecs_GpG_arr - eigenvecs_GmG_arr
+        GpG_p_GmG_div_2 = (eigenvecs_GpG_arr + eigenvecs_GmG_arr).real
+        GpG_m_GmG_div_2 = (eigenvecs_GpG_arr - eigenvecs_GmG_arr).real
         
         G_collect[no_shortcut_indices, :N, :N] = GpG_p_GmG_div_2
         G_collect[no_shortcut_indices, N:, N:] = GpG_p_GmG_div_2
-- 
2.43.0


From 93f92c06e5d46a545ae450fd56ad63973928d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:25 +0000
Subject: [PATCH 20/21] fix: the Fourier error does not prevent automatic
 differentiation

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 552ffa2..e89a3d2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -265,14 +265,16 @@ def _assemble_intensity_and_fluxes(
             if return_Fourier_error:
                 ulast = um[-1, :, :]
                 u_abs = np.abs(u)
+                nonzero = u_abs > 1e-8
+                # The keyword arguments `out` and `where` of `np.divide` are not compatible with autograd
                 Fourier_error = np.max(
-                    np.divide(
+                    np.where(
+                        nonzero,
                         np.abs(
                             ulast[:, :, None] * np.cos((NFourier - 1) * (phi0 - phi))[None, None, :]
-                        ),
-                        u_abs,
-                        out=np.zeros_like(u_abs),
-                        where=u_abs > 1e-8,
+                        )
+                        / np.where(nonzero, u_abs, 1),
+                        0,
                     )
                 )
                 
-- 
2.43.0


From 94003001b6b032451ca8c37d672e2c09b30c7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:12 +0000
Subject: [PATCH 21/21] fix: keep copies of tau_arr and f_arr, as the output
 functions read them after the caller may have overwritten them

---
 src/PythonicDISORT/pydisort.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 8196429..16db7c5 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -179,13 +179,13 @@ def pydisort(
     else:
         import numpy as np
     
-    # Turn floats into arrays
+    # Turn floats into arrays; `tau_arr` and `f_arr` are copied because the output functions keep using them
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    tau_arr = np.array(np.atleast_1d(tau_arr))
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.array(np.atleast_1d(f_arr))
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
-- 
2.43.0

