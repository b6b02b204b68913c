From 297349113a602f40c3b157e19b1bf4c2d2db8fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:53 +0000
Subject: [PATCH 01/25] fix: apply the three-body cutoff to all three sides of
 a triple

The ATM mask tested r2jk twice and never r2ik, so triples with exactly one
side beyond the cutoff were counted for one of the three atoms only.
---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..dec3582 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -153,7 +153,7 @@ def get_atm_dispersion(
     ang = torch.where(
         mask_triples
         * (r2ij <= cutoff2)
-        * (r2jk <= cutoff2)
+        * (r2ik <= cutoff2)
         * (r2jk <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
-- 
2.43.0


From 9537eea00c7342e8d377e8b7e856b17a4684091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:53 +0000
Subject: [PATCH 02/25] fix: look up functional names case-insensitively as
 documented

The membership test used the raw name, so e.g. 'PBE' raised a KeyError.
---
 src/tad_dftd4/damping/parameters/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..4d0f25b 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -101,7 +101,7 @@ def get_params(
         disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
-        if functional not in func_section:
+        if functional.casefold() not in func_section:
             raise KeyError(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
-- 
2.43.0


From bfddf0982ba05594c49f9f59de42bb9a3560c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 03/25] fix: zero damping must damp at short range, not at long
 range

The ratio in ZeroDamping was inverted (R/R0 instead of the documented R0/R),
which made the two-body zero damping blow up at short and vanish at long
distances. The ATM term compensated by passing distance and radius in swapped
order. Masked pairs now use a unit distance, because the ratio R0/eps overflows
in single precision and turned parameter gradients into NaN.
---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 src/tad_dftd4/dispersion/twobody.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7034e6c 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index dec3582..1daedfe 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..a4e92f8 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -141,7 +141,7 @@ def dispersion2(
     distances = torch.where(
         mask,
         storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        torch.tensor(1.0, **dd),
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
-- 
2.43.0


From fb69b9f5cecfd54f097053fefb2803ae4391709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 04/25] fix: optimised power damping must use the critical
 radius

The damping term multiplied the distance instead of the critical radius
(t6 = rb / (rb * r2**3 + ab * r0ij**6)), so nothing was damped at short range.
---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7034e6c..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From be9f71cbeb4f38e988180db846fceffe6e89a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:09 +0000
Subject: [PATCH 05/25] fix: avoid NaN derivatives of damping radii and
 parameters with padding

Padding has zero radii. The square root (rational and optimised power damping)
and the division (modified zero damping) have infinite slopes there, so that
derivatives with respect to r4r2, rvdw, rs6, rs8 and alp became NaN for the
whole batch although padding does not contribute.
---
 src/tad_dftd4/dispersion/twobody.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index a4e92f8..2d2bbde 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -156,6 +156,10 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    # The radii of padding are zero, which causes NaN's in the derivatives of
+    # the damping functions (infinite slope of the square root, division).
+    radii = torch.where(mask, radii, torch.tensor(1.0, **dd))
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From e64c00ab13fa6e04a4e47de5bbf87d9eaaa57333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:40 +0000
Subject: [PATCH 06/25] fix: avoid NaN derivatives of the reference weights for
 large CNs

For CNs far above all reference CNs of an element (e.g. rare gas atoms or
hydrogen in a metallic environment), the sum of the Gaussian weights underflows.
The energy was fine because of the fallback, but the first derivatives (CN
differences above 11) and already the second derivatives (above 7.7) were NaN.
---
 src/tad_dftd4/model/d4.py  | 19 ++++++++++++-------
 src/tad_dftd4/model/d4s.py | 17 +++++++++++------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..64d0be0 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -193,15 +193,20 @@ class D4Model(BaseModel):
 
         expw = torch.where(mask, refc_pow_final, zero_double)
 
+        # The exponentials become tiny for CNs far above all reference CNs and
+        # the reciprocal of their sum overflows in the (higher) derivatives. The
+        # common magnitude cancels in the normalization, so it is removed here.
+        scale = torch.amax(expw.detach(), dim=-1, keepdim=True)
+        underflow = scale < 1e-300
+        scale = torch.where(underflow, torch.ones_like(scale), scale)
+        expw = expw / scale
+
         # Normalize weights, but keep shape. This needs double precision.
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
-        norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
-        )
+        norm = torch.sum(expw, dim=-1, keepdim=True)
+        norm = torch.where(underflow, torch.ones_like(norm), norm)
 
         # back to real dtype
         gw_temp = (expw / norm).type(self.dtype)
@@ -211,7 +216,7 @@ class D4Model(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            underflow | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
@@ -244,7 +249,7 @@ class D4Model(BaseModel):
 
             wf_1 = torch.where(refc == 1, _dpow(1), zero_double)
             wf_3 = torch.where(refc == 3, _dpow(3), zero_double)
-            dexpw = wf_1 + wf_3
+            dexpw = (wf_1 + wf_3) / scale
 
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..4106b92 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -212,15 +212,20 @@ class D4SModel(BaseModel):
 
         expw = torch.where(mask, refc_pow_final, zero_double)
 
+        # The exponentials become tiny for CNs far above all reference CNs and
+        # the reciprocal of their sum overflows in the (higher) derivatives. The
+        # common magnitude cancels in the normalization, so it is removed here.
+        scale = torch.amax(expw.detach(), dim=-1, keepdim=True)
+        underflow = scale < 1e-300
+        scale = torch.where(underflow, torch.ones_like(scale), scale)
+        expw = expw / scale
+
         # Normalize weights, but keep shape. This needs double precision.
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
-        norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
-        )
+        norm = torch.sum(expw, dim=-1, keepdim=True)
+        norm = torch.where(underflow, torch.ones_like(norm), norm)
 
         # back to real dtype
         gw_temp = (expw / norm).type(self.dtype)
@@ -230,7 +235,7 @@ class D4SModel(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            underflow | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
-- 
2.43.0


From 106fd0d995454ff34078ce90cbb0b1334b2d44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 07/25] fix: D4S polarizabilities must belong to the atom, not
 to its partners

get_weighted_pols summed over the atom whose polarizability was requested and
returned the values indexed by the partner. It also averaged over padding.
---
 src/tad_dftd4/model/d4s.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 4106b92..74b2afc 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -316,9 +316,11 @@ class D4SModel(BaseModel):
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
-        # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        # The weights of an atom depend on its partner (first atom dimension).
+        # Since we sum over the (real) partners here, we need to divide by the
+        # number of atoms.
+        gw = torch.where(mask.unsqueeze(-1).unsqueeze(-1), gw, 0.0)
+        return einsum("...mnr,...nrw->...nw", gw, a) / nat.unsqueeze(-1)
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From e7a4c8ad0406ba283b3207ca8e5605d1f98715b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 08/25] fix: static polarizabilities of the D4S model

get_polarizabilities assumed the D4 weight layout. For D4S, it returned a
matrix instead of one value per atom, and failed or mixed molecules in batches.
It now returns the static limit of get_weighted_pols for all models.
---
 src/tad_dftd4/model/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..8c041a0 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -45,7 +45,6 @@ from abc import abstractmethod
 import torch
 from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, TensorLike, overload
 
 from .. import data
@@ -298,8 +297,7 @@ class BaseModel(TensorLike):
         Tensor
             Polarizabilities of shape ``(..., nat)``.
         """
-        # (..., n, r) * (..., n, r) -> (..., n)
-        return einsum("...nr,...nr->...n", weights, self._get_alpha()[..., 0])
+        return self.get_weighted_pols(weights)[..., 0]
 
     ###################
     # Private methods #
-- 
2.43.0


From 5f1ea1aa3e9b58c82611d69955f3b056a99b3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:44 +0000
Subject: [PATCH 09/25] fix: accept a scalar weighting factor in the D4S model

A scalar wf (documented as 'Tensor | float') failed in the pairwise einsum, and
the debug model built the pairwise factors from the batch dimension.
---
 src/tad_dftd4/model/d4s.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 74b2afc..da3b784 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -194,7 +194,8 @@ class D4SModel(BaseModel):
         # ordering of the zeta function. Inserting in `-2` does not work!
         #
         # (..., n1, nref) * (..., n1, nref) * (n1, n2) -> (..., n2, n1, nref)
-        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, self.wf)
+        wf = self.wf.expand(*self.numbers.shape, self.numbers.shape[-1])
+        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, wf)
         tmp = torch.where(mask, torch.exp(arg), zero_double)
 
         # Gaussian weighting function part 2: tmp^(igw)
@@ -332,5 +333,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
+        s = self.numbers.size(-1)
         return torch.full((s, s), WF_DEFAULT, **self.dd)
-- 
2.43.0


From f133b2655f4330b387f18ff741199127f7bba67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:46 +0000
Subject: [PATCH 10/25] fix: honour only_damping in all damping functions

Only zero damping returned the bare damping function as documented. The others
ignored the flag and silently returned f_n / R^n.
---
 src/tad_dftd4/damping/functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 1b20a4f..a0abdca 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -302,7 +302,12 @@ class RationalDamping(Damping):
         assert a1 is not None and a2 is not None
 
         radius = a1 * torch.sqrt(radii) + a2
-        return 1.0 / (distances.pow(order) + radius.pow(order))
+        denominator = distances.pow(order) + radius.pow(order)
+
+        if only_damping is True:
+            return distances.pow(order) / denominator
+
+        return 1.0 / denominator
 
 
 class ZeroDamping(Damping):
@@ -431,6 +436,10 @@ class MZeroDamping(Damping):
 
         # f6 / r6
         fn = 1.0 / (1.0 + 6.0 * t_n ** (-alp_n))
+
+        if only_damping is True:
+            return fn
+
         return storch.divide(fn, distances**order)
 
 
@@ -481,7 +490,12 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * radius**order)
+        t_n = rb / (rb * distances**order + ab * radius**order)
+
+        if only_damping is True:
+            return t_n * distances**order
+
+        return t_n
 
 
 class ZDamping(Damping):
-- 
2.43.0


From ffa8b04854726ea6a1e86b4e7ae406a56cf60f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:13 +0000
Subject: [PATCH 11/25] fix: do not round the total charge to the default dtype

A Python float for the total charge was first converted to the default dtype
(single precision) and only then to the dtype of the positions.
---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..aa5daa9 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


From 8c772a5ce6aa8a56ca7cb72bc168ce9c195c701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:34 +0000
Subject: [PATCH 12/25] fix: accept one total charge per molecule for any batch
 shape

Batches of one molecule and nested batches were rejected by the charge model,
which guesses the layout of the charges, and get_properties always failed for
batches with the default charge.
---
 src/tad_dftd4/disp.py            | 6 +++++-
 src/tad_dftd4/dispersion/base.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index aa5daa9..fdd6bb6 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -182,10 +182,14 @@ def get_properties(
         cutoff = Cutoff(**dd)
 
     if charge is None:
-        charge = torch.tensor(0.0, **dd)
+        charge = torch.zeros(numbers.shape[:-1], **dd)
     else:
         charge = any_to_tensor(charge, **dd)
 
+    # one charge per molecule: (...) -> (..., 1)
+    if charge.ndim == numbers.ndim - 1:
+        charge = charge.unsqueeze(-1)
+
     cn = cn_d4(numbers, positions)
     q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)
 
diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..b7083fa 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -351,6 +351,10 @@ class Disp(TensorLike):
 
         charge = any_to_tensor(charge, **dd)
 
+        # one charge per molecule: (...) -> (..., 1)
+        if charge.ndim == numbers.ndim - 1:
+            charge = charge.unsqueeze(-1)
+
         if numbers.shape != positions.shape[:-1]:
             raise ValueError(
                 f"Shape of positions ({positions.shape}) is not consistent "
-- 
2.43.0


From 6bd5b976d444ec02e51f66c743e8ddab458a9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:06 +0000
Subject: [PATCH 13/25] fix: charge scaling of atoms that have lost no
 screening (q <= -Zeff)

For charges within machine precision of -Zeff (e.g. H2 with charge -2, hydride),
'qmod - eps' changed the sign and the scaling became exp(-inf) = 0 instead of
its limit exp(ga), i.e., the dispersion energy vanished. For charges slightly
below -Zeff, the masked branch overflowed and the derivatives became NaN.
---
 src/tad_dftd4/model/base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index 8c041a0..57f1f1d 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -324,10 +324,13 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # avoid zero division and overflow in the masked branch
+        mask = qmod > eps
+        qsafe = torch.where(mask, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qsafe))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             torch.exp(ga * (1.0 - scale)),
             torch.exp(ga),
         )
@@ -353,12 +356,15 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # avoid zero division and overflow in the masked branch
+        mask = qmod > eps
+        qsafe = torch.where(mask, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qsafe))
         zeta = torch.exp(ga * (1.0 - scale))
 
         return torch.where(
-            qmod > 0.0,
-            -ga * gam * scale * zeta * storch.divide(qref, qmod**2),
+            mask,
+            -ga * gam * scale * zeta * storch.divide(qref, qsafe**2),
             torch.tensor(0.0, **self.dd),
         )
 
-- 
2.43.0


From 9563f36ec8240bcc7adb9fd5b0e2e1bf38bc0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:07 +0000
Subject: [PATCH 14/25] fix: omitted s8 takes its documented default

The damping functions silently dropped the C8 term if s8 was not given, although
the default of 1.0 is documented and used by dispersion2.
---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index a0abdca..45f4870 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -124,7 +124,7 @@ class Damping(ABC):
         a2: Tensor | float | int | None = None,
         s6: Tensor | float | int | None = defaults.S6,
         rs6: Tensor | float | int | None = None,
-        s8: Tensor | float | int | None = None,
+        s8: Tensor | float | int | None = defaults.S8,
         rs8: Tensor | float | int | None = None,
         s9: Tensor | float | int | None = defaults.S9,
         rs9: Tensor | float | int | None = defaults.RS9,
-- 
2.43.0


From 9fc893a8355e0354676157c34a680134c05df1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:34 +0000
Subject: [PATCH 15/25] fix: mixed second derivatives of the optimised power
 damping for bet=0

The derivative of x**bet with respect to both x and bet is lost by autograd if
bet is exactly zero (default).
---
 src/tad_dftd4/damping/functions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 45f4870..45e0e41 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -484,18 +484,19 @@ class OptimisedPowerDamping(Damping):
             )
 
         radius = a1 * torch.sqrt(radii) + a2
-        ab = radius**bet
 
-        # r2**(bet * 0.5)
-        rb = distances**bet
+        # The powers are merged, because the derivative of `x**bet` with respect
+        # to both `x` and `bet` is lost for `bet=0`.
+        rb = distances ** (bet + order)
+        ab = radius ** (bet + order)
 
-        # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        t_n = rb / (rb * distances**order + ab * radius**order)
+        # f6 = r**(bet + 6) / (r**(bet + 6) + r0**(bet + 6))
+        f_n = rb / (rb + ab)
 
         if only_damping is True:
-            return t_n * distances**order
+            return f_n
 
-        return t_n
+        return f_n / distances**order
 
 
 class ZDamping(Damping):
-- 
2.43.0


From ef9775625fa103d593e3a09e2b26cc86d302f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:03 +0000
Subject: [PATCH 16/25] fix: NaN derivatives in single precision for distances
 beyond the cutoffs

High powers of the distances of pairs and triples beyond the cutoff overflow. The
energy was masked, but not its derivatives.
---
 src/tad_dftd4/dispersion/threebody.py | 30 +++++++++++++++------------
 src/tad_dftd4/dispersion/twobody.py   | 11 +++++++---
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 1daedfe..a332329 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -93,8 +93,6 @@ def get_atm_dispersion(
     s9 = any_to_tensor(s9, **dd)
     alp = any_to_tensor(alp, **dd)
 
-    cutoff2 = cutoff * cutoff
-
     mask_pairs = real_pairs(numbers, mask_diagonal=True)
     mask_triples = real_triples(numbers, mask_diagonal=True, mask_self=True)
 
@@ -110,15 +108,24 @@ def get_atm_dispersion(
 
     # actually faster than other alternatives
     # very slow: (pos.unsqueeze(-2) - pos.unsqueeze(-3)).pow(2).sum(-1)
-    distances = torch.pow(
-        torch.where(
-            mask_pairs,
-            storch.cdist(positions, positions, p=2),
-            eps,
-        ),
-        2.0,
+    distances = torch.where(
+        mask_pairs,
+        storch.cdist(positions, positions, p=2),
+        one,
     )
 
+    # All three sides of a triple must be within the cutoff. The high powers of
+    # larger distances overflow in single precision, which causes NaN's in the
+    # derivatives.
+    mask_pairs = mask_pairs * (distances <= cutoff)
+    mask_triples = (
+        mask_triples
+        * mask_pairs.unsqueeze(-1)
+        * mask_pairs.unsqueeze(-2)
+        * mask_pairs.unsqueeze(-3)
+    )
+    distances = torch.pow(torch.where(mask_pairs, distances, one), 2.0)
+
     r2ij = distances.unsqueeze(-1)
     r2ik = distances.unsqueeze(-2)
     r2jk = distances.unsqueeze(-3)
@@ -151,10 +158,7 @@ def get_atm_dispersion(
     )
 
     ang = torch.where(
-        mask_triples
-        * (r2ij <= cutoff2)
-        * (r2ik <= cutoff2)
-        * (r2jk <= cutoff2),
+        mask_triples,
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
     )
diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index 2d2bbde..4c7a991 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -144,6 +144,11 @@ def dispersion2(
         torch.tensor(1.0, **dd),
     )
 
+    # The high powers of distances beyond the cutoff may overflow in single
+    # precision, which causes NaN's in the derivatives.
+    mask = mask * (distances <= cutoff)
+    distances = torch.where(mask, distances, torch.tensor(1.0, **dd))
+
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
     c8 = c6 * qq
 
@@ -161,12 +166,12 @@ def dispersion2(
     radii = torch.where(mask, radii, torch.tensor(1.0, **dd))
 
     t6 = torch.where(
-        mask * (distances <= cutoff),
+        mask,
         damping_function(distances, radii, 6, **param),
         zero,
     )
     t8 = torch.where(
-        mask * (distances <= cutoff),
+        mask,
         damping_function(distances, radii, 8, **param),
         zero,
     )
@@ -188,7 +193,7 @@ def dispersion2(
     if "s10" in param:
         c10 = c6 * torch.pow(qq, 2) * 49.0 / 40.0
         t10 = torch.where(
-            mask * (distances <= cutoff),
+            mask,
             damping_function(distances, radii, 10, **param),
             zero,
         )
-- 
2.43.0


From 4fd6d542c54a362f91ca6ce8d399e10b13bce221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:18 +0000
Subject: [PATCH 17/25] fix: NaN second derivatives for vanishing damping radii

If a1 and a2 are zero (undamped interaction), the second derivatives of the powers
of the radii with respect to their exponents became NaN.
---
 src/tad_dftd4/damping/functions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 45e0e41..5b66df0 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -49,6 +49,15 @@ __all__ = [
 ]
 
 
+def _pow(x: Tensor, exponent: Tensor | float | int) -> Tensor:
+    """
+    Power with a positive exponent, which also has well-defined higher
+    derivatives if the base vanishes (undamped interaction).
+    """
+    mask = x > 0.0
+    return torch.where(mask, torch.where(mask, x, 1.0) ** exponent, 0.0)
+
+
 class Damping(ABC):
     """
     Base interface for damping functions.
@@ -374,7 +383,7 @@ class ZeroDamping(Damping):
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
         t_n = rs * storch.divide(radii, distances)
 
-        f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
+        f_n = 1.0 / (1.0 + 6.0 * _pow(t_n, alp_n))
 
         if only_damping is True:
             return f_n
@@ -488,7 +497,7 @@ class OptimisedPowerDamping(Damping):
         # The powers are merged, because the derivative of `x**bet` with respect
         # to both `x` and `bet` is lost for `bet=0`.
         rb = distances ** (bet + order)
-        ab = radius ** (bet + order)
+        ab = _pow(radius, bet + order)
 
         # f6 = r**(bet + 6) / (r**(bet + 6) + r0**(bet + 6))
         f_n = rb / (rb + ab)
-- 
2.43.0


From e71dbc0e4493c6609eaa1622a646fc572cf09709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 18/25] fix: reject van der Waals radii that are not pairwise

---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index b7083fa..a68ba75 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -384,7 +384,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if (*numbers.shape, numbers.shape[-1]) != rvdw.shape:
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From ca95b48db475c73eef6ffc726bada70d7fee03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:38 +0000
Subject: [PATCH 19/25] fix: allow vmap over the scaling parameter s10

---
 src/tad_dftd4/dispersion/twobody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index 4c7a991..418132a 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -203,7 +203,7 @@ def dispersion2(
         else:
             e10 = torch.sum(c10 * t10, dim=-1)
 
-        edisp += param["s10"] * e10
+        edisp = edisp + param["s10"] * e10
 
     if as_matrix is True:
         return -edisp
-- 
2.43.0


From 27434e7402c5cc55839649a30334b5b610ea5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:06 +0000
Subject: [PATCH 20/25] fix: default variant of the default damping parameters

---
 src/tad_dftd4/damping/parameters/loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 4d0f25b..667f65c 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -88,6 +88,10 @@ def get_params(
     method = DispersionMethod(method)
     table = _load(method)
 
+    # Get default variant if not specified
+    if variant is None:
+        variant = table["default"][method.value][0]
+
     if functional in (None, "default"):
         default_section = table["default"]
 
@@ -113,10 +117,6 @@ def get_params(
                 f"for '{functional!r}'."
             )
 
-    # Get default variant if not specified
-    if variant is None:
-        variant = table["default"][method.value][0]
-
     variant_section = disp_method_section[method.value]
     if variant not in variant_section:
         raise KeyError(
-- 
2.43.0


From a61fb8ab8e2ff4e9212dfa07672d6e8f6804e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 21/25] fix: default BJ radii must not be rounded to the
 default dtype

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index a332329..25371d8 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -251,7 +251,7 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}
 
         a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
         a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
-- 
2.43.0


From 042ded19a78d389582273a2154812def44367050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:34 +0000
Subject: [PATCH 22/25] fix: keep atomic numbers integer when converting the
 precision of a model

---
 src/tad_dftd4/model/base.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index 57f1f1d..3880919 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -45,7 +45,7 @@ from abc import abstractmethod
 import torch
 from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.typing import Literal, Tensor, TensorLike, overload
+from tad_mctc.typing import Literal, Self, Tensor, TensorLike, overload
 
 from .. import data
 from ..utils import trapzd
@@ -303,6 +303,19 @@ class BaseModel(TensorLike):
     # Private methods #
     ###################
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Self:
+        """Clone with new device and dtype (see :class:`.TensorLike`)."""
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+
+        # atomic numbers are indices and have to remain integers
+        new.numbers = self.numbers.to(new.device)
+        return new
+
     def _zeta(self, gam: Tensor, qref: Tensor, qmod: Tensor) -> Tensor:
         """
         Charge scaling function.
-- 
2.43.0


From 89065bcd7d4581d77d4eeb75a9b94e107060bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:48 +0000
Subject: [PATCH 23/25] fix: reject positions without exactly three Cartesian
 components

---
 src/tad_dftd4/disp.py            | 6 ++++++
 src/tad_dftd4/dispersion/base.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index fdd6bb6..ddf340f 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -178,6 +178,12 @@ def get_properties(
     """
     dd: DD = {"device": positions.device, "dtype": positions.dtype}
 
+    if (*numbers.shape, 3) != positions.shape:
+        raise ValueError(
+            f"Shape of positions ({positions.shape}) is not consistent "
+            f"with atomic numbers ({numbers.shape}).",
+        )
+
     if cutoff is None:
         cutoff = Cutoff(**dd)
 
diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index a68ba75..78232c8 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -355,7 +355,7 @@ class Disp(TensorLike):
         if charge.ndim == numbers.ndim - 1:
             charge = charge.unsqueeze(-1)
 
-        if numbers.shape != positions.shape[:-1]:
+        if (*numbers.shape, 3) != positions.shape:
             raise ValueError(
                 f"Shape of positions ({positions.shape}) is not consistent "
                 f"with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From bd13c053875e846ccacbb141b294653bc8fb0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:19 +0000
Subject: [PATCH 24/25] fix: apply the weighting factor before the Gaussian of
 the D4 model can underflow

---
 src/tad_dftd4/model/d4.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 64d0be0..a9989bf 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -172,19 +172,19 @@ class D4Model(BaseModel):
         ]
 
         # For vectorization, we reformulate the Gaussian weighting function:
-        # exp(-wf * igw * (cn - cn_ref)^2) = [exp(-(cn - cn_ref)^2)]^(wf *igw)
-        # Gaussian weighting function part 1: exp(-(cn - cn_ref)^2)
+        # exp(-wf * igw * (cn - cn_ref)^2) = [exp(-wf * (cn - cn_ref)^2)]^(igw)
+        # Gaussian weighting function part 1: exp(-wf * (cn - cn_ref)^2)
         dcn = cn.unsqueeze(-1).type(torch.double) - refcn
-        tmp = torch.exp(-dcn * dcn)
+        tmp = torch.exp(-self.wf * dcn * dcn)
 
-        # Gaussian weighting function part 2: tmp^(wf * igw)
+        # Gaussian weighting function part 2: tmp^(igw)
         # (While the Fortran version just loops over the number of gaussian
         # weights `igw`, we have to use masks and explicitly implement the
         # formulas for exponentiation. Luckily, `igw` only takes on the values
         # 1 and 3.)
         def refc_pow(n: int) -> Tensor:
             return sum(
-                (torch.pow(tmp, i * self.wf) for i in range(1, n + 1)),
+                (torch.pow(tmp, i) for i in range(1, n + 1)),
                 torch.tensor(0.0, device=tmp.device),
             )
 
@@ -241,7 +241,7 @@ class D4Model(BaseModel):
             def _dpow(n: int) -> Tensor:
                 return sum(
                     (
-                        2 * i * self.wf * dcn * torch.pow(tmp, i * self.wf)
+                        2 * i * self.wf * dcn * torch.pow(tmp, i)
                         for i in range(1, n + 1)
                     ),
                     zero_double,
-- 
2.43.0


From 83fc3e92b48cddc7585c569dc2944b85f6dec8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 25/25] fix: keep damping exponents in the precision of the
 distances

The exponents `alp + 2` (zero and modified zero damping) and `bet + n`
(optimised power damping) were formed in the data type of the parameter, so a
single precision parameter rounded them even for double precision positions.
---
 src/tad_dftd4/damping/functions.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 5b66df0..c18aa55 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -34,6 +34,7 @@ from functools import wraps
 
 import torch
 from tad_mctc import storch
+from tad_mctc.convert import any_to_tensor
 from tad_mctc.typing import Any, Literal, Tensor
 
 from .. import defaults
@@ -373,7 +374,13 @@ class ZeroDamping(Damping):
             rs = rs6
         elif order == 8:
             assert rs8 is not None
-            alp_n = alp + 2.0
+            # no rounding if `alp` has a lower precision than the distances
+            alp_n = (
+                any_to_tensor(
+                    alp, device=distances.device, dtype=distances.dtype
+                )
+                + 2.0
+            )
             rs = rs8
         elif order == 9:
             assert rs9 is not None
@@ -437,7 +444,13 @@ class MZeroDamping(Damping):
             rs = rs6
         elif order == 8:
             assert rs8 is not None
-            alp_n = alp + 2.0
+            # no rounding if `alp` has a lower precision than the distances
+            alp_n = (
+                any_to_tensor(
+                    alp, device=distances.device, dtype=distances.dtype
+                )
+                + 2.0
+            )
             rs = rs8
 
         # t6 = (r1 / (rs6*r0ij) + bet*r0ij)**(-alp6)
@@ -496,6 +509,10 @@ class OptimisedPowerDamping(Damping):
 
         # The powers are merged, because the derivative of `x**bet` with respect
         # to both `x` and `bet` is lost for `bet=0`.
+        # (No rounding if `bet` has a lower precision than the distances.)
+        bet = any_to_tensor(
+            bet, device=distances.device, dtype=distances.dtype
+        )
         rb = distances ** (bet + order)
         ab = _pow(radius, bet + order)
 
-- 
2.43.0

