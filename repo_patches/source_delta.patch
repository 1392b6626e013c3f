From c3b7ae4709f0fb8c31b3fde6ca31c4f6dd22976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:00 +0000
Subject: [PATCH 01/23] fix: multiply the blocks of a cumulative matrix product
 in order

matrices_cumdot returned wrong products whenever the number of matrices was
composite (it multiplied later blocks from the left, and ignored all but the
last prefix for three or more factors), so lpv.state_space and lpv.lfilter
were wrong for most block sizes, the default one included.
---
 philtorch/mat.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..9c6e8b0 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -144,23 +144,24 @@ def matrices_cumdot(A: Tensor) -> Tensor:
     M = A.size(-3)
     if M == 1:
         return A
-    leading_dims = len(A.shape) - 3
-    factors = factorint(M, multiple=True)[::-1]
-    unfolded_A = A.unflatten(-3, factors)
-    return _mat_cumdot_runner(unfolded_A, leading_dims).flatten(leading_dims, -3)
+    factors = factorint(M, multiple=True)
+    return _mat_cumdot_runner(A, factors)
 
 
-def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
-    accums = torch.stack(list(accumulate(A.unbind(-3), torch.matmul)), dim=-3)
-    if A.dim() == leading_dims + 3:
-        return accums
+def _mat_cumdot_runner(A: Tensor, factors: list[int]) -> Tensor:
+    fac, *factors = factors
+    blocks = A.unflatten(-3, (-1, fac))
+    accums = torch.stack(list(accumulate(blocks.unbind(-3), torch.matmul)), dim=-3)
+    if len(factors) == 0:
+        return accums.flatten(-4, -3)
 
-    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    # the products of all the blocks up to and including each block
+    prefixes = _mat_cumdot_runner(accums[..., -1, :, :], factors)
+    tmp = prefixes[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
-            torch.cat([tmp, higher_powers[..., 1:, None, :, :]], dim=-3),
+            torch.cat([tmp, prefixes[..., 1:, None, :, :]], dim=-3),
         ],
         dim=-4,
-    )
+    ).flatten(-4, -3)
-- 
2.43.0


From 735b47dd9671bc16911660ee1ca756c2160ecfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:13 +0000
Subject: [PATCH 02/23] fix: keep batch and time axes apart when batch size
 equals length

With B == N, lpv.state_space read a C of shape (B, N, M) and a D of shape
(B, N) as time-varying multi-output matrices, so lpv.lfilter returned an
output of the wrong shape or wrong values for batched coefficients.
---
 philtorch/lpv/ssm.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..0061028 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -502,16 +502,13 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
+            case (D_batch, DN) if D_batch == batch_size and DN == N and x.dim() == 2:
+                Dx = D * x
             case (DN, _) if DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
                 Dx = D * x.unsqueeze(-1)
-            case (D_batch, DN) if D_batch == batch_size and DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
-                Dx = D * x
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +553,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-- 
2.43.0


From 7b20e867740e23cc4d7c1f849db2d6a3845a1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 03/23] fix: FIR and all-pole filters on signals shorter than
 the filter

With zi, the transposed forms broadcast or failed and the recursive form
returned too short a final state when N < M; order zero FIR filters returned
an empty signal (a slice ending at -0).
---
 philtorch/lpv/filtering.py | 25 ++++++++-----------------
 philtorch/lpv/utils.py     |  2 +-
 philtorch/lti/filtering.py | 10 ++++------
 3 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..0732249 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -64,17 +64,8 @@ def fir(
             ).unfold(1, shifted_b.size(2), 1),
         )
         if return_zf:
-            y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
-            )
+            y = y + F.pad(zi, (0, T))
+            return torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
@@ -122,17 +113,17 @@ def allpole(
 
     if transpose:
         a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        if return_zf:
+            x = F.pad(x, (0, zi.size(1))) + F.pad(zi, (0, T))
         y = sample_wise_lpc(x, a)
         if return_zf:
             return torch.split_with_sizes(y, [T, a.size(2)], 1)
         return y
 
-    return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
+    y = sample_wise_lpc(x, a, zi=zi)
+    if return_zf:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, T:].flip(1)
+    return y
 
 
 def lfilter(
diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..aaa326a 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -185,18 +185,16 @@ def fir(
             groups=B,
         ).squeeze(0)
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
-            y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
-            return y, zf
-        return y[:, :-M]
+            y = y + F.pad(zi, (0, N))
+            return y[:, :N], y[:, N:]
+        return y[:, :N]
 
     if zi is None:
         zf = None
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From ff498a6934978d1384f416f3e5ec122b2ff5c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 04/23] fix: transposed direct form I with time-varying
 coefficients

The ssm backend applied every denominator coefficient one sample late
(a[t] instead of a[t-1] on the first delay), so it disagreed with the
torchlpc backend and with the transposed structure for varying coefficients.
---
 philtorch/lpv/filtering.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 0732249..af6d640 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -338,18 +338,17 @@ def _ssm_lfilter(
                 ),
             )
         case "tdf1":
-            zi = x.new_zeros((x.size(0), A.size(-1)))
+            # The all-pole section has to see the coefficients of the time of
+            # the earlier outputs, which is what its TDF-II realisation does.
             filt = chain_functions(
                 partial(
-                    (
-                        _ext_ss_recur
-                        if extension_backend_indicator(x, A.size(-1))
-                        else state_space_recursion
-                    ),
+                    state_space,
                     A.mT.conj(),
-                    zi,
+                    B=-a.conj(),
+                    C=None,
+                    D=x.new_ones(()),
                     out_idx=0,
-                    **kwargs,
+                    **{"unroll_factor": 1, **kwargs},
                 ),
                 partial(
                     fir, b.conj().broadcast_to((x.size(0), -1, -1)), transpose=True
-- 
2.43.0


From c51d6170fafceac52af4e400694a846dfe6fbb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 05/23] fix: comb filter memory, unit delay, shared gain and
 missing extension

With zi, a unit delay returned no final state and signals shorter than the
delay returned too short a one; a gain of shape (1,) was refused; and without
the compiled extension the filter called the extension.
---
 philtorch/lti/filtering.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index aaa326a..fee1a17 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -8,8 +8,7 @@ from .ssm import state_space, state_space_recursion, diag_state_space
 from ..mat import companion
 from ..utils import chain_functions
 from ..poly import polydiv
-from .recur import linear_recurrence, LTIRecurrence
-from .. import EXTENSION_LOADED
+from .recur import linear_recurrence
 
 
 def comb_filter(
@@ -29,14 +28,17 @@ def comb_filter(
     assert x.dim() == 2, "Input signal x must be 2D."
     assert delay >= 0, "Delay must be non-negative."
     if a.dim() == 1:
-        assert a.size(0) == x.size(
-            0
+        assert a.size(0) in (
+            1,
+            x.size(0),
         ), "The first dimension of a must match the batch size of x."
+        a = a.expand(x.size(0))
 
     if delay == 1:
-        return linear_recurrence(
+        y = linear_recurrence(
             -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
         )
+        return y if zi is None else (y, y[:, -1:])
 
     remainder = x.size(1) % delay
     if remainder != 0:
@@ -48,26 +50,22 @@ def comb_filter(
     if zi is not None:
         return_zf = True
         if zi.dim() == 1:
-            zi = zi.flip(0).repeat(x.size(0))
-        else:
-            zi = zi.flip(1).flatten()
+            zi = zi.expand(x.size(0), -1)
+        past_y = zi.flip(1)
+        zi = past_y.flatten()
     else:
         return_zf = False
         zi = torch.zeros_like(a)
 
     y = (
-        (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
-        )
+        linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
         .unflatten(0, (-1, delay))
         .mT.flatten(1, 2)
     )
     if remainder != 0:
         y = y[:, : -(delay - remainder)]
     if return_zf:
-        return y, y[:, -delay:].flip(1)
+        return y, torch.cat([past_y, y], dim=1)[:, -delay:].flip(1)
     return y
 
 
-- 
2.43.0


From 1373ab5a274d4996172149afa314ab3082e5c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 06/23] fix: lfiltic with a single numerator coefficient

b of length one raised an error instead of contributing nothing.
---
 philtorch/lti/filtering.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index fee1a17..90c1897 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -90,9 +90,12 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
     a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
-    zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
+    if m > 0:
+        b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
+        zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
+    else:
+        zi_b = b[..., 1:]
     zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
     if zi_b.size(-1) < k:
         zi_b = F.pad(zi_b, (0, k - zi_b.size(-1)), value=0.0)
-- 
2.43.0


From b68004c9978fe8eaaaa568bc5f16ae0ce4b6a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 07/23] fix: filtfilt with first direct forms, long numerators,
 strided signals

form="df1"/"tdf1" unpacked a single tensor as two results, form="df2" failed
when the numerator was the longer one, and non-contiguous signals failed.
---
 philtorch/lti/filtering.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 90c1897..9b159de 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -118,6 +118,9 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
 
     if not transpose:
         n = a.size(-1) + 1
+        if b is not None and b.size(-1) > n:
+            a = F.pad(a, (0, b.size(-1) - n), value=0.0)
+            n = b.size(-1)
         A = companion(a)
         B = a.new_zeros(n - 1)
         B[0] = 1.0
@@ -460,7 +463,7 @@ def filtfilt(
 
     if edge > 0 and padmode is not None:
         ext = F.pad(
-            x.view(-1, x.size(-1)),
+            x.reshape(-1, x.size(-1)),
             (edge, edge),
             mode=padmode,
         )
@@ -469,13 +472,21 @@ def filtfilt(
     else:
         ext = x
 
-    zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
-    x0 = ext[..., :1]
+    if form in ("df2", "tdf2"):
+        zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
-    y0 = y[..., -1:]
+        def filt(x):
+            return lfilter(b, a, x, zi=zi * x[..., :1], form=form, **kwargs)[0]
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    else:
+        # These forms take no initial conditions: split off the steady state.
+        dc_gain = b.sum(-1, keepdim=True) / (1 + a.sum(-1, keepdim=True))
+
+        def filt(x):
+            x0 = x[..., :1]
+            return lfilter(b, a, x - x0, form=form, **kwargs) + dc_gain * x0
+
+    y = filt(filt(ext).flip(-1))
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From 53086cae7cc169986d8515dd03b5688825e6a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 08/23] fix: polydiv with a short dividend or a batched divisor

A dividend shorter than the divisor raised an error although an empty
quotient is documented, and so did a batched divisor with a single dividend.
---
 philtorch/poly.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..447c510 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -23,8 +23,11 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     # w has the common type
     m = u.size(-1) - 1
     n = v.size(-1) - 1
+    batch_shape = torch.broadcast_shapes(u.shape[:-1], v.shape[:-1])
+    r = u.expand(batch_shape + u.shape[-1:]).clone()
+    if m < n:
+        return r[..., :0], r
     scale = v[..., 0].reciprocal()
-    r = u.clone()
     q = []
     for k in range(0, m - n + 1):
         d = scale * r[..., k]
-- 
2.43.0


From 4169b5ae63d392a754eb954063c056db1bcc3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 09/23] fix: diagonal backend with long unbatched numerators

The direct part was handed to fir without a batch axis, which it requires.
---
 philtorch/lti/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9b159de..c874196 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -350,12 +350,12 @@ def _diag_ssm_lfilter(
         zi = None
         if delayed_form:
             q, r = polydiv(b, F.pad(a, (1, 0), value=1.0))
-            direct_filt = partial(fir, q)
+            direct_filt = partial(fir, q.broadcast_to((x.size(0), -1)))
             delay = b.size(-1) - a.size(-1)
             b = r
         else:
             rev_q, rev_r = polydiv(b.flip(-1), F.pad(a.flip(-1), (0, 1), value=1.0))
-            direct_filt = partial(fir, rev_q.flip(-1))
+            direct_filt = partial(fir, rev_q.flip(-1).broadcast_to((x.size(0), -1)))
             delay = 0
             b = rev_r.flip(-1)
     else:
-- 
2.43.0


From c2e7e68dfe828ee30d1ebb135e69dd304b113be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 10/23] fix: delayed diagonal backend on signals shorter than
 the delay

The delayed part was longer than the signal and could not be added.
---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index c874196..cb0e6ff 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -404,7 +404,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : y.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From 8b05361391326125b8bfd0966f3c7776a62c6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 11/23] fix: real filters stay real with the transposed
 diagonal backend

The eigenvectors are complex, and without an output matrix their dtype leaked
into the output and the final state of real filters.
---
 philtorch/lti/filtering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index cb0e6ff..d80a6de 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -399,6 +399,12 @@ def _diag_ssm_lfilter(
             raise ValueError(f"Unknown filter form: {form}")
 
     results = filt(x)
+    if not any(t is not None and t.is_complex() for t in (b, a, x, zi)):
+        results = (
+            tuple(t.real for t in results)
+            if isinstance(results, tuple)
+            else results.real
+        )
     if isinstance(results, tuple):
         return results
     y = results
-- 
2.43.0


From 56b069bc3cf5b851235bcf7310a57da0e00b29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 12/23] fix: reject operands whose batch or time sizes differ
 in CPU kernels

recurN, recur2, lti_recurN and lti_recur2 read past the end of A when it had
fewer matrices than the input has batch elements or time steps.
---
 philtorch/csrc/host_lti_recurN.cpp | 2 ++
 philtorch/csrc/host_recurN.cpp     | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 2ba902e..b75ff90 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -73,6 +73,8 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.dim() == 2 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 6c397c9..772a33c 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -197,6 +197,10 @@ at::Tensor mat_recur_N_order_cpu_impl(const at::Tensor &A, const at::Tensor &zi,
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Number of time steps of A must match time steps of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
@@ -246,6 +250,10 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
                 "Last two dimensions of A must be equal");
+    TORCH_CHECK(A.size(-3) == x.size(1),
+                "Number of time steps of A must match time steps of x");
+    TORCH_CHECK(A.dim() == 3 || A.size(0) == x.size(0),
+                "Batch size of A must match batch size of x");
 
     auto n_steps = x.size(1) + 1; // +1 for the initial state
     auto n_batches = x.size(0);
-- 
2.43.0


From a40e959dbb95a8052238805e5c8e1ceb8b3af25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 13/23] fix: 64-bit indices in the CPU recurrence kernels

Offsets such as b * T * N * N overflowed int for tensors of more than 2^31
elements.
---
 philtorch/csrc/host_lti_recur.cpp  | 12 ++++++------
 philtorch/csrc/host_lti_recurN.cpp | 20 ++++++++++----------
 philtorch/csrc/host_recurN.cpp     | 20 ++++++++++----------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/philtorch/csrc/host_lti_recur.cpp b/philtorch/csrc/host_lti_recur.cpp
index 96615f9..5815b07 100644
--- a/philtorch/csrc/host_lti_recur.cpp
+++ b/philtorch/csrc/host_lti_recur.cpp
@@ -2,19 +2,19 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_linear_recurrence(int B, int T,
+void host_lti_batch_linear_recurrence(int64_t B, int64_t T,
                                       const scalar_t *a,
                                       scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t a_b = a[b];
         scalar_t *out_b = out + b * T;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a_b * out_b[t - 1];
         }
@@ -22,17 +22,17 @@ void host_lti_batch_linear_recurrence(int B, int T,
 }
 
 template <typename scalar_t>
-void host_lti_shared_linear_recurrence(int B, int T,
+void host_lti_shared_linear_recurrence(int64_t B, int64_t T,
                                        const scalar_t a,
                                        scalar_t *out)
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *out_b = out + b * T;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             out_b[t] += a * out_b[t - 1];
         }
diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index b75ff90..6e683b6 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -2,29 +2,29 @@
 #include <torch/torch.h>
 
 template <typename scalar_t>
-void host_lti_batch_mat_recur_N_order(int B, int T, int N,
+void host_lti_batch_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
 
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A_b + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
@@ -33,26 +33,26 @@ void host_lti_batch_mat_recur_N_order(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_lti_share_mat_recur_N_order(int B, int T, int N,
+void host_lti_share_mat_recur_N_order(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 772a33c..090267c 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -79,30 +79,30 @@ void host_batch_mat_recur_N_order(const scalar_t *Ax, scalar_t *out,
 }
 
 template <typename scalar_t>
-void host_batch_mat_recur_N_order_omp(int B, int T, int N,
+void host_batch_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [B][T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         const scalar_t *A_b = A + b * T * N * N;
         scalar_t *H_b = H_out + b * T * N;
 
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A_b + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
 
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A_bt + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
@@ -111,27 +111,27 @@ void host_batch_mat_recur_N_order_omp(int B, int T, int N,
 }
 
 template <typename scalar_t>
-void host_share_mat_recur_N_order_omp(int B, int T, int N,
+void host_share_mat_recur_N_order_omp(int64_t B, int64_t T, int64_t N,
                                       const scalar_t *A, // [T][N][N]
                                       scalar_t *H_out    // [B][T][N]
 )
 {
 // Process each batch in parallel
 #pragma omp parallel for
-    for (int b = 0; b < B; ++b)
+    for (int64_t b = 0; b < B; ++b)
     {
         scalar_t *H_b = H_out + b * T * N;
         // t loop
-        for (int t = 1; t < T; ++t)
+        for (int64_t t = 1; t < T; ++t)
         {
             const scalar_t *A_bt = A + t * N * N;
             const scalar_t *H_prev = H_b + (t - 1) * N;
             scalar_t *H_curr = H_b + t * N;
-            for (int i = 0; i < N; ++i)
+            for (int64_t i = 0; i < N; ++i)
             {
                 scalar_t sum = 0;
                 const scalar_t *Arow = A_bt + i * N;
-                for (int j = 0; j < N; ++j)
+                for (int64_t j = 0; j < N; ++j)
                     sum += Arow[j] * H_prev[j];
                 H_curr[i] += sum;
             }
-- 
2.43.0


From f3a6dfe57db826c5eed6ac6a509bb6591a2f4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 14/23] fix: fake kernels: contiguous outputs and rank checks

---
 philtorch/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..12f0598 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -160,6 +160,7 @@ if EXTENSION_LOADED:
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(x.ndim == 3 and zi.ndim == 2, "x must be 3D and zi 2D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -174,12 +175,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::recurN")
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (3, 4), "A must be 3D or 4D.")
+        torch._check(x.ndim == 3 and zi.ndim == 2, "x must be 3D and zi 2D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -195,12 +197,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 4D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur2")
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == 2, "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(x.ndim == 3 and zi.ndim == 2, "x must be 3D and zi 2D.")
         torch._check(zi.shape[1] == 2, "zi must have last dimension of size 2.")
         torch._check(x.shape[2] == 2, "x must have last dimension of size 2.")
         torch._check(
@@ -211,12 +214,13 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recurN")
     def _(A, zi, x):
         torch._check(A.shape[-1] == A.shape[-2] == x.shape[2], "A must be square.")
         torch._check(A.ndim in (2, 3), "A must be 2D or 3D.")
+        torch._check(x.ndim == 3 and zi.ndim == 2, "x must be 3D and zi 2D.")
         torch._check(
             zi.shape[1] == x.shape[2], "zi must have last dimension of size 2."
         )
@@ -228,11 +232,12 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 3D, its first dimension must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     @torch.library.register_fake("philtorch::lti_recur")
     def _(A, zi, x):
         torch._check(A.ndim <= 1, "A must be 1D or scalar.")
+        torch._check(x.ndim == 2 and zi.ndim == 1, "x must be 2D and zi 1D.")
         torch._check(
             zi.shape[0] == x.shape[0], "x and zi must have the same batch size."
         )
@@ -241,7 +246,7 @@ if EXTENSION_LOADED:
                 A.shape[0] == x.shape[0],
                 "If A is 1D, its length must match x's batch size.",
             )
-        return torch.empty_like(x)
+        return torch.empty_like(x, memory_format=torch.contiguous_format)
 
     torch.library.register_autograd(
         "philtorch::recur2",
-- 
2.43.0


From 93085a2b52095c1c235caedc89120bb95e6db92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 15/23] fix: input matrix of shape (M, F) or (B, M, F) when
 sizes coincide

---
 philtorch/lpv/ssm.py | 10 +++++-----
 philtorch/lti/ssm.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 0061028..26290da 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -431,17 +431,17 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
-                Bx = x.unsqueeze(-1) * B
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
                 Bx = torch.linalg.vecdot(
                     B.unsqueeze(1).conj(), x.unsqueeze(-2)
                 )  # (batch_size, N, M)
+            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
+                Bx = x.unsqueeze(-1) * B
             case (B_batch, BN, BM, F) if (
                 B_batch == batch_size and BM == M and BN == N and F == features
             ):
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..906f892 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,13 +464,13 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
+            case (BM, F) if BM == M and F == features:
+                Bx = x @ B.T
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                Bx = x @ B.T
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
@@ -760,6 +760,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
+            case (BM, F) if BM == M and F == features:
+                VinvB = Vinv @ B
+                VinvBx = x @ VinvB.mT
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
@@ -770,9 +773,6 @@ def diag_state_space(
                     else torch.linalg.vecdot(Vinv.conj(), B.unsqueeze(1))
                 )
                 VinvBx = x.unsqueeze(-1) * VinvB.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                VinvB = Vinv @ B
-                VinvBx = x @ VinvB.mT
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
-- 
2.43.0


From ccb0bee7c36725bc9fb5302c7911d335e021b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 16/23] fix: polyval of a constant polynomial keeps the shape
 of the points

---
 philtorch/prototype/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/poly.py b/philtorch/prototype/poly.py
index 4a715d6..c825785 100644
--- a/philtorch/prototype/poly.py
+++ b/philtorch/prototype/poly.py
@@ -122,7 +122,7 @@ def polyval(p: Tensor, x: Tensor) -> Tensor:
     """
     p = trim_zeros(p)
     if p.numel() == 1:
-        return p
+        return torch.zeros_like(x) + p[0]
     return reduce(lambda y, pv: y * x + pv, p.unbind(0))
 
 
-- 
2.43.0


From 01043080e2b22f92d8419a660c618f2c5474d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 17/23] fix: reject operands of the wrong rank in the N-order
 CPU kernels

A 4-D input was accepted: its memory was read with the layout of a 3-D one
(wrong results, and out of bounds when the last dimension is empty).
---
 philtorch/csrc/host_lti_recurN.cpp | 2 ++
 philtorch/csrc/host_recurN.cpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/philtorch/csrc/host_lti_recurN.cpp b/philtorch/csrc/host_lti_recurN.cpp
index 6e683b6..9148122 100644
--- a/philtorch/csrc/host_lti_recurN.cpp
+++ b/philtorch/csrc/host_lti_recurN.cpp
@@ -69,6 +69,8 @@ at::Tensor lti_mat_recur_N_order_cpu_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 2 || A.dim() == 3, "A must be a 2D or 3D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2, "zi must be a 2D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
diff --git a/philtorch/csrc/host_recurN.cpp b/philtorch/csrc/host_recurN.cpp
index 090267c..ed88bfb 100644
--- a/philtorch/csrc/host_recurN.cpp
+++ b/philtorch/csrc/host_recurN.cpp
@@ -246,6 +246,8 @@ at::Tensor mat_recur_N_order_cpu_omp_impl(const at::Tensor &A,
     TORCH_CHECK(A.scalar_type() == x.scalar_type(),
                 "A must have the same scalar type as input");
     TORCH_CHECK(A.dim() == 3 || A.dim() == 4, "A must be a 3D or 4D tensor");
+    TORCH_CHECK(x.dim() == 3, "x must be a 3D tensor");
+    TORCH_CHECK(zi.dim() == 2, "zi must be a 2D tensor");
     TORCH_CHECK(x.size(2) == A.size(-1),
                 "Last dimension of x must match last dimension of A");
     TORCH_CHECK(A.size(-1) == A.size(-2),
-- 
2.43.0


From 1c3b6216a756ce7a3db4c2df679c9e6223c34ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 18/23] fix: complex eigenvalues without eigenvectors for a
 real input in diag_state_space

---
 philtorch/lti/ssm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 906f892..e4c5f26 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -706,7 +706,9 @@ def diag_state_space(
     match (V, Vinv, A):
         case (None, None, None):
             # scalar case
-            V = Vinv = torch.eye(M, device=x.device, dtype=x.dtype)
+            V = Vinv = torch.eye(
+                M, device=x.device, dtype=torch.promote_types(x.dtype, L.dtype)
+            )
         case (None, None, _):
             V = find_eigenvectors(A, L)
             Vinv = torch.linalg.inv(V)
-- 
2.43.0


From 175426ef297bf4ac4f1c04675642887c5d5dd1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:24 +0000
Subject: [PATCH 19/23] fix: cubic_spline for every factor m (rounding added an
 element to the kernel positions)

---
 philtorch/lti/interp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..6008cf9 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -121,9 +121,9 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-    kernel_idx = torch.arange(-2, 2, 1 / m, device=x.device, dtype=x.dtype).reshape(
-        4, m
-    )
+    # an integer range: with a step of 1 / m, rounding can add an element at the end
+    kernel_idx = torch.arange(-2 * m, 2 * m, device=x.device, dtype=x.dtype)
+    kernel_idx = (kernel_idx / m).reshape(4, m)
     kernel = _cubic_spline_kernel(kernel_idx).flip(0).T
 
     interped = F.conv1d(
-- 
2.43.0


From 229db1c936492d32393237cd03fa8b5262787295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 20/23] fix: sos2pfe returned nan for every simple pole

The factor of the pole itself was computed as 0 ** 0, which is nan for complex
numbers.
---
 philtorch/prototype/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index bd239ed..4b81b1f 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -226,8 +226,8 @@ def sos2pfe(
         mask[range(len(non_repeated_poles)), torch.where(~repeated_mask)[0]] = True
 
         denominator_val = expsumlog(
-            (non_repeated_poles[:, None] - unique_poles)
-            ** torch.where(mask, 0, multiplicity)
+            torch.where(mask, 1, non_repeated_poles[:, None] - unique_poles)
+            ** multiplicity
         )
         non_repeated_residues = numerator_val / denominator_val
 
-- 
2.43.0


From 132931e5f37ac8ca05707527c1bf7aab9f3e907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 21/23] fix: sos2pfe mixed up real and complex sections

The two roots of a section are adjacent, so the flags have to be as well.
---
 philtorch/prototype/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 4b81b1f..15bc7bd 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -202,7 +202,7 @@ def sos2pfe(
         ).flatten()
         * 0.5
     )
-    is_complex_root_ext = is_complex_root.repeat(2)
+    is_complex_root_ext = is_complex_root.repeat_interleave(2)
     unique_poles, multiplicity, is_complex = unique_roots(
         all_roots, tol=tol, rtype=rtype, is_complex=is_complex_root_ext
     )
-- 
2.43.0


From b5f54cf2396cd46de1697f147a8921f30fd0b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 22/23] fix: sos2pfe returned nan for a section with negative
 gain

---
 philtorch/prototype/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index 15bc7bd..ca8a5b7 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -184,7 +184,7 @@ def sos2pfe(
     a = a[:, 1:] / a[:, :1]
 
     expsumlog = lambda x: x.log().sum(dim=-1).exp()
-    G0 = expsumlog(k0)
+    G0 = k0.prod()
 
     a1, a2 = a[:, 0], a[:, 1]
     b1, b2 = b[:, 0], b[:, 1]
-- 
2.43.0


From ff9085ff44d8b7308c97599dcc8563245acd4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 23/23] fix: sos2pfe with repeated complex poles

It failed when there were no repeated real poles, and kept both poles of a
conjugate pair with one residue each instead of one pole with all its powers.
---
 philtorch/prototype/signal.py | 39 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/philtorch/prototype/signal.py b/philtorch/prototype/signal.py
index ca8a5b7..d9fe14a 100644
--- a/philtorch/prototype/signal.py
+++ b/philtorch/prototype/signal.py
@@ -301,17 +301,28 @@ def sos2pfe(
             repeated_poles[~sub_complex_mask].real.repeat_interleave(
                 multiplicity[repeated_mask][~sub_complex_mask]
             ),
-            torch.stack(
-                sum(
-                    [repeated_residues[i] for i in torch.where(~sub_complex_mask)[0]],
-                    [],
+            (
+                torch.stack(
+                    sum(
+                        [
+                            repeated_residues[i]
+                            for i in torch.where(~sub_complex_mask)[0]
+                        ],
+                        [],
+                    )
+                ).real
+                if torch.any(~sub_complex_mask)
+                else G0.new_empty(0)
+            ),
+            (
+                torch.cat(
+                    [
+                        torch.arange(mult.item(), 0, -1, device=repeated_poles.device)
+                        for mult in multiplicity[repeated_mask][~sub_complex_mask]
+                    ],
                 )
-            ).real,
-            torch.cat(
-                [
-                    torch.arange(mult.item(), 0, -1, device=repeated_poles.device)
-                    for mult in multiplicity[repeated_mask][~sub_complex_mask]
-                ],
+                if torch.any(~sub_complex_mask)
+                else multiplicity.new_empty(0)
             ),
         )
         cplx_repeated = (
@@ -361,9 +372,11 @@ def sos2pfe(
     )
 
     assert len(cplx_poles) % 2 == 0, "Complex poles must be even."
-    cplx_poles = cplx_poles[::2]
-    cplx_residues = cplx_residues[::2]
-    cplx_powers = cplx_powers[::2]
+    # keep one pole of each conjugate pair
+    upper = cplx_poles.imag > 0
+    cplx_poles = cplx_poles[upper]
+    cplx_residues = cplx_residues[upper]
+    cplx_powers = cplx_powers[upper]
 
     return (
         (real_residues, cplx_residues),
-- 
2.43.0

