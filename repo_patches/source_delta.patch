From 51387c7fb398866599557a5b8891209f16815b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:47 +0000
Subject: [PATCH 01/31] fix: QuadratureS2 returns the leading shape of its
 input for inputs with fewer than four dimensions

The (1, 1, nlat, nlon) weight tensor broadcast inputs of shape (nlat, nlon) and
(batch, nlat, nlon) to four dimensions, so the integral came out with extra
leading dimensions instead of the documented shape (...).
---
 torch_harmonics/distributed/distributed_quadrature.py | 2 +-
 torch_harmonics/quadrature.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 497798c..8b14bd8 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -130,7 +130,7 @@ class DistributedQuadratureS2(torch.nn.Module):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
             quad = reduce_from_polar_region(quad)
         if self.comm_size_azimuth > 1:
diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index d998189..828b3ef 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -458,6 +458,6 @@ class QuadratureS2(torch.nn.Module):
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
         # integrate over last two axes only:
-        quad = torch.sum(x * self.quad_weight, dim=(-2, -1))
+        quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
         return quad
-- 
2.43.0


From fcf245ea7b15e86182445f7a6821113b1f789d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:46 +0000
Subject: [PATCH 02/31] fix: vector SHT weights use a double-precision degree
 normalisation

1/(l(l+1)) was computed from an integer range in the default (single) precision,
so the otherwise double-precision forward vector transform was only accurate to
about 1e-8.
---
 torch_harmonics/distributed/distributed_sht.py | 2 +-
 torch_harmonics/sht.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_sht.py b/torch_harmonics/distributed/distributed_sht.py
index d7015a0..d08e002 100644
--- a/torch_harmonics/distributed/distributed_sht.py
+++ b/torch_harmonics/distributed/distributed_sht.py
@@ -479,7 +479,7 @@ class DistributedRealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor)
diff --git a/torch_harmonics/sht.py b/torch_harmonics/sht.py
index 0802fda..ee11d04 100644
--- a/torch_harmonics/sht.py
+++ b/torch_harmonics/sht.py
@@ -438,7 +438,7 @@ class RealVectorSHT(nn.Module):
         dpct = _precompute_dlegpoly(self.mmax, self.lmax, tq, norm=self.norm, csphase=self.csphase)
 
         # combine integration weights, normalization factor in to one:
-        l = torch.arange(0, self.lmax)
+        l = torch.arange(0, self.lmax, dtype=torch.float64)
         norm_factor = 1.0 / l / (l + 1)
         norm_factor[0] = 1.0
         weights = torch.einsum("dmlk,k,l->dmlk", dpct, weights, norm_factor).contiguous()
-- 
2.43.0


From 083a7066cd1034da8c7690f1d33645296d03b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:23 +0000
Subject: [PATCH 03/31] fix: spherical interpolation treats negative angular
 differences like positive ones

The small-angle test compared sin(omega) instead of |sin(omega)| with the
threshold, so every pair with a negative difference silently fell back to linear
interpolation and the result depended on the orientation of the grid.
---
 torch_harmonics/distributed/distributed_resample.py | 8 ++++----
 torch_harmonics/resample.py                         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 3a66099..6fbde2a 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +204,8 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 45364de..da553b9 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +212,8 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(somega > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(somega > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From e91a735946ee4169ae470c3262d696c147013b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:23 +0000
Subject: [PATCH 04/31] fix: gradients of spherical interpolation are finite
 for equal neighbouring values

torch.where evaluated sin(t*omega)/sin(omega) also where sin(omega) is zero, and
the gradient of that unselected branch turned into NaN (a constant field gave
NaN gradients everywhere).
---
 .../distributed/distributed_resample.py            | 14 ++++++++++----
 torch_harmonics/resample.py                        | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 6fbde2a..6f5b20c 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -166,8 +166,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = torch.abs(somega) > 1e-4
+            # keep the unselected branch finite, otherwise its gradient is NaN
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -204,8 +207,11 @@ class DistributedResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = torch.abs(somega) > 1e-4
+            # keep the unselected branch finite, otherwise its gradient is NaN
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index da553b9..6cddaa4 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -189,8 +189,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lon_idx_right] - x[..., self.lon_idx_left]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = torch.abs(somega) > 1e-4
+            # keep the unselected branch finite, otherwise its gradient is NaN
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lon_idx_left] + end_prefac * x[..., self.lon_idx_right]
 
         return x
@@ -212,8 +215,11 @@ class ResampleS2(nn.Module):
         else:
             omega = x[..., self.lat_idx + 1, :] - x[..., self.lat_idx, :]
             somega = torch.sin(omega)
-            start_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
-            end_prefac = torch.where(torch.abs(somega) > 1e-4, torch.sin(lwgt * omega) / somega, lwgt)
+            use_slerp = torch.abs(somega) > 1e-4
+            # keep the unselected branch finite, otherwise its gradient is NaN
+            somega = torch.where(use_slerp, somega, torch.ones_like(somega))
+            start_prefac = torch.where(use_slerp, torch.sin((1.0 - lwgt) * omega) / somega, (1.0 - lwgt))
+            end_prefac = torch.where(use_slerp, torch.sin(lwgt * omega) / somega, lwgt)
             x = start_prefac * x[..., self.lat_idx, :] + end_prefac * x[..., self.lat_idx + 1, :]
 
         return x
-- 
2.43.0


From e86606178339403324abb20b0fbf3bd47f0edc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:15 +0000
Subject: [PATCH 05/31] fix: resampling from a grid with a single longitude no
 longer yields NaN

The longitude spacing of a one-point grid came out as zero instead of 2*pi.
---
 torch_harmonics/distributed/distributed_resample.py | 2 +-
 torch_harmonics/resample.py                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index 6f5b20c..dac1dd3 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -144,7 +144,7 @@ class DistributedResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 6cddaa4..ea41f69 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -168,7 +168,7 @@ class ResampleS2(nn.Module):
 
         # get the difference
         diff = self.lons_in[lon_idx_right] - self.lons_in[lon_idx_left]
-        diff = torch.where(diff < 0.0, diff + 2 * math.pi, diff)
+        diff = torch.where(diff <= 0.0, diff + 2 * math.pi, diff)
         lon_weights = ((self.lons_out - self.lons_in[lon_idx_left]) / diff).to(torch.float32)
 
         # register buffers
-- 
2.43.0


From ed74422c4ca6d5d27f29f68dde6118e6d1ff7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:30 +0000
Subject: [PATCH 06/31] fix: Zernike filter basis uses double-precision
 factorials

---
 torch_harmonics/filter_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 2454c58..15cb1e5 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -57,7 +57,8 @@ def _circle_dist(x1: torch.Tensor, x2: torch.Tensor):
 
 
 def _log_factorial(x: torch.Tensor):
-    return torch.lgamma(x + 1)
+    # integer inputs would otherwise be evaluated in the default (single) precision
+    return torch.lgamma(x.to(torch.float64) + 1)
 
 
 def _factorial(x: torch.Tensor):
-- 
2.43.0


From 8aaf000f0e8af14d33b897c03046ab6586a59036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:06 +0000
Subject: [PATCH 07/31] fix: DISCO row offsets separate filters that end and
 start on the same latitude, and handle empty stencils

---
 torch_harmonics/disco/optimized/disco_helpers.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/disco/optimized/disco_helpers.h b/torch_harmonics/disco/optimized/disco_helpers.h
index 7adc716..15d1614 100644
--- a/torch_harmonics/disco/optimized/disco_helpers.h
+++ b/torch_harmonics/disco/optimized/disco_helpers.h
@@ -81,11 +81,16 @@ void preprocess_psi_kernel(int64_t nnz, int64_t K, int64_t Ho, int64_t *ker_h, i
     delete[] val_sort;
 
     // compute rows offsets
-    nrows = 1;
     roff_h[0] = 0;
+    if (nnz == 0) {
+        nrows = 0;
+        return;
+    }
+    nrows = 1;
     for (int64_t i = 1; i < nnz; i++) {
 
-        if (row_h[i - 1] == row_h[i]) continue;
+        // a row ends when the output latitude or the kernel changes
+        if (row_h[i - 1] == row_h[i] && ker_h[i - 1] == ker_h[i]) continue;
         roff_h[nrows++] = i;
 
         if (nrows > Ho * K) {
-- 
2.43.0


From 322429df62953b9a97038951ae5e56cefce98811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:06 +0000
Subject: [PATCH 08/31] fix: Zernike basis accepts latitudes with no point
 inside the cutoff

---
 torch_harmonics/filter_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/filter_basis.py b/torch_harmonics/filter_basis.py
index 15cb1e5..cea37da 100644
--- a/torch_harmonics/filter_basis.py
+++ b/torch_harmonics/filter_basis.py
@@ -435,7 +435,7 @@ class ZernikeFilterBasis(FilterBasis):
 
         out = torch.zeros_like(r)
         bound = (n - m) // 2 + 1
-        max_bound = bound.max().item()
+        max_bound = bound.max().item() if bound.numel() > 0 else 0
 
         for k in range(max_bound):
 
-- 
2.43.0


From fdf13bd1ee9cfbf134bfa4d213139f52d54f235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:06 +0000
Subject: [PATCH 09/31] fix: reference DISCO contraction compares longitudes
 with longitudes

---
 torch_harmonics/disco/kernels_torch/disco_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/disco/kernels_torch/disco_torch.py b/torch_harmonics/disco/kernels_torch/disco_torch.py
index 0a2b04d..735fc13 100644
--- a/torch_harmonics/disco/kernels_torch/disco_torch.py
+++ b/torch_harmonics/disco/kernels_torch/disco_torch.py
@@ -62,7 +62,7 @@ def _disco_s2_contraction_torch(x: torch.Tensor, psi: torch.Tensor, nlon_out: in
 
     torch._check(psi.shape[-1] == nlat_in * nlon_in, lambda: f"Expected psi.shape[-1]=={nlat_in * nlon_in}, got {psi.shape[-1]}")
     torch._check(nlon_in % nlon_out == 0, lambda: f"nlon_in ({nlon_in}) must be an integer multiple of nlon_out ({nlon_out})")
-    torch._check(nlon_in >= nlat_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlat_out ({nlat_out})")
+    torch._check(nlon_in >= nlon_out, lambda: f"Expected nlon_in ({nlon_in}) >= nlon_out ({nlon_out})")
     pscale = nlon_in // nlon_out
 
     # add a dummy dimension for nkernel and move the batch and channel dims to the end
-- 
2.43.0


From dd2d860e192e2d50bdbf0156b47863bda6c16a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:21 +0000
Subject: [PATCH 10/31] fix: CPU neighborhood attention accepts modules
 converted to another floating-point type

---
 .../attention/optimized/kernels_cpu/attention_cpu_bwd.cpp        | 1 +
 .../attention/optimized/kernels_cpu/attention_cpu_fwd.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.cpp b/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.cpp
index 5ed2a0a..3d17b5b 100644
--- a/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.cpp
+++ b/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.cpp
@@ -92,6 +92,7 @@ namespace attention_kernels
         vx = vx.to(torch::kFloat32);
         qy = qy.to(torch::kFloat32);
         dy = dy.to(torch::kFloat32);
+        quad_weights = quad_weights.to(torch::kFloat32);
 
         // already NHWC by contract; only the head fold is needed
         kx = fold_heads(kx, num_heads).contiguous();
diff --git a/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_fwd.cpp b/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_fwd.cpp
index cae952a..5e160f4 100644
--- a/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_fwd.cpp
+++ b/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_fwd.cpp
@@ -105,6 +105,7 @@ namespace attention_kernels
         kx = kx.to(torch::kFloat32);
         vx = vx.to(torch::kFloat32);
         qy = qy.to(torch::kFloat32);
+        quad_weights = quad_weights.to(torch::kFloat32);
 
         // already NHWC by contract; only the head fold is needed
         kx = fold_heads(kx, num_heads).contiguous();
-- 
2.43.0


From d70c0d07ac697a016b387bfc2add8aa1ada10f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:21 +0000
Subject: [PATCH 11/31] fix: reference neighborhood attention no longer
 underflows when all logits are very negative

---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 694fdf3..1f7dbe7 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -92,7 +92,7 @@ def _neighborhood_s2_attention_fwd_torch(
         for wo in range(nlon_out):
 
             alpha_sum = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
-            qdotk_max = torch.zeros((y.shape[0],), dtype=y.dtype, device=y.device)
+            qdotk_max = torch.full((y.shape[0],), float("-inf"), dtype=y.dtype, device=y.device)
 
             for idz in range(zstart, zend):
                 nz_col_idx = col_idx[idz]
-- 
2.43.0


From 59db88e68d474ceae4ea63771a74b584ce11407e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Tue, 17 Nov 2026 23:53:01 +0000
Subject: [PATCH 12/31] fix: distributed reductions no longer narrow double
 precision and complex tensors

_reduce and _reduce_scatter cast every tensor to float32 around the collective, which
dropped the imaginary part of complex tensors and rounded float64 tensors to single
precision. use_fp32 is meant to promote half precision: only promote float16/bfloat16.
---
 torch_harmonics/distributed/primitives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index af9841f..147b2ba 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -357,7 +357,8 @@ def _reduce(input_, use_fp32=True, group=None):
     # dist.all_reduce is in-place on its tensor argument; the .clone() forces a fresh
     # buffer so we never mutate the caller's tensor (which would alias an autograd-
     # tracked value when the input is fp32 + contiguous).
-    if use_fp32:
+    # use_fp32 promotes half precision only: wider and complex types must not be narrowed.
+    if use_fp32 and input_.dtype in (torch.float16, torch.bfloat16):
         dtype = input_.dtype
         inputf_ = input_.float().contiguous().clone()
         dist.all_reduce(inputf_, group=group)
@@ -464,7 +465,8 @@ def _reduce_scatter(input_, dim_, use_fp32=True, group=None):
     is_even = min(orig_shapes) == max_chunk
 
     dtype = input_.dtype
-    work_dtype = torch.float32 if (use_fp32 and dtype != torch.float32) else dtype
+    # use_fp32 promotes half precision only: wider and complex types must not be narrowed.
+    work_dtype = torch.float32 if (use_fp32 and dtype in (torch.float16, torch.bfloat16)) else dtype
 
     if is_even:
         # Fast path: all chunks the same size; call reduce_scatter directly.
-- 
2.43.0


From 6a4db34f6bdfaa7188e089770e21b45fcc54c649 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:00:03 +0000
Subject: [PATCH 13/31] fix: distributed convolutions work when a rank owns
 exactly one filter entry

argwhere(...).squeeze() collapses to a 0-d index if a single entry falls into the
rank's latitude slice, and the constructor then fails with an IndexError.
---
 torch_harmonics/distributed/distributed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index b9b6e52..62c3043 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -110,7 +110,7 @@ def _split_distributed_convolution_tensor_s2(
     # once normalization is done we can throw away the entries which correspond to input latitudes we do not care about
     lats = idx[2] // nlon_in
     lons = idx[2] % nlon_in
-    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze()
+    ilats = torch.argwhere((lats < end_idx) & (lats >= start_idx)).squeeze(-1)
     vals = vals[ilats]
     # for the indices we need to recompute them to refer to local indices of the input tenor
     idx = torch.stack([idx[0, ilats], idx[1, ilats], (lats[ilats] - start_idx) * nlon_in + lons[ilats]], dim=0)
-- 
2.43.0


From 9e95fb7ae770ddaacfd410a43a429a3864004c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:16 +0000
Subject: [PATCH 14/31] fix: distributed quadrature supports the
 equiangular-trapezoidal grid it documents

The grid is listed in the docstring and supported by the serial QuadratureS2, but the
distributed module raised ValueError for it.
---
 torch_harmonics/distributed/distributed_quadrature.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 8b14bd8..00cce93 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -33,7 +33,7 @@ from typing import Optional, Tuple
 
 import torch
 
-from torch_harmonics.quadrature import clenshaw_curtiss_weights, legendre_gauss_weights, lobatto_weights
+from torch_harmonics.quadrature import clenshaw_curtiss_weights, legendre_gauss_weights, lobatto_weights, trapezoidal_weights
 
 from .primitives import compute_split_shapes, reduce_from_azimuth_region, reduce_from_polar_region, split_tensor_along_dim
 from .utils import azimuth_group_rank, azimuth_group_size, polar_group_rank, polar_group_size
@@ -102,6 +102,11 @@ class DistributedQuadratureS2(torch.nn.Module):
             dlambda = 2 * torch.pi / img_shape[1]
             quad_weight = dlambda * weights.unsqueeze(1)
             quad_weight = quad_weight.tile(1, img_shape[1])
+        elif self.grid == "equiangular-trapezoidal":
+            _, weights = trapezoidal_weights(img_shape[0], -1, 1)
+            dlambda = 2 * torch.pi / img_shape[1]
+            quad_weight = dlambda * weights.unsqueeze(1)
+            quad_weight = quad_weight.tile(1, img_shape[1])
         else:
             raise (ValueError("Unknown quadrature mode"))
 
-- 
2.43.0


From 95ff26544c80d240a4933671d863559426f35cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:38 +0000
Subject: [PATCH 15/31] fix: distributed spectral convolution with bias accepts
 double and half precision input

The spatial integral was computed before the cast to float32 (the serial module casts
first), so a float64 input with bias=True failed in the contraction with mixed complex types.
---
 .../distributed_spectral_convolution.py         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 2dc1160..879276b 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -195,16 +195,17 @@ class DistributedSpectralConvS2(nn.Module):
     def forward(self, x):
         dtype = x.dtype
 
-        # compute integral in case if bias is used
-        if hasattr(self, "spectral_bias"):
-            integral = self.quadrature(x)
-            if self.comm_size_polar > 1:
-                integral = copy_to_polar_region(integral)
-            if self.comm_size_azimuth > 1:
-                integral = copy_to_azimuth_region(integral)
-
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
             x = x.to(torch.float32)
+
+            # compute integral in case if bias is used
+            if hasattr(self, "spectral_bias"):
+                integral = self.quadrature(x)
+                if self.comm_size_polar > 1:
+                    integral = copy_to_polar_region(integral)
+                if self.comm_size_azimuth > 1:
+                    integral = copy_to_azimuth_region(integral)
+
             x = self.sht(x).contiguous()
 
         # store the shapes
-- 
2.43.0


From 4462312748609724b4be507e0bdcae030f1bb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:59 +0000
Subject: [PATCH 16/31] fix: distributed neighborhood attention rejects halos
 wider than a latitude shard

---
 torch_harmonics/distributed/distributed_attention.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index 60a5409..d810db9 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -958,6 +958,16 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
             # Use the lat_out_lo of our polar rank to compute ho_global.
             self.r_lat = self._compute_r_lat()
 
+        # The halo exchange only reaches the immediate polar neighbours, so no shard
+        # may be thinner than the halo. The shard sizes and r_lat are the same on all
+        # ranks, so either all ranks raise or none.
+        if self.comm_size_polar > 1 and self.r_lat > min(self.lat_in_shapes):
+            raise ValueError(
+                f"DistributedNeighborhoodAttentionS2: the neighborhood requires a latitude halo of {self.r_lat} rows, "
+                f"but the input latitudes are split into shards of {self.lat_in_shapes} rows. "
+                f"Use fewer polar ranks or a smaller theta_cutoff."
+            )
+
     # -----------------------------------------------------------------------
 
     def _build_local_psi(self):
-- 
2.43.0


From 7f92de6f3f9f8ddd5c607c29a75b55ed648fe177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:59 +0000
Subject: [PATCH 17/31] fix: polar halo exchange with an empty halo no longer
 sends the whole tensor

---
 torch_harmonics/distributed/primitives.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/distributed/primitives.py b/torch_harmonics/distributed/primitives.py
index 147b2ba..860a2c3 100644
--- a/torch_harmonics/distributed/primitives.py
+++ b/torch_harmonics/distributed/primitives.py
@@ -1162,4 +1162,7 @@ def polar_halo_exchange(x, r_lat):
     torch.Tensor
         Halo-padded tensor of shape ``(B, C, H_local + 2 * r_lat, W)``.
     """
+    # an empty halo needs no communication (and x[-0:] would select all rows)
+    if r_lat == 0:
+        return x
     return _PolarHaloExchangeFn.apply(x, r_lat)
-- 
2.43.0


From 2cfc488f445fdc546d82dc92397aee3145f36107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 18/31] fix: neighborhood attention modules can be copied and
 pickled

---
 torch_harmonics/attention/attention.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index fed66b5..96c2401 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -445,10 +445,10 @@ class NeighborhoodAttentionS2(nn.Module):
             self.q_norm_weights = None
             self.k_norm_weights = None
 
-        if self.optimized_kernel:
-            self.attention_handle = _neighborhood_s2_attention_optimized
-        else:
-            self.attention_handle = _neighborhood_s2_attention_torch
+    @property
+    def attention_handle(self):
+        # not stored on the module: custom op handles can be neither copied nor pickled
+        return _neighborhood_s2_attention_optimized if self.optimized_kernel else _neighborhood_s2_attention_torch
 
     def extra_repr(self):
         return f"in_shape={(self.nlat_in, self.nlon_in)}, out_shape={(self.nlat_out, self.nlon_out)}, in_channels={self.in_channels}, out_channels={self.out_channels}, k_channels={self.k_channels}, theta_cutoff={self.theta_cutoff}"
-- 
2.43.0


From b3565d58d47b1ad7c44a8826731772c3db281063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:32 +0000
Subject: [PATCH 19/31] fix: key cached tables on the ambient default device
 and dtype

Building an object under torch.device("meta") (or another default device or dtype) left its tables in the
process-wide caches, and every later construction with the same arguments received them.
---
 torch_harmonics/cache.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/cache.py b/torch_harmonics/cache.py
index 9f49afe..ea69f82 100644
--- a/torch_harmonics/cache.py
+++ b/torch_harmonics/cache.py
@@ -32,6 +32,8 @@
 import functools
 from copy import deepcopy
 
+import torch
+
 
 # copying LRU cache decorator a la:
 # https://stackoverflow.com/questions/54909357/how-to-get-functools-lru-cache-to-return-new-instances
@@ -64,10 +66,15 @@ def lru_cache(maxsize=20, typed=False, copy=False):
     """
 
     def decorator(f):
-        cached_func = functools.lru_cache(maxsize=maxsize, typed=typed)(f)
+        # the cached tables are created with torch factory functions, so what f returns also depends on
+        # the ambient default device and dtype (e.g. when a module is built under torch.device("meta"))
+        @functools.lru_cache(maxsize=maxsize, typed=typed)
+        def cached_func(defaults, *args, **kwargs):
+            return f(*args, **kwargs)
 
         def wrapper(*args, **kwargs):
-            res = cached_func(*args, **kwargs)
+            defaults = (torch.get_default_device(), torch.get_default_dtype())
+            res = cached_func(defaults, *args, **kwargs)
             if copy:
                 return deepcopy(res)
             else:
-- 
2.43.0


From f76fb4f10f7b0489936bc8f586310b85bc3ae98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 20/31] fix: DISCO convolutions check the shape of their input

The native kernels trust the index table, so an input with the wrong number of latitudes or longitudes was read
out of bounds and a result returned.
---
 torch_harmonics/disco/convolution.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/disco/convolution.py b/torch_harmonics/disco/convolution.py
index 04fe534..aa3c5ed 100644
--- a/torch_harmonics/disco/convolution.py
+++ b/torch_harmonics/disco/convolution.py
@@ -692,6 +692,9 @@ class DiscreteContinuousConvS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        if tuple(x.shape[1:]) != (self.groupsize * self.groups, self.nlat_in, self.nlon_in):
+            raise ValueError(f"Expected input of shape (batch, {self.groupsize * self.groups}, {self.nlat_in}, {self.nlon_in}), got {tuple(x.shape)}")
+
         weight_r = self.weight.reshape(self.groups, self.out_per_group, self.weight.shape[1], self.weight.shape[2])
         kpacked_dtype = x.dtype
         if x.is_cuda and torch.is_autocast_enabled("cuda"):
@@ -986,6 +989,9 @@ class DiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
 
+        if tuple(x.shape[1:]) != (self.groupsize * self.groups, self.nlat_in, self.nlon_in):
+            raise ValueError(f"Expected input of shape (batch, {self.groupsize * self.groups}, {self.nlat_in}, {self.nlon_in}), got {tuple(x.shape)}")
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
-- 
2.43.0


From 6ae6569b52d8800db46a320bcdc422df004bccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 21/31] fix: ResampleS2 checks the shape of its input

Inputs with more latitudes or longitudes than the input grid were silently cropped, and the identity case passed
anything through.
---
 torch_harmonics/resample.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index ea41f69..38158f8 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -240,6 +240,9 @@ class ResampleS2(nn.Module):
         torch.Tensor
             Resampled signal of shape ``(..., nlat_out, nlon_out)``.
         """
+        if tuple(x.shape[-2:]) != (self.nlat_in, self.nlon_in):
+            raise ValueError(f"Expected input of shape (..., {self.nlat_in}, {self.nlon_in}), got {tuple(x.shape)}")
+
         if self.skip_resampling:
             return x
 
-- 
2.43.0


From bcd69cd06af624d1191c5626543f2986c19f9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 22/31] fix: QuadratureS2 checks the shape of its input

Inputs of extent one were silently broadcast over the grid.
---
 torch_harmonics/quadrature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/quadrature.py b/torch_harmonics/quadrature.py
index 828b3ef..911dc81 100644
--- a/torch_harmonics/quadrature.py
+++ b/torch_harmonics/quadrature.py
@@ -457,6 +457,9 @@ class QuadratureS2(torch.nn.Module):
         torch.Tensor
             Integral of shape ``(...)`` (the input with its last two dimensions reduced).
         """
+        if x.shape[-2:] != self.quad_weight.shape[-2:]:
+            raise ValueError(f"Expected input of shape (..., {self.quad_weight.shape[-2]}, {self.quad_weight.shape[-1]}), got {tuple(x.shape)}")
+
         # integrate over last two axes only:
         quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
 
-- 
2.43.0


From c3d03cc1749bc1e37144c6c848aff867699f89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 23/31] fix: SpectralConvS2 checks the number of input channels

A single channel per group was silently broadcast against the weights (and against the bias).
---
 torch_harmonics/spectral_convolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torch_harmonics/spectral_convolution.py b/torch_harmonics/spectral_convolution.py
index abeffd3..41aeb5a 100644
--- a/torch_harmonics/spectral_convolution.py
+++ b/torch_harmonics/spectral_convolution.py
@@ -214,6 +214,9 @@ class SpectralConvS2(nn.Module):
         torch.Tensor
             Convolved signal of shape ``(batch, out_channels, nlat_out, nlon_out)``.
         """
+        if x.dim() != 4 or x.shape[1] != self.in_channels:
+            raise ValueError(f"Expected 4-dimensional input with {self.in_channels} channels, got shape {tuple(x.shape)}")
+
         dtype = x.dtype
 
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
-- 
2.43.0


From 07f234910d09cba0c5c047633d9721f6aa89ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 24/31] fix: distributed DISCO convolutions reject
 non-divisible longitude counts like the serial ones

They were accepted and the longitude shift of the stencil was truncated to an integer, giving wrong results.
---
 torch_harmonics/distributed/distributed_convolution.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index 62c3043..f37920b 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -225,6 +225,9 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        if self.nlon_in % self.nlon_out != 0:
+            raise ValueError(f"nlon_in ({self.nlon_in}) must be an integer multiple of nlon_out ({self.nlon_out}) for the DISCO p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
@@ -506,6 +509,9 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
         self.nlat_in, self.nlon_in = in_shape
         self.nlat_out, self.nlon_out = out_shape
 
+        if self.nlon_out % self.nlon_in != 0:
+            raise ValueError(f"nlon_out ({self.nlon_out}) must be an integer multiple of nlon_in ({self.nlon_in}) for the DISCO transpose p-shift to be exact")
+
         # get the comms grid:
         self.comm_size_polar = polar_group_size()
         self.comm_rank_polar = polar_group_rank()
-- 
2.43.0


From 45fe3eba9683c2ef253e8d3a1fd84c88ae6836da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 25/31] fix: attention layers check batch sizes and, in the
 global layer, spatial extents

The neighborhood kernels take the batch size from the key and read the other tensors out of bounds when theirs is
smaller; the global layer accepted any extents with the right number of points.
---
 torch_harmonics/attention/_attention_utils.py |  7 +++++++
 torch_harmonics/attention/attention.py        | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/_attention_utils.py b/torch_harmonics/attention/_attention_utils.py
index 3b0d7eb..74551ba 100644
--- a/torch_harmonics/attention/_attention_utils.py
+++ b/torch_harmonics/attention/_attention_utils.py
@@ -89,6 +89,13 @@ def _check_dtypes_match(tensors) -> None:
         torch._check(tensor.dtype == ref, "all attention inputs must share a single dtype")
 
 
+def _check_batch_match(tensors) -> None:
+    """Check that every tensor has the first one's batch size; the kernels index all of them with one batch size."""
+
+    for tensor in tensors[1:]:
+        torch._check(tensor.shape[0] == tensors[0].shape[0], "all attention inputs must share a single batch size")
+
+
 # Shared backward-context helper used by both the torch reference kernels
 # (in kernels_torch/) and the optimized custom_op path (in optimized/).
 def _setup_context_attention_backward(ctx, inputs, output):
diff --git a/torch_harmonics/attention/attention.py b/torch_harmonics/attention/attention.py
index 96c2401..5d7b067 100644
--- a/torch_harmonics/attention/attention.py
+++ b/torch_harmonics/attention/attention.py
@@ -37,7 +37,7 @@ import torch.nn as nn
 import torch.nn.functional as F
 from attention_helpers import optimized_kernels_is_available
 
-from torch_harmonics.attention._attention_utils import _check_dtypes_match, _check_extent, _check_ndim
+from torch_harmonics.attention._attention_utils import _check_batch_match, _check_dtypes_match, _check_extent, _check_ndim
 from torch_harmonics.attention._layout import to_nchw, to_nhwc
 from torch_harmonics.attention.kernels_torch.attention_torch import _neighborhood_s2_attention_torch
 from torch_harmonics.attention.optimized.attention_optimized import _neighborhood_s2_attention_optimized
@@ -202,6 +202,13 @@ class AttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_batch_match((query, key, value))
+        _check_extent(query, -2, self.nlat_out, "query latitudes")
+        _check_extent(query, -1, self.nlon_out, "query longitudes")
+        _check_extent(key, -2, self.nlat_in, "key latitudes")
+        _check_extent(key, -1, self.nlon_in, "key longitudes")
+        _check_extent(value, -2, self.nlat_in, "value latitudes")
+        _check_extent(value, -1, self.nlon_in, "value longitudes")
 
         # perform QKV projections
         query = nn.functional.conv2d(query, self.q_weights, bias=self.q_bias)
@@ -486,6 +493,7 @@ class NeighborhoodAttentionS2(nn.Module):
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
         _check_dtypes_match((query, key, value))
+        _check_batch_match((query, key, value))
         _check_extent(query, -2, self.nlat_out, "query latitudes")
         _check_extent(query, -1, self.nlon_out, "query longitudes")
         _check_extent(key, -2, self.nlat_in, "key latitudes")
-- 
2.43.0


From 1edd835d5ab1bf89e4e175eac4c382ea53ed01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:12 +0000
Subject: [PATCH 26/31] fix: the reference neighborhood attention op returns
 the contiguous layout it declares

With one head or one channel per head the output was a permuted view, while tracing was told it is contiguous.
---
 torch_harmonics/attention/kernels_torch/attention_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/attention/kernels_torch/attention_torch.py b/torch_harmonics/attention/kernels_torch/attention_torch.py
index 1f7dbe7..0a8bbb4 100644
--- a/torch_harmonics/attention/kernels_torch/attention_torch.py
+++ b/torch_harmonics/attention/kernels_torch/attention_torch.py
@@ -444,7 +444,8 @@ def _neighborhood_s2_attention_torch(
     _, C, H, W = output.shape
     output = output.reshape(B, nh, C, H, W).permute(0, 3, 4, 1, 2).reshape(B, H, W, nh * C)
 
-    return output.to(dtype=inp_dtype)
+    # the reshape can leave a permuted view, but register_fake below commits to a contiguous output
+    return output.to(dtype=inp_dtype).contiguous()
 
 
 @torch.library.register_fake("attention_kernels::_neighborhood_s2_attention_torch")
-- 
2.43.0


From e97a10db744326a04d7ecf9ec02b532549001235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:12 +0000
Subject: [PATCH 27/31] fix: ResampleS2 decides about pole expansion with a
 plain bool

A tensor condition in forward is data-dependent branching: the module could not be traced (fullgraph compilation, fake tensors).
---
 torch_harmonics/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torch_harmonics/resample.py b/torch_harmonics/resample.py
index 38158f8..3be7bcd 100644
--- a/torch_harmonics/resample.py
+++ b/torch_harmonics/resample.py
@@ -140,7 +140,7 @@ class ResampleS2(nn.Module):
 
         # in the case where some points lie outside of the range spanned by lats_in,
         # we need to expand the solution to the poles before interpolating
-        self.expand_poles = (self.lats_out > self.lats_in[-1]).any() or (self.lats_out < self.lats_in[0]).any()
+        self.expand_poles = bool((self.lats_out > self.lats_in[-1]).any() or (self.lats_out < self.lats_in[0]).any())
         if self.expand_poles:
             self.lats_in = torch.cat(
                 [torch.as_tensor([0.0], dtype=torch.float64, device=self.lats_in.device), self.lats_in, torch.as_tensor([math.pi], dtype=torch.float64, device=self.lats_in.device)]
-- 
2.43.0


From a5bd39c44a87891d7c6b833be89e35220ec8c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:15 +0000
Subject: [PATCH 28/31] fix: attention backward does not index an empty scratch
 vector when no point has neighbours

---
 .../attention/optimized/kernels_cpu/attention_cpu_bwd.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.h b/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.h
index 0381fa0..3837b2b 100644
--- a/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.h
+++ b/torch_harmonics/attention/optimized/kernels_cpu/attention_cpu_bwd.h
@@ -154,8 +154,8 @@ namespace attention_kernels
                         const int64_t zstart = roff_p[ho];
                         const int64_t zend = roff_p[ho + 1];
 
-                        float *__restrict__ a_nz = &alpha_nz_buf[nz_off(b, ho, wo)];
-                        float *__restrict__ g_nz = &gdotv_nz_buf[nz_off(b, ho, wo)];
+                        float *__restrict__ a_nz = alpha_nz_buf.data() + nz_off(b, ho, wo);
+                        float *__restrict__ g_nz = gdotv_nz_buf.data() + nz_off(b, ho, wo);
 
                         // per-(b, ho, wo) base pointers (qy and dy)
                         const scalar_t *__restrict__ qy_bow = qy_base + b * qy_sB + ho * qy_sH + wo * qy_sW;
-- 
2.43.0


From b615c04b4091ccddb479e0302919803baa18e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:24 +0000
Subject: [PATCH 29/31] fix: download the MOLA topography to a partial file and
 rename it, so that an interrupted or concurrent download never leaves a
 truncated cache file

---
 torch_harmonics/utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/torch_harmonics/utils.py b/torch_harmonics/utils.py
index 1b3dce8..9bd6ee6 100644
--- a/torch_harmonics/utils.py
+++ b/torch_harmonics/utils.py
@@ -32,6 +32,7 @@
 import os
 import tempfile
 import urllib.request
+import uuid
 from typing import Optional
 
 import numpy as np
@@ -79,8 +80,17 @@ def load_mola_elevation(
 
     if not os.path.exists(path):
         req = urllib.request.Request(_MOLA_URL, headers={"User-Agent": "torch-harmonics"})
-        with urllib.request.urlopen(req) as resp, open(path, "wb") as f:
-            f.write(resp.read())
+        with urllib.request.urlopen(req) as resp:
+            content = resp.read()
+        # write beside the cache file and rename: an interrupted or concurrent download must not leave a partial file under the final name
+        partial = f"{path}.{uuid.uuid4().hex}"
+        try:
+            with open(partial, "wb") as f:
+                f.write(content)
+            os.replace(partial, path)
+        finally:
+            if os.path.exists(partial):
+                os.remove(partial)
 
     img = np.array(Image.open(path).convert("L"), dtype=np.float32) / 255.0
     data = torch.from_numpy(img)
-- 
2.43.0


From f85d055fe2f11c90752df818f55c946027893458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:37 +0000
Subject: [PATCH 30/31] fix: DistributedSpectralConvS2 doubles the initial
 variance of degree 0 only, not of the first degree of every polar rank

---
 .../distributed/distributed_spectral_convolution.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index 879276b..ea382ad 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -180,7 +180,9 @@ class DistributedSpectralConvS2(nn.Module):
         # Compute scaling factor for correct initialization
         scale = math.sqrt(1.0 / (in_channels // num_groups)) * torch.ones(self.lmax_local, dtype=torch.complex64)
         # seemingly the first weight is not really complex, so we need to account for that
-        scale[0] *= math.sqrt(2.0)
+        # (degree 0 lives on the first polar rank)
+        if self.comm_rank_polar == 0:
+            scale[0] *= math.sqrt(2.0)
         self.weight = nn.Parameter(scale * torch.randn(*weight_shape, dtype=torch.complex64))
 
         if bias:
-- 
2.43.0


From d0140799136638fd863027ba812c13520e977172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:09 +0000
Subject: [PATCH 31/31] fix: distributed layers reject local inputs of the
 wrong shape instead of computing on them

---
 torch_harmonics/distributed/distributed_attention.py       | 3 ++-
 torch_harmonics/distributed/distributed_convolution.py     | 7 +++++++
 torch_harmonics/distributed/distributed_quadrature.py      | 3 +++
 torch_harmonics/distributed/distributed_resample.py        | 4 ++++
 .../distributed/distributed_spectral_convolution.py        | 3 +++
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/torch_harmonics/distributed/distributed_attention.py b/torch_harmonics/distributed/distributed_attention.py
index d810db9..90883fb 100644
--- a/torch_harmonics/distributed/distributed_attention.py
+++ b/torch_harmonics/distributed/distributed_attention.py
@@ -37,7 +37,7 @@ import torch.nn as nn
 from attention_helpers import optimized_kernels_is_available
 
 from torch_harmonics.attention import attention_kernels
-from torch_harmonics.attention._attention_utils import _check_extent, _check_ndim
+from torch_harmonics.attention._attention_utils import _check_batch_match, _check_extent, _check_ndim
 from torch_harmonics.attention._layout import to_nchw, to_nhwc
 from torch_harmonics.attention.attention import NeighborhoodAttentionS2
 from torch_harmonics.distributed._amp_utils import _cast_to_autocast_dtype, _custom_setup_context
@@ -1181,6 +1181,7 @@ class DistributedNeighborhoodAttentionS2(NeighborhoodAttentionS2):
         _check_ndim(query, 4, "query")
         _check_ndim(key, 4, "key")
         _check_ndim(value, 4, "value")
+        _check_batch_match((query, key, value))
         _check_extent(query, -2, self.nlat_out_local, "query latitudes")
         _check_extent(query, -1, self.nlon_out_local, "query longitudes")
         _check_extent(key, -2, self.nlat_in_local, "key latitudes")
diff --git a/torch_harmonics/distributed/distributed_convolution.py b/torch_harmonics/distributed/distributed_convolution.py
index f37920b..37e13e3 100644
--- a/torch_harmonics/distributed/distributed_convolution.py
+++ b/torch_harmonics/distributed/distributed_convolution.py
@@ -377,6 +377,9 @@ class DistributedDiscreteContinuousConvS2(DiscreteContinuousConv):
         return result
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        if tuple(x.shape[1:]) != (self.groupsize * self.groups, self.nlat_in_local, self.nlon_in_local):
+            raise ValueError(f"Expected local input of shape (batch, {self.groupsize * self.groups}, {self.nlat_in_local}, {self.nlon_in_local}), got {tuple(x.shape)}")
+
         if self.fused:
             # reordered a2a: einsum-first on the local channel shard via the
             # fused conv op (K-expanded recomputed in backward, not saved).
@@ -601,6 +604,10 @@ class DistributedDiscreteContinuousConvTransposeS2(DiscreteContinuousConv):
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
 
+        shape_local = (self.groupsize * self.groups, self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth])
+        if tuple(x.shape[1:]) != shape_local:
+            raise ValueError(f"Expected local input of shape (batch, {shape_local[0]}, {shape_local[1]}, {shape_local[2]}), got {tuple(x.shape)}")
+
         # extract shape
         B, C, H, W = x.shape
         x = x.reshape(B, self.groups, self.groupsize, H, W)
diff --git a/torch_harmonics/distributed/distributed_quadrature.py b/torch_harmonics/distributed/distributed_quadrature.py
index 00cce93..f0c77e7 100644
--- a/torch_harmonics/distributed/distributed_quadrature.py
+++ b/torch_harmonics/distributed/distributed_quadrature.py
@@ -134,6 +134,9 @@ class DistributedQuadratureS2(torch.nn.Module):
         self.register_buffer("quad_weight", quad_weight, persistent=False)
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        if x.shape[-2:] != self.quad_weight.shape[-2:]:
+            raise ValueError(f"Expected local input of shape (..., {self.quad_weight.shape[-2]}, {self.quad_weight.shape[-1]}), got {tuple(x.shape)}")
+
         # integrate over last two axes only:
         quad = torch.sum(x * self.quad_weight[0, 0], dim=(-2, -1))
         if self.comm_size_polar > 1:
diff --git a/torch_harmonics/distributed/distributed_resample.py b/torch_harmonics/distributed/distributed_resample.py
index dac1dd3..0811f2b 100644
--- a/torch_harmonics/distributed/distributed_resample.py
+++ b/torch_harmonics/distributed/distributed_resample.py
@@ -218,6 +218,10 @@ class DistributedResampleS2(nn.Module):
 
     def forward(self, x: torch.Tensor):
 
+        in_shape_local = (self.lat_in_shapes[self.comm_rank_polar], self.lon_in_shapes[self.comm_rank_azimuth])
+        if tuple(x.shape[-2:]) != in_shape_local:
+            raise ValueError(f"Expected local input of shape (..., {in_shape_local[0]}, {in_shape_local[1]}), got {tuple(x.shape)}")
+
         if self.skip_resampling:
             return x
 
diff --git a/torch_harmonics/distributed/distributed_spectral_convolution.py b/torch_harmonics/distributed/distributed_spectral_convolution.py
index ea382ad..9bb0f5b 100644
--- a/torch_harmonics/distributed/distributed_spectral_convolution.py
+++ b/torch_harmonics/distributed/distributed_spectral_convolution.py
@@ -195,6 +195,9 @@ class DistributedSpectralConvS2(nn.Module):
         return resc
 
     def forward(self, x):
+        if x.dim() != 4 or x.shape[1] != self.in_channels:
+            raise ValueError(f"Expected 4-dimensional input with {self.in_channels} channels, got shape {tuple(x.shape)}")
+
         dtype = x.dtype
 
         with torch.amp.autocast(device_type=x.device.type, enabled=False):
-- 
2.43.0

