From f81c999671a1144ea017fd42b223a937ad7346e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:38 +0000
Subject: [PATCH 01/46] fix: log_ndtr returned -inf in the float64 lower tail
 and NaN gradients

---
 neuralcompression/functional/_log_ndtr.py | 36 ++---------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/neuralcompression/functional/_log_ndtr.py b/neuralcompression/functional/_log_ndtr.py
index 57a6d57..babda79 100644
--- a/neuralcompression/functional/_log_ndtr.py
+++ b/neuralcompression/functional/_log_ndtr.py
@@ -3,29 +3,9 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-import math
-
 import torch
 from torch import Tensor
 
-from ._ndtr import ndtr
-
-
-def _log_ndtr_asymptotic_series(x: Tensor, series_order: int = 3) -> Tensor:
-    t1 = -0.5 * (math.log(2 * math.pi) + x**2) - torch.log(-x)
-    t2 = torch.zeros_like(x)
-    value_even_power = (x**2).clone()
-    double_fac = 1
-    multiplier = -1
-
-    for n in range(1, series_order + 1):
-        t2.add_(multiplier * double_fac / value_even_power)
-        value_even_power.mul_(x**2)
-        double_fac *= 2 * n - 1
-        multiplier *= -1
-
-    return t1 + torch.log1p(t2)
-
 
 def log_ndtr(x: Tensor) -> Tensor:
     """Logarithm of the normal cumulative distribution function (CDF).
@@ -37,21 +17,9 @@ def log_ndtr(x: Tensor) -> Tensor:
         the log of the area under the standard Normal probability density
         function (PDF), integrated from minus infinity to :math:`x`.
     """
-    if x.dtype == torch.float32:
-        m, n = -10.0, 5.0
-    elif x.dtype == torch.float64:
-        m, n = -20.0, 8.0
-    else:
+    if x.dtype not in (torch.float32, torch.float64):
         raise TypeError(
             f"`{log_ndtr.__name__}` doesn’t support {x.dtype}",
         )
 
-    return torch.where(
-        x > n,
-        torch.log1p(-ndtr(-x)),
-        torch.where(
-            x >= m,
-            torch.log(ndtr(x)),
-            _log_ndtr_asymptotic_series(x),
-        ),
-    )
+    return torch.special.log_ndtr(x)
-- 
2.43.0


From 93836e4bd817eb06c4fb1c4e2e78a8b5d8c2e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:38 +0000
Subject: [PATCH 02/46] fix: log_cdf ignored the support of Uniform
 distributions

---
 neuralcompression/functional/_log_cdf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neuralcompression/functional/_log_cdf.py b/neuralcompression/functional/_log_cdf.py
index c1c80e5..cfc5b39 100644
--- a/neuralcompression/functional/_log_cdf.py
+++ b/neuralcompression/functional/_log_cdf.py
@@ -5,7 +5,7 @@
 
 import torch
 from torch import Tensor
-from torch.distributions import Distribution, Normal, Uniform
+from torch.distributions import Distribution, Normal
 
 from ._log_ndtr import log_ndtr
 
@@ -30,7 +30,4 @@ def log_cdf(
 
         return log_ndtr(standardized)
 
-    if isinstance(distribution, Uniform):
-        return torch.log(x)
-
     return torch.log(distribution.cdf(x))
-- 
2.43.0


From 8d8a9b2a324a13db185ba89e7dd05fe77c5d7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:39 +0000
Subject: [PATCH 03/46] fix: log_survival_function was wrong for every
 non-normal distribution

---
 neuralcompression/functional/_log_survival_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_log_survival_function.py b/neuralcompression/functional/_log_survival_function.py
index bdb76fe..9a037fb 100644
--- a/neuralcompression/functional/_log_survival_function.py
+++ b/neuralcompression/functional/_log_survival_function.py
@@ -30,4 +30,4 @@ def log_survival_function(
 
         return log_ndtr(-standardized)
 
-    return torch.log1p(distribution.cdf(-x))
+    return torch.log1p(-distribution.cdf(x))
-- 
2.43.0


From 58176142451641c038f24446b41c5da674320c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:39 +0000
Subject: [PATCH 04/46] fix: lower_bound "disconnected" gradient returned the
 input; float bounds raised

---
 neuralcompression/functional/_lower_bound.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/functional/_lower_bound.py b/neuralcompression/functional/_lower_bound.py
index be17e47..855240b 100644
--- a/neuralcompression/functional/_lower_bound.py
+++ b/neuralcompression/functional/_lower_bound.py
@@ -28,7 +28,7 @@ class _LowerBound(Function):
         x, bound, gradient = ctx.saved_tensors
 
         if int(gradient) == _LowerBoundGradient.disconnected:
-            return x, None, None
+            return (x > bound) * y, None, None
 
         if int(gradient) == _LowerBoundGradient.identity:
             return y, None, None
@@ -39,7 +39,7 @@ class _LowerBound(Function):
     def forward(ctx, *args):
         x, bound, gradient = args
 
-        bound = bound.to(x.dtype)
+        bound = torch.as_tensor(bound, dtype=x.dtype, device=x.device)
 
         ctx.save_for_backward(
             x,
-- 
2.43.0


From 2de5e922f8ae10fc389f94648c116672b4c1114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 05/46] fix: information_content "batch_el" raised on
 non-contiguous probabilities

---
 neuralcompression/functional/_information_content.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_information_content.py b/neuralcompression/functional/_information_content.py
index f9dfc65..1db0183 100644
--- a/neuralcompression/functional/_information_content.py
+++ b/neuralcompression/functional/_information_content.py
@@ -43,7 +43,8 @@ def information_content(
     if reduction == "sum":
         natural = torch.sum(torch.log(probabilities))
     elif reduction == "batch_el":
-        natural = torch.log(probabilities).view(probabilities.shape[0], -1).sum(dim=-1)
+        natural = torch.log(probabilities)
+        natural = natural.reshape(probabilities.shape[0], -1).sum(dim=-1)
     elif reduction == "none":
         natural = torch.log(probabilities)
 
-- 
2.43.0


From 56630f54a81f031f55a5b8e05bc4bda10ee4ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 06/46] fix: QBottleneck.reset_hits did not reset the codebook
 hits

---
 neuralcompression/layers/_q_bottleneck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_q_bottleneck.py b/neuralcompression/layers/_q_bottleneck.py
index 6b25ad3..734b51f 100644
--- a/neuralcompression/layers/_q_bottleneck.py
+++ b/neuralcompression/layers/_q_bottleneck.py
@@ -91,8 +91,8 @@ class QBottleneck(nn.Module):
         self.register_buffer("percentage_hits", torch.zeros(num_codebooks))
 
     def reset_hits(self):
-        for codebook_hits in self.named_buffers(prefix="codebook_hits"):
-            codebook_hits *= 0
+        for level in range(len(self.codebooks)):
+            getattr(self, f"codebook_hits_{level}").zero_()
 
     def update_metrics(self):
         assert len(self.percentage_hits) == len(self.max_hits) == len(self.perplexities)
-- 
2.43.0


From 23a5893763987b2e935055a91b7331525a8115d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 07/46] fix: UniformNoise shared one noise value across a batch
 and lost its noise on expand

---
 neuralcompression/distributions/_uniform_noise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 028a0b2..9958f28 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -82,7 +82,7 @@ class UniformNoise(Distribution):
         return self._distribution.enumerate_support(expand)
 
     def expand(self, batch_shape, _instance=None) -> Distribution:
-        return self._distribution.expand(batch_shape)
+        return UniformNoise(self._distribution.expand(batch_shape))
 
     def icdf(self, value: Tensor) -> Tensor:
         return self._distribution.icdf(value)
@@ -133,8 +133,11 @@ class UniformNoise(Distribution):
         )
 
     def rsample(self, sample_shape: Size = Size()):
-        a = self._distribution.sample(sample_shape)
-        b = self._uniform_distribution.sample(sample_shape)
+        if self._distribution.has_rsample:
+            a = self._distribution.rsample(sample_shape)
+        else:
+            a = self._distribution.sample(sample_shape)
+        b = self._uniform_distribution.sample(a.shape).to(a)
 
         return a + b
 
-- 
2.43.0


From 2d08e0a2a08c60763030ffa88c1bfb5b949c4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 08/46] fix: Kodak force_download failed when the directory
 existed

---
 neuralcompression/data/_kodak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_kodak.py b/neuralcompression/data/_kodak.py
index 5c7a403..f83157e 100644
--- a/neuralcompression/data/_kodak.py
+++ b/neuralcompression/data/_kodak.py
@@ -83,7 +83,7 @@ class Kodak(Dataset):
                 " with dataset download anyways pass force_download=True"
             )
 
-        self.root.mkdir()
+        self.root.mkdir(exist_ok=force)
 
         for im_num in tqdm(range(1, num_imgs + 1), desc="Downloading Kodak images"):
             img_name = "kodim{:02}.png".format(im_num)
-- 
2.43.0


From 37208bb862aa65061dab5746a3a14495a305a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 09/46] fix: KernelInceptionDistance ignored its subset and
 kernel parameters

---
 neuralcompression/metrics/_kid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neuralcompression/metrics/_kid.py b/neuralcompression/metrics/_kid.py
index 1ea8fce..ed8258c 100644
--- a/neuralcompression/metrics/_kid.py
+++ b/neuralcompression/metrics/_kid.py
@@ -87,6 +87,15 @@ class KernelInceptionDistance(Metric):
         output = kid_features_to_metric(
             torch.cat(self.real_features).to(torch.float64),
             torch.cat(self.fake_features).to(torch.float64),
+            kid_subsets=self.subsets,
+            kid_subset_size=self.subset_size,
+            # the kernel parameters were renamed in torch-fidelity 0.4
+            kid_degree=self.degree,
+            kid_gamma=self.gamma,
+            kid_coef0=self.coef,
+            kid_kernel_poly_degree=self.degree,
+            kid_kernel_poly_gamma=self.gamma,
+            kid_kernel_poly_coef0=self.coef,
         )
         return (
             torch.tensor(output["kernel_inception_distance_mean"]),
-- 
2.43.0


From 9d6e81d18a4ebda77f64489652ba22f68c26b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 10/46] fix: DVC.decompress used the wrong latent size for
 odd-sized feature maps

---
 neuralcompression/models/deep_video_compression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/models/deep_video_compression.py b/neuralcompression/models/deep_video_compression.py
index afb61e2..6f1d35b 100644
--- a/neuralcompression/models/deep_video_compression.py
+++ b/neuralcompression/models/deep_video_compression.py
@@ -225,8 +225,8 @@ class DVC(nn.Module):
                 transition information.
         """
         flow_latent_size = (
-            compressed_pframe.flow_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.flow_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.flow_decomp_sizes[-1][-1] + 1) // 2,
         )
         flow_latent = self.motion_entropy_bottleneck.decompress(
             compressed_pframe.compressed_flow, flow_latent_size
@@ -241,8 +241,8 @@ class DVC(nn.Module):
 
         # decode residual
         residual_latent_size = (
-            compressed_pframe.residual_decomp_sizes[-1][-2] // 2,
-            compressed_pframe.residual_decomp_sizes[-1][-1] // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-2] + 1) // 2,
+            (compressed_pframe.residual_decomp_sizes[-1][-1] + 1) // 2,
         )
         residual_latent = self.residual_entropy_bottleneck.decompress(
             compressed_pframe.compressed_residual, residual_latent_size
-- 
2.43.0


From 39a08ab21bd3f1a761d22b33c6d6021db1fba7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 11/46] fix: VCTEntropyModel silently accepted short contexts
 it does not support

---
 projects/torch_vct/neural/entropy_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/entropy_model.py b/projects/torch_vct/neural/entropy_model.py
index e33a5f9..f7e2f30 100644
--- a/projects/torch_vct/neural/entropy_model.py
+++ b/projects/torch_vct/neural/entropy_model.py
@@ -327,7 +327,7 @@ class VCTEntropyModel(nn.Module):
                     else [encoded_seqs[0]] * 2 + [encoded_seqs[1]]
                 )
             else:
-                ValueError(f"Unsupported context_len={self.context_len}")
+                raise ValueError(f"Unsupported context_len={self.context_len}")
         return encoded_seqs
 
     def forward(
-- 
2.43.0


From 61f8f4a44c86bb7c5e08d9865a8e422128a1d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:02 +0000
Subject: [PATCH 12/46] fix: bits-back codec state_dict dropped extra_bytes on
 reload

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index 55787a2..becd85a 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -654,7 +654,7 @@ class BitsBackCodec:
         return {
             "flat_message": self.flat_message,
             "data_count": self.data_count,
-            "extr_bytes": self.extra_bytes,
+            "extra_bytes": self.extra_bytes,
             "push_bytes": self.push_bytes,
             "pop_bytes": self.pop_bytes,
             "initial_bytes": self.initial_bytes,
-- 
2.43.0


From 523ba6212976eadd85da7d52bfe5da9b94c6fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 13/46] fix: ContinuousEntropy.quantize raised on every
 floating-point input

---
 neuralcompression/layers/_continuous_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index f292303..3e3cdbc 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -299,7 +299,7 @@ class ContinuousEntropy(Module):
 
         outputs = torch.round(outputs)
 
-        return IntTensor(outputs)
+        return outputs.to(torch.int32)
 
     def _update(self):
         quantization_offset = ncF.quantization_offset(self.prior)
-- 
2.43.0


From 8dc137cda2175809d6a25e0598c326866c171192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 14/46] fix: ContinuousEntropy built its tables along the wrong
 axis and dropped the offset

---
 neuralcompression/layers/_continuous_entropy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index 3e3cdbc..e86ebed 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -323,7 +323,6 @@ class ContinuousEntropy(Module):
         maximum = torch.clamp_min(maximum, 0)
 
         pmf_start = minimum.to(self.prior_dtype) + quantization_offset
-        pmf_start = pmf_start.to(torch.int32)
 
         pmf_sizes = maximum - minimum + 1
 
@@ -339,13 +338,17 @@ class ContinuousEntropy(Module):
         else:
             pmfs = torch.exp(self.prior.log_prob(samples))
 
+        # one row per element of the context
+        pmfs = torch.broadcast_to(pmfs, (pmfs.shape[0], *self.context_shape))
+        pmfs = pmfs.reshape(pmfs.shape[0], -1).T
+
         pmf_sizes = torch.broadcast_to(pmf_sizes, self.context_shape)
-        pmf_sizes = pmf_sizes.squeeze()
+        pmf_sizes = pmf_sizes.reshape(-1)
 
         cdf_sizes = pmf_sizes + 2
 
         cdf_offsets = torch.broadcast_to(minimum, self.context_shape)
-        cdf_offsets = cdf_offsets.squeeze()
+        cdf_offsets = cdf_offsets.reshape(-1)
 
         cdfs = torch.zeros(
             (len(pmf_sizes), int(maximum_pmf_size) + 2),
-- 
2.43.0


From 92e6d4b869cbc87b433c14fb56baedbb88d9c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 15/46] fix: memoize returned stale results once a cached
 tensor had been freed

---
 projects/torch_vct/utils/memoize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/torch_vct/utils/memoize.py b/projects/torch_vct/utils/memoize.py
index a2cf585..e92c285 100644
--- a/projects/torch_vct/utils/memoize.py
+++ b/projects/torch_vct/utils/memoize.py
@@ -137,11 +137,12 @@ def memoize(f):
         if key in result_cache:
             assert _expect_cache_hit in [True, None]
             hit_counter[key] += 1
-            result = result_cache[key]
+            result, _ = result_cache[key]
         else:
             assert _expect_cache_hit in [False, None]
             result = f(*args, **kwargs)
-            result_cache[key] = result
+            # tensors are keyed by identity, so keep them alive with the entry
+            result_cache[key] = (result, (args, kwargs))
         return result
 
     # for inspection/testing:
-- 
2.43.0


From 9afcd907df8841b7defacee3cc7699886130ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 16/46] fix: Vimeo90kSeptuplet image mode raised without a
 pil_transform

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index 403ff13..d99a849 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -109,8 +109,10 @@ class Vimeo90kSeptuplet(Dataset):
             return len(self.folder_list) * self.frames_per_group
 
     def load_image(self, septuplet: Path, frame_number: int) -> Tensor:
-        img_path = default_loader(str(septuplet / f"im{frame_number}.png"))
-        img = self.pil_transform(img_path)
+        img = default_loader(str(septuplet / f"im{frame_number}.png"))
+        if self.pil_transform is None:
+            return img
+        img = self.pil_transform(img)
         if not isinstance(img, Tensor):
             raise RuntimeError(
                 "Tensor not returned from pil_transform. "
-- 
2.43.0


From 590d6fe64a29f22d0c38d58bc46a6899233f8bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 17/46] fix: CLIC2020Video returned frames in directory order
 instead of frame order

---
 neuralcompression/data/_clic_2020_video.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index 23302e6..f20273c 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -98,9 +98,9 @@ class CLIC2020Video(IterableDataset):
         if self._current_video:
             video, index = self._current_video
         else:
-            video_frame_paths = [
-                *self._root.joinpath(self._video_paths[index]).glob("*_y.png")
-            ]
+            video_frame_paths = sorted(
+                self._root.joinpath(self._video_paths[index]).glob("*_y.png")
+            )
 
             video = FrameVideo.from_frame_paths(
                 video_frame_paths,
-- 
2.43.0


From 6e3c08778b86743cfbbe122699b328e318931ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 18/46] fix: calc_psnr_numpy wrapped around on integer images

---
 neuralcompression/metrics/_calc_psnr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/metrics/_calc_psnr.py b/neuralcompression/metrics/_calc_psnr.py
index d7ef5ec..a22e670 100644
--- a/neuralcompression/metrics/_calc_psnr.py
+++ b/neuralcompression/metrics/_calc_psnr.py
@@ -40,5 +40,7 @@ def calc_psnr_numpy(
     Returns:
         PSNR between image and reference.
     """
-    mse = np.mean((image - reference) ** 2)
+    # integer images would wrap around in the subtraction
+    dtype = np.result_type(image, reference, np.float32)
+    mse = np.mean(np.subtract(image, reference, dtype=dtype) ** 2)
     return 20.0 * math.log10(data_range) - 10.0 * np.log10(mse)
-- 
2.43.0


From 7a756c25381dec207e9922eacc6647ce39e1d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 19/46] fix: VCT build_indexes mapped values beyond the grid to
 its first entry

---
 projects/torch_vct/neural/bottlenecks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/torch_vct/neural/bottlenecks.py b/projects/torch_vct/neural/bottlenecks.py
index 27e5a2f..7a60ec9 100644
--- a/projects/torch_vct/neural/bottlenecks.py
+++ b/projects/torch_vct/neural/bottlenecks.py
@@ -274,6 +274,8 @@ class ContinuousIndexedGaussianConditional(EntropyModel):
 
     @staticmethod
     def _find_idx_of_first_smallest(inputs: Tensor, grid: Tensor) -> torch.IntTensor:
+        # values beyond the end of the grid use its last entry
+        inputs = torch.minimum(inputs, grid[-1])
         return torch.max(
             (inputs.unsqueeze(-1) <= grid.view([1] * inputs.dim() + [len(grid)])),
             dim=-1,
-- 
2.43.0


From 66ce8177b5caeb0a9e47a33c96757c2e77bdec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:21 +0000
Subject: [PATCH 20/46] fix: UniformNoise swapped its batch and event shapes

---
 neuralcompression/distributions/_uniform_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/distributions/_uniform_noise.py b/neuralcompression/distributions/_uniform_noise.py
index 9958f28..f337bf9 100644
--- a/neuralcompression/distributions/_uniform_noise.py
+++ b/neuralcompression/distributions/_uniform_noise.py
@@ -44,8 +44,8 @@ class UniformNoise(Distribution):
 
     def __init__(self, distribution: Distribution):
         super(UniformNoise, self).__init__(
-            distribution.event_shape,
             distribution.batch_shape,
+            distribution.event_shape,
         )
 
         self._distribution = distribution
-- 
2.43.0


From ee1db3b6fb8a7df83d1caa5027daad1f3830dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:38 +0000
Subject: [PATCH 21/46] fix: ConvGDNSynthesis reports its own number of
 compression channels

---
 projects/torch_vct/neural/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/neural/transforms.py b/projects/torch_vct/neural/transforms.py
index a9c409a..b62b2b7 100644
--- a/projects/torch_vct/neural/transforms.py
+++ b/projects/torch_vct/neural/transforms.py
@@ -73,7 +73,7 @@ class ConvGDNSynthesis(nn.Module):
         """
 
         super().__init__()
-        self._compression_channels = 192
+        self._compression_channels = compression_channels
 
         self.transforms = nn.Sequential(
             make_deconv(
-- 
2.43.0


From dffbe9f1b05a546101e6cbe90b0064804d4a0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:38 +0000
Subject: [PATCH 22/46] fix: VCTPipeline passes its context length to the
 entropy model

---
 projects/torch_vct/model_pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index a280ef9..2a9fdc8 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -181,7 +181,9 @@ class VCTPipeline(nn.Module):
         ), "Mismatched compression_channels"
 
         # Entropy model
-        self.entropy_model = VCTEntropyModel(num_channels=compression_channels)
+        self.entropy_model = VCTEntropyModel(
+            num_channels=compression_channels, context_len=context_len
+        )
         self._temporal_pad_token_maker = PerChannelWeight(
             num_channels=compression_channels
         )
-- 
2.43.0


From a6604457c14ba850ba7e0cf2488c88a7c048cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:38 +0000
Subject: [PATCH 23/46] fix: VCTPipeline forward pass works after
 compress_video

---
 projects/torch_vct/model_pipeline.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/projects/torch_vct/model_pipeline.py b/projects/torch_vct/model_pipeline.py
index 2a9fdc8..c6aa178 100644
--- a/projects/torch_vct/model_pipeline.py
+++ b/projects/torch_vct/model_pipeline.py
@@ -465,7 +465,6 @@ class VCTPipeline(nn.Module):
     def _prepare_for_compression(self):
         self.eval()
         self.entropy_model.update(force=False)
-        self._code_to_strings = True
         assert self.training is False
 
     def compress_video(
@@ -489,14 +488,19 @@ class VCTPipeline(nn.Module):
         network_outs = self.encode_and_decode_scenes(x, cache=None)  # no cache in eval
         rec_scenes = []
         bits = []
-        for i, res in enumerate(network_outs):
-            rec_scenes.append(res.reconstruction)  # [1, C, H, W]
-            if i == 0:
-                assert res.likelihood.dim() == 3
-                bits.append(self.compute_rate(res.likelihood).item())
-            else:
-                assert res.likelihood.dim() == 1
-                bits.append(res.likelihood.item())
+        try:
+            self._code_to_strings = True
+            for i, res in enumerate(network_outs):
+                rec_scenes.append(res.reconstruction)  # [1, C, H, W]
+                if i == 0:
+                    assert res.likelihood.dim() == 3
+                    bits.append(self.compute_rate(res.likelihood).item())
+                else:
+                    assert res.likelihood.dim() == 1
+                    bits.append(res.likelihood.item())
+        finally:
+            # back to likelihoods, or a later forward pass would code to strings
+            self._code_to_strings = None
 
         # Stack recosntructions to get [B, T, C, H, W]; sum to get total bits
         return torch.stack(rec_scenes, dim=1), bits
-- 
2.43.0


From d835bec64804e16e406dacc7dc1a0ce36292f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:29 +0000
Subject: [PATCH 24/46] fix: estimate_tails never returned when an estimate met
 the target exactly

The gradient of |func(x) - target| is zero there, so an estimate that starts
at or lands on the target was never counted as having reached it.
---
 neuralcompression/functional/_estimate_tails.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/functional/_estimate_tails.py b/neuralcompression/functional/_estimate_tails.py
index a727294..54edd87 100644
--- a/neuralcompression/functional/_estimate_tails.py
+++ b/neuralcompression/functional/_estimate_tails.py
@@ -57,7 +57,8 @@ def estimate_tails(
     variance = torch.ones(shape, dtype=dtype)
 
     while torch.min(counts) < 100:
-        abs(func(tails) - target).backward(torch.ones_like(tails))
+        error = abs(func(tails) - target)
+        error.backward(torch.ones_like(tails))
 
         assert tails.grad is not None
         gradient = tails.grad.cpu()
@@ -70,6 +71,8 @@ def estimate_tails(
             tails -= (1e-2 * mean / (torch.sqrt(variance) + eps)).to(device)
 
         condition = torch.logical_or(counts > 0, gradient.cpu() * tails.cpu() > 0)
+        # an estimate that meets the target exactly has no gradient to follow
+        condition = torch.logical_or(condition, error.detach().cpu() == 0)
 
         counts = torch.where(condition, counts + 1, counts)
 
-- 
2.43.0


From fb8697fe2946227be17c53ef609ac84047b65d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:23 +0000
Subject: [PATCH 25/46] fix: quantization_offset raised or returned NaN for
 distributions without a mean

It documents an offset of zero there, but Distribution.mean raises
NotImplementedError (not AttributeError) when it is not implemented, and
heavy-tailed distributions report a NaN or infinite mean.
---
 neuralcompression/functional/_quantization_offset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/functional/_quantization_offset.py b/neuralcompression/functional/_quantization_offset.py
index a584690..81b9e55 100644
--- a/neuralcompression/functional/_quantization_offset.py
+++ b/neuralcompression/functional/_quantization_offset.py
@@ -37,8 +37,9 @@ def quantization_offset(distribution: Distribution) -> Tensor:
     """
     try:
         offset = distribution.mean
-    except AttributeError:
+    except (AttributeError, NotImplementedError):
         offset = torch.tensor(0)
 
     with torch.no_grad():
-        return offset - torch.round(offset)
+        # undefined (NaN or infinite) means also give an offset of zero
+        return torch.nan_to_num(offset - torch.round(offset))
-- 
2.43.0


From cdfbfa8dc65bee37681f05b73bfd4b574abeeefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:25 +0000
Subject: [PATCH 26/46] fix: ContinuousEntropy.prior was lost unless the layer
 was compressible

The attribute was only set while building tables, so reading prior raised
AttributeError instead of returning it or raising the documented RuntimeError.
---
 neuralcompression/layers/_continuous_entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/layers/_continuous_entropy.py b/neuralcompression/layers/_continuous_entropy.py
index e86ebed..dd559c4 100644
--- a/neuralcompression/layers/_continuous_entropy.py
+++ b/neuralcompression/layers/_continuous_entropy.py
@@ -97,6 +97,8 @@ class ContinuousEntropy(Module):
 
         self._range_coder_precision = range_coder_precision
 
+        self._prior = prior
+
         if prior is None:
             if prior_shape is None or prior_dtype is None:
                 error_message = r"""either `prior` or both `prior_dtype` and
@@ -128,8 +130,6 @@ class ContinuousEntropy(Module):
                 raise ValueError(error_message)
 
             if prior is not None:
-                self._prior = prior
-
                 cdfs, cdf_sizes, cdf_offsets = self._update()
             elif maximum_cdf_size is not None:
                 if self.stateless:
-- 
2.43.0


From 2cd1ba2d46690030fa392c9c0e51698507d1478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:25 +0000
Subject: [PATCH 27/46] fix: FID compute raised after its features were
 synchronised across workers

torchmetrics turns a list state with dist_reduce_fx="cat" into one tensor
when it synchronises, which torch.cat does not accept.
---
 neuralcompression/metrics/_fid.py      | 5 +++--
 neuralcompression/metrics/_fid_swav.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuralcompression/metrics/_fid.py b/neuralcompression/metrics/_fid.py
index 4fb0ed1..82ff406 100644
--- a/neuralcompression/metrics/_fid.py
+++ b/neuralcompression/metrics/_fid.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
 )
 from torchmetrics.image.fid import NoTrainInceptionV3
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 
 
 def _compute_fid_from_features(
@@ -90,6 +91,6 @@ class FrechetInceptionDistance(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
diff --git a/neuralcompression/metrics/_fid_swav.py b/neuralcompression/metrics/_fid_swav.py
index 807349b..8dfe88f 100644
--- a/neuralcompression/metrics/_fid_swav.py
+++ b/neuralcompression/metrics/_fid_swav.py
@@ -14,6 +14,7 @@ from torch_fidelity.metric_fid import (
     fid_statistics_to_metric,
 )
 from torchmetrics.metric import Metric
+from torchmetrics.utilities.data import dim_zero_cat
 from torchvision.transforms import Normalize
 
 
@@ -107,6 +108,6 @@ class FrechetInceptionDistanceSwAV(Metric):
 
     def compute(self) -> Tensor:
         return _compute_fid_from_features(
-            torch.cat(self.real_features).to(torch.float64),
-            torch.cat(self.fake_features).to(torch.float64),
+            dim_zero_cat(self.real_features).to(torch.float64),
+            dim_zero_cat(self.fake_features).to(torch.float64),
         )
-- 
2.43.0


From 4ae09c8b2829b168d0e2235688046f84bdea0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:23 +0000
Subject: [PATCH 28/46] fix: UnetDiscriminator failed or ignored
 output_downsampling_factor at the extremes

A factor of 2 never clipped the top level and raised on the first forward
pass; the factor that removes all upsampling built a final convolution with
the wrong number of inputs; larger factors silently returned full resolution.
---
 neuralcompression/models/_unet_discriminator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/neuralcompression/models/_unet_discriminator.py b/neuralcompression/models/_unet_discriminator.py
index 6b07511..413de5c 100644
--- a/neuralcompression/models/_unet_discriminator.py
+++ b/neuralcompression/models/_unet_discriminator.py
@@ -213,17 +213,17 @@ class UnetDiscriminator(Discriminator):
         model: nn.Module = nn.Identity()
         lastchan = self.channels[-1]
         num_upsamples = len(self.channels) - 1 - num_downsamples
-        clip_upsample = False
+        if num_upsamples < 0:
+            raise ValueError(
+                "output_downsampling_factor exceeds the downsampling of the U-Net"
+            )
         for count, chan in enumerate(reversed(self.channels[1:-1])):
-            if count == num_upsamples:
-                clip_upsample = True
-
             model = _UnetLevel(
                 in_planes=chan,
                 out_planes=(64 if count == num_upsamples - 1 else None),
                 down_planes=lastchan,
                 child=model,
-                clip_upsample=clip_upsample,
+                clip_upsample=count >= num_upsamples,
                 norm_type=norm_type,
             )
             lastchan = chan
@@ -234,11 +234,14 @@ class UnetDiscriminator(Discriminator):
             out_planes=64,
             child=model,
             top=True,
-            clip_upsample=clip_upsample,
+            clip_upsample=num_downsamples > 0,
             norm_type=norm_type,
         )
+        model_out = 64 if num_upsamples > 0 else self.channels[-1]
 
-        self.model = nn.Sequential(model, nn.Conv2d(64, output_channels, 1, 1, 0))
+        self.model = nn.Sequential(
+            model, nn.Conv2d(model_out, output_channels, 1, 1, 0)
+        )
 
     @property
     def is_conditional(self) -> bool:
-- 
2.43.0


From c32c4f71bdf31fdc08db5ce39e44c43415b0188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:12 +0000
Subject: [PATCH 29/46] fix: LinearRampCosineLR did not ramp linearly when the
 ramp is long

The minimum of the ramp and the backwards-extended cosine made the rate fall
and rise again during warm-up once ramp_len exceeded about half of T_max.
---
 projects/torch_vct/utils/schedulers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/torch_vct/utils/schedulers.py b/projects/torch_vct/utils/schedulers.py
index 4cc6689..2ce7e41 100644
--- a/projects/torch_vct/utils/schedulers.py
+++ b/projects/torch_vct/utils/schedulers.py
@@ -57,7 +57,7 @@ class LinearRampCosineLR(torch.optim.lr_scheduler._LRScheduler):
             base_lr * (1 + self.last_epoch) / self.ramp_len  # type: ignore
             for base_lr in self.base_lrs  # type: ignore
         ]
-        return [min(x, y) for x, y in zip(cosine_lr, linear_lr)]
+        return linear_lr if self.last_epoch < self.ramp_len else cosine_lr  # type: ignore
 
 
 class LinearRampLinearLR(torch.optim.lr_scheduler._LRScheduler):
-- 
2.43.0


From 7c24aed3b1bcc5ada13e99787cca43af44105445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:51 +0000
Subject: [PATCH 30/46] fix: CLIC2020Image raised when the validation split was
 downloaded again

---
 neuralcompression/data/_clic_2020_image.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_clic_2020_image.py b/neuralcompression/data/_clic_2020_image.py
index b89fe8e..db72bd8 100644
--- a/neuralcompression/data/_clic_2020_image.py
+++ b/neuralcompression/data/_clic_2020_image.py
@@ -118,7 +118,13 @@ class CLIC2020Image(Dataset):
         )
 
         if self.split == "val":
-            os.rename(self.root.joinpath("valid"), self.root.joinpath(self.split))
+            # the split may already be there from an earlier download
+            shutil.copytree(
+                self.root.joinpath("valid"),
+                self.root.joinpath(self.split),
+                dirs_exist_ok=True,
+            )
+            shutil.rmtree(self.root.joinpath("valid"))
 
         if self.split in {"train", "val"}:
             shutil.rmtree(self.root.joinpath("__MACOSX"))
-- 
2.43.0


From 38fde3c9daaea4aff9555dcb9352cf708c6aafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:51 +0000
Subject: [PATCH 31/46] fix: OpenImagesV6 turned blank lines of the image list
 into items

---
 neuralcompression/data/_openimages_v6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuralcompression/data/_openimages_v6.py b/neuralcompression/data/_openimages_v6.py
index 6bfd7e5..062af3d 100644
--- a/neuralcompression/data/_openimages_v6.py
+++ b/neuralcompression/data/_openimages_v6.py
@@ -119,7 +119,7 @@ _INVALID_IMAGE_NAMES = {
 
 def _load_indices(indices_path: Path, split: str) -> List[str]:
     with open(indices_path, "r") as f:
-        indices = sorted(f.readlines())
+        indices = sorted(line for line in f if line.strip())
 
     image_names = [os.path.splitext(el.rstrip())[0] for el in indices]
     if split == "train":
-- 
2.43.0


From 7d6cf92c7a65cc257b11cc17de855b3ef655cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:51 +0000
Subject: [PATCH 32/46] fix: Vimeo90kSeptuplet turned blank lines of the split
 list into items

---
 neuralcompression/data/_vimeo_90k_septuplet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuralcompression/data/_vimeo_90k_septuplet.py b/neuralcompression/data/_vimeo_90k_septuplet.py
index d99a849..1e6de50 100644
--- a/neuralcompression/data/_vimeo_90k_septuplet.py
+++ b/neuralcompression/data/_vimeo_90k_septuplet.py
@@ -99,7 +99,9 @@ class Vimeo90kSeptuplet(Dataset):
 
             with open(self.root / f"sep_{split}list.txt", "r") as file:
                 self.folder_list = [
-                    "sequences/" + fname.strip() for fname in file.readlines()
+                    "sequences/" + fname.strip()
+                    for fname in file.readlines()
+                    if fname.strip()
                 ]
 
     def __len__(self) -> int:
-- 
2.43.0


From 407e45e5e2b88c8a48b628b4518144df67d8ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:24 +0000
Subject: [PATCH 33/46] fix: CLIC2020Video could be iterated once, skipped
 videos and repeated them per worker

---
 neuralcompression/data/_clic_2020_video.py | 28 ++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/neuralcompression/data/_clic_2020_video.py b/neuralcompression/data/_clic_2020_video.py
index f20273c..445b5b1 100644
--- a/neuralcompression/data/_clic_2020_video.py
+++ b/neuralcompression/data/_clic_2020_video.py
@@ -90,7 +90,8 @@ class CLIC2020Video(IterableDataset):
 
         self._video_sampler = video_sampler(self._video_paths)
 
-        self._video_sampler_iterator = iter(MultiProcessSampler(self._video_sampler))
+        # created on iteration, after DataLoader workers have been spawned
+        self._video_sampler_iterator = None
 
         self._next_clip_start_sec = 0.0
 
@@ -145,10 +146,33 @@ class CLIC2020Video(IterableDataset):
         return sample
 
     def __iter__(self):
+        worker_info = torch.utils.data.get_worker_info()
+
+        if (
+            worker_info is not None
+            and isinstance(self._video_sampler, RandomSampler)
+            and self._video_sampler.generator is None
+        ):
+            # workers split one permutation, so all of them must draw the same
+            self._video_sampler.generator = torch.Generator()
+            self._video_sampler.generator.manual_seed(worker_info.seed - worker_info.id)
+
+        self._video_sampler_iterator = None
+
+        self._current_video = None
+
+        self._next_clip_start_sec = 0.0
+
+        self._clip_sampler.reset()
+
         return self
 
     def __next__(self) -> Dict:
-        if not self._video_sampler_iterator:
+        if self._current_video:
+            # the clip sampler has not finished this video
+            return self[self._current_video[1]]
+
+        if self._video_sampler_iterator is None:
             self._video_sampler_iterator = iter(
                 MultiProcessSampler(
                     self._video_sampler,
-- 
2.43.0


From 2d3bbf34c8c3a0f3658fcb8caf2943fb3f47bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:24 +0000
Subject: [PATCH 34/46] fix: GANCompressionModule passed a context to
 unconditional discriminators

---
 projects/illm/gan_compression_module.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/illm/gan_compression_module.py b/projects/illm/gan_compression_module.py
index bfd406c..f5e6bb7 100644
--- a/projects/illm/gan_compression_module.py
+++ b/projects/illm/gan_compression_module.py
@@ -166,8 +166,12 @@ class GANCompressionModule(TargetRateCompressionModule):
         else:
             disc_output = output
 
-        fake_logits = self.discriminator(output.image.detach(), output.latent.detach())
-        real_logits = self.discriminator(disc_images, disc_output.latent.detach())
+        fake_logits = self.run_discriminator(
+            output.image.detach(), output.latent.detach()
+        )
+        real_logits = self.run_discriminator(
+            disc_images, disc_output.latent.detach()
+        )
 
         disc_loss = self.discriminator_loss(
             real_logits=real_logits, fake_logits=fake_logits, target=real_target
@@ -233,7 +237,7 @@ class GANCompressionModule(TargetRateCompressionModule):
 
         # generator loss
         g_loss = self.generator_loss(
-            self.discriminator(output.image, output.latent), target
+            self.run_discriminator(output.image, output.latent), target
         )
 
         # rate loss
-- 
2.43.0


From c2404bcb4415a3eed9b8074269fdefd35c0ee998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 35/46] fix: OpenImagesDataModule.train_dataloader raised with
 the default of no workers

---
 projects/illm/open_images_datamodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/illm/open_images_datamodule.py b/projects/illm/open_images_datamodule.py
index 27573d6..98a01e7 100644
--- a/projects/illm/open_images_datamodule.py
+++ b/projects/illm/open_images_datamodule.py
@@ -73,7 +73,7 @@ class OpenImagesDataModule(LightningDataModule):
             shuffle=True,
             num_workers=self.workers,
             pin_memory=self.pin_memory,
-            prefetch_factor=2,
+            prefetch_factor=2 if self.workers > 0 else None,
         )
 
     def val_dataloader(self):
-- 
2.43.0


From f93d4ef8364ad818db662eba4ed48cf945a00db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 36/46] fix: DvcModule.compress_iframe overwrote the first
 frame of the caller's batch

---
 projects/deep_video_compression/dvc_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index b849609..c66d8bf 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -141,6 +141,7 @@ class DvcModule(LightningModule):
         with torch.no_grad():
             output = self.iframe_model(batch[:, 0])
 
+        batch = batch.clone()  # the caller keeps the original frames
         batch[:, 0] = output["x_hat"]
         num_pixels = batch.shape[0] * batch.shape[-2] * batch.shape[-1]
         bpp_loss = sum(
-- 
2.43.0


From cf306efbbe15add019bdc178379b1e7d0c48b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:11 +0000
Subject: [PATCH 37/46] fix: DvcModule.validation_step left the I-frame out of
 the reported bits per pixel

---
 projects/deep_video_compression/dvc_module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/deep_video_compression/dvc_module.py b/projects/deep_video_compression/dvc_module.py
index c66d8bf..14e3ff6 100644
--- a/projects/deep_video_compression/dvc_module.py
+++ b/projects/deep_video_compression/dvc_module.py
@@ -278,18 +278,19 @@ class DvcModule(LightningModule):
 
     def validation_step(self, batch, batch_idx):
         log_key = f"{self.training_stage}/val_"
+        batch, iframe_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
+
         # gop = "Group of Pictures"
         logging_metrics = LoggingMetrics(
             gop_total_loss=0,
             gop_distortion_loss=0,
-            gop_bpp=0,
+            gop_bpp=iframe_bpp,
             gop_flow_bpp=0,
             gop_residual_bpp=0,
         )
         image2_list = []
         image2_est_list = []
 
-        batch, gop_bpp = self.compress_iframe(batch)  # bpp_total w/o grads
         image1 = batch[:, 0]
         for i in range(self.num_pframes):
             image2 = batch[:, i + 1]
-- 
2.43.0


From ce51b99160c9da7718f81911d696c109247ddaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 38/46] fix: VCTModule reported PSNRs of 8-bit frames computed
 modulo 256

---
 projects/torch_vct/model_lightning.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/projects/torch_vct/model_lightning.py b/projects/torch_vct/model_lightning.py
index 4e34f19..ed2fa40 100644
--- a/projects/torch_vct/model_lightning.py
+++ b/projects/torch_vct/model_lightning.py
@@ -17,6 +17,16 @@ from torchmetrics.functional import peak_signal_noise_ratio
 from utils.hydra_tools import OmegaConf  # ! Needed for resolvets to take effect
 
 
+def _to_8bit(frames: Tensor) -> Tensor:
+    """
+    Round frames in [0, 1] to the 256 levels of 8-bit images.
+
+    The levels are returned as floats, integers would be subtracted and squared
+    modulo 256 by ``peak_signal_noise_ratio``.
+    """
+    return torch.floor(torch.clamp(frames, 0.0, 1.0) * 255 + 0.5)
+
+
 class VCTModule(pytorch_lightning.LightningModule):
     """Encapsulates model + loss + optimizer + metrics in a PL module"""
 
@@ -65,8 +75,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                 recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
             ).item()
             psnr_int = peak_signal_noise_ratio(
-                (recon_frames * 255 + 0.5).to(torch.uint8),
-                (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                _to_8bit(recon_frames),
+                _to_8bit(batch.video_tensor),
                 data_range=255,
                 dim=(2, 3, 4),
             ).item()
@@ -107,8 +117,8 @@ class VCTModule(pytorch_lightning.LightningModule):
                     recon_frames, batch.video_tensor, data_range=1.0, dim=(2, 3, 4)
                 ).item(),
                 "val_PSNR_int": peak_signal_noise_ratio(
-                    (recon_frames * 255 + 0.5).to(torch.uint8),
-                    (batch.video_tensor * 255 + 0.5).to(torch.uint8),
+                    _to_8bit(recon_frames),
+                    _to_8bit(batch.video_tensor),
                     data_range=255,
                     dim=(2, 3, 4),
                 ).item(),
@@ -127,7 +137,7 @@ class VCTModule(pytorch_lightning.LightningModule):
         assert self.training is False
 
         with torch.no_grad():
-            video_ref_uint8 = (batch.video_tensor[0] * 255 + 0.5).to(torch.uint8)
+            video_ref_uint8 = _to_8bit(batch.video_tensor[0])
             if run_fwd:
                 self.model._code_to_strings = False
                 forward_pass = self.model(batch)
@@ -136,7 +146,7 @@ class VCTModule(pytorch_lightning.LightningModule):
                 # take the single batch and clamp it:
                 recon_clamped = torch.clamp(recon[0], 0.0, 1.0)
                 # caveat: real compression people use YCbCr
-                recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+                recon_uint8 = _to_8bit(recon_clamped)
                 cts_psnr = peak_signal_noise_ratio(
                     recon_uint8, video_ref_uint8, data_range=255
                 ).item()
@@ -166,7 +176,7 @@ class VCTModule(pytorch_lightning.LightningModule):
 
             # PSNR
             # caveat: real compression people use YCbCr
-            recon_uint8 = (recon_clamped * 255 + 0.5).to(torch.uint8)
+            recon_uint8 = _to_8bit(recon_clamped)
             psnr = peak_signal_noise_ratio(
                 recon_uint8, video_ref_uint8, data_range=255
             ).item()
-- 
2.43.0


From 485b7b38742bca3e312c9a0fabd6840c525e0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 39/46] fix: UVGDataModule raised with normalize=True

---
 projects/torch_vct/datamodules/uvg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/torch_vct/datamodules/uvg.py b/projects/torch_vct/datamodules/uvg.py
index eacd297..34ca0a4 100644
--- a/projects/torch_vct/datamodules/uvg.py
+++ b/projects/torch_vct/datamodules/uvg.py
@@ -10,8 +10,7 @@ import torch.utils.data
 import torchvision
 from datamodules.video_data_api import VideoDataset
 from pytorch_lightning import LightningDataModule
-from pytorchvideo.transforms import Normalize
-from torchvision.transforms import Compose, ToTensor
+from torchvision.transforms import Compose, Normalize, ToTensor
 
 
 class UVGDataModule(LightningDataModule):
-- 
2.43.0


From 948c52df09ee325081d2fe2686aaa2a49915fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:50 +0000
Subject: [PATCH 40/46] fix: torch_vct training without a process group raised
 before the final test

---
 projects/torch_vct/model_train.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/torch_vct/model_train.py b/projects/torch_vct/model_train.py
index 794bc6c..8756252 100644
--- a/projects/torch_vct/model_train.py
+++ b/projects/torch_vct/model_train.py
@@ -156,7 +156,8 @@ def main(cfg: DictConfig) -> None:
     )
     if getattr(cfg, "test_datamodule", None) is not None:
         # https://github.com/Lightning-AI/lightning/issues/8375#issuecomment-878739663
-        torch.distributed.destroy_process_group()
+        if torch.distributed.is_initialized():
+            torch.distributed.destroy_process_group()
         print(trainer.global_rank)
         trainer = Trainer(**cfg.tester)
         test_datamodule: LightningDataModule = hydra.utils.instantiate(
-- 
2.43.0


From 8edf94f8996a2f1cf8fc8e1039a0c091b7232175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:01 +0000
Subject: [PATCH 41/46] fix: BitsBackCodec shared its counters with the state
 dict

---
 .../bits_back_diffusion/codec.py                   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index becd85a..cbc2976 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -5,6 +5,7 @@ This source code is licensed under the MIT license found in the
 LICENSE file in the root directory of this source tree.
 """
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import List, NamedTuple, Optional, Tuple, Union, overload
 
 import craystack as cs
@@ -653,11 +654,11 @@ class BitsBackCodec:
         """
         return {
             "flat_message": self.flat_message,
-            "data_count": self.data_count,
-            "extra_bytes": self.extra_bytes,
-            "push_bytes": self.push_bytes,
-            "pop_bytes": self.pop_bytes,
-            "initial_bytes": self.initial_bytes,
+            "data_count": copy(self.data_count),
+            "extra_bytes": copy(self.extra_bytes),
+            "push_bytes": copy(self.push_bytes),
+            "pop_bytes": copy(self.pop_bytes),
+            "initial_bytes": copy(self.initial_bytes),
         }
 
     def load_state_dict(self, state_dict: dict):
@@ -673,7 +674,8 @@ class BitsBackCodec:
             if key == "flat_message":
                 self.message = cs.unflatten(state_dict[key], self.data_shape)
             else:
-                setattr(self, key, state_dict[key])
+                # copy, since the counters are updated in-place
+                setattr(self, key, copy(state_dict[key]))
 
 
 def diag_gaussian_unif_bins(
-- 
2.43.0


From 944a2593b6e8dd6cbc015367e4791457cc3645b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:01 +0000
Subject: [PATCH 42/46] fix: bins of diag_gaussian_unif_bins were off unless
 the data range is 2

---
 projects/bits_back_diffusion/bits_back_diffusion/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/codec.py b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
index cbc2976..4f3c365 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/codec.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/codec.py
@@ -705,8 +705,10 @@ def diag_gaussian_unif_bins(
         discretized using uniform bins.
     """
     n_bins = 1 << bin_prec
-    bin_min = data_min - 1 / (n_bins - 1)
-    bin_max = data_max + 1 / (n_bins - 1)
+    # half the distance of the quantized values, which lie in the center of the bins
+    half_bin = (data_max - data_min) / (2 * (n_bins - 1))
+    bin_min = data_min - half_bin
+    bin_max = data_max + half_bin
 
     bins = np.linspace(bin_min, bin_max, n_bins + 1)
     bins = np.broadcast_to(np.moveaxis(bins, 0, -1), mean.shape + (n_bins + 1,))
-- 
2.43.0


From 015e4e86c06bc8da3b3d541100150465da5913b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:43 +0000
Subject: [PATCH 43/46] fix: jax arithmetic coder dropped the last byte of a
 message one byte too long for its buffer

---
 projects/jax_entropy_coders/jax_arithmetic_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/jax_arithmetic_coder.py b/projects/jax_entropy_coders/jax_arithmetic_coder.py
index 3c712e4..a760d4e 100644
--- a/projects/jax_entropy_coders/jax_arithmetic_coder.py
+++ b/projects/jax_entropy_coders/jax_arithmetic_coder.py
@@ -579,7 +579,7 @@ def encode(
 
     bits, num_bytes = map_fun(messages, init_cdf_states)
 
-    if any([i > len(b) for b, i in zip(bits, num_bytes)]):
+    if any([i >= len(b) for b, i in zip(bits, num_bytes)]):
         raise RuntimeError("Message buffer overrun - try increasing buffer_oversize.")
 
     bits = [bytes(b[: i + 1]) for b, i in zip(bits, num_bytes)]
-- 
2.43.0


From 9fcf29c90de707b555a38d239717cfa0e1aaa376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:38 +0000
Subject: [PATCH 44/46] fix: craystack fixed-array codec encodes symbol 255 of
 uint8 messages

---
 projects/jax_entropy_coders/craystack/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/jax_entropy_coders/craystack/codecs.py b/projects/jax_entropy_coders/craystack/codecs.py
index 118903c..4d5a442 100644
--- a/projects/jax_entropy_coders/craystack/codecs.py
+++ b/projects/jax_entropy_coders/craystack/codecs.py
@@ -87,7 +87,7 @@ def fixed_array_cdf_codec(
 
     def cdf_fun(symbols, cdf_state):
         cdf = cdf_state[0]
-        return _lookup(cdf, symbols), _lookup(cdf, symbols + 1), cdf_state
+        return _lookup(cdf, symbols), _lookup(cdf[..., 1:], symbols), cdf_state
 
     def inverse_cdf_fun(cdf_value, cdf_state):
         cdf = cdf_state[0]
-- 
2.43.0


From 4eaacd2a3e6d1bff01a55d4372262fe0f7afb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 45/46] fix: bits-back checkpoints past six digits are parsed
 whole

---
 .../bits_back_diffusion/bits_back_diffusion/script_util.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/bits_back_diffusion/bits_back_diffusion/script_util.py b/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
index 4646e83..d1f3a6c 100644
--- a/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
+++ b/projects/bits_back_diffusion/bits_back_diffusion/script_util.py
@@ -9,6 +9,7 @@ https://github.com/openai/improved-diffusion.
 """
 import copy
 import hashlib
+import re
 from pathlib import Path
 from typing import List, Set, Union
 
@@ -119,7 +120,10 @@ def parse_resume_step_from_filename(filename: Union[str, Path]) -> int:
     path = Path(filename)
     assert path.suffix in [".pt", ".npz"]
     assert any(s in path.name for s in ["ema", "model", "encode", "decode"])
-    return int(path.stem[-6:])
+    # steps of more than six digits are not truncated in the filename
+    match = re.search(r"-?\d+$", path.stem)
+    assert match is not None
+    return int(match.group())
 
 
 def update_checkpoint(
-- 
2.43.0


From 0530817228023bcbf2448cf67bb61ee64dcdfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:45 +0000
Subject: [PATCH 46/46] fix: an interrupted CIFAR-10 preparation passed for a
 complete split

---
 projects/bits_back_diffusion/datasets/cifar10.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/bits_back_diffusion/datasets/cifar10.py b/projects/bits_back_diffusion/datasets/cifar10.py
index f3c65bd..5361d5d 100644
--- a/projects/bits_back_diffusion/datasets/cifar10.py
+++ b/projects/bits_back_diffusion/datasets/cifar10.py
@@ -54,7 +54,9 @@ def main():
 
     for split in ["train", "valid"]:
         split_dir = out_dir / f"{split}_32x32"
-        if split_dir.is_dir() and not args.overwrite:
+        # a split with fewer images is left from an interrupted run
+        complete = len(list(split_dir.glob("*.png"))) == SIZE[split]
+        if complete and not args.overwrite:
             logger.info("skipping split %s since %s already exists.", split, split_dir)
             continue
 
@@ -70,7 +72,9 @@ def main():
         for i in tqdm(range(len(dataset))):
             image, label = dataset[i]
             filename = split_dir / f"{CLASSES[label]}_{i:05d}.png"
-            image.save(filename)
+            part = filename.with_suffix(".part")
+            image.save(part, format="PNG")
+            part.replace(filename)
 
 
 if __name__ == "__main__":
-- 
2.43.0

