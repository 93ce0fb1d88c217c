From 0cbc3edfa7ff5c6b313f1344454be60e0fb60473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 01/25] fix: T_ISS projection back on a background microphone
 with batched input

The right-hand side was permuted with three fixed axes, which fails as soon as
the input has batch dimensions.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..1e2a14f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From adf07bacf782cada6b115344aded919ac4e8f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 02/25] fix: T_ISS background update used the wrong sign for
 the reverberation part

The background is made orthogonal to the current source estimates
Y = W X - H X_bar, so its cross-correlation with X is W C_XX - H C_XbarX.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 1e2a14f..a857c82 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,7 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    A = A1 - A2  # (..., n_freq, n_src, n_chan)
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From c53252752d09b60ba6b7a071081423335f74ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:28 +0000
Subject: [PATCH 03/25] fix: AuxIVA_IP without n_src separates as many sources
 as channels

The documented default n_src=None ended in a TypeError.
---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From 6680389fdcd6d507cd124e769e5651d8a63a832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:28 +0000
Subject: [PATCH 04/25] fix: AuxIVA_IP verbose=True works with batched input

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..cd6b8a5 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -106,7 +106,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_freq, n_src, n_chan = W.shape[-3:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0


From fae30483afcde0c46257f79d458fb0418a74876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:39 +0000
Subject: [PATCH 05/25] fix: AuxIVA_IP projection back on a background
 microphone

The background column already has the frequency (and batch) dimensions, so
broadcasting repeated them and the output had extra dimensions.
---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index cd6b8a5..1b6ed7a 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-1] + (1,))
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From 807165cf5a4c9c08a342d9f6b519af34274761e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 06/25] fix: eigh_2x2 keeps double precision for generalized
 eigenvalues

The eigenvalues were stored in the default dtype (float32) whatever the input.
---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..41f9bb1 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -197,7 +197,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = delta.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From d52ed309ad97e5e41f77a9cdf018587f64cb522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 07/25] fix: eigh returned conjugated eigenvectors for 2x2
 complex matrices

eigh_2x2 without a second matrix returns the eigenvectors of the transpose,
which broke the whitening of FIVE for two channels. Use the generic routine.
---
 torchiva/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 41f9bb1..d5cb364 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -279,8 +279,8 @@ def eigh(
     Eigenvalue decomposition of a complex Hermitian symmetric matrix
     """
 
-    # for 2x2, use specialized routine
-    if A.shape[-1] == 2:
+    # for 2x2 generalized problems, use specialized routine
+    if A.shape[-1] == 2 and B is not None:
         return eigh_2x2(A, B=B, eps=eps)
 
     if B is not None:
-- 
2.43.0


From e03ead0c418339666672e47587b7746632d1aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 08/25] fix: FIVE with a single power iteration

The eigenvalue was undefined for n_power_iter=1 and the starting vector was
normalized along the frequencies instead of the channels.
---
 torchiva/five.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..4e970e5 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -59,7 +59,8 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
-    x = normalize(x)
+    ev = torch.linalg.norm(x, dim=-1)
+    x = x / ev[..., None]
 
     for epoch in range(n_iter - 1):
         x = torch.einsum("...fcd,...fd->...fc", V_inv, x)
-- 
2.43.0


From c19563eb8ed5ad42241e601018f376334738eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 09/25] fix: FIVE initial estimate is projected back with the
 correct phase

The gain onto the reference is E[x y^*], the conjugate of what was used.
---
 torchiva/five.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 4e970e5..e0bb506 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -213,7 +213,7 @@ class FIVE(DRBSSBase):
         if proj_back_mic is not None:
             z = Q[..., 0, None, :] @ Cx[..., proj_back_mic, None]
             z = z.transpose(-3, -2)
-            Y = z[..., 0, :, :] * Y
+            Y = z[..., 0, :, :].conj() * Y
 
         for epoch in range(n_iter):
 
-- 
2.43.0


From df4bcfbe4ee19cb4033c3571545a5caad08e111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:28 +0000
Subject: [PATCH 10/25] fix: FIVE without projection back

The documented proj_back_mic=None indexed the whitening matrix with None.
---
 torchiva/five.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index e0bb506..85a9ff6 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -194,7 +194,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -235,9 +236,12 @@ class FIVE(DRBSSBase):
                     V, n_iter=n_power_iter
                 )
 
-            # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            if proj_back_mic is not None:
+                # projection back
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = eigenvector * torch.conj(z[..., None])
+            else:
+                w = eigenvector * torch.sqrt(inv_eigenvalue[..., None])
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From 5ac872cb850f5d8b2f6c9d18eab2582714a0d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 11/25] fix: MWF beamformer honours its stabilising constant

---
 torchiva/beamformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..e32bb89 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -59,7 +59,9 @@ def compute_mwf_bf(
         return W_H
 
     else:
-        w = solve_loaded(covmat_target + covmat_noise, covmat_target[..., ref_mic])
+        w = solve_loaded(
+            covmat_target + covmat_noise, covmat_target[..., ref_mic], load=eps
+        )
         return w
 
 
-- 
2.43.0


From 1eb6471962637f6f7dce2e050dd4a9a89d6f62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 12/25] fix: STFT accepts custom windows

---
 torchiva/stft.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..f1e523d 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -51,11 +51,15 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
 
+        if self.dtype is None:
+            # custom window without explicit type
+            self.dtype = window.dtype
+
         # assign proper type, check dimension, and register as buffer
         window = window.to(self.dtype)
         assert isinstance(window, torch.Tensor)
-- 
2.43.0


From dc57b25aa705e09516dd22f1dd9f83e01560f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:57 +0000
Subject: [PATCH 13/25] fix: interrupted model downloads do not poison the
 cache

---
 torchiva/loader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..eac4c77 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 from pathlib import Path
 from typing import Union, Optional
 
@@ -40,7 +41,15 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # the file appears in the cache only once it is complete
+            fd, tmp_fn = tempfile.mkstemp(dir=model_path, prefix=f"{fn.name}.")
+            os.close(fd)
+            try:
+                urlretrieve(url, filename=tmp_fn)
+                os.replace(tmp_fn, fn)
+            except BaseException:
+                os.unlink(tmp_fn)
+                raise
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From 0cd7c19c23c308f8822ac60923a3770d1789bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:57 +0000
Subject: [PATCH 14/25] fix: models at different URLs with the same name are
 cached separately

---
 torchiva/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index eac4c77..b5dbee5 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 import tempfile
 from pathlib import Path
@@ -34,7 +35,10 @@ def get_model_from_url(url):
     print(yaml_url)
     print(ckpt_url)
 
-    model_path = Path.home() / f".torchiva_models/{model_name}"
+    # different URLs must not share a folder even if they end with the same name
+    url_hash = hashlib.sha256(url.strip("/").encode()).hexdigest()[:16]
+
+    model_path = Path.home() / f".torchiva_models/{model_name}-{url_hash}"
     ckpt_fn, yaml_fn = get_model_filenames(model_path)
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 8033c2cfbf394941c1e5105c287dd7c1186773af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:53 +0000
Subject: [PATCH 15/25] fix: separate command passes the number of iterations
 to every model type

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..1a9b930 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -195,6 +195,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 222cde39a00ada1497d8e063c45b3d73647ba2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:53 +0000
Subject: [PATCH 16/25] fix: separate command uses all the requested
 microphones

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 1a9b930..07ce77b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From fd05436d1f23d7d8c970bff4e2429a0cf8273d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:53 +0000
Subject: [PATCH 17/25] fix: separate command selects the requested number of
 sources

---
 torchiva/separate.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 07ce77b..0b1a53b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -52,9 +52,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-            y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
-            )
+            y = torchiva.select_most_energetic(y, num=n_src, dim=-2, dim_reduc=-1)
 
         # make same size as input
         pad_len = mix.shape[-1] - y.shape[-1]
-- 
2.43.0


From 32b3d3095288889eb1fe5ba7381c12226e24c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:53 +0000
Subject: [PATCH 18/25] fix: separate command runs neural models in evaluation
 mode

---
 torchiva/separate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 0b1a53b..5855eea 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -209,6 +209,9 @@ def main(args):
     if args.device is not None:
         separator = separator.to(args.device)
 
+    # no dropout or batch statistics at inference
+    separator.eval()
+
     if args.input.is_dir():
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
-- 
2.43.0


From bdca4f63c6d71f3e8499b64536dd6d724641ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:53 +0000
Subject: [PATCH 19/25] fix: separate command keeps same-named files of
 different folders apart

---
 torchiva/separate.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 5855eea..10944a8 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -219,8 +219,15 @@ def main(args):
         if args.output == args.input:
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        # list the files first: the output folder may lie inside the input folder
+        output = args.output.resolve()
+        files_in = [
+            p for p in args.input.rglob("*.wav") if output not in p.resolve().parents
+        ]
+
+        for path_in in files_in:
+            path_out = args.output / path_in.relative_to(args.input)
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From f7eec6cf441ae46d2a80734d5b719e6c81408aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:53 +0000
Subject: [PATCH 20/25] fix: separate command never overwrites its input

---
 torchiva/separate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 10944a8..793757e 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -216,7 +216,7 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
         # list the files first: the output folder may lie inside the input folder
@@ -244,7 +244,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From e088621fd2082a3cf2e979fd52183019eaeea5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:02 +0000
Subject: [PATCH 21/25] fix: inv_2x2 keeps the shape of a single matrix

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index d5cb364..2df836f 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,7 +129,7 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
     det = W11 * W22 - W12 * W21
 
     # complex clamp
-    det = pt.where(abs(det) < eps, eps * det.new_ones(1), det)
+    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From 3d141c0da52223cd579598a995ee4f0d6aa4b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:02 +0000
Subject: [PATCH 22/25] fix: multiply and bmm accept conjugated tensors

---
 torchiva/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 2df836f..2db54e0 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -48,6 +48,7 @@ def multiply(tensor1: pt.Tensor, tensor2: pt.Tensor):
             tensor1, tensor2 = tensor2, tensor1
 
         # tensor1 is real, tensor2 is complex
+        tensor2 = tensor2.resolve_conj()
         return pt.view_as_complex(pt.view_as_real(tensor2) * tensor1[..., None])
 
 
@@ -63,8 +64,8 @@ def mag(x: pt.Tensor):
 
 
 def bmm(input: pt.Tensor, mat2: pt.Tensor) -> pt.Tensor:
-    m1 = pt.view_as_real(input)
-    m2 = pt.view_as_real(mat2)
+    m1 = pt.view_as_real(input.resolve_conj())
+    m2 = pt.view_as_real(mat2.resolve_conj())
     real_part = m1[..., 0] @ m2[..., 0] - m1[..., 1] @ m2[..., 1]
     imag_part = m1[..., 0] @ m2[..., 1] + m1[..., 1] @ m2[..., 0]
     out = pt.cat((real_part[..., None], imag_part[..., None]), dim=-1)
-- 
2.43.0


From 6277413cef890a8ff7bdd9be4544059299f91682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:02 +0000
Subject: [PATCH 23/25] fix: diagonal_loading adds the given vector to the
 diagonal

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 2db54e0..3466476 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -145,9 +145,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def eigh_2x2(
-- 
2.43.0


From 8c7900bd679507d7a5718efbd74e03eb01e6636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:10 +0000
Subject: [PATCH 24/25] fix: mixed-norm weights of minimum_distortion use the
 magnitude of the error

---
 torchiva/scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..966a70f 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -221,8 +221,8 @@ def lpq_norm(E, p=1, q=2, axis=0) -> pt.Tensor:
     assert p > 0 and q >= p and q <= 2.0
 
     E = E.abs() + 1e-5
+    qfn = E.pow(2 - q)
     E = E.pow(q) + 1e-5
     rn = pt.sum(E, dim=axis, keepdim=True).pow(1 - p / q)
-    qfn = pt.abs(E).pow(2 - q)
     weights = p / pt.clamp(2.0 * rn * qfn, min=eps_scaling["gmdp"])
     return weights
-- 
2.43.0


From 35461db710a573b8ed3a1156ee3b195f57b20e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 25/25] fix: a folder whose name ends with .wav is not a
 recording

---
 torchiva/separate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 793757e..fda3027 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -222,7 +222,9 @@ def main(args):
         # list the files first: the output folder may lie inside the input folder
         output = args.output.resolve()
         files_in = [
-            p for p in args.input.rglob("*.wav") if output not in p.resolve().parents
+            p
+            for p in args.input.rglob("*.wav")
+            if p.is_file() and output not in p.resolve().parents
         ]
 
         for path_in in files_in:
-- 
2.43.0

