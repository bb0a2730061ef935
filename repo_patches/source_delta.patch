From 7a1d59cd5cf55d0dcfa7d2c127c26f8962b14d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 01/29] fix: AuxIVA_IP defaults n_src to the number of channels
 as documented

---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From 0e0e898511492a68c5230182775b79429910db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 02/29] fix: AuxIVA_IP projection back on a microphone outside
 the first n_src

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..fcb8de6 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape[-2:])
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From a661939ec3d281f6155ff0da3185c7d4c5bc7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 03/29] fix: T_ISS projection back on a microphone outside the
 first n_src for batched input

---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..1e2a14f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From bb4d044d2fdb4c1adef77d6ea4204ae494e0ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 04/29] fix: STFT accepts a custom window

---
 torchiva/stft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..d5cf7bd 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -51,11 +51,14 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
 
+        if self.dtype is None:
+            self.dtype = window.dtype
+
         # assign proper type, check dimension, and register as buffer
         window = window.to(self.dtype)
         assert isinstance(window, torch.Tensor)
-- 
2.43.0


From 255dfb2203aae4ea72f5ba665c4ae519bb76a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 05/29] fix: diagonal_loading adds d to the diagonal instead of
 raising NameError

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..ef3d782 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -144,9 +144,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def eigh_2x2(
-- 
2.43.0


From a18a716d35d6bb81089bd3cfbb87f210ef3a4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 06/29] fix: eigh_2x2 keeps double precision in the generalized
 eigenvalues

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index ef3d782..75eac89 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -195,7 +195,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = delta.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From 67ba12074d8b877ede5305e01704cf876ab1bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 07/29] fix: T_ISS stores the dereverberation filter it
 announces

---
 torchiva/t_iss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 1e2a14f..685c297 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -534,6 +534,7 @@ class T_ISS(DRBSSBase):
             Y = a * Y
 
         self.W = W
+        self.H = H
         self.J = J
 
         return Y
-- 
2.43.0


From b4d17e3511b2bb5869b0232523382df45de104c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 08/29] fix: compute_mwf_bf honours eps when a reference
 microphone is given

---
 torchiva/beamformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..e32bb89 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -59,7 +59,9 @@ def compute_mwf_bf(
         return W_H
 
     else:
-        w = solve_loaded(covmat_target + covmat_noise, covmat_target[..., ref_mic])
+        w = solve_loaded(
+            covmat_target + covmat_noise, covmat_target[..., ref_mic], load=eps
+        )
         return w
 
 
-- 
2.43.0


From 3f21897eb22e8ee9dcbd195271b6417bc79ed8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 09/29] fix: FIVE power method normalizes each demixing vector
 and supports one iteration

---
 torchiva/five.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..4e970e5 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -59,7 +59,8 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
-    x = normalize(x)
+    ev = torch.linalg.norm(x, dim=-1)
+    x = x / ev[..., None]
 
     for epoch in range(n_iter - 1):
         x = torch.einsum("...fcd,...fd->...fc", V_inv, x)
-- 
2.43.0


From cd93b0175a9307c52cc97dee405327b8e8501158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 10/29] fix: FIVE skips projection back when proj_back_mic is
 None as documented

---
 torchiva/five.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 4e970e5..281c5fb 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -194,7 +194,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -236,8 +237,11 @@ class FIVE(DRBSSBase):
                 )
 
             # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            if proj_back_mic is not None:
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = eigenvector * torch.conj(z[..., None])
+            else:
+                w = eigenvector
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From ffaac0687f31cf04bf186eb9124421ba66aef2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 11/29] fix: eigh returns the eigenvectors of complex and of
 diagonal 2x2 matrices

---
 torchiva/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 75eac89..397d75c 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -277,8 +277,8 @@ def eigh(
     Eigenvalue decomposition of a complex Hermitian symmetric matrix
     """
 
-    # for 2x2, use specialized routine
-    if A.shape[-1] == 2:
+    # for the 2x2 generalized problem, use specialized routine
+    if A.shape[-1] == 2 and B is not None:
         return eigh_2x2(A, B=B, eps=eps)
 
     if B is not None:
-- 
2.43.0


From 707f08812fbc2b965853b6c2e455e4352789bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 12/29] fix: verbose AuxIVA_IP works on batched input

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index fcb8de6..810feb4 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -106,7 +106,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_freq, n_src, n_chan = W.shape[-3:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0


From ca95c60935b0b3210417018c00ddd1145a68bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 13/29] fix: phase of the initial projection back in FIVE

---
 torchiva/five.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 281c5fb..c266481 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -214,7 +214,7 @@ class FIVE(DRBSSBase):
         if proj_back_mic is not None:
             z = Q[..., 0, None, :] @ Cx[..., proj_back_mic, None]
             z = z.transpose(-3, -2)
-            Y = z[..., 0, :, :] * Y
+            Y = z[..., 0, :, :].conj() * Y
 
         for epoch in range(n_iter):
 
-- 
2.43.0


From fc949503793eaed0a256336da82d07287e9f0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 14/29] fix: the separate command uses all the channels allowed
 by --mic

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..20bb4d6 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From a843bb5b47653d69806b84fb9ab19c238f4b09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 15/29] fix: NameError in the separate command when there are
 more outputs than sources

---
 torchiva/separate.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 20bb4d6..d42035e 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -52,9 +52,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-            y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
-            )
+            y = torchiva.select_most_energetic(y, num=n_src, dim=-2, dim_reduc=-1)
 
         # make same size as input
         pad_len = mix.shape[-1] - y.shape[-1]
-- 
2.43.0


From ec92cc2b4415e094a45dac399231bd15cd630484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 16/29] fix: the separate command honours --n_iter for the
 classic source models

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index d42035e..0b1a53b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -193,6 +193,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 0bbe6fa7e63c99d6aa957b121874a939897d40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 17/29] fix: the separate command never overwrites its input
 file

---
 torchiva/separate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 0b1a53b..747b4df 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -213,7 +213,7 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
         for path_in in args.input.rglob("*.wav"):
@@ -234,7 +234,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From f9a9437fe19e2ee726e6031b6b84eeb4ec5632dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 18/29] fix: files of the same name in different sub-folders no
 longer overwrite each other

---
 torchiva/separate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 747b4df..f5b5c4c 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -216,8 +216,9 @@ def main(args):
         if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        for path_in in list(args.input.rglob("*.wav")):
+            path_out = args.output / path_in.relative_to(args.input)
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 5f816739e30ec8e214ac3fba156d19bd515f0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 19/29] fix: an interrupted model download is not mistaken for
 a cached model

---
 torchiva/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..da8e7df 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -40,7 +40,10 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # an interrupted download must not be mistaken for a cached file
+            tmp_fn = fn.with_name(fn.name + ".part")
+            urlretrieve(url, filename=tmp_fn)
+            tmp_fn.replace(fn)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From a98c3d9b81f4120b46f6e5514d4c59d07d48d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:15 +0000
Subject: [PATCH 20/29] fix: T_ISS background is uncorrelated with the sources
 when dereverberation is on

The sources are Y = W X - H X_bar, so that E[Y X^H] = W C_XX - H C_XbarX;
the sign of the second term did not match.
---
 torchiva/t_iss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 685c297..b5bc336 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,8 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    # correlation E[Y X^H] of the sources Y = W X - H X_bar with the input
+    A = A1 - A2  # (..., n_freq, n_src, n_chan)
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From dd974f9825ea6a04a8da1ef566159815ad945b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:40 +0000
Subject: [PATCH 21/29] fix: inv_2x2 of a single matrix keeps its shape

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 397d75c..37abab1 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,7 +129,7 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
     det = W11 * W22 - W12 * W21
 
     # complex clamp
-    det = pt.where(abs(det) < eps, eps * det.new_ones(1), det)
+    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From a718042360a8806bb1f0ac08a122feab8814cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:03 +0000
Subject: [PATCH 22/29] fix: weights of the mixed norm minimum distortion for q
 other than 1 and 2

The error was raised to the power q before taking its power 2 - q, so that the
iterations did not minimize the documented criterion.
---
 torchiva/scaling.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..87ea98b 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -221,8 +221,7 @@ def lpq_norm(E, p=1, q=2, axis=0) -> pt.Tensor:
     assert p > 0 and q >= p and q <= 2.0
 
     E = E.abs() + 1e-5
-    E = E.pow(q) + 1e-5
-    rn = pt.sum(E, dim=axis, keepdim=True).pow(1 - p / q)
-    qfn = pt.abs(E).pow(2 - q)
+    rn = pt.sum(E.pow(q) + 1e-5, dim=axis, keepdim=True).pow(1 - p / q)
+    qfn = E.pow(2 - q)
     weights = p / pt.clamp(2.0 * rn * qfn, min=eps_scaling["gmdp"])
     return weights
-- 
2.43.0


From 5430d638afde163c67bece8206c9e1c8d3701449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:51 +0000
Subject: [PATCH 23/29] fix: WPE resets source models with internal state at
 each call

---
 torchiva/wpe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index e710278..da1125f 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -151,6 +151,9 @@ class WPE(DRBSSBase):
             eps=eps,
         )
 
+        # for source models with some internal state
+        self._reset(model)
+
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
-- 
2.43.0


From 250a92115b2a8787a6ed87c30e01e5d69fdc951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:59 +0000
Subject: [PATCH 24/29] fix: minimum_distortion stops the iterations of each
 signal of a batch separately

---
 torchiva/scaling.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 87ea98b..b3eaf16 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -171,6 +171,7 @@ def minimum_distortion(
     c = Y.new_ones(Y.shape[:-1])
 
     prev_c = None
+    converged = None
 
     epoch = 0
     while epoch < max_iter:
@@ -195,17 +196,22 @@ def minimum_distortion(
         # minimize
         num = pt.sum(ref[..., None, :] * Y.conj() * weights, dim=-1)
         denom = pt.sum(Y.abs().square() * weights, dim=-1)
-        c = num / pt.clamp(denom, min=eps_scaling["gmdp"])
+        new_c = num / pt.clamp(denom, min=eps_scaling["gmdp"])
+
+        # the signals of the batch that have converged are not updated anymore
+        c = new_c if converged is None else pt.where(converged, c, new_c)
 
         # condition for termination
         if prev_c is None:
             prev_c = c
             continue
 
-        # relative step length
-        delta = (c - prev_c).abs().norm() / (prev_c).abs().norm()
+        # relative step length of each signal of the batch
+        delta = (c - prev_c).abs().norm(dim=(-2, -1), keepdim=True)
+        delta = delta / prev_c.abs().norm(dim=(-2, -1), keepdim=True)
         prev_c = c
-        if delta < rtol:
+        converged = delta < rtol
+        if converged.all():
             break
 
     return Y_bak * c[..., None].transpose(-3, -2)
-- 
2.43.0


From 08da519e45404f85ea125a8de11f8cfb71263795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 25/29] fix: models of the same name at different URLs no
 longer share a cache entry

---
 torchiva/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index da8e7df..a9db53c 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 from pathlib import Path
 from typing import Union, Optional
@@ -33,7 +34,9 @@ def get_model_from_url(url):
     print(yaml_url)
     print(ckpt_url)
 
-    model_path = Path.home() / f".torchiva_models/{model_name}"
+    # different models may have the same name
+    digest = hashlib.sha256(url.strip("/").encode()).hexdigest()[:16]
+    model_path = Path.home() / f".torchiva_models/{model_name}-{digest}"
     ckpt_fn, yaml_fn = get_model_filenames(model_path)
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From da0313a4d267e3f4792c69a1d32de1ffbbe22dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:22 +0000
Subject: [PATCH 26/29] fix: the separate command never overwrites input files
 below the output folder

---
 torchiva/separate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index f5b5c4c..f479224 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -216,8 +216,12 @@ def main(args):
         if args.output.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different folders")
 
-        for path_in in list(args.input.rglob("*.wav")):
-            path_out = args.output / path_in.relative_to(args.input)
+        inputs = list(args.input.rglob("*.wav"))
+        outputs = [args.output / path_in.relative_to(args.input) for path_in in inputs]
+        if {p.resolve() for p in inputs} & {p.resolve() for p in outputs}:
+            raise ValueError("The output would overwrite some of the input files")
+
+        for path_in, path_out in zip(inputs, outputs):
             path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
-- 
2.43.0


From 1f6f134c89bf236622f8b395a1a5769feeec7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 27/29] fix: generalized eigh_2x2 returns eigenvectors where
 the first row of A - lambda B vanishes

---
 torchiva/linalg.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 37abab1..dcd5a8b 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -202,18 +202,25 @@ def eigh_2x2(
         # normalize the eigenvalues
         eigenvalues = eigenvalues / pt.clamp(det_B[..., None], min=eps)
 
-        # notation
-        ev1 = eigenvalues[..., 0]
-        ev2 = eigenvalues[..., 1]
-
-        # now fill the eigenvectors
-        eigenvectors = A.new_zeros(A.shape)
-        # vector corresponding to small eigenvalue
-        eigenvectors[..., 0, 0] = multiply(ev1, b12) - a12
-        eigenvectors[..., 1, 0] = a11 - ev1 * b11
-        # vector corresponding to large eigenvalue
-        eigenvectors[..., 0, 1] = multiply(ev2, b12) - a12
-        eigenvectors[..., 1, 1] = a11 - ev2 * b11
+        # the entries of the singular matrices A - ev * B, for both eigenvalues
+        m11 = a11.real[..., None] - eigenvalues * b11.real[..., None]
+        m22 = a22.real[..., None] - eigenvalues * b22.real[..., None]
+        m12 = a12[..., None] - multiply(eigenvalues, b12[..., None])
+
+        # now fill the eigenvectors, from the larger row of A - ev * B, because
+        # the other one may vanish (e.g., when A and B are diagonal)
+        larger = m11.abs() >= m22.abs()
+        eigenvectors = pt.stack(
+            (
+                pt.where(larger, -m12, m22.type_as(m12)),
+                pt.where(larger, m11.type_as(m12), -m12.conj()),
+            ),
+            dim=-2,
+        )
+
+        # both rows vanish when the eigenvalues are equal, then any basis will do
+        equal = pt.all(eigenvectors == 0, dim=-2, keepdim=True)
+        eigenvectors = pt.where(equal, pt.eye(2).type_as(eigenvectors), eigenvectors)
 
     else:
         # Do the EVD
-- 
2.43.0


From d8c251aed36be68e17a783975928b2c2119c550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 28/29] fix: finite gradients of the Laplace and NMF source
 models on silent frames

---
 torchiva/models/classic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/torchiva/models/classic.py b/torchiva/models/classic.py
index a5b1b3e..3ace7e7 100644
--- a/torchiva/models/classic.py
+++ b/torchiva/models/classic.py
@@ -19,6 +19,13 @@ except ImportError:
         return out
 
 
+def sqrt_nonneg(x):
+    """
+    Square root of a non-negative tensor, with a finite gradient at zero
+    """
+    return pt.sqrt(pt.clamp(x, min=pt.finfo(x.dtype).tiny))
+
+
 class LaplaceModel(pt.nn.Module):
     def __init__(self, eps: Optional[float] = None):
         super().__init__()
@@ -36,7 +43,7 @@ class LaplaceModel(pt.nn.Module):
             mag_sq = X.real.square() + X.imag.square()
         else:
             mag_sq = X.square()
-        denom = 2.0 * pt.sqrt(mag_sq.sum(dim=-2, keepdim=True))
+        denom = 2.0 * sqrt_nonneg(mag_sq.sum(dim=-2, keepdim=True))
         r = pt.broadcast_to(denom, X.shape)
 
         r_inv = 1.0 / pt.clamp(r, min=self._eps)
@@ -130,7 +137,7 @@ class NMFModel(pt.nn.Module):
         self._init_state(P)
 
         # The basis matrix update
-        self.T = self.T * pt.sqrt(
+        self.T = self.T * sqrt_nonneg(
             pt.bmm(P * pt.square(self.iR), self.V) / pt.bmm(self.iR, self.V)
         )
         self.T = pt.clamp(self.T, min=self._eps)
@@ -141,7 +148,7 @@ class NMFModel(pt.nn.Module):
         # The activation matrix update
         iR_T = self.iR.transpose(-2, -1)
         P_T = P.transpose(-2, -1)
-        self.V = self.V * pt.sqrt(
+        self.V = self.V * sqrt_nonneg(
             pt.bmm(P_T * pt.square(iR_T), self.T) / pt.bmm(iR_T, self.T)
         )
         self.V = pt.clamp(self.V, min=self._eps)
-- 
2.43.0


From 4451ab7ce420bbcbfbb298f357c603d2fca0a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 29/29] fix: learned weights of minimum_distortion for every
 signal, channel and frequency

The weights of the model were indexed with [..., 0, 0, :, :]: unbatched
signals raised IndexError, and all the signals of a batch were given the
weights of the first one at its lowest frequency.
---
 torchiva/scaling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index b3eaf16..1fc362b 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -182,7 +182,6 @@ def minimum_distortion(
         error = ref[..., :, None, :] - c[..., :, :, None] * Y
         if model is not None:
             weights = model(error.transpose(-3, -2)).transpose(-3, -2)
-            weights = weights[..., 0, 0, :, :]
 
             # let us normalize the weights along the time axis
             norm = pt.sum(weights, dim=-1, keepdim=True)
-- 
2.43.0

