From 6a29204e2397ed0529077765abf804e83622c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 01/87] fix: pow() with odd exponents of 5 and above computed a
 wrong power

---
 crypten/common/functions/power.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index cc2254f..cb14830 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -41,8 +41,7 @@ def pow(self, p, **kwargs):
     elif p % 2 == 0:
         return self.square().pow(p // 2)
     else:
-        x = self.square().mul_(self)
-        return x.pow((p - 1) // 2)
+        return self.pow(p - 1).mul_(self)
 
 
 def pos_pow(self, p):
-- 
2.43.0


From f7a72917ebd232cd8fd121124c3b6928e0949f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 02/87] fix: var() treated its unbiased flag the wrong way
 round

---
 crypten/common/functions/regular.py | 6 +++---
 crypten/gradients.py                | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index d40dd95..9d11a7c 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -166,11 +166,11 @@ def var(self, *args, **kwargs):
     # preprocess inputs:
     if len(args) == 0:
         dim = None
-        unbiased = kwargs.get("unbiased", False)
+        unbiased = kwargs.get("unbiased", True)
         mean = self.mean()
     elif len(args) == 1:
         dim = args[0]
-        unbiased = kwargs.get("unbiased", False)
+        unbiased = kwargs.get("unbiased", True)
         keepdim = kwargs.get("keepdim", False)
     elif len(args) == 2:
         dim, unbiased = args[0], args[1]
@@ -190,7 +190,7 @@ def var(self, *args, **kwargs):
 
     # Determine divisor
     divisor = self.nelement() // result.nelement()
-    if not unbiased:
+    if unbiased:
         divisor -= 1
 
     # Compute mean square error
diff --git a/crypten/gradients.py b/crypten/gradients.py
index 58b19da..757d6bc 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1228,12 +1228,12 @@ class AutogradVariance(AutogradFunction):
         # preprocess inputs:
         if len(args) == 0:
             dim = None
-            unbiased = kwargs.get("unbiased", False)
+            unbiased = kwargs.get("unbiased", True)
             keepdim = False
             mean = self.mean()
         elif len(args) == 1:
             dim = args[0]
-            unbiased = kwargs.get("unbiased", False)
+            unbiased = kwargs.get("unbiased", True)
             keepdim = kwargs.get("keepdim", False)
         elif len(args) == 2:
             dim, unbiased = args[0], args[1]
@@ -1253,7 +1253,7 @@ class AutogradVariance(AutogradFunction):
 
         # Determine divisor
         divisor = self.nelement() // result.nelement()
-        if not unbiased:
+        if unbiased:
             divisor -= 1
 
         # compute variance:
@@ -1801,7 +1801,7 @@ class AutogradBatchNorm(AutogradFunction):
         # compute mean and variance, track batch statistics:
         if training:
             mean = x.mean(stats_dimensions)
-            variance = x.var(stats_dimensions, unbiased=True)
+            variance = x.var(stats_dimensions, unbiased=False)
             if running_mean is not None and running_var is not None:
                 running_var.set(running_var * (1.0 - momentum) + variance * momentum)
                 running_mean.set(running_mean * (1.0 - momentum) + mean * momentum)
-- 
2.43.0


From 26f9594c88b812a5aad131a1218e7391f3719584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 03/87] fix: pos_pow() returned a wrong gradient for
 non-integer powers

---
 crypten/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 757d6bc..e202ad4 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -879,7 +879,7 @@ class AutogradPosPow(AutogradFunction):
         if isinstance(power, int) or (isinstance(power, float) and int(power) == power):
             return input.pow(power - 1.0).mul_(power).mul_(grad_output)
         else:
-            return input.mul(power - 1.0).mul_(power).exp().mul(grad_output)
+            return input.mul(power - 1.0).exp().mul_(power).mul_(grad_output)
 
 
 @register_function("square")
-- 
2.43.0


From e6dfbbe1540e1d09c4789e1069822e5e79bb00fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 04/87] fix: norm() backward ignored that the reduced dimension
 was dropped

---
 crypten/gradients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index e202ad4..c162939 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1113,7 +1113,9 @@ class AutogradNorm(AutogradFunction):
     def backward(ctx, grad_output):
         input, norm, p, dim, keepdim = ctx.saved_tensors
         if not keepdim and dim is not None:
-            grad_output.unsqueeze(dim)
+            grad_output = grad_output.unsqueeze(dim)
+            if p != float("inf"):
+                norm = norm.unsqueeze(dim)
 
         if p == 2 or p == "fro":
             return grad_output.mul(input.div(norm))
-- 
2.43.0


From 64cb7e230e973f51aa31528efbb01533cda63936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 05/87] fix: gradients of repeated indices in take() and
 indexing were overwritten, not summed

---
 crypten/gradients.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index c162939..30bbf49 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -320,7 +320,7 @@ class AutogradTake(AutogradFunction):
             grad_flat = grad.flatten()
             flat_index = index.flatten()
             grad_output_flat = grad_output.flatten()
-            grad_flat[flat_index] = grad_output_flat
+            grad_flat.index_add_(0, flat_index, grad_output_flat)
             grad = grad_flat.reshape(size)
         else:
             flat_index = index.flatten()
@@ -462,9 +462,11 @@ class AutogradGetItem(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         size, index = ctx.saved_tensors
-        grad = grad_output.new(torch.zeros(size))
-        grad[index] = grad_output
-        return grad
+        # indices may select an element more than once, so sum gradients:
+        grad = grad_output.new(torch.zeros(size)).flatten()
+        flat_index = torch.arange(size.numel()).view(size)[index].flatten()
+        grad.index_add_(0, flat_index, grad_output.flatten())
+        return grad.reshape(size)
 
 
 @register_function("neg")
-- 
2.43.0


From 7250ed0a8e605035f994716c787c2ef9c1f9dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 06/87] fix: polynomial() backward modified the coefficients it
 was given

---
 crypten/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 30bbf49..67aa397 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -844,7 +844,7 @@ class AutogradPolynomial(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         input, coeffs, func = ctx.saved_tensors
-        coeffs *= torch.arange(coeffs.size(0)).add(1)
+        coeffs = coeffs * torch.arange(coeffs.size(0)).add(1)
         return input.polynomial(coeffs[1:], func).add(coeffs[0]).mul_(grad_output)
 
 
-- 
2.43.0


From a25c0aee1826ac603d64c8541e4a5b644ac7373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 07/87] fix: sum(), mean() and var() could not backpropagate
 over several dimensions

---
 crypten/gradients.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 67aa397..cedf12a 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -55,6 +55,14 @@ def _ensure_tensor(input):
     return input
 
 
+def _unsqueeze_reduced(grad_output, input_size, dim):
+    """Restores the dimensions `dim` that a reduction without `keepdim` dropped."""
+    dims = dim if isinstance(dim, (list, tuple)) else [dim]
+    for d in sorted(d % len(input_size) for d in dims):
+        grad_output = grad_output.unsqueeze(d)
+    return grad_output
+
+
 def _inverse_broadcast(grad_output, input_size):
     """
     Performs the inverse operation of a broadcast.
@@ -1158,7 +1166,7 @@ class AutogradSum(AutogradFunction):
             return grad_output
 
         if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+            grad_output = _unsqueeze_reduced(grad_output, input_size, dim)
         return grad_output.mul(torch.ones(input_size))
 
 
@@ -1215,11 +1223,13 @@ class AutogradMean(AutogradFunction):
         if len(input_size) == 0:
             return grad_output
 
-        nelement = float(
-            reduce(lambda x, y: x * y, input_size) if dim is None else input_size[dim]
-        )
+        if dim is None:
+            dims = range(len(input_size))
+        else:
+            dims = dim if isinstance(dim, (list, tuple)) else [dim]
+        nelement = float(reduce(lambda x, y: x * y, [input_size[d] for d in dims]))
         if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+            grad_output = _unsqueeze_reduced(grad_output, input_size, dim)
         return grad_output.mul(
             torch.ones(input_size, device=grad_output.device).div_(nelement)
         )
@@ -1273,7 +1283,7 @@ class AutogradVariance(AutogradFunction):
         input, mean, divisor, dim, keepdim = ctx.saved_tensors
 
         if not keepdim and dim is not None:
-            grad_output = grad_output.unsqueeze(dim)
+            grad_output = _unsqueeze_reduced(grad_output, input.size(), dim)
 
         numerator = input.sub(mean).mul(2).mul(grad_output)
         if divisor == 0:
-- 
2.43.0


From 1b732f2453b4bb67d61007f83f8236d8a5f5edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 08/87] fix: permute() could not backpropagate with negative
 dimensions

---
 crypten/gradients.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index cedf12a..ef0b12a 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -197,6 +197,7 @@ class AutogradPermute(AutogradFunction):
     @staticmethod
     def backward(ctx, grad_output):
         (dims,) = ctx.saved_tensors
+        dims = [dim % len(dims) for dim in dims]
         inds = [dims.index(x) for x in range(len(dims))]
         return grad_output.permute(inds)
 
-- 
2.43.0


From 20564152df5f99e509d3ebec3ebc7f40326e5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 09/87] fix: dropout with p = 1 gave NaN in training and zeros
 in evaluation mode

---
 crypten/common/functions/dropout.py |  4 ++--
 crypten/gradients.py                | 22 ++++++++++++----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/crypten/common/functions/dropout.py b/crypten/common/functions/dropout.py
index 2564d3f..2ac2eb2 100644
--- a/crypten/common/functions/dropout.py
+++ b/crypten/common/functions/dropout.py
@@ -25,10 +25,10 @@ def dropout(self, p=0.5, training=True, inplace=False):
     """
     if p == 0.0:
         return self
-    elif p == 1.0:
+    elif p == 1.0 and training:
         return self - self
 
-    assert p > 0.0 and p < 1.0, "dropout probability has to be between 0 and 1"
+    assert p > 0.0 and p <= 1.0, "dropout probability has to be between 0 and 1"
     if training and inplace:
         logging.warning(
             "CrypTen dropout does not support inplace computation during training."
diff --git a/crypten/gradients.py b/crypten/gradients.py
index ef0b12a..0abbc4e 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -524,19 +524,20 @@ class AutogradDropout(AutogradFunction):
             input.size(), generator=generator, device=input.device
         )
         boolean_mask = (random_tensor > p).to(input.device, dtype=torch.float)
+        mask = boolean_mask.div(1.0 - p) if p < 1.0 else boolean_mask
         if inplace:
-            result = input.mul_(boolean_mask.div(1.0 - p))
+            result = input.mul_(mask)
         else:
-            result = input.mul(boolean_mask.div(1.0 - p))
-        ctx.save_multiple_for_backward([boolean_mask, p])
+            result = input.mul(mask)
+        ctx.save_for_backward(mask)
         return result
 
     @staticmethod
     def backward(ctx, grad_output):
         if len(ctx.saved_tensors) == 0:
             return grad_output  # forward pass was run in eval mode
-        boolean_mask, p = ctx.saved_tensors
-        return grad_output.mul(boolean_mask.div(1.0 - p))
+        (mask,) = ctx.saved_tensors
+        return grad_output.mul(mask)
 
 
 @register_function("_feature_dropout")
@@ -563,19 +564,20 @@ class AutogradFeatureDropout(AutogradFunction):
         for i in range(2, input.dim()):
             boolean_mask = boolean_mask.unsqueeze(i)
         boolean_mask, _ = torch.broadcast_tensors(boolean_mask, input.data)
+        mask = boolean_mask.div(1.0 - p) if p < 1.0 else boolean_mask.clone()
         if inplace:
-            result = input.mul_(boolean_mask.div(1.0 - p))
+            result = input.mul_(mask)
         else:
-            result = input.mul(boolean_mask.div(1.0 - p))
-        ctx.save_multiple_for_backward([boolean_mask, p])
+            result = input.mul(mask)
+        ctx.save_for_backward(mask)
         return result
 
     @staticmethod
     def backward(ctx, grad_output):
         if len(ctx.saved_tensors) == 0:
             return grad_output  # forward pass was run in eval mode
-        boolean_mask, p = ctx.saved_tensors
-        return grad_output.mul(boolean_mask.div(1.0 - p))
+        (mask,) = ctx.saved_tensors
+        return grad_output.mul(mask)
 
 
 @register_function("tanh")
-- 
2.43.0


From e21016c0344ac854f10d3890da9cea471fff60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 10/87] fix: hardtanh() took different keyword names with and
 without autograd

---
 crypten/gradients.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 0abbc4e..376e4fa 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -597,25 +597,25 @@ class AutogradTanh(AutogradFunction):
 @register_function("hardtanh")
 class AutogradHardtanh(AutogradFunction):
     @staticmethod
-    def forward(ctx, input, min_val=-1, max_val=1):
+    def forward(ctx, input, min_value=-1, max_value=1):
         assert isinstance(
-            min_val, (int, float)
-        ), "hardtanh min_val must be an int or float"
+            min_value, (int, float)
+        ), "hardtanh min_value must be an int or float"
         assert isinstance(
-            max_val, (int, float)
-        ), "hardtanh max_val must be an int or float"
-        if min_val == max_val:
+            max_value, (int, float)
+        ), "hardtanh max_value must be an int or float"
+        if min_value == max_value:
             grad = input.new(torch.zeros(input.size()))
             ctx.save_for_backward(grad)
-            return grad + min_val
+            return grad + min_value
 
-        intermediate = crypten.stack([input - min_val, max_val - input]).gt(0)
+        intermediate = crypten.stack([input - min_value, max_value - input]).gt(0)
         grad = intermediate.sum(0).sub(1)
         ctx.save_for_backward(grad)
 
         result = grad.mul(input)
-        result += (1 - intermediate[0]).mul(min_val)
-        result += (1 - intermediate[1]).mul(max_val)
+        result += (1 - intermediate[0]).mul(min_value)
+        result += (1 - intermediate[1]).mul(max_value)
         return result
 
     @staticmethod
-- 
2.43.0


From adca1250acbcc0399875ced10e80e6feb4b63ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 11/87] fix: encoding floating-point numpy arrays dropped their
 fractional part

---
 crypten/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index c567a93..f2dae6a 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -59,7 +59,7 @@ class FixedPointEncoder:
         elif is_int_tensor(x):
             return self._scale * x.long()
         elif isinstance(x, np.ndarray):
-            return self._scale * torch.from_numpy(x).long().to(device)
+            return self.encode(torch.from_numpy(x)).to(device)
         elif torch.is_tensor(x):
             raise TypeError("Cannot encode input with dtype %s" % x.dtype)
         else:
-- 
2.43.0


From 41546897cfd5f9849e325ac023865a0bae9159a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 12/87] fix: encoding half-precision tensors overflowed before
 conversion to integers

---
 crypten/encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index f2dae6a..caed214 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -54,6 +54,9 @@ class FixedPointEncoder:
                 .long()
             )
         elif is_float_tensor(x):
+            # Half-precision types would overflow when scaled.
+            if x.dtype in (torch.float16, torch.bfloat16):
+                x = x.float()
             return (self._scale * x).long()
         # For integer types cast to long prior to scaling to avoid overflow.
         elif is_int_tensor(x):
-- 
2.43.0


From ca5a6f416dd22ed5d07b86aecedd4fc3475b0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 13/87] fix: decoding negative values below -65535 was off by
 one

---
 crypten/encoder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crypten/encoder.py b/crypten/encoder.py
index caed214..3dc1478 100644
--- a/crypten/encoder.py
+++ b/crypten/encoder.py
@@ -74,10 +74,8 @@ class FixedPointEncoder:
             return None
         assert is_int_tensor(tensor), "input must be a LongTensor"
         if self._scale > 1:
-            correction = (tensor < 0).long()
-            dividend = tensor.div(self._scale - correction, rounding_mode="floor")
+            dividend = tensor.div(self._scale, rounding_mode="floor")
             remainder = tensor % self._scale
-            remainder += (remainder == 0).long() * self._scale * correction
 
             tensor = dividend.float() + remainder.float() / self._scale
         else:
-- 
2.43.0


From 97bf9a01b00141c6ac58601c10797868e89f4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 14/87] fix: adding tensors of different precision rescaled the
 second operand in place

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f3f4dab..75b9dfe 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -374,7 +374,7 @@ class ArithmeticSharedTensor:
             if additive_func:  # ['add', 'sub', 'add_', 'sub_']
                 # Re-encode if necessary:
                 if self.encoder.scale > y.encoder.scale:
-                    y.encode_as_(result)
+                    y = y.encode_as(result)
                 elif self.encoder.scale < y.encoder.scale:
                     result.encode_as_(y)
                 result.share = getattr(result.share, op)(y.share)
-- 
2.43.0


From 3932f16bbc78a5d550fca9fb73619d0d422cc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 15/87] fix: adding a public tensor left an overlapping share
 on parties other than 0

---
 crypten/mpc/primitives/arithmetic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 75b9dfe..b83d0d2 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -362,10 +362,11 @@ class ArithmeticSharedTensor:
             y = result.encoder.encode(y, device=self.device)
 
             if additive_func:  # ['add', 'sub']
-                if result.rank == 0:
-                    result.share = getattr(result.share, op)(y)
-                else:
-                    result.share = torch.broadcast_tensors(result.share, y)[0]
+                # only one party adds the public value; the others add zeros so
+                # that all shares are broadcast (and checked) in the same way
+                if result.rank != 0:
+                    y = torch.zeros_like(y)
+                result.share = getattr(result.share, op)(y)
             elif op == "mul_":  # ['mul_']
                 result.share = result.share.mul_(y)
             else:  # ['mul', 'matmul', 'convNd', 'conv_transposeNd']
-- 
2.43.0


From cf017d49b6b82332b0e827342e3ffb6a3f51f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 16/87] fix: products of tensors with different fixed-point
 precision had a wrong scale

---
 crypten/mpc/primitives/arithmetic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index b83d0d2..8c1e6ce 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -394,13 +394,12 @@ class ArithmeticSharedTensor:
                     return result.div_(result.encoder.scale)
                 else:
                     result.encoder = self.encoder
-            else:  # scale by larger of self.encoder.scale and y.encoder.scale
-                if self.encoder.scale > 1 and y.encoder.scale > 1:
-                    return result.div_(result.encoder.scale)
-                elif self.encoder.scale > 1:
-                    result.encoder = self.encoder
-                else:
+            else:  # keep larger of self.encoder.scale and y.encoder.scale
+                scale = min(self.encoder.scale, y.encoder.scale)
+                if self.encoder.scale < y.encoder.scale:
                     result.encoder = y.encoder
+                if scale > 1:
+                    return result.div_(scale)
 
         return result
 
-- 
2.43.0


From c027b77c0c583f82e3d6a2a2835ba84db7deeca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 17/87] fix: comparisons of tensors with non-default precision
 returned scaled results

---
 crypten/mpc/mpc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index 5a755c3..663be9c 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -233,7 +233,7 @@ class MPCTensor(CrypTensor):
     def _ltz(self):
         """Returns 1 for elements that are < 0 and 0 otherwise"""
         shift = torch.iinfo(torch.long).bits - 1
-        precision = 0 if self.encoder.scale == 1 else None
+        precision = self.encoder._precision_bits
 
         result = self._to_ptype(Ptype.binary)
         result.share >>= shift
@@ -268,7 +268,8 @@ class MPCTensor(CrypTensor):
         x0.encoder = self.encoder
 
         # Convert to Arithmetic sharing
-        result = x0.to(Ptype.arithmetic, bits=1)
+        precision = self.encoder._precision_bits
+        result = x0.to(Ptype.arithmetic, precision=precision, bits=1)
         result.encoder._scale = 1
 
         return result
-- 
2.43.0


From b3ee145226b3688cfe5fa67a6fbcbccec97d8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 18/87] fix: converting binary shares to a lower precision
 returned zeros

---
 crypten/mpc/primitives/converters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/primitives/converters.py b/crypten/mpc/primitives/converters.py
index f94b9fc..9f10ddc 100644
--- a/crypten/mpc/primitives/converters.py
+++ b/crypten/mpc/primitives/converters.py
@@ -63,9 +63,12 @@ def _B2A(binary_tensor, precision=None, bits=None):
 
         arithmetic_tensor = arithmetic_bits.mul_(multiplier).sum(0)
 
-    arithmetic_tensor.encoder = FixedPointEncoder(precision_bits=precision)
-    scale = arithmetic_tensor.encoder._scale // binary_tensor.encoder._scale
-    arithmetic_tensor *= scale
+    encoder = FixedPointEncoder(precision_bits=precision)
+    if encoder._scale >= binary_tensor.encoder._scale:
+        arithmetic_tensor *= encoder._scale // binary_tensor.encoder._scale
+    else:
+        arithmetic_tensor.div_(binary_tensor.encoder._scale // encoder._scale)
+    arithmetic_tensor.encoder = encoder
     return arithmetic_tensor
 
 
-- 
2.43.0


From 95b39580b1fce25521ae6f38dfda864a847f1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 19/87] fix: combining tensors of different precision ignored
 their encodings

---
 crypten/mpc/primitives/arithmetic.py | 47 ++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 8c1e6ce..a652cfd 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -12,7 +12,7 @@ import torch
 from crypten.common.functions import regular
 from crypten.common.rng import generate_random_ring_element
 from crypten.common.tensor_types import is_float_tensor, is_int_tensor, is_tensor
-from crypten.common.util import torch_stack
+from crypten.common.util import torch_cat, torch_stack
 from crypten.config import cfg
 from crypten.cryptensor import CrypTensor
 from crypten.cuda import CUDALongTensor
@@ -226,7 +226,7 @@ class ArithmeticSharedTensor:
         assert isinstance(value, ArithmeticSharedTensor), (
             "Unsupported input type %s for __setitem__" % type(value)
         )
-        self.share.__setitem__(index, value.share)
+        self.share.__setitem__(index, value.encode_as(self).share)
 
     def pad(self, pad, mode="constant", value=0):
         """
@@ -251,7 +251,7 @@ class ArithmeticSharedTensor:
             assert (
                 value.dim() == 0
             ), "Private values used for padding must be 0-dimensional"
-            value = value.share.item()
+            value = value.encode_as(self).share.item()
             result.share = torch.nn.functional.pad(
                 result.share, pad, mode=mode, value=value
             )
@@ -263,15 +263,36 @@ class ArithmeticSharedTensor:
         return result
 
     @staticmethod
-    def stack(tensors, *args, **kwargs):
-        """Perform tensor stacking"""
-        for i, tensor in enumerate(tensors):
-            if is_tensor(tensor):
-                tensors[i] = ArithmeticSharedTensor(tensor)
-            assert isinstance(tensors[i], ArithmeticSharedTensor), (
-                "Can't stack %s with ArithmeticSharedTensor" % type(tensor)
+    def _same_encoding(tensors, op):
+        """Returns tensors as ArithmeticSharedTensors that share one encoding"""
+        tensors = [
+            ArithmeticSharedTensor(tensor) if is_tensor(tensor) else tensor
+            for tensor in tensors
+        ]
+        for tensor in tensors:
+            assert isinstance(tensor, ArithmeticSharedTensor), (
+                "Can't %s %s with ArithmeticSharedTensor" % (op, type(tensor))
             )
+        finest = max(tensors, key=lambda tensor: tensor.encoder.scale)
+        return [
+            tensor
+            if tensor.encoder.scale == finest.encoder.scale
+            else tensor.encode_as(finest)
+            for tensor in tensors
+        ]
 
+    @staticmethod
+    def cat(tensors, *args, **kwargs):
+        """Perform tensor concatenation"""
+        tensors = ArithmeticSharedTensor._same_encoding(tensors, "cat")
+        result = tensors[0].shallow_copy()
+        result.share = torch_cat([tensor.share for tensor in tensors], *args, **kwargs)
+        return result
+
+    @staticmethod
+    def stack(tensors, *args, **kwargs):
+        """Perform tensor stacking"""
+        tensors = ArithmeticSharedTensor._same_encoding(tensors, "stack")
         result = tensors[0].shallow_copy()
         result.share = torch_stack(
             [tensor.share for tensor in tensors], *args, **kwargs
@@ -517,7 +538,7 @@ class ArithmeticSharedTensor:
             if self.rank == 0:
                 self._tensor.index_add_(dim, index, enc_tensor)
         elif private:
-            self._tensor.index_add_(dim, index, tensor._tensor)
+            self._tensor.index_add_(dim, index, tensor.encode_as(self)._tensor)
         else:
             raise TypeError("index_add second tensor of unsupported type")
         return self
@@ -544,7 +565,7 @@ class ArithmeticSharedTensor:
             if self.rank == 0:
                 self.share.scatter_add_(dim, index, self.encoder.encode(other))
         elif private:
-            self.share.scatter_add_(dim, index, other.share)
+            self.share.scatter_add_(dim, index, other.encode_as(self).share)
         else:
             raise TypeError("scatter_add second tensor of unsupported type")
         return self
@@ -633,7 +654,7 @@ class ArithmeticSharedTensor:
         assert isinstance(src, ArithmeticSharedTensor), (
             "Unrecognized scatter src type: %s" % type(src)
         )
-        self.share.scatter_(dim, index, src.share)
+        self.share.scatter_(dim, index, src.encode_as(self).share)
         return self
 
     def scatter(self, dim, index, src):
-- 
2.43.0


From ff009223f4444851e2a0a51d33669b5877fabd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 20/87] fix: cat() and stack() converted the wrong list entries
 and modified their input list

---
 crypten/common/functions/regular.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/common/functions/regular.py b/crypten/common/functions/regular.py
index 9d11a7c..b81d023 100644
--- a/crypten/common/functions/regular.py
+++ b/crypten/common/functions/regular.py
@@ -255,7 +255,8 @@ def __cat_stack_helper(op, tensors, *args, **kwargs):
         func = getattr(tensors[0]._tensor, op)
 
     # type coordination
-    for i, tensor in enumerate(tensors[1:]):
+    tensors = list(tensors)
+    for i, tensor in enumerate(tensors[1:], 1):
         if torch.is_tensor(tensor) or isinstance(tensor, (int, float)):
             tensors[i] = tensors[0].new(tensor)
         assert isinstance(tensors[i], type(tensors[0])), f"{op} tensor type mismatch"
-- 
2.43.0


From 9b23217c3c28cf68407202ba8c3de922e7a229c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 21/87] fix: crypten.cat() ignored dim when concatenating plain
 tensors

---
 crypten/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 8e2b84d..d9a1299 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -452,7 +452,7 @@ def cat(tensors, dim=0):
     """
     assert isinstance(tensors, list), "input to cat must be a list"
     if all(torch.is_tensor(t) for t in tensors):
-        return torch.cat(tensors)
+        return torch.cat(tensors, dim=dim)
 
     assert all(isinstance(t, CrypTensor) for t in tensors), "inputs must be CrypTensors"
     tensor_types = [get_cryptensor_type(t) for t in tensors]
-- 
2.43.0


From 54101f500d824a6f84fab8b01d0526853419c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 22/87] fix: encrypting large integers rounded them to single
 precision

---
 crypten/mpc/primitives/arithmetic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index a652cfd..f88c119 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -88,8 +88,6 @@ class ArithmeticSharedTensor:
         # encode the input tensor:
         self.encoder = FixedPointEncoder(precision_bits=precision)
         if tensor is not None:
-            if is_int_tensor(tensor) and precision != 0:
-                tensor = tensor.float()
             tensor = self.encoder.encode(tensor)
             tensor = tensor.to(device=device)
             size = tensor.size()
-- 
2.43.0


From 7e2e7776c35a0bd1151638d8b0879490c887152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 23/87] fix: max_pool2d() swapped the paddings of the two
 dimensions

---
 crypten/common/functions/pooling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index e726478..5d765a4 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -392,7 +392,10 @@ def _pool2d_reshape(
 
     out_size = tuple(n + (h, w))
 
-    input = torch.nn.functional.pad(input, padding, value=pad_value)
+    # torch pads the last dimension first
+    input = torch.nn.functional.pad(
+        input, padding[2:] + padding[:2], value=pad_value
+    )
     if ceil_mode:
         update_pad = [0, 0, 0, 0]
         update_pad[3] = h * s[0] + (k[0] - 1) * d[0] - input.size(-2)
-- 
2.43.0


From 082bc6dae490f881ea309c97a554a0dd7a0e4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 24/87] fix: count_wraps() missed an underflow to exactly zero

---
 crypten/common/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/common/util.py b/crypten/common/util.py
index bc051ea..ec94e40 100644
--- a/crypten/common/util.py
+++ b/crypten/common/util.py
@@ -22,7 +22,7 @@ def count_wraps(share_list):
     prev = share_list[0]
     for cur in share_list[1:]:
         next = cur + prev
-        result -= ((prev < 0) & (cur < 0) & (next > 0)).long()  # underflow
+        result -= ((prev < 0) & (cur < 0) & (next >= 0)).long()  # underflow
         result += ((prev > 0) & (cur > 0) & (next < 0)).long()  # overflow
         prev = next
     return result
-- 
2.43.0


From 77aae026e46ddb5f9b2deab03f65edf5d971a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 25/87] fix: overriding a configuration value with None stored
 the string 'None'

---
 crypten/config/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crypten/config/config.py b/crypten/config/config.py
index 2cfc0a0..a88e3ce 100644
--- a/crypten/config/config.py
+++ b/crypten/config/config.py
@@ -56,6 +56,10 @@ class CrypTenConfig:
         else:
             self.config = config
 
+    @staticmethod
+    def _to_dotlist_entry(name, value):
+        return f"{name}={'null' if value is None else value}"
+
     def __getattribute__(self, name):
         try:
             return object.__getattribute__(self, name)
@@ -77,7 +81,7 @@ class CrypTenConfig:
             object.__getattribute__(self, name)
             object.__setattr__(self, name, value)
         except AttributeError:
-            dotlist = [f"{name}={value}"]
+            dotlist = [self._to_dotlist_entry(name, value)]
             update = OmegaConf.from_dotlist(dotlist)
             self.config = OmegaConf.merge(self.config, update)
 
@@ -88,7 +92,7 @@ class CrypTenConfig:
     def temp_override(self, override_dict):
         old_config = self.config
         try:
-            dotlist = [f"{k}={v}" for k, v in override_dict.items()]
+            dotlist = [self._to_dotlist_entry(k, v) for k, v in override_dict.items()]
             update = OmegaConf.from_dotlist(dotlist)
             self.config = OmegaConf.merge(self.config, update)
             yield
-- 
2.43.0


From 6e67899cf70e45d0b233b011d7a0832c593db4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 26/87] fix: trace_once() raised an AttributeError

---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index 6868ddb..da7c636 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -54,7 +54,7 @@ class TupleProvider:
         """Sets tracing attribute True only if the request cache is empty.
         If `trace_once()` is called again, it sets tracing attribute to False
         """
-        untraced = self.request_cache.empty()
+        untraced = len(self.request_cache) == 0
         self.trace(tracing=untraced)
 
     def _save_requests(self, filepath=None):
-- 
2.43.0


From ddaafd604e539faf232083f60d55f704cfefdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 27/87] fix: requests beyond the number of cached tuples raised
 instead of generating tuples

---
 crypten/mpc/provider/provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/provider.py b/crypten/mpc/provider/provider.py
index da7c636..bb1c246 100644
--- a/crypten/mpc/provider/provider.py
+++ b/crypten/mpc/provider/provider.py
@@ -133,7 +133,7 @@ class TupleProvider:
             hashable_kwargs = frozenset(kwargs.items())
             request = (func_name, args, hashable_kwargs)
             # Read from cache
-            if request in self.tuple_cache.keys():
+            if self.tuple_cache.get(request):
                 return self.tuple_cache[request].pop()
             # Cache miss
             return object.__getattribute__(self, func_name)(*args, **kwargs)
-- 
2.43.0


From d5f43da8ce3ec24a431f0ecf3133afc0a1bb0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 28/87] fix: the trusted third party drew its seeds from
 torch's default generator

---
 crypten/mpc/provider/ttp_provider.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/provider/ttp_provider.py b/crypten/mpc/provider/ttp_provider.py
index 9ff5bf3..6fb5ec3 100644
--- a/crypten/mpc/provider/ttp_provider.py
+++ b/crypten/mpc/provider/ttp_provider.py
@@ -6,6 +6,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import logging
+import os
 
 import crypten
 import crypten.communicator as comm
@@ -251,7 +252,12 @@ class TTPServer:
         """Create random generator to send to a party"""
         ws = comm.get().get_world_size()
 
-        seeds = [torch.randint(-(2**63), 2**63 - 1, size=()) for _ in range(ws)]
+        # NOTE: torch's default generator starts from a fixed seed (and can be seeded
+        # by the user), so it would make the parties' tuples predictable.
+        seeds = [
+            torch.tensor(int.from_bytes(os.urandom(8), "big") - 2**63)
+            for _ in range(ws)
+        ]
         reqs = [
             dist.isend(tensor=seeds[i], dst=i, group=self.ttp_group) for i in range(ws)
         ]
-- 
2.43.0


From 57aef30f355841e5e3884c8475ddffe95294c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 29/87] fix: crypten.uninit() left a stale trusted-third-party
 client behind

---
 crypten/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index d9a1299..0ca1c3e 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -85,6 +85,7 @@ def init_thread(rank, world_size):
 
 
 def uninit():
+    crypten.mpc.provider.ttp_provider.TTPClient.uninit()
     return comm.uninit()
 
 
-- 
2.43.0


From 614237dd2605ca31bc07472070a11727f750ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 30/87] fix: verbose communication logging failed for peers
 given by keyword

---
 crypten/communicator/communicator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypten/communicator/communicator.py b/crypten/communicator/communicator.py
index 5ede390..9efa960 100644
--- a/crypten/communicator/communicator.py
+++ b/crypten/communicator/communicator.py
@@ -175,6 +175,7 @@ def _logging(func):
         if cfg.communicator.verbose:
             rank = self.get_rank()
             _log = self._log_communication
+            peer = args[1] if len(args) > 1 else kwargs.get("src", kwargs.get("dst"))
 
             # count number of bytes communicates for each MPI collective:
             if func.__name__ == "barrier":
@@ -182,7 +183,7 @@ def _logging(func):
             elif func.__name__ in ["send", "recv", "isend", "irecv"]:
                 _log(args[0].nelement())  # party sends or receives tensor
             elif func.__name__ == "scatter":
-                if args[1] == rank:  # party scatters P - 1 tensors
+                if peer == rank:  # party scatters P - 1 tensors
                     nelements = sum(
                         x.nelement() for idx, x in enumerate(args[0]) if idx != rank
                     )
@@ -198,7 +199,7 @@ def _logging(func):
                 _log(nbytes / self.BYTES_PER_ELEMENT * (world_size - 1))
                 # party sends object to P - 1 parties
             elif func.__name__ in ["broadcast", "gather", "reduce"]:
-                multiplier = world_size - 1 if args[1] == rank else 1
+                multiplier = world_size - 1 if peer == rank else 1
                 # broadcast: party sends tensor to P - 1 parties, or receives 1 tensor
                 # gather: party receives P - 1 tensors, or sends 1 tensor
                 # reduce: party receives P - 1 tensors, or sends 1 tensor
@@ -222,7 +223,7 @@ def _logging(func):
             self._log_communication_time(toc - tic)
 
             # for some function, we only know the object size now:
-            if func.__name__ == "scatter" and args[1] != rank:
+            if func.__name__ == "scatter" and peer != rank:
                 _log(result.nelement())  # party receives 1 tensor
             if func.__name__ == "recv_obj":
                 _log(sys.getsizeof(result) / self.BYTES_PER_ELEMENT)
-- 
2.43.0


From a3b6b929295b1f6f115b43bbe41489efe9a687d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:17 +0000
Subject: [PATCH 31/87] fix: run_multiprocess() deadlocked on large return
 values and could not return tensors

---
 crypten/mpc/context.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/context.py b/crypten/mpc/context.py
index dd3614c..3f53faa 100644
--- a/crypten/mpc/context.py
+++ b/crypten/mpc/context.py
@@ -9,8 +9,10 @@ import functools
 import logging
 import multiprocessing
 import os
+import pickle
 import tempfile
 from operator import itemgetter
+from queue import Empty
 
 import crypten
 from crypten.communicator import DistributedCommunicator
@@ -30,7 +32,10 @@ def _launch(func, rank, world_size, rendezvous_file, queue, func_args, func_kwar
     return_value = func(*func_args, **func_kwargs)
     crypten.uninit()
 
-    queue.put((rank, return_value))
+    # Serialize the value here: tensors would otherwise be shared with the receiving
+    # process, which does not work after this process has exited.
+    if rank < world_size:
+        queue.put((rank, pickle.dumps(return_value)))
 
 
 def run_multiprocess(world_size, maxsize=None):
@@ -93,6 +98,15 @@ def run_multiprocess(world_size, maxsize=None):
             for process in processes:
                 process.start()
 
+            # Drain the queue while the parties are running: a party does not exit
+            # before its return value has been consumed.
+            return_values = []
+            while any(process.is_alive() for process in processes):
+                try:
+                    return_values.append(queue.get(timeout=0.1))
+                except Empty:
+                    pass
+
             for process in processes:
                 process.join()
 
@@ -104,11 +118,13 @@ def run_multiprocess(world_size, maxsize=None):
                 logging.error("One of the parties failed. Check past logs")
                 return None
 
-            return_values = []
             while not queue.empty():
                 return_values.append(queue.get())
 
-            return [value for _, value in sorted(return_values, key=itemgetter(0))]
+            return [
+                pickle.loads(value)
+                for _, value in sorted(return_values, key=itemgetter(0))
+            ]
 
         return wrapper
 
-- 
2.43.0


From 9dd8b6cd2526fb6a97f680d38c082315cafcd71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 32/87] fix: accumulating gradients modified the gradient
 passed to an earlier backward()

---
 crypten/cryptensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index 4f71d7d..ed3a461 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -236,7 +236,7 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                 if self.grad is None:
                     self.grad = grad_input  # store gradient...
                 else:
-                    self.grad.add_(grad_input)  # ... or accumulate gradient
+                    self.grad = self.grad.add(grad_input)  # ... or accumulate gradient
 
                 # if we are in a leaf or if not all parents have backpropagated:
                 if len(self.children) == 0 or self.grad_received < self.grad_expected:
-- 
2.43.0


From 3eb32ba0f7117d2926e95f18b45508f379d7a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 33/87] fix: in-process broadcasts could be overtaken by other
 messages

---
 crypten/communicator/in_process_communicator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypten/communicator/in_process_communicator.py b/crypten/communicator/in_process_communicator.py
index ca4bb3c..cdb1644 100644
--- a/crypten/communicator/in_process_communicator.py
+++ b/crypten/communicator/in_process_communicator.py
@@ -185,11 +185,15 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
+        # All messages sent before the broadcast must arrive before it, and all
+        # messages sent after it must arrive after it.
+        self.barrier.wait()
+
         if self.rank == src:
             for i in range(self.get_world_size()):
                 self.mailbox[i].put(tensor.clone())
 
-        # No need for a barrier here.
+        self.barrier.wait()
 
         return self.mailbox[self.rank].get()
 
-- 
2.43.0


From c2fdb2a907fa75d52098e54e76ee564dd12d3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 34/87] fix: graphs could not use the same value twice as input
 of a node

---
 crypten/nn/module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 21d0fd5..9436bdf 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -669,8 +669,9 @@ class Graph(Container):
             """Marks a value as having been computed."""
             computed[name] = True
             for key, value_list in self._graph.items():
-                if name in value_list:
-                    inputs_available[key][value_list.index(name)] = True
+                for idx, value_name in enumerate(value_list):
+                    if value_name == name:
+                        inputs_available[key][idx] = True
 
         def _find_computable_node():
             """Find a node for which all inputs are available."""
-- 
2.43.0


From 8f05f78fe9145b155472c8d48f14baf5ba7d04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 35/87] fix: graphs with several outputs dropped outputs
 computed early

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 9436bdf..b33cdf6 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -684,7 +684,7 @@ class Graph(Container):
             """Clear values that are no longer needed (to save memory)."""
             remove_keys = []
             for remove_key in values.keys():
-                can_be_removed = True
+                can_be_removed = remove_key not in self.output_names
 
                 # we cannot remove a value if it is still needed:
                 for key, value_list in self._graph.items():
-- 
2.43.0


From bef27c4768572540db7388a2a5cb41dcefb7f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 36/87] fix: load_from_party() sent the buffers of a model to
 all parties

---
 crypten/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 0ca1c3e..68a757c 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -341,6 +341,8 @@ def load_from_party(
                 result_zeros = copy.deepcopy(result)
                 for p in result_zeros.parameters():
                     p.data.fill_(0)
+                for b in result_zeros.buffers():
+                    b.data.fill_(0)
             else:
                 result = comm.get().broadcast_obj(-1, src)
                 raise TypeError("Unrecognized load type %s" % type(result))
-- 
2.43.0


From 0e521898d276e854bdbc6c459fca985b0e09312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 37/87] fix: load_state_dict() did not restore buffers

---
 crypten/nn/module.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index b33cdf6..60484f3 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -239,6 +239,13 @@ class Module:
         local_state = {
             key: val for key, val in self.named_parameters() if val is not None
         }
+        local_state.update(
+            {
+                key: val
+                for key, val in self.named_buffers()
+                if torch.is_tensor(val) or isinstance(val, crypten.CrypTensor)
+            }
+        )
 
         # in strict mode, check for missing keys in the state_dict:
         if strict:
-- 
2.43.0


From e263e7ac5eac9355f4f9aac4c41690a51f65e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 38/87] fix: batch normalization kept using an outdated frozen
 variance

---
 crypten/nn/module.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 60484f3..99de9a1 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2913,13 +2913,25 @@ class _BatchNorm(Module):
     def train(self, mode=True):
         """Freezes the inverse variance during inference to save computation"""
         super().train(mode=mode)
+        self._freeze_inv_var()
+        return self
+
+    def set_buffer(self, name, buffer):
+        super().set_buffer(name, buffer)
+        if name == "running_var":
+            self._freeze_inv_var()
+
+    def _load_from_state_dict_crypten(self, *args, **kwargs):
+        super()._load_from_state_dict_crypten(*args, **kwargs)
+        self._freeze_inv_var()
+
+    def _freeze_inv_var(self):
         if self.training:
             self.inv_var = None
         elif isinstance(self.running_var, crypten.CrypTensor):
             self.inv_var = self.running_var.add(self.eps).inv_sqrt()
         else:
             self.inv_var = self.running_var.add(self.eps).sqrt().reciprocal()
-        return self
 
 
 class BatchNorm1d(_BatchNorm):
-- 
2.43.0


From dd0ce28ddd6b8dcdf01e3becc8df3ca42b2ea06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 39/87] fix: imported convolutions with different paddings per
 dimension padded wrongly

---
 crypten/nn/module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 99de9a1..c600ecb 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2021,8 +2021,13 @@ class Conv(Module):
             assert attr in attributes, f"missing attribute {attr}"
 
         # CrypTen and Torch use a single padding number per dimension:
+        # (ONNX lists the paddings at the start of all dimensions before those at the end)
         padding = attributes["pads"]
-        padding = [padding[idx] for idx in range(0, len(padding), 2)]
+        ndims = len(padding) // 2
+        assert (
+            padding[:ndims] == padding[ndims:]
+        ), "padding must be the same on both sides of a dimension"
+        padding = padding[:ndims]
 
         # return module:
         return Conv(
-- 
2.43.0


From 89ed9accf15ed9b7ccc5f44ac2a4688a227ab10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 40/87] fix: imported convolutions with bias failed on
 plaintext inputs

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index c600ecb..77d30d3 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1997,7 +1997,7 @@ class Conv(Module):
         # identify correct convolution function to use:
         if torch.is_tensor(x):
             func = getattr(torch.nn.functional, f"conv{dim}d", None)
-            args = [x] + args + bias  # torch function takes different inputs
+            args = [x] + args + [bias]  # torch function takes different inputs
         else:
             func = getattr(x, f"conv{dim}d", None)
 
-- 
2.43.0


From d6e3eb6555adc94eae5d582dd9b5592f0d29c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 41/87] fix: unsupported pooling layers were imported as
 different ones instead of rejected

---
 crypten/nn/module.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 77d30d3..c16f97f 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2570,10 +2570,22 @@ class _Pool2d(Module):
             attributes = {}
         if "pads" not in attributes:
             attributes["pads"] = [0]
-        assert _all_the_same(["kernel_shape"]), "only square kernels are supported"
+        assert _all_the_same(
+            attributes["kernel_shape"]
+        ), "only square kernels are supported"
         assert _all_the_same(
             attributes["strides"]
         ), "stride must be the same in each dimension"
+        assert _all_the_same(
+            attributes["pads"]
+        ), "padding must be the same in each dimension"
+        assert _all_the_same(
+            [1] + list(attributes.get("dilations", []))
+        ), "dilated pooling is not supported"
+        if pool_type == "average" and attributes["pads"][0] > 0:
+            assert attributes.get(
+                "count_include_pad", 0
+            ), "padding must be included in average pooling"
         attributes["ceil_mode"] = attributes.get("ceil_mode", 0)
         attributes["ceil_mode"] = attributes["ceil_mode"] > 0
 
-- 
2.43.0


From dc65ae3b41c2408586b6a63435e47ccea0077c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 42/87] fix: update_parameters() could scale the gradients it
 applied

---
 crypten/nn/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index c16f97f..2d00b7c 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -350,7 +350,7 @@ class Module:
                 else:
                     grad = param.grad
 
-                param.sub_(grad.mul_(learning_rate))
+                param.sub_(grad.mul(learning_rate))
 
     def register_buffer(self, name, buffer):
         """
-- 
2.43.0


From 35cb32fef4ade9e4e4af2cc15d641880a345395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 43/87] fix: DPSplitModel ignored party 0 as source of the
 noise

---
 crypten/nn/privacy/dp_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/privacy/dp_split.py b/crypten/nn/privacy/dp_split.py
index 1ef0fc0..731a550 100644
--- a/crypten/nn/privacy/dp_split.py
+++ b/crypten/nn/privacy/dp_split.py
@@ -351,7 +351,7 @@ class DPSplitModel(nn.Module):
         # Determine noise generation function
         generate_noise = (
             self._generate_noise_from_src
-            if self.noise_src
+            if self.noise_src is not None
             else self._generate_noise_no_src
         )
         noise = generate_noise(grad.size())
-- 
2.43.0


From 0228b473eb6889a9967c129418ddc78071508dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 44/87] fix: randomized response on encrypted targets did not
 flip labels

---
 crypten/nn/privacy/dp_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/privacy/dp_split.py b/crypten/nn/privacy/dp_split.py
index 731a550..1b35efb 100644
--- a/crypten/nn/privacy/dp_split.py
+++ b/crypten/nn/privacy/dp_split.py
@@ -269,7 +269,7 @@ class DPSplitModel(nn.Module):
         if crypten.is_encrypted_tensor(targets):
             if self.rr_prob is not None:
                 flip_mask = crypten.bernoulli(flip_probs)
-                targets = targets + flip_probs - 2 * flip_mask * targets
+                targets = targets + flip_mask - 2 * flip_mask * targets
             targets_enc = targets
         else:
             # Label provider adds RR label flips if they are plaintext
-- 
2.43.0


From 72f4245dc4faa45f57effb9fa1d607f4d0717b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 45/87] fix: randomized response modified the label owner's
 targets

---
 crypten/nn/privacy/dp_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/privacy/dp_split.py b/crypten/nn/privacy/dp_split.py
index 1b35efb..1bacd0c 100644
--- a/crypten/nn/privacy/dp_split.py
+++ b/crypten/nn/privacy/dp_split.py
@@ -275,7 +275,7 @@ class DPSplitModel(nn.Module):
             # Label provider adds RR label flips if they are plaintext
             if self.rr_prob is not None and self.is_label_src():
                 flip_mask = flip_probs.bernoulli()
-                targets += flip_mask - 2 * targets * flip_mask
+                targets = targets + flip_mask - 2 * targets * flip_mask
 
             # Encrypt targets:
             targets_enc = crypten.cryptensor(targets, src=self.label_src)
-- 
2.43.0


From 8afc12130437a6f0b54e67608c40b57a67ed6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 46/87] fix: dividing a zero-dimensional tensor by a
 non-integer number raised an error

---
 crypten/mpc/primitives/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index f88c119..8a62a79 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -495,7 +495,7 @@ class ArithmeticSharedTensor:
 
         # Otherwise multiply by reciprocal
         if isinstance(y, float):
-            y = torch.tensor([y], dtype=torch.float, device=self.device)
+            y = torch.tensor(y, dtype=torch.float, device=self.device)
 
         assert is_float_tensor(y), "Unsupported type for div_: %s" % type(y)
         return self.mul_(y.reciprocal())
-- 
2.43.0


From 331c19eb47edc300c118bc83e7a47c7f0d2c9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:15 +0000
Subject: [PATCH 47/87] fix: adaptive pooling computed window bounds with
 rounding errors

---
 crypten/common/functions/pooling.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index 5d765a4..e704049 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -5,8 +5,6 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-import math
-
 import torch
 
 __all__ = [
@@ -222,15 +220,13 @@ def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
 
     # Compute the start_index and end_index for kernels
     def compute_kernels(in_size, out_size):
-        step = in_size / out_size
-
         starts = []
         ends = []
         max_kernel_size = 0
         for j in range(out_size):
             # Compute local kernel size
-            start_index = int(j * step)
-            end_index = int(math.ceil((j + 1) * step))
+            start_index = (j * in_size) // out_size
+            end_index = -(-(j + 1) * in_size // out_size)
             k = end_index - start_index
 
             # Update global kernel size
-- 
2.43.0


From bf56cc57d579bd97e4901ad423cb654f258af415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:31 +0000
Subject: [PATCH 48/87] fix: adaptive pooling functions rejected integer sizes
 and ignored a size next to None

---
 crypten/common/functions/pooling.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crypten/common/functions/pooling.py b/crypten/common/functions/pooling.py
index e704049..55b4dd8 100644
--- a/crypten/common/functions/pooling.py
+++ b/crypten/common/functions/pooling.py
@@ -154,8 +154,7 @@ def adaptive_avg_pool2d(self, output_size):
         output_size: the target output size (single integer or
             double-integer tuple)
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
+    output_size = _adaptive_output_size(self, output_size)
 
     if self.shape[-2:] == output_size:
         return self.clone()
@@ -177,8 +176,7 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
             double-integer tuple)
         return_indices: whether to return pooling indices. Default: ``False``
     """
-    if output_size is None or output_size[0] is None:
-        output_size = self.shape[-2:]
+    output_size = _adaptive_output_size(self, output_size)
 
     if self.shape[-2:] == output_size:
         if return_indices:
@@ -194,6 +192,17 @@ def adaptive_max_pool2d(self, output_size, return_indices=False):
 
 
 # Helper functions
+def _adaptive_output_size(input, output_size):
+    """Returns the output size of an adaptive pooling as a pair of integers."""
+    if output_size is None or isinstance(output_size, int):
+        output_size = (output_size, output_size)
+    assert len(output_size) == 2, "output_size must be 2-dimensional."
+    return tuple(
+        input.size(i - 2) if size is None else size
+        for i, size in enumerate(output_size)
+    )
+
+
 def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
     r"""
     Provides a helper that adapts the input size and provides input
@@ -208,15 +217,7 @@ def _adaptive_pool2d_helper(input, output_size, reduction="mean"):
 
     input = input.clone()
 
-    if isinstance(output_size, int):
-        output_size = (output_size, output_size)
-
-    assert len(output_size) == 2, "output_size must be 2-dimensional."
-
-    output_size = list(output_size)
-    for i in range(2):
-        if output_size[i] is None:
-            output_size[i] = input.size(i - 2)
+    output_size = _adaptive_output_size(input, output_size)
 
     # Compute the start_index and end_index for kernels
     def compute_kernels(in_size, out_size):
-- 
2.43.0


From 717f89da68b246a330717a4357b754820ac9237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:10 +0000
Subject: [PATCH 49/87] fix: combining integer-encoded tensors with fractional
 public values dropped the fraction

---
 crypten/mpc/primitives/arithmetic.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 8a62a79..5abc593 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -24,6 +24,13 @@ from . import beaver, replicated  # noqa: F401
 SENTINEL = -1
 
 
+def _has_fraction(y):
+    """Whether public value y is not an integer (or a tensor of integers)"""
+    if isinstance(y, float):
+        return not y.is_integer()
+    return is_float_tensor(y) and bool(y.frac().ne(0).any())
+
+
 # MPC tensor where shares additive-sharings.
 class ArithmeticSharedTensor:
     """
@@ -378,6 +385,15 @@ class ArithmeticSharedTensor:
             result = self.clone()
 
         if public:
+            # An integer encoding (e.g., the result of a comparison) cannot hold
+            # the sum or product with a fraction: use the default encoding then.
+            scale = result.encoder.scale
+            if scale == 1 and _has_fraction(y):
+                encoder = FixedPointEncoder()
+                if additive_func:
+                    result.encode_(encoder)
+                else:
+                    result.encoder = encoder
             y = result.encoder.encode(y, device=self.device)
 
             if additive_func:  # ['add', 'sub']
@@ -408,11 +424,9 @@ class ArithmeticSharedTensor:
 
         # Scale by encoder scale if necessary
         if not additive_func:
-            if public:  # scale by self.encoder.scale
-                if self.encoder.scale > 1:
-                    return result.div_(result.encoder.scale)
-                else:
-                    result.encoder = self.encoder
+            if public:  # scale by the scale that self had
+                if scale > 1:
+                    return result.div_(scale)
             else:  # keep larger of self.encoder.scale and y.encoder.scale
                 scale = min(self.encoder.scale, y.encoder.scale)
                 if self.encoder.scale < y.encoder.scale:
-- 
2.43.0


From 7ff543ff9be05b2b23af5f199d351bacfc3340d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:22 +0000
Subject: [PATCH 50/87] fix: cat and stack of a single tensor returned an alias
 of it

---
 crypten/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 68a757c..2a293ed 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -463,7 +463,7 @@ def cat(tensors, dim=0):
         ttype == tensor_types[0] for ttype in tensor_types
     ), "cannot concatenate CrypTensors with different underlying types"
     if len(tensors) == 1:
-        return tensors[0]
+        return tensors[0].clone()
     return type(tensors[0]).cat(tensors, dim=dim)
 
 
@@ -479,7 +479,7 @@ def stack(tensors, dim=0):
         ttype == tensor_types[0] for ttype in tensor_types
     ), "cannot stack CrypTensors with different underlying types"
     if len(tensors) == 1:
-        return tensors[0].unsqueeze(dim)
+        return tensors[0].clone().unsqueeze(dim)
     return type(tensors[0]).stack(tensors, dim=dim)
 
 
-- 
2.43.0


From 9f20b6ecf493adc2aa06664de9cc8e77ed74ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 51/87] fix: linear polynomial of a zero-dimensional tensor
 returned a vector

---
 crypten/common/functions/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/common/functions/power.py b/crypten/common/functions/power.py
index cb14830..223a06a 100644
--- a/crypten/common/functions/power.py
+++ b/crypten/common/functions/power.py
@@ -76,7 +76,7 @@ def polynomial(self, coeffs, func="mul"):
 
     # Handle linear case
     if coeffs.size(0) == 1:
-        return self.mul(coeffs)
+        return self.mul(coeffs[0])
 
     # Compute terms of polynomial using exponentially growing tree
     terms = crypten.stack([self, self.square()])
-- 
2.43.0


From b459d027d9d6d12cd5431a4ad17853d6f2208332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 52/87] fix: indexing with [] dropped the gradient

---
 crypten/cryptensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index ed3a461..f75964a 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -727,3 +727,14 @@ for module_name in functions.__all__:
     module = getattr(functions, module_name)
     for func in module.__all__:
         setattr(CrypTensor, func, getattr(module, func))
+
+
+def _getitem(self, index):
+    # Python looks up the [] operator on the class, which bypasses the autograd
+    # dispatch in CrypTensor.__getattribute__
+    if CrypTensor.AUTOGRAD_ENABLED and self.requires_grad:
+        return self.__getattribute__("__getitem__")(index)
+    return functions.regular.__getitem__(self, index)
+
+
+CrypTensor.__getitem__ = _getitem
-- 
2.43.0


From 5de401584f86f51abfe17bee1689e1855b87af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 53/87] fix: gradient of narrow failed for negative dimensions

---
 crypten/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 376e4fa..709f7e1 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -304,7 +304,7 @@ class AutogradNarrow(AutogradFunction):
         size, dim, start, length = ctx.saved_tensors
 
         # pad is applied to dimensions in reverse order
-        dim = grad_output.dim() - 1 - dim
+        dim = grad_output.dim() - 1 - dim % grad_output.dim()
 
         # pad is applied in pairs that denote the pads at the beginning and end
         # of the tensor along the given dimension
-- 
2.43.0


From a3369366f3073aabaeee1a50cd6272312cd69425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 54/87] fix: gradient of matmul between a batch of matrices and
 a vector

---
 crypten/gradients.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 709f7e1..a969eb4 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -758,11 +758,11 @@ class AutogradMatMul(AutogradFunction):
         # < 2 dimensional tensor
         if self_.dim() < 2:
             self_ = self_.unsqueeze(0)
-            grad_output = grad_output.unsqueeze(0)
+            grad_output = grad_output.unsqueeze(-2 if other.dim() > 1 else 0)
 
         if other.dim() < 2:
             other = other.unsqueeze(1)
-            grad_output = grad_output.unsqueeze(1)
+            grad_output = grad_output.unsqueeze(-1)
 
         # Compute gradients
         self_grad = grad_output.matmul(other.transpose(-2, -1))
@@ -770,14 +770,10 @@ class AutogradMatMul(AutogradFunction):
 
         # Fix gradient sizes for vector inputs
         if len(self_size) < 2:
-            self_grad = self_grad.squeeze()
-            if self_grad.dim() < 1:
-                self_grad = self_grad.unsqueeze(0)
+            self_grad = self_grad.squeeze(-2)
 
         if len(other_size) < 2:
-            other_grad = other_grad.squeeze()
-            if other_grad.dim() < 1:
-                other_grad = other_grad.unsqueeze(0)
+            other_grad = other_grad.squeeze(-1)
 
         return (
             _inverse_broadcast(self_grad, self_size),
-- 
2.43.0


From ced66e67d91d686db80aa52c14d1a04e4e435e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:23 +0000
Subject: [PATCH 55/87] fix: replicated sharing of non-contiguous shares

---
 crypten/mpc/primitives/replicated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 4f245b8..6fc0360 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -23,7 +23,9 @@ def replicate_shares(share_list):
     reqs = []
     rep_shares = []
     for share in share_list:
-        rep_shares.append(torch.zeros_like(share))
+        rep_shares.append(
+            torch.zeros_like(share, memory_format=torch.contiguous_format)
+        )
 
         send_req = comm.get().isend(share.contiguous(), dst=next_rank)
         recv_req = comm.get().irecv(rep_shares[-1], src=prev_rank)
-- 
2.43.0


From d83cdb9341ae2bed910fec3345034e17697bbc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:23 +0000
Subject: [PATCH 56/87] fix: collectives mixed up elements of tensors that are
 not laid out contiguously

---
 .../communicator/distributed_communicator.py  | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/crypten/communicator/distributed_communicator.py b/crypten/communicator/distributed_communicator.py
index da9a172..3cca151 100644
--- a/crypten/communicator/distributed_communicator.py
+++ b/crypten/communicator/distributed_communicator.py
@@ -116,13 +116,13 @@ class DistributedCommunicator(Communicator):
     def send(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
         assert dist.is_initialized(), "initialize the communicator first"
-        dist.send(tensor.data, dst, group=self.main_group)
+        dist.send(tensor.data.contiguous(), dst, group=self.main_group)
 
     @_logging
     def recv(self, tensor, src=None):
         """Receives a tensor from an (optional) source src."""
         assert dist.is_initialized(), "initialize the communicator first"
-        result = tensor.clone()
+        result = tensor.clone(memory_format=torch.contiguous_format)
         dist.recv(result.data, src=src, group=self.main_group)
         return result
 
@@ -130,7 +130,7 @@ class DistributedCommunicator(Communicator):
     def isend(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
         assert dist.is_initialized(), "initialize the communicator first"
-        return dist.isend(tensor.data, dst, group=self.main_group)
+        return dist.isend(tensor.data.contiguous(), dst, group=self.main_group)
 
     @_logging
     def irecv(self, tensor, src=None):
@@ -153,7 +153,7 @@ class DistributedCommunicator(Communicator):
             tensor = torch.empty(size=size, dtype=torch.long, device=device)
             dist.scatter(tensor.data, [], src, group=self.main_group)
         else:
-            scatter_list = [s.data for s in scatter_list]
+            scatter_list = [s.data.contiguous() for s in scatter_list]
             tensor = scatter_list[self.get_rank()]
             dist.scatter(tensor.data, scatter_list, src, group=self.main_group)
         return tensor
@@ -166,7 +166,9 @@ class DistributedCommunicator(Communicator):
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
             reqs = []
-            result = [x.clone().data for x in input]
+            result = [
+                x.clone(memory_format=torch.contiguous_format).data for x in input
+            ]
             for tensor in result:
                 reqs.append(
                     dist.reduce(
@@ -179,7 +181,7 @@ class DistributedCommunicator(Communicator):
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            result = input.clone()
+            result = input.clone(memory_format=torch.contiguous_format)
             dist.reduce(result.data, dst, op=op, group=self.main_group)
 
         return result if dst == self.get_rank() else None
@@ -192,7 +194,7 @@ class DistributedCommunicator(Communicator):
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
             reqs = []
-            result = [x.clone() for x in input]
+            result = [x.clone(memory_format=torch.contiguous_format) for x in input]
             for tensor in result:
                 reqs.append(
                     dist.all_reduce(
@@ -205,7 +207,7 @@ class DistributedCommunicator(Communicator):
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            result = input.clone()
+            result = input.clone(memory_format=torch.contiguous_format)
             dist.all_reduce(result.data, op=op, group=self.main_group)
         return result
 
@@ -220,9 +222,9 @@ class DistributedCommunicator(Communicator):
                 result.append(
                     torch.empty(size=tensor.size(), dtype=torch.long, device=device)
                 )
-            dist.gather(tensor.data, result, dst, group=self.main_group)
+            dist.gather(tensor.data.contiguous(), result, dst, group=self.main_group)
             return result
-        dist.gather(tensor.data, [], dst, group=self.main_group)
+        dist.gather(tensor.data.contiguous(), [], dst, group=self.main_group)
         return [None]
 
     @_logging
@@ -246,17 +248,22 @@ class DistributedCommunicator(Communicator):
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
             reqs = []
-            for tensor in input:
-                reqs.append(
-                    dist.broadcast(tensor.data, src, group=group, async_op=True)
-                )
+            buffers = [tensor.data.contiguous() for tensor in input]
+            for buffer in buffers:
+                reqs.append(dist.broadcast(buffer, src, group=group, async_op=True))
             for req in reqs:
                 req.wait()
+            for tensor, buffer in zip(input, buffers):
+                if not tensor.is_contiguous():
+                    tensor.data.copy_(buffer)
         else:
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            dist.broadcast(input.data, src, group=group)
+            buffer = input.data.contiguous()
+            dist.broadcast(buffer, src, group=group)
+            if not input.is_contiguous():
+                input.data.copy_(buffer)
         return input
 
     @_logging
-- 
2.43.0


From 88a8042295117a378a97371892e82abfba3da9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:01 +0000
Subject: [PATCH 57/87] fix: products under replicated sharing were not
 re-randomized

---
 crypten/mpc/primitives/replicated.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/primitives/replicated.py b/crypten/mpc/primitives/replicated.py
index 6fc0360..43a9dec 100644
--- a/crypten/mpc/primitives/replicated.py
+++ b/crypten/mpc/primitives/replicated.py
@@ -66,6 +66,10 @@ def __replicated_secret_sharing_protocol(op, x, y, *args, **kwargs):
     z.share += getattr(torch, op)(x1, y2, *args, **kwargs)
     z.share += getattr(torch, op)(x2, y1, *args, **kwargs)
 
+    # Re-randomize the product (alpha in ABY3): its shares are sent to other
+    # parties, which know two of the three shares of each factor.
+    z.share += x.PRZS(z.share.size(), device=x.device).share
+
     return z
 
 
@@ -100,7 +104,7 @@ def square(x):
     x_square = x1**2 + 2 * x1 * x2
 
     z = x.shallow_copy()
-    z.share = x_square
+    z.share = x_square + x.PRZS(x.size(), device=x.device).share
     return z
 
 
@@ -149,5 +153,6 @@ def AND(x, y):
 
     z = x.shallow_copy()
     z.share = (x1 & y1) ^ (x2 & y1) ^ (x1 & y2)
+    z.share ^= BinarySharedTensor.PRZS(z.share.size(), device=z.share.device).share
 
     return z
-- 
2.43.0


From c4e48cbc65417f433b265f0390a41cf720a6e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:58 +0000
Subject: [PATCH 58/87] fix: a failed load or save at one party left the others
 waiting

---
 crypten/__init__.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index 2a293ed..aed0333 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -325,14 +325,19 @@ def load_from_party(
 
         # source party
         if comm.get().get_rank() == src:
-            assert (f is None and (preloaded is not None)) or (
-                (f is not None) and preloaded is None
-            ), "Exactly one of f and preloaded must not be None"
-
-            if f is None:
-                result = preloaded
-            if preloaded is None:
-                result = load_closure(f, **kwargs)
+            try:
+                assert (f is None and (preloaded is not None)) or (
+                    (f is not None) and preloaded is None
+                ), "Exactly one of f and preloaded must not be None"
+
+                if f is None:
+                    result = preloaded
+                if preloaded is None:
+                    result = load_closure(f, **kwargs)
+            except Exception:
+                # the other parties are waiting for the result
+                comm.get().broadcast_obj(-1, src)
+                raise
 
             # Zero out the tensors / modules to hide loaded data from broadcast
             if torch.is_tensor(result):
@@ -355,7 +360,7 @@ def load_from_party(
                 crypten.common.serial.register_safe_class(model_class)
             result = comm.get().broadcast_obj(None, src)
             if isinstance(result, int) and result == -1:
-                raise TypeError("Unrecognized load type from src party")
+                raise TypeError("Load failed or unrecognized load type at src party")
 
         if torch.is_tensor(result):
             result = crypten.cryptensor(result, src=src)
@@ -413,11 +418,12 @@ def save_from_party(obj, f, src=0, save_closure=torch.save, **kwargs):
             src >= 0 and src < comm.get().get_world_size()
         ), "Save failed: src must be an integer in [0, world_size)"
 
-        if comm.get().get_rank() == src:
-            save_closure(obj, f, **kwargs)
-
-    # Implement barrier to avoid race conditions that require file to exist
-    comm.get().barrier()
+        try:
+            if comm.get().get_rank() == src:
+                save_closure(obj, f, **kwargs)
+        finally:
+            # Implement barrier to avoid race conditions that require file to exist
+            comm.get().barrier()
 
 
 def save(obj, f, save_closure=torch.save, **kwargs):
@@ -433,8 +439,10 @@ def save(obj, f, save_closure=torch.save, **kwargs):
         `crypten.load`. Additional kwargs are passed on to the closure.
     """
     # TODO: Add support for saving to correct device (kwarg: map_location=device)
-    save_closure(obj, f, **kwargs)
-    comm.get().barrier()
+    try:
+        save_closure(obj, f, **kwargs)
+    finally:
+        comm.get().barrier()
 
 
 def where(condition, input, other):
-- 
2.43.0


From b51fbbbe525072346059b5b08743153b6eafc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 59/87] fix: an invalid multiplication stopped the trusted
 third party

---
 crypten/mpc/provider/ttp_provider.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/provider/ttp_provider.py b/crypten/mpc/provider/ttp_provider.py
index 6fb5ec3..321b5a7 100644
--- a/crypten/mpc/provider/ttp_provider.py
+++ b/crypten/mpc/provider/ttp_provider.py
@@ -29,6 +29,15 @@ class TrustedThirdParty(TupleProvider):
         """Generate multiplicative triples of given sizes"""
         generator = TTPClient.get().get_generator(device=device)
 
+        # Raises on incompatible sizes, before the TTP is involved and before the
+        # generators shared with it advance
+        c_size = getattr(torch, op)(
+            torch.empty(size0, device="meta"),
+            torch.empty(size1, device="meta"),
+            *args,
+            **kwargs,
+        ).size()
+
         a = generate_random_ring_element(size0, generator=generator, device=device)
         b = generate_random_ring_element(size1, generator=generator, device=device)
         if comm.get().get_rank() == 0:
@@ -37,8 +46,6 @@ class TrustedThirdParty(TupleProvider):
                 "additive", device, size0, size1, op, *args, **kwargs
             )
         else:
-            # TODO: Compute size without executing computation
-            c_size = getattr(torch, op)(a, b, *args, **kwargs).size()
             c = generate_random_ring_element(c_size, generator=generator, device=device)
 
         a = ArithmeticSharedTensor.from_shares(a, precision=0)
@@ -66,6 +73,10 @@ class TrustedThirdParty(TupleProvider):
         """Generate binary triples of given size"""
         generator = TTPClient.get().get_generator(device=device)
 
+        # Raises on incompatible sizes, before the TTP is involved and before the
+        # generators shared with it advance
+        size2 = torch.broadcast_shapes(size0, size1)
+
         a = generate_kbit_random_tensor(size0, generator=generator, device=device)
         b = generate_kbit_random_tensor(size1, generator=generator, device=device)
 
@@ -73,7 +84,6 @@ class TrustedThirdParty(TupleProvider):
             # Request c from TTP
             c = TTPClient.get().ttp_request("binary", device, size0, size1)
         else:
-            size2 = torch.broadcast_tensors(a, b)[0].size()
             c = generate_kbit_random_tensor(size2, generator=generator, device=device)
 
         # Stack to vectorize scatter function
-- 
2.43.0


From 53832d5f9bfe06f43bbcd72ba634f301812ab9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:20 +0000
Subject: [PATCH 60/87] fix: in-process collectives could overtake messages
 sent before them

---
 crypten/communicator/in_process_communicator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crypten/communicator/in_process_communicator.py b/crypten/communicator/in_process_communicator.py
index cdb1644..aeade49 100644
--- a/crypten/communicator/in_process_communicator.py
+++ b/crypten/communicator/in_process_communicator.py
@@ -64,6 +64,13 @@ class InProcessCommunicator(Communicator):
     def is_initialized(cls):
         return hasattr(cls.tls, "instance")
 
+    def _flush(self):
+        """
+        Called at the start of a collective: all messages sent before it must arrive
+        before its own messages, and its messages before all messages sent after it.
+        """
+        self.barrier.wait()
+
     def send(self, tensor, dst):
         """Sends the specified tensor to the destination dst."""
         self.mailbox[dst].put((self.rank, tensor.clone()))
@@ -113,6 +120,8 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
+        self._flush()
+
         if src == self.rank:
             for i in range(self.world_size):
                 self.mailbox[i].put(scatter_list[i].clone())
@@ -155,6 +164,8 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
+        self._flush()
+
         self.mailbox[dst].put((self.rank, tensor.clone()))
 
         self.barrier.wait()
@@ -168,6 +179,8 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
+        self._flush()
+
         for i in range(self.world_size):
             self.mailbox[i].put((self.rank, tensor.clone()))
 
@@ -185,9 +198,7 @@ class InProcessCommunicator(Communicator):
         if async_op:
             raise NotImplementedError()
 
-        # All messages sent before the broadcast must arrive before it, and all
-        # messages sent after it must arrive after it.
-        self.barrier.wait()
+        self._flush()
 
         if self.rank == src:
             for i in range(self.get_world_size()):
-- 
2.43.0


From 5336af2e738c73080eced3dbd72bc20d758f3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:20 +0000
Subject: [PATCH 61/87] fix: scatter with a single party returned the whole
 list

---
 crypten/communicator/communicator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/communicator/communicator.py b/crypten/communicator/communicator.py
index 9efa960..c8503cd 100644
--- a/crypten/communicator/communicator.py
+++ b/crypten/communicator/communicator.py
@@ -168,6 +168,8 @@ def _logging(func):
         if world_size < 2:
             if func.__name__ in ["gather", "all_gather"]:
                 return [args[0]]
+            elif func.__name__ == "scatter":
+                return args[0][0]
             elif len(args) > 0:
                 return args[0]
 
-- 
2.43.0


From 76ad10c910a4dde562a001fc6d6ce33de599d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 62/87] fix: decrypting to one party left parts of the value at
 the others

---
 .../communicator/distributed_communicator.py  | 56 +++++++++++++------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/crypten/communicator/distributed_communicator.py b/crypten/communicator/distributed_communicator.py
index 3cca151..51efccf 100644
--- a/crypten/communicator/distributed_communicator.py
+++ b/crypten/communicator/distributed_communicator.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import functools
 import logging
 import os
 import pickle
@@ -20,6 +21,17 @@ from torch.distributed import ReduceOp
 from .communicator import _logging, Communicator
 
 
+_REDUCE_FUNCTIONS = {
+    ReduceOp.SUM: torch.add,
+    ReduceOp.PRODUCT: torch.mul,
+    ReduceOp.MIN: torch.minimum,
+    ReduceOp.MAX: torch.maximum,
+    ReduceOp.BAND: torch.bitwise_and,
+    ReduceOp.BOR: torch.bitwise_or,
+    ReduceOp.BXOR: torch.bitwise_xor,
+}
+
+
 class DistributedCommunicator(Communicator):
     """
     Implementation of the Communicator class via torch.distributed. Use this
@@ -165,26 +177,38 @@ class DistributedCommunicator(Communicator):
 
         if batched:
             assert isinstance(input, list), "batched reduce input must be a list"
-            reqs = []
-            result = [
-                x.clone(memory_format=torch.contiguous_format).data for x in input
-            ]
-            for tensor in result:
-                reqs.append(
-                    dist.reduce(
-                        tensor.data, dst, op=op, group=self.main_group, async_op=True
-                    )
-                )
-            for req in reqs:
-                req.wait()
+            tensors = input
         else:
             assert torch.is_tensor(
                 input.data
             ), "unbatched input for reduce must be a torch tensor"
-            result = input.clone(memory_format=torch.contiguous_format)
-            dist.reduce(result.data, dst, op=op, group=self.main_group)
-
-        return result if dst == self.get_rank() else None
+            tensors = [input]
+
+        # NOTE: dist.reduce() leaves parts of the result at the other parties, which
+        # must not learn it. Let dst combine the tensors by itself instead.
+        reqs = []
+        gathered = []
+        for tensor in tensors:
+            tensor = tensor.data.contiguous()
+            gather_list = []
+            if dst == self.get_rank():
+                gather_list = [
+                    torch.empty_like(tensor) for _ in range(self.get_world_size())
+                ]
+            gathered.append(gather_list)
+            reqs.append(
+                dist.gather(
+                    tensor, gather_list, dst, group=self.main_group, async_op=True
+                )
+            )
+        for req in reqs:
+            req.wait()
+        if dst != self.get_rank():
+            return None
+
+        reduce_func = _REDUCE_FUNCTIONS[op]
+        result = [functools.reduce(reduce_func, tensors) for tensors in gathered]
+        return result if batched else result[0]
 
     @_logging
     def all_reduce(self, input, op=ReduceOp.SUM, batched=False):
-- 
2.43.0


From 6b942a98aaf60cdd587fdeb636bf564738fabaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 63/87] fix: load_from_party() sent the rest of the storage of
 model buffers

---
 crypten/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypten/__init__.py b/crypten/__init__.py
index aed0333..21b34c4 100644
--- a/crypten/__init__.py
+++ b/crypten/__init__.py
@@ -347,7 +347,8 @@ def load_from_party(
                 for p in result_zeros.parameters():
                     p.data.fill_(0)
                 for b in result_zeros.buffers():
-                    b.data.fill_(0)
+                    # the data may be part of a larger storage
+                    b.data = b.data.new_zeros(b.size())
             else:
                 result = comm.get().broadcast_obj(-1, src)
                 raise TypeError("Unrecognized load type %s" % type(result))
-- 
2.43.0


From a53ddda2c8fa815e16991b9f57e10e216a32bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 64/87] fix: communication logging failed for arguments given
 by name or batched by position

---
 crypten/communicator/communicator.py | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crypten/communicator/communicator.py b/crypten/communicator/communicator.py
index c8503cd..a8ac745 100644
--- a/crypten/communicator/communicator.py
+++ b/crypten/communicator/communicator.py
@@ -5,6 +5,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import inspect
 import sys
 import timeit
 
@@ -160,44 +161,50 @@ def _logging(func):
     """
     from functools import wraps
 
+    signature = inspect.signature(func)
+
     @wraps(func)
     def logging_wrapper(self, *args, **kwargs):
+        # arguments can be given by position or by name
+        params = signature.bind(self, *args, **kwargs).arguments
+        data = list(params.values())[1] if len(params) > 1 else None
+
         # TODO: Replace this
         # - hacks the inputs into some of the functions for world_size 1:
         world_size = self.get_world_size()
         if world_size < 2:
             if func.__name__ in ["gather", "all_gather"]:
-                return [args[0]]
+                return [data]
             elif func.__name__ == "scatter":
-                return args[0][0]
-            elif len(args) > 0:
-                return args[0]
+                return data[0]
+            elif len(params) > 1:
+                return data
 
         # only log communication if needed:
         if cfg.communicator.verbose:
             rank = self.get_rank()
             _log = self._log_communication
-            peer = args[1] if len(args) > 1 else kwargs.get("src", kwargs.get("dst"))
+            peer = params.get("src", params.get("dst"))
 
             # count number of bytes communicates for each MPI collective:
             if func.__name__ == "barrier":
                 _log(0)
             elif func.__name__ in ["send", "recv", "isend", "irecv"]:
-                _log(args[0].nelement())  # party sends or receives tensor
+                _log(data.nelement())  # party sends or receives tensor
             elif func.__name__ == "scatter":
                 if peer == rank:  # party scatters P - 1 tensors
                     nelements = sum(
-                        x.nelement() for idx, x in enumerate(args[0]) if idx != rank
+                        x.nelement() for idx, x in enumerate(data) if idx != rank
                     )
                     _log(nelements)  # NOTE: We deal with other parties later
             elif func.__name__ == "all_gather":
-                _log(2 * (world_size - 1) * args[0].nelement())
+                _log(2 * (world_size - 1) * data.nelement())
                 # party sends and receives P - 1 tensors
             elif func.__name__ == "send_obj":
-                nbytes = sys.getsizeof(args[0])
+                nbytes = sys.getsizeof(data)
                 _log(nbytes / self.BYTES_PER_ELEMENT)  # party sends object
             elif func.__name__ == "broadcast_obj":
-                nbytes = sys.getsizeof(args[0])
+                nbytes = sys.getsizeof(data)
                 _log(nbytes / self.BYTES_PER_ELEMENT * (world_size - 1))
                 # party sends object to P - 1 parties
             elif func.__name__ in ["broadcast", "gather", "reduce"]:
@@ -205,18 +212,18 @@ def _logging(func):
                 # broadcast: party sends tensor to P - 1 parties, or receives 1 tensor
                 # gather: party receives P - 1 tensors, or sends 1 tensor
                 # reduce: party receives P - 1 tensors, or sends 1 tensor
-                if "batched" in kwargs and kwargs["batched"]:
-                    nelements = sum(x.nelement() for x in args[0])
+                if params.get("batched", False):
+                    nelements = sum(x.nelement() for x in data)
                     _log(nelements * multiplier)
                 else:
-                    _log(args[0].nelement() * multiplier)
+                    _log(data.nelement() * multiplier)
             elif func.__name__ == "all_reduce":
                 # each party sends and receives one tensor in ring implementation
-                if "batched" in kwargs and kwargs["batched"]:
-                    nelements = sum(2 * x.nelement() for x in args[0])
+                if params.get("batched", False):
+                    nelements = sum(2 * x.nelement() for x in data)
                     _log(nelements)
                 else:
-                    _log(2 * args[0].nelement())
+                    _log(2 * data.nelement())
 
             # execute and time the MPI collective:
             tic = timeit.default_timer()
-- 
2.43.0


From 9bf9b339c13c80bfd7b2b8cd4379516c5729837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 65/87] fix: active security rejected matrix products and
 convolutions

---
 crypten/mpc/primitives/beaver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crypten/mpc/primitives/beaver.py b/crypten/mpc/primitives/beaver.py
index e8ce7eb..8071700 100644
--- a/crypten/mpc/primitives/beaver.py
+++ b/crypten/mpc/primitives/beaver.py
@@ -63,12 +63,16 @@ def __beaver_protocol(op, x, y, *args, **kwargs):
             x.size(), y.size(), op, device=x.device, *args, **kwargs
         )
 
-        t = ArithmeticSharedTensor.PRSS(a.size(), device=x.device)
+        # a single number, so that the check applies to all bilinear operations
+        t = ArithmeticSharedTensor.PRSS((), device=x.device)
         t_plain_text = t.get_plain_text()
 
         rho = (t_plain_text * a - f).get_plain_text()
         sigma = (b - g).get_plain_text()
-        triples_check = t_plain_text * c - h - sigma * f - rho * g - rho * sigma
+        triples_check = t_plain_text * c - h
+        triples_check._tensor -= getattr(torch, op)(f._tensor, sigma, *args, **kwargs)
+        triples_check._tensor -= getattr(torch, op)(rho, g._tensor, *args, **kwargs)
+        triples_check -= getattr(torch, op)(rho, sigma, *args, **kwargs)
         triples_check = triples_check.get_plain_text()
 
         if torch.any(triples_check != 0):
-- 
2.43.0


From 8f0aa944953f534ccb6afa83b50acf0902cf3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 66/87] fix: detached tensors stayed linked to the autograd
 graph

---
 crypten/cryptensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index f75964a..c075b0b 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -274,11 +274,15 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
     def detach_(self):
         """Detaches tensor from the autograd graph (in-place), making it a leaf."""
         self.requires_grad = False
+        self.grad_fn = None
+        self.children = []
+        self.ctx = AutogradContext()
         return self
 
     def detach(self):
         """Detaches tensor from the autograd graph, making it a leaf."""
-        clone = self.clone()
+        with CrypTensor.no_grad():  # the clone must not be linked to this tensor
+            clone = self.clone()
         clone.requires_grad = False
         return clone
 
-- 
2.43.0


From a23b05ea64b6068f58c3d6e82f72e24a6e704645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 67/87] fix: gradients passed through comparisons as if they
 were copies

---
 crypten/mpc/mpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypten/mpc/mpc.py b/crypten/mpc/mpc.py
index 663be9c..36a5a24 100644
--- a/crypten/mpc/mpc.py
+++ b/crypten/mpc/mpc.py
@@ -143,9 +143,10 @@ class MPCTensor(CrypTensor):
                 of a binary tensor when converting from a binary share to an arithmetic share.
                 It will be ignored if the ptype doesn't match.
         """
-        retval = self.clone()
-        if retval.ptype == ptype:
-            return retval
+        if self.ptype == ptype:
+            return self.clone()
+        # conversions are not differentiable, so they are not recorded:
+        retval = self.shallow_copy()
         retval._tensor = convert(self._tensor, ptype, **kwargs)
         retval.ptype = ptype
         return retval
-- 
2.43.0


From 64a3383500531aef6a3e303f1358bba598d21121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 68/87] fix: in-place functions silently dropped gradients of
 their operand

---
 crypten/cryptensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index c075b0b..ca64711 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -412,6 +412,9 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
 
             def oop_and_copy(*args, **kwargs):
                 result = func(*args, **kwargs)
+                # copying into this tensor would silently drop gradients:
+                if CrypTensor.AUTOGRAD_ENABLED and result.requires_grad:
+                    raise RuntimeError("Cannot use in-place functions with autograd.")
                 self.copy_(result)
                 return self
 
-- 
2.43.0


From 4a1b010dd1a028054fc1e12a32aca9f045557f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 69/87] fix: backward() refused for a missing gradient made
 later calls stop early

---
 crypten/cryptensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypten/cryptensor.py b/crypten/cryptensor.py
index ca64711..ce37272 100644
--- a/crypten/cryptensor.py
+++ b/crypten/cryptensor.py
@@ -218,10 +218,6 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
         """
         if self.requires_grad:
             with CrypTensor.no_grad():  # disable autograd for backward pass
-                # in initial backward call, identify all required nodes:
-                if top_node:
-                    self._identify_required_grads()
-
                 # if undefined, set gradient input to one:
                 if grad_input is None:
                     if self.nelement() == 1:
@@ -231,6 +227,10 @@ class CrypTensor(object, metaclass=CrypTensorMetaclass):
                             "grad can be implicitly created only for scalar outputs"
                         )
 
+                # in initial backward call, identify all required nodes:
+                if top_node:
+                    self._identify_required_grads()
+
                 # process gradient input:
                 self.grad_received += 1
                 if self.grad is None:
-- 
2.43.0


From b0874ba0987a794bd94ad0cc8ea7d95530e86488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 70/87] fix: run_multiprocess() returned too few values when a
 party exited early

---
 crypten/mpc/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypten/mpc/context.py b/crypten/mpc/context.py
index 3f53faa..8bd5c21 100644
--- a/crypten/mpc/context.py
+++ b/crypten/mpc/context.py
@@ -121,6 +121,11 @@ def run_multiprocess(world_size, maxsize=None):
             while not queue.empty():
                 return_values.append(queue.get())
 
+            # a party may have exited regularly without reaching its end
+            if len(return_values) != world_size:
+                logging.error("One of the parties returned no value.")
+                return None
+
             return [
                 pickle.loads(value)
                 for _, value in sorted(return_values, key=itemgetter(0))
-- 
2.43.0


From e0aab504ee83ebcc1f79753d56951ea5d188c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 71/87] fix: run_multiprocess() hung in an initialised process
 when a trusted third party was used

---
 crypten/mpc/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/mpc/context.py b/crypten/mpc/context.py
index 8bd5c21..9dd9981 100644
--- a/crypten/mpc/context.py
+++ b/crypten/mpc/context.py
@@ -16,6 +16,7 @@ from queue import Empty
 
 import crypten
 from crypten.communicator import DistributedCommunicator
+from crypten.config import cfg
 
 
 def _launch(func, rank, world_size, rendezvous_file, queue, func_args, func_kwargs):
@@ -111,7 +112,9 @@ def run_multiprocess(world_size, maxsize=None):
                 process.join()
 
             if was_initialized:
-                crypten.init()
+                # this process is not a party of the trusted third party started above
+                with cfg.temp_override({"mpc.provider": "TFP"}):
+                    crypten.init()
 
             successful = [process.exitcode == 0 for process in processes]
             if not all(successful):
-- 
2.43.0


From d1572937212e3b4d871b8cb16dfd0dc60e2cca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 72/87] fix: baseOT: draw exponents from the system's secure
 random source

---
 crypten/mpc/primitives/ot/baseOT.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crypten/mpc/primitives/ot/baseOT.py b/crypten/mpc/primitives/ot/baseOT.py
index 4c2a52c..d6a002f 100644
--- a/crypten/mpc/primitives/ot/baseOT.py
+++ b/crypten/mpc/primitives/ot/baseOT.py
@@ -5,19 +5,13 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
-import random
+import secrets
 from hashlib import sha256
 from typing import List
 
 import crypten.communicator as comm
 
 
-"""
-    I dont think random modular is secure enough, but we can live with it for testing purpose
-
-"""
-
-
 class BaseOT:
     """
     hardcoded public parameter
@@ -52,7 +46,7 @@ class BaseOT:
         masks_for_message1s = []
         for _i in range(len(message1s)):
             # pick a random element from Z_p
-            alpha = random.randint(0, self.__prime - 1)
+            alpha = secrets.randbelow(self.__prime)
             alphas.append(alpha)
 
             # g^\alpha
@@ -113,7 +107,7 @@ class BaseOT:
         masks_for_choices = []
         for _i in range(len(choices)):
             # pick a random element from Z_p
-            beta = random.randint(0, self.__prime - 1)
+            beta = secrets.randbelow(self.__prime)
             mask_for_choice = pow(self.__generator, beta, self.__prime)
             betas.append(beta)
             masks_for_choices.append(mask_for_choice)
-- 
2.43.0


From cbcccdef1bc4f558c7b284f0a4df97aa518c27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 73/87] fix: baseOT: use uniform bytes as one-time pads

---
 crypten/mpc/primitives/ot/baseOT.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crypten/mpc/primitives/ot/baseOT.py b/crypten/mpc/primitives/ot/baseOT.py
index d6a002f..8134ff2 100644
--- a/crypten/mpc/primitives/ot/baseOT.py
+++ b/crypten/mpc/primitives/ot/baseOT.py
@@ -6,7 +6,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import secrets
-from hashlib import sha256
+from hashlib import sha512
 from typing import List
 
 import crypten.communicator as comm
@@ -24,6 +24,13 @@ class BaseOT:
     __generator = 3
     __inverse__generator = pow(__generator, (__prime - 2), __prime)
 
+    @staticmethod
+    def one_time_pad(secret):
+        """
+        One-time pad of 64 characters; every character is uniform in 0, ..., 255
+        """
+        return sha512(str(secret).encode("utf-8")).digest().decode("latin-1")
+
     @staticmethod
     def string_xor(s1, s2):
         """
@@ -79,10 +86,8 @@ class BaseOT:
             masks_for_choices[i] = pow(masks_for_choices[i], alphas[i], self.__prime)
 
             # hash
-            pad0 = sha256(str(masks_for_choices[i]).encode("utf-8")).hexdigest()
-            pad1 = sha256(
-                str(masks_for_choices[i] * dividers[i] % self.__prime).encode("utf-8")
-            ).hexdigest()
+            pad0 = self.one_time_pad(masks_for_choices[i])
+            pad1 = self.one_time_pad(masks_for_choices[i] * dividers[i] % self.__prime)
 
             if len(pad0) < len(message0s[i]):
                 raise (str(i) + "-th message0 is too long")
@@ -129,9 +134,9 @@ class BaseOT:
         keys = []
         for i in range(len(choices)):
             # compute the hash when waiting for response
-            key = sha256(
-                str(pow(masks_for_message1s[i], betas[i], self.__prime)).encode("utf-8")
-            ).hexdigest()
+            key = self.one_time_pad(
+                pow(masks_for_message1s[i], betas[i], self.__prime)
+            )
             keys.append(key)
 
         rst = []
-- 
2.43.0


From 774073c6b96eb4760d183218790a859607e9c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 74/87] fix: DPSplitModel: loss.backward() without arguments
 raised TypeError

---
 crypten/nn/privacy/dp_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypten/nn/privacy/dp_split.py b/crypten/nn/privacy/dp_split.py
index 1bacd0c..a216c0a 100644
--- a/crypten/nn/privacy/dp_split.py
+++ b/crypten/nn/privacy/dp_split.py
@@ -327,7 +327,7 @@ class DPSplitModel(nn.Module):
                 """
 
         # Overwrite loss backward to call model's backward function:
-        def backward_(self_, grad_output=None):
+        def backward_(grad_output=None):
             self.backward(grad_output=grad_output)
 
         self.loss.backward = backward_
-- 
2.43.0


From 3e1454670ef8cfbf72a66cb25eabd60abed4fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 75/87] fix: DPSplitModel: do not reuse the size of another
 batch when caching is off

---
 crypten/nn/privacy/dp_split.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypten/nn/privacy/dp_split.py b/crypten/nn/privacy/dp_split.py
index a216c0a..0c789b3 100644
--- a/crypten/nn/privacy/dp_split.py
+++ b/crypten/nn/privacy/dp_split.py
@@ -500,6 +500,8 @@ class DPSplitModel(nn.Module):
             dLdZ_enc *= correction_enc
 
         # Communicate / cache last layer input / weight sizes
+        if not self.cache_pred_size:
+            self.cache.pop("last_in_size", None)  # depends on the batch size
         if self.is_feature_src():
             last_weight = self._get_last_linear_layer().weight
             self._communicate_and_cache("last_in_size", self.last_input.size())
-- 
2.43.0


From b0487fc228352f8ec65ae039ce9fa20bcd02d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 76/87] fix: DPSplitModel: solve rank-deficient jacobians on
 CPU

---
 crypten/nn/privacy/dp_split.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypten/nn/privacy/dp_split.py b/crypten/nn/privacy/dp_split.py
index 0c789b3..36afb1d 100644
--- a/crypten/nn/privacy/dp_split.py
+++ b/crypten/nn/privacy/dp_split.py
@@ -479,7 +479,10 @@ class DPSplitModel(nn.Module):
         B = dLdW
 
         # Apply pseudoinverse
-        dLdZ = torch.linalg.lstsq(A.t(), B.t()).solution
+        # the default driver on CPU gives wrong solutions when A is rank deficient,
+        # for example when a hidden layer is inactive for a sample
+        driver = None if A.is_cuda else "gelsd"
+        dLdZ = torch.linalg.lstsq(A.t(), B.t(), driver=driver).solution
         # dLdZ = B.matmul(A.pinverse()).t()
         return dLdZ
 
-- 
2.43.0


From a178f5ca36af48771847e3cfa54ee0fe88cd7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 77/87] fix: validation mode wrapped attributes and autograd
 functionality

---
 crypten/debug/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypten/debug/__init__.py b/crypten/debug/__init__.py
index 0f2f2bd..f79280c 100644
--- a/crypten/debug/__init__.py
+++ b/crypten/debug/__init__.py
@@ -27,6 +27,10 @@ def register_validation(getattr_function):
         if not cfg.debug.validation_mode:
             return function
 
+        # Attributes and autograd functionality are not validated
+        if not callable(function) or name in type(self).PROTECTED_ATTRIBUTES:
+            return function
+
         # Run validation
         return validate_correctness(self, function, name)
 
-- 
2.43.0


From 7ad47d6094030a119f6b186324c46586f4a9a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 78/87] fix: validation mode raised on correct results and
 broke in-place functions

---
 crypten/debug/debug.py | 63 ++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/crypten/debug/debug.py b/crypten/debug/debug.py
index 05ccc35..6a9483d 100644
--- a/crypten/debug/debug.py
+++ b/crypten/debug/debug.py
@@ -87,37 +87,65 @@ def crypten_print_in_order(*args, **kwargs):
         comm.get().barrier()
 
 
+# functions whose result is not determined by their inputs, or that differ from
+# the torch function with the same name:
+UNVALIDATED_FUNCTIONS = ["argmax", "argmin", "bernoulli", "copy_", "new", "to"]
+
+
+def _reference_result(func_name, tensor, args, kwargs):
+    """Computes the result of a function in plaintext"""
+    import torch
+
+    if func_name in ["sign", "sign_"]:
+        return 1 - 2 * tensor.lt(0).to(tensor.dtype)  # sign(0) = 1
+    if func_name == "dot":
+        for arg in [*args, *kwargs.values()]:
+            tensor = tensor if arg is None else tensor.mul(arg)
+        return tensor.sum()
+    if func_name == "where":
+        args = [arg.bool() if i == 0 else arg for i, arg in enumerate(args)]
+        if torch.is_tensor(kwargs.get("condition")):
+            kwargs["condition"] = kwargs["condition"].bool()
+    kwargs.pop("input_in_01", None)
+    kwargs.pop("one_hot", None)
+    return getattr(tensor, func_name)(*args, **kwargs)
+
+
 def validate_correctness(self, func, func_name, tolerance=0.5):
     import crypten
     import torch
 
-    if not hasattr(torch.tensor([]), func_name):
+    if not hasattr(torch.tensor([]), func_name) or func_name in UNVALIDATED_FUNCTIONS:
         return func
 
+    def decrypt(*args, **kwargs):
+        def decrypt_(arg):
+            return arg.get_plain_text() if crypten.is_encrypted_tensor(arg) else arg
+
+        args = [decrypt_(arg) for arg in args]
+        kwargs = {key: decrypt_(value) for key, value in kwargs.items()}
+        return self.get_plain_text(), args, kwargs
+
     def validation_function(*args, **kwargs):
         with cfg.temp_override({"debug.validation_mode": False}):
+            # In-place functions overwrite their input
+            inplace = func_name.endswith("_") and not func_name.endswith("__")
+            if inplace:
+                inputs = decrypt(*args, **kwargs)
+
             # Compute crypten result
             result_enc = func(*args, **kwargs)
-            result = (
-                result_enc.get_plain_text()
-                if crypten.is_encrypted_tensor(result_enc)
-                else result_enc
-            )
 
-            args = list(args)
+            # TODO: Validate properties - Issue is tuples can contain encrypted tensors
+            if not crypten.is_encrypted_tensor(result_enc):
+                return result_enc
+            result = result_enc.get_plain_text()
 
             # Compute torch result for corresponding function
-            for i, arg in enumerate(args):
-                if crypten.is_encrypted_tensor(arg):
-                    args[i] = args[i].get_plain_text()
-
-            kwargs.pop("input_in_01", None)
-            for key, value in kwargs.items():
-                if crypten.is_encrypted_tensor(value):
-                    kwargs[key] = value.get_plain_text()
-            reference = getattr(self.get_plain_text(), func_name)(*args, **kwargs)
+            if not inplace:
+                inputs = decrypt(*args, **kwargs)
+            reference = _reference_result(func_name, *inputs)
 
-            # TODO: Validate properties - Issue is tuples can contain encrypted tensors
             if not torch.is_tensor(reference):
                 return result_enc
 
@@ -129,6 +157,7 @@ def validate_correctness(self, func, func_name, tolerance=0.5):
                 raise ValueError(f"Function {func_name} returned incorrect size")
 
             # Check that results match
+            reference = reference.to(torch.float)
             diff = (result - reference).abs_()
             norm_diff = diff.div(result.abs() + reference.abs()).abs_()
             test_passed = norm_diff.le(tolerance) + diff.le(tolerance * 0.1)
-- 
2.43.0


From a2122af23b6dddab7ed30c8ebbeaebe91441224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 79/87] fix: validation of div_ raised on correct results with
 large values

---
 crypten/mpc/primitives/arithmetic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crypten/mpc/primitives/arithmetic.py b/crypten/mpc/primitives/arithmetic.py
index 5abc593..bd80d94 100644
--- a/crypten/mpc/primitives/arithmetic.py
+++ b/crypten/mpc/primitives/arithmetic.py
@@ -488,8 +488,13 @@ class ArithmeticSharedTensor:
             validate = cfg.debug.validation_mode
 
             if validate:
+                # compare in double precision and allow for truncation errors
                 tolerance = 1.0
-                tensor = self.get_plain_text()
+                scale = self.encoder._scale
+                if scale > 1:
+                    rounding = comm.get().get_world_size() / scale
+                    tolerance = 1.0 + rounding * torch.as_tensor(y).abs().double()
+                tensor = self.reveal().double() / scale
 
             # Truncate protocol for dividing by public integers:
             if comm.get().get_world_size() > 2:
@@ -500,9 +505,8 @@ class ArithmeticSharedTensor:
 
             # Validate
             if validate:
-                if not torch.lt(
-                    torch.abs(self.get_plain_text() * y - tensor), tolerance
-                ).all():
+                result = self.reveal().double() / scale
+                if not (torch.abs(result * y - tensor) < tolerance).all():
                     raise ValueError("Final result of division is incorrect.")
 
             return self
-- 
2.43.0


From 7c6d2c2aedf8b14509d45a4905c7fb6a15a8d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 80/87] fix: average cross-entropy over all positions, not only
 over the first dimension

---
 crypten/gradients.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index a969eb4..824d6bb 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -2029,10 +2029,11 @@ class AutogradCrossEntropy(AutogradFunction):
 
         # Compute full forward pass
         loss_values = softmax.log(input_in_01=True).mul_(target).neg_()
-        return loss_values.sum().div_(target.size(0))
+        return loss_values.sum().div_(target.nelement() // target.size(dim))
 
     @staticmethod
     def backward(ctx, grad_output):
         softmax, target = ctx.saved_tensors
         loss_grad = softmax.sub(target)
-        return loss_grad.div_(target.size(0)).mul_(grad_output)
+        dim = 1 if target.dim() > 1 else 0
+        return loss_grad.div_(target.nelement() // target.size(dim)).mul_(grad_output)
-- 
2.43.0


From 4ac5201917a852c40f1445b62f587d89ae255f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 81/87] fix: CrossEntropyLoss keeps dimensions of size 1 when
 input and target agree

---
 crypten/nn/loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/loss.py b/crypten/nn/loss.py
index 0c33e74..aaf45df 100644
--- a/crypten/nn/loss.py
+++ b/crypten/nn/loss.py
@@ -141,8 +141,9 @@ class CrossEntropyLoss(_Loss):
     """  # noqa: W605
 
     def forward(self, x, y):
-        x = x.squeeze()
-        y = y.squeeze()
+        if x.size() != y.size():
+            x = x.squeeze()
+            y = y.squeeze()
         assert x.size() == y.size(), "input and target must have the same size"
         return x.cross_entropy(y, skip_forward=self.skip_forward)
 
-- 
2.43.0


From 4481d52721fc1439625be7d50f414583ecbaa437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 82/87] fix: Graph.forward ignores unused optional outputs of a
 node

---
 crypten/nn/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 2d00b7c..ba4c244 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -724,6 +724,10 @@ class Graph(Container):
             if output_names is None or len(output_names) == 1:
                 if output_names is not None:
                     assert output_names[0] == node_to_compute, "invalid graph"
+                    # optional outputs that the graph does not use
+                    # (for example, of batch normalization in training mode):
+                    if isinstance(output, tuple):
+                        output = output[0]
                 values[node_to_compute] = output
                 _mark_as_computed(node_to_compute)
 
-- 
2.43.0


From c9f31718923c2fb2f7bb15dfa1fef2c4e59b547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 83/87] fix: Flatten works on non-contiguous tensors

---
 crypten/nn/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index ba4c244..4295ff3 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1496,13 +1496,13 @@ class Flatten(Module):
 
     def forward(self, x):
         if self.axis == 0:
-            return x.view(1, -1)
+            return x.reshape(1, -1)
         else:
             assert self.axis <= x.dim(), "axis must not be larger than dimension"
             prod = 1
             for i in range(self.axis):
                 prod *= x.size(i)
-            return x.view(prod, -1)
+            return x.reshape(prod, -1)
 
     @staticmethod
     def from_onnx(attributes=None):
-- 
2.43.0


From c044798d7822c83e05334c6723abd577f7b44bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 84/87] fix: importing pooling layers that are not 2D is
 refused

---
 crypten/nn/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 4295ff3..799f485 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -2574,6 +2574,7 @@ class _Pool2d(Module):
             attributes = {}
         if "pads" not in attributes:
             attributes["pads"] = [0]
+        assert len(attributes["kernel_shape"]) == 2, "only 2D pooling is supported"
         assert _all_the_same(
             attributes["kernel_shape"]
         ), "only square kernels are supported"
-- 
2.43.0


From 9ff3fb0da34b49a0b0fb0762f3004b461fd36e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 85/87] fix: running variance of batch normalization uses the
 unbiased estimate

---
 crypten/gradients.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypten/gradients.py b/crypten/gradients.py
index 824d6bb..2e8a8d6 100644
--- a/crypten/gradients.py
+++ b/crypten/gradients.py
@@ -1816,7 +1816,12 @@ class AutogradBatchNorm(AutogradFunction):
             mean = x.mean(stats_dimensions)
             variance = x.var(stats_dimensions, unbiased=False)
             if running_mean is not None and running_var is not None:
-                running_var.set(running_var * (1.0 - momentum) + variance * momentum)
+                # running variance uses the unbiased estimate:
+                count = x.nelement() / x.shape[1]
+                correction = count / max(count - 1, 1)
+                running_var.set(
+                    running_var * (1.0 - momentum) + variance * (momentum * correction)
+                )
                 running_mean.set(running_mean * (1.0 - momentum) + mean * momentum)
         else:
             if running_mean is None or running_var is None:
-- 
2.43.0


From b70293c152e077bd4b8df1c23d92ca40f2f6e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 86/87] fix: Cast.from_onnx interprets the ONNX type number

---
 crypten/nn/module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 799f485..74b74d1 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -1425,8 +1425,10 @@ class Cast(Module):
 
     @staticmethod
     def from_onnx(attributes=None):
-        dtype = sym_help._get_const(attributes["to"], "i", "dtype")
-        return Cast(dtype=sym_help.scalar_type_to_pytorch_type[dtype])
+        # ONNX numbers types differently from PyTorch
+        onnx_types = [int(onnx_type) for onnx_type in sym_help.scalar_type_to_onnx]
+        idx = onnx_types.index(int(attributes["to"]))
+        return Cast(dtype=sym_help.scalar_type_to_pytorch_type[idx])
 
 
 class Range(Module):
-- 
2.43.0


From eee1ccf78d3105d4c41b7f000fb9e1d22254e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 87/87] fix: to_pytorch also exports buffers

---
 crypten/nn/module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypten/nn/module.py b/crypten/nn/module.py
index 74b74d1..9119af2 100644
--- a/crypten/nn/module.py
+++ b/crypten/nn/module.py
@@ -767,6 +767,9 @@ class Graph(Container):
         with torch.no_grad():
             for name, param in self.pytorch_model.named_parameters():
                 param.set_(self._modules[name].data)
+            for name, buffer in self.pytorch_model.named_buffers():
+                if name in self._modules:
+                    buffer.set_(self._modules[name].data)
         return self.pytorch_model
 
 
-- 
2.43.0

