From f4cfcd664030a8ac955bfae0691ba67b707e0597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 01/18] fix: use the transposed blocks in BlockDiagonal.rmatmat
 and from_inner

`rmatmat` multiplied with the matrix instead of its transpose, and `from_inner()`
computed `K @ K.T` instead of `K.T @ K`. Both only agree for symmetric blocks, but
the pre-conditioner factors become non-symmetric after the second update.
---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..f2d8f7f 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        # `@` does not assume symmetric blocks, hence we can multiply with the transpose
+        return self.__class__(self._blocks.transpose(1, 2), self._last.T) @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 99d33b6f39ac6fab57c60380b3d829705660079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 02/18] fix: reject diagonal blocks of wrong size in
 BlockDiagonalMatrixTemplate

The chained comparison accepted square blocks of any dimension.
---
 singd/structures/blockdiagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index f2d8f7f..214109b 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -90,7 +90,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             raise ValueError(
                 f"Diagonal blocks must be 3-dimensional, got {blocks.ndim}."
             )
-        if blocks.shape[1] != blocks.shape[2] != self.BLOCK_DIM:
+        if tuple(blocks.shape[1:]) != (self.BLOCK_DIM, self.BLOCK_DIM):
             raise ValueError(
                 f"Diagonal blocks must be square with dimension {self.BLOCK_DIM},"
                 f" got {blocks.shape[1:]} instead."
-- 
2.43.0


From 016e491473171e374a8edfa381a5df4079d867e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 03/18] fix: all_reduce non-contiguous tensors of a structured
 matrix

The result was written to a temporary contiguous copy and lost.
---
 singd/structures/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..f9ff92e 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,10 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            # NOTE The reduction must write to the tensor that represents the matrix,
+            # not to a contiguous copy of it.
+            if not tensor.is_contiguous():
+                tensor.data = tensor.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From 55a20d9b3b154afaa602575da1803f56291e4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 04/18] fix: resolve `None` in preconditioner_dtype for the
 natural gradient

With e.g. `(bfloat16, None)` the intermediate result was not converted from the data
type of `K` to that of `C`, and the multiplication raised a `RuntimeError`.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..2b427c6 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -698,7 +698,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From 81e7e79b0f19e82c1992cfb5fecf922c9044ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 05/18] fix: do not modify the passed dictionary in
 SINGD.load_state_dict

The state was popped from the caller's dictionary, which could then neither be loaded
a second time nor saved.
---
 singd/optim/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 2b427c6..a7e0770 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -885,6 +885,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        state_dict = state_dict.copy()  # do not modify the dictionary passed by the user
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From 5c432ba03d01aa140ff269c5df76c49d12b85e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 06/18] fix: average `H_K` over devices for `loss_average=None`

The inputs are normalized by the local batch size independent of the loss reduction.
Summing them over devices made `H_K` too large by the number of devices compared to
processing the same mini-batch on one device.
---
 singd/optim/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index a7e0770..3ed4de8 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -622,8 +622,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         # If DDP is used.
         if dist.is_initialized():
             # all-reduce across devices (computes average by default).
+            # NOTE `H_K` is always normalized by the local batch size
+            H_K.all_reduce(op=dist.ReduceOp.AVG)
             op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
-            H_K.all_reduce(op=op)
             H_C.all_reduce(op=op)
 
         # store or update existing quantities (they get flushed in `.step`)
-- 
2.43.0


From 5bdda59919581f72e45bfa528558b4f2b824f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 07/18] fix: respect `padding_mode` when unfolding the input of
 a convolution

Non-zero padding modes were silently treated as zero padding.
---
 singd/optim/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 79fa649..9d1f805 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -162,8 +162,12 @@ def conv2d_process_input(x: Tensor, layer: Conv2d, kfac_approx: str) -> Tensor:
     patch_extractor_fn = (
         _extract_patches if kfac_approx == "expand" else _extract_averaged_patches
     )
+    padding = layer.padding
+    if layer.padding_mode != "zeros":  # pad explicitly, like the layer's forward pass
+        x = F.pad(x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode)
+        padding = 0
     x = patch_extractor_fn(
-        x, layer.kernel_size, layer.stride, layer.padding, layer.dilation, layer.groups
+        x, layer.kernel_size, layer.stride, padding, layer.dilation, layer.groups
     )
 
     if kfac_approx == "expand":
-- 
2.43.0


From f98cf82b9cc6b1f30b5f4ee7d59ec4a87dc2caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 08/18] fix: reject negative integers for learning rates,
 momenta and weight decay

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 3ed4de8..9d24a73 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -210,7 +210,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if isinstance(x, (int, float)) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From 1a22bd3ef506909e62c91bb136c1511567d0f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 09/18] fix: warn about un-supported parameters that are owned
 by a container

Parameters that are directly registered in a module with sub-modules (e.g. positional
embeddings) were silently not trained.
---
 singd/optim/optimizer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 9d24a73..7d8c5bf 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -361,17 +361,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             A list of parameters that can be trained.
         """
-        # all layers that are not containers
-        named_modules = [
-            (name, mod)
-            for name, mod in model.named_modules()
-            if len(list(mod.modules())) == 1
-        ]
-
         trainable = []
-        for name, mod in named_modules:
-            mod_trainable = [param for param in mod.parameters() if param.requires_grad]
-            if isinstance(mod, self.SUPPORTED_MODULES):
+        for name, mod in model.named_modules():
+            # NOTE Containers can have parameters that are not owned by a sub-module
+            mod_trainable = [
+                param for param in mod.parameters(recurse=False) if param.requires_grad
+            ]
+            is_container = len(list(mod.modules())) != 1
+            if isinstance(mod, self.SUPPORTED_MODULES) and not is_container:
                 trainable.extend(mod_trainable)
             elif mod_trainable and warn_unsupported:
                 warn(
-- 
2.43.0


From a27bbc78d17a3b7773709e64944c3d70599104d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 10/18] fix: do not train the bias of a layer if only its
 weight is in `params`

The documentation says that only the parameters passed to the optimizer are trained.
---
 singd/optim/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7d8c5bf..8ee34af 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -793,6 +793,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                # only train the parameters the optimizer was created with
+                if p.data_ptr() not in self.param_to_group_idx:
+                    continue
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From 92cf6410a072c18788154a9540c00101591cda6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 11/18] fix: HierarchicalMatrix.from_dense doubled off-diagonal
 blocks of its elements

`from_dense(mat.to_dense())` did not return `mat`, which broke all operations of
recursive structures with hierarchical sub-structures. All other structures sum both
triangles.
---
 singd/structures/hierarchical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..707a7ce 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -158,9 +158,13 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
         A = sym_mat[:K1, :K1]
-        B = 2 * sym_mat[:K1, K1:]
+        # NOTE Summing both triangles is exact for elements of the structure
+        B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
         C = sym_mat.diag()[K1 : K1 + diag_dim]
-        D = 2 * sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+        D = (
+            sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+            + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
+        )
         E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
 
         return cls(A, B, C, D, E)
-- 
2.43.0


From 2f946e2d0a9ec9efd698d12a82b2a639e6fcd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 12/18] fix: use the method names in naive implementation
 warnings

`zeros` and `average_trace` could not be silenced via `WARN_NAIVE_EXCEPTIONS`.
---
 singd/structures/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index f9ff92e..483c033 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -322,7 +322,7 @@ class StructuredMatrix(ABC):
         Returns:
             The average trace of the represented matrix.
         """
-        self._warn_naive_implementation("trace")
+        self._warn_naive_implementation("average_trace")
         return self.to_dense().diag().mean()
 
     def diag_add_(self, value: float) -> StructuredMatrix:
@@ -391,7 +391,7 @@ class StructuredMatrix(ABC):
         Returns:
             A structured matrix representing the zero matrix.
         """
-        cls._warn_naive_implementation("zero")
+        cls._warn_naive_implementation("zeros")
         return cls.from_dense(zeros((dim, dim), dtype=dtype, device=device))
 
     @classmethod
-- 
2.43.0


From 7bb386ed5a11835de9f9d620429dbaf1f95fd9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 13/18] fix: Frobenius norm of zero-dimensional block-diagonal
 and hierarchical matrices

Recursive structures use such matrices below the dimension of their other
block.
---
 singd/structures/blockdiagonal.py | 4 +---
 singd/structures/hierarchical.py  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 214109b..5958b31 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -336,9 +336,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 707a7ce..a8c30f6 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -364,9 +364,7 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
-- 
2.43.0


From a269dfedbb5d0d09ee203eb5de9a6a3301b2e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 14/18] fix: reject negative hyper-parameters of any numeric
 type

NumPy single precision numbers, fractions and tensors were accepted.
---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 8ee34af..aa0aa6e 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -210,7 +210,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, (int, float)) and x < 0.0:
+            if not isinstance(x, Callable) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From 23223715718386026ec6d9525140924ebfc4b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 15/18] fix: keep the optimizer's state when it is copied or
 pickled with its model

Copies of a model (e.g. for averaging weights) crashed in the forward pass because
the copied hooks refer to a copy of the optimizer that lacked its attributes.
---
 singd/optim/optimizer.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index aa0aa6e..9688d28 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -865,6 +865,34 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         "H_Cs",
     ]
 
+    def __getstate__(self) -> Dict[str, Any]:
+        """Return the attributes that are required to copy or pickle the optimizer.
+
+        Note:
+            Copying (or pickling) the model also copies the optimizer, because the
+            model's hooks refer to it.
+
+        Returns:
+            A dictionary containing the attributes of the optimizer.
+        """
+        names = ["module_names", "hook_handles", *self.STATE_ATTRIBUTES]
+        state = super().__getstate__()
+        return {**state, **{name: getattr(self, name) for name in names}}
+
+    def __setstate__(self, state: Dict[str, Any]) -> None:
+        """Set the attributes of a copied or un-pickled optimizer.
+
+        Args:
+            state: A dictionary containing attributes of the optimizer.
+        """
+        super().__setstate__(state)
+        # parameters of a copy have different IDs
+        self.param_to_group_idx = {
+            param.data_ptr(): idx
+            for idx, group in enumerate(self.param_groups)
+            for param in group["params"]
+        }
+
     def state_dict(self) -> Dict[str, Any]:
         """Return a save-able state of the optimizer.
 
-- 
2.43.0


From 34eef7e5ebcb79dcde3e17e9847ecf1312f4582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 16/18] fix: do not keep the dense matrix alive through views
 in from_dense

---
 singd/structures/blockdiagonal.py |  3 ++-
 singd/structures/hierarchical.py  |  7 ++++---
 singd/structures/recursive.py     | 10 ++++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 5958b31..b839f0c 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -123,7 +123,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         num_blocks = mat.shape[0] // cls.BLOCK_DIM
 
         last_start = num_blocks * cls.BLOCK_DIM
-        last = mat[last_start:, last_start:]
+        # NOTE Copy such that the dense matrix is not kept alive by a view
+        last = mat[last_start:, last_start:].clone()
 
         blocks_end = num_blocks * cls.BLOCK_DIM
         mat = mat.narrow(0, 0, blocks_end).narrow(1, 0, blocks_end)
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index a8c30f6..3d305db 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -157,15 +157,16 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         dim = sym_mat.shape[0]
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
-        A = sym_mat[:K1, :K1]
+        # NOTE Copy such that the dense matrix is not kept alive by views
+        A = sym_mat[:K1, :K1].clone()
         # NOTE Summing both triangles is exact for elements of the structure
         B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
-        C = sym_mat.diag()[K1 : K1 + diag_dim]
+        C = sym_mat.diag()[K1 : K1 + diag_dim].clone()
         D = (
             sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
             + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
         )
-        E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
+        E = sym_mat[K1 + diag_dim :, K1 + diag_dim :].clone()
 
         return cls(A, B, C, D, E)
 
diff --git a/singd/structures/recursive.py b/singd/structures/recursive.py
index f9d6225..c493e56 100644
--- a/singd/structures/recursive.py
+++ b/singd/structures/recursive.py
@@ -198,9 +198,10 @@ class RecursiveTopRightMatrixTemplate(RecursiveStructuredMatrix):
         cls._check_square(sym_mat)
 
         boundary = _get_boundary(sym_mat.shape[0], cls.MAX_DIMS)
-        A = cls.CLS_A.from_dense(sym_mat[:boundary, :boundary])
+        # NOTE Copy such that the dense matrix is not kept alive by views
+        A = cls.CLS_A.from_dense(sym_mat[:boundary, :boundary].clone())
         B = sym_mat[:boundary, boundary:] + sym_mat[boundary:, :boundary].T
-        C = cls.CLS_C.from_dense(sym_mat[boundary:, boundary:])
+        C = cls.CLS_C.from_dense(sym_mat[boundary:, boundary:].clone())
 
         return cls(A, B, C)
 
@@ -336,9 +337,10 @@ class RecursiveBottomLeftMatrixTemplate(RecursiveStructuredMatrix):
         cls._check_square(sym_mat)
 
         boundary = _get_boundary(sym_mat.shape[0], cls.MAX_DIMS)
-        A = cls.CLS_A.from_dense(sym_mat[:boundary, :boundary])
+        # NOTE Copy such that the dense matrix is not kept alive by views
+        A = cls.CLS_A.from_dense(sym_mat[:boundary, :boundary].clone())
         B = sym_mat[boundary:, :boundary] + sym_mat[:boundary, boundary:].T
-        C = cls.CLS_C.from_dense(sym_mat[boundary:, boundary:])
+        C = cls.CLS_C.from_dense(sym_mat[boundary:, boundary:].clone())
 
         return cls(A, B, C)
 
-- 
2.43.0


From bcf2ad8b43d8c06361e329d1a8cbb104695b74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 17/18] fix: do not modify a user's lr_cov in place when
 normalizing

---
 singd/optim/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 9688d28..2d2face 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -536,8 +536,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         # learning rate is the `lr_cov` value specified by the user, but no larger
         # to avoid numerical instabilities.
         if normalize_lr_cov:
-            beta1_K /= max(1.0, new_m_K.infinity_vector_norm())
-            beta1_C /= max(1.0, new_m_C.infinity_vector_norm())
+            beta1_K = beta1_K / max(1.0, new_m_K.infinity_vector_norm())
+            beta1_C = beta1_C / max(1.0, new_m_C.infinity_vector_norm())
 
         self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)
         self.Cs[module_name].add_(C @ new_m_C, alpha=-beta1_C)
-- 
2.43.0


From d773871e5817c1d4c0a3012c98a63efd234ca09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 18/18] fix: reject an even number of coefficients in
 toeplitz_matmul

---
 singd/structures/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..cdae239 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -98,9 +98,8 @@ def toeplitz_matmul(coeffs: Tensor, mat: Tensor) -> Tensor:
     Raises:
         RuntimeError: If the specified tensors have incorrect shape.
     """
-    toeplitz_dim = (coeffs.shape[0] + 1) // 2
-    if toeplitz_dim != mat.shape[0]:
-        raise RuntimeError(f"Toeplitz dim={toeplitz_dim}, but `mat` is {mat.shape}.")
+    if coeffs.shape[0] != 2 * mat.shape[0] - 1:
+        raise RuntimeError(f"`coeffs` is {coeffs.shape}, but `mat` is {mat.shape}.")
 
     num_rows = mat.shape[0]
     num_cols = mat.shape[1]
-- 
2.43.0

