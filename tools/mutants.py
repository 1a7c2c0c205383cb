"""Candidate bugs: (id, property, file, old, new). Used by tools/mutate.py only."""

OPT, UTL = "singd/optim/optimizer.py", "singd/optim/utils.py"
BASE, REC = "singd/structures/base.py", "singd/structures/recursive.py"
BLK, HIE = "singd/structures/blockdiagonal.py", "singd/structures/hierarchical.py"
DIA, DEN = "singd/structures/diagonal.py", "singd/structures/dense.py"
TRIL, TRIU = "singd/structures/triltoeplitz.py", "singd/structures/triutoeplitz.py"
SU = "singd/structures/utils.py"

M = []


def m(id, prop, file, old, new, count=1):
    M.append(dict(id=id, prop=prop, file=file, old=old, new=new, count=count))


# ---- structures
m("inf_norm_scalar", "C01", BASE, "if t.numel() > 0)", "if t.numel() > 1)")
m("inf_norm_max", "C01", BASE, "max(t.abs().max() for", "max(t.max().abs() for")
m("hier_trace_skip", "C01", HIE, "            + (self.E.diag() / dim).sum()\n",
  "            + (self.E.diag() / dim)[: self.K1].sum()\n")
m("hier_mm_BE", "C01", HIE, "                    + B_E @ other.D,\n",
  "                    + B_E @ other.D * (self.K2 == other.E.shape[1] == self.MAX_K2 > 1),\n")
m("hier_fro", "C01", HIE, "vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))",
  "sum(vector_norm(t) ** 2 for _, t in self.named_tensors() if t.numel() > 1).sqrt()")
m("blk_trace_last", "C01", BLK, "+ (self._last.diag() / dim).sum()",
  "+ self._last.diag().sum() / max(dim, self.BLOCK_DIM)")
m("toep_matmul_cols", "C01", SU, "    num_cols = mat.shape[1]\n", "    num_cols = min(mat.shape)\n")
m("hier_ein", "C02", HIE, "E_new = self.E.T @ self.E + B_E.T @ B_E",
  "E_new = self.E.T @ self.E + self.B[:, -self.K2 :].T @ B_E")
m("hier_from_inner_D", "C02", HIE, "+ (self.D**2).sum(0)\n", "+ (self.D**2).mean(0) * self.MAX_K2\n")
m("toep_norm", "C02", TRIL, "        col[1:] += traces[:idx_main].flip(0)\n",
  "        col[1:] += col[1:]\n")
m("hier_from_dense_K1", "C02", HIE, "        elif dim <= cls.MAX_K1 + cls.MAX_K2:\n",
  "        elif dim < cls.MAX_K1 + cls.MAX_K2:\n")
m("dia_inner2", "C02", DIA, "self._mat_diag**2 * XXT.diag()", "(self._mat_diag * XXT).sum(1) * self._mat_diag")
m("dia_mul1", "C03", DIA, "        return DiagonalMatrix(self._mat_diag * other)\n",
  "        return self if other == 1.0 else DiagonalMatrix(self._mat_diag * other)\n")
m("add_alpha0", "C03", BASE, "        for (_, tensor), (_, tensor_other) in zip(\n",
  "        if alpha == 0.0:\n            return\n        for (_, tensor), (_, tensor_other) in zip(\n")
m("dia_square_alias", "C03", DIA, "        mat_diag = self._mat_diag**2\n",
  "        mat_diag = self._mat_diag.square_() if X is not None and X.shape[1] == 1 else self._mat_diag**2\n")
m("add_sub_alias", "C03", BASE, "        for _, tensor in self.named_tensors():\n            tensor.mul_(value)\n",
  "        for name, tensor in self.named_tensors():\n            setattr(self, name, tensor * value)\n")
m("blk_add_zero", "C03", BLK, "        return self.__class__(self._blocks + other._blocks, self._last + other._last)\n",
  "        return self.__class__(\n            self._blocks + other._blocks if self._blocks.numel() else self._blocks,\n            self._last + other._last if other._last.any() else self._last,\n        )\n")
m("rec_boundary", "C04", REC, "boundary = max(0, dim - dim_C)", "boundary = max(min(dim, 1), dim - dim_C)")
m("rec_fro", "C04", REC, "            s.frobenius_norm() ** 2 for _, s in self.named_substructures()\n",
  "            (t**2).sum() for _, s in self.named_substructures() for _, t in s.named_tensors()\n")
m("base_from_inner", "C04", BASE, "S_dense = self.to_dense().T if X is None", "S_dense = self.to_dense() if X is None")
m("base_from_inner2", "C04", BASE, "self.from_dense(dense.T @ XXT @ dense)", "self.from_dense(dense @ XXT @ dense.T)")
m("base_rmatmat", "C04", BASE, "        return self.to_dense().T @ mat\n", "        return self.to_dense() @ mat\n")
m("rec_from_dense_top", "C04", REC, "B = sym_mat[:boundary, boundary:] + sym_mat[boundary:, :boundary].T",
  "B = 2 * sym_mat[boundary:, :boundary].T.triu()")
m("hier_D_shape", "C05", HIE, "        if D.shape != (self.K2, self.diag_dim):\n",
  "        if D.shape[0] != self.K2 or D.numel() != self.K2 * self.diag_dim:\n")
m("hier_D_shape2", "C05", HIE, "        if D.shape != (self.K2, self.diag_dim):\n",
  "        if D.numel() != self.K2 * self.diag_dim:\n")
m("blk_rows", "C05", BLK, "if other.shape[0] != total_dim or other.ndim != 2:", "if other.shape[0] != total_dim:")
m("blk_last_dim", "C05", BLK, "        if last.shape[0] >= self.BLOCK_DIM or last.shape[1] >= self.BLOCK_DIM:\n",
  "        if last.shape[0] > self.BLOCK_DIM or last.shape[1] > self.BLOCK_DIM:\n")
m("rec_dimC", "C05", REC, "        if dim_C > max_dim_C:\n", "        if dim_C > max(dim_A, max_dim_C):\n", 2)
m("reg_name", "C05", BASE, "        if hasattr(self, name):\n", "        if name in self._tensor_names:\n")
m("check_square", "C05", BASE, "if t.ndim != 2 or t.shape[0] != t.shape[1]:", "if t.shape[0] != t.shape[-1]:")
m("toep_dim", "C05", SU, "    if coeffs.shape[0] != 2 * mat.shape[0] - 1:\n", "    if coeffs.shape[0] < 2 * mat.shape[0] - 1:\n")
# ---- optimizer utils
m("conv_seq", "C06", UTL, "num_loss_terms *= g.shape[2:].numel()", "num_loss_terms *= g.shape[2] ** 2")
m("lin_seq", "C06", UTL, "num_loss_terms *= g.shape[1:-1].numel()", "num_loss_terms *= g.shape[1:2].numel() if g.ndim > 2 else 1")
m("lin_inplace", "C06", UTL, "    scale = sqrt(x.shape[0])\n    return x / scale\n", "    scale = sqrt(x.shape[0])\n    return x.div_(scale)\n")
m("lin_grad_inplace", "C20", UTL, '        g = reduce(g, "b ... d_out -> b d_out", "sum")\n\n    return g * scaling\n',
  '        g = reduce(g, "b ... d_out -> b d_out", "sum")\n\n    return g.mul_(scaling)\n')
m("conv_grad_inplace", "C06", UTL, '        g = reduce(g, "b c o1 o2 -> b c", "sum")\n\n    return g * scaling\n',
  '        g = reduce(g, "b c o1 o2 -> b c", "sum")\n\n    return g.mul_(scaling)\n')
m("conv_red_pad", "C06", UTL, "        (padding, padding) if isinstance(padding, str) else _pair(padding),\n        _pair(dilation),\n    ):\n        pi",
  "        (padding, padding) if isinstance(padding, str) else _pair(padding),\n        _pair(dilation)[::-1],\n    ):\n        pi")
m("conv_red_groups", "C06", UTL, '    x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=groups)\n    x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")\n\n    # TODO',
  '    x = rearrange(x, "b (c_in g) i1 i2 -> b g c_in i1 i2", g=groups)\n    x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")\n\n    # TODO')
m("red_seq", "C07", UTL, '        if loss_average == "batch+sequence":\n            # Size of', '        if loss_average == "batch+sequence" and kfac_approx == "expand":\n            # Size of')
m("lin_red_flat", "C07", UTL, 'x = reduce(x, "b ... d_in -> b d_in", "mean")', 'x = reduce(x, "b ... d_in -> b d_in", "sum") / max(1, x.shape[1:-1].numel()) ** (0.5 if x.ndim > 3 else 1.0)')
# ---- optimizer
m("norm_C_by_K", "C08", OPT, "beta1_C = beta1_C / max(1.0, new_m_C.infinity_vector_norm())", "beta1_C = beta1_C / max(1.0, new_m_K.infinity_vector_norm())")
m("wd_after_mom", "C08", OPT, "                    p_momentum.mul_(momentum).add_(p_step)\n", "                    p_momentum.mul_(momentum).add_(p_step, alpha=1.0 if weight_decay == 0.0 else 1.0 - momentum)\n")
m("sched_T", "C08", OPT, "beta1_C = beta1_C(self.steps)", "beta1_C = beta1_C(self.steps // self._get_param_group_entry(module, 'T'))")
m("scale_alpha", "C08", OPT, "scale = 0.5 * (1.0 - alpha1 if normalize_lr_cov else 1.0)", "scale = 0.5 * (1.0 - alpha1 if normalize_lr_cov and alpha1 < 0.9 else 1.0)")
m("damp_trace", "C08", OPT, "new_m_C.add_(C_tC, alpha=damping * (1.0 if kfac_like else K_tK.average_trace()))", "new_m_C.add_(C_tC, alpha=damping * (1.0 if kfac_like else C_tC.average_trace()))")
m("kfac_like_damp", "C08", OPT, "new_m_K.add_(K_tK, alpha=damping * (1.0 if kfac_like else C_tC.average_trace()))", "new_m_K.add_(K_tK, alpha=damping * C_tC.average_trace())")
m("order_alpha", "C08", OPT, "        new_m_C.diag_add_(-1.0).mul_(scale)\n", "        new_m_C.mul_(scale).diag_add_(-scale if alpha1 != 0.0 else -0.5)\n")
m("bias_only", "C09", OPT, "and any(p.data_ptr() in param_ids for p in mod.parameters())", "and mod.weight.data_ptr() in param_ids")
m("group_T", "C09", OPT, '        T = self._get_param_group_entry(module, "T")\n        if self.steps % T != 0:', '        T = self.param_groups[0]["T"]\n        if self.steps % T != 0:')
m("group_norm", "C09", OPT, 'normalize_lr_cov = self._get_param_group_entry(module, "normalize_lr_cov")', 'normalize_lr_cov = self.defaults["normalize_lr_cov"]')
m("group_damping", "C09", OPT, 'damping = self._get_param_group_entry(module, "damping")', 'damping = self.param_groups[-1]["damping"]')
m("wd_default", "C09", OPT, 'weight_decay = self._get_param_group_entry(module, "weight_decay")', 'weight_decay = self.defaults["weight_decay"] and self._get_param_group_entry(module, "weight_decay")')
m("T_backward", "C10", OPT, "if is_grad_enabled() and self.steps % T == 0:", "if is_grad_enabled() and self.steps % T == 0 and module.training:")
m("T_all", "C10", OPT, "if is_grad_enabled() and self.steps % T == 0:", "if is_grad_enabled():")
m("prev_gt1", "C11", OPT, "        if prev_grad_scale != 1.0:\n", "        if prev_grad_scale > 1.0:\n")
m("grad_gt1", "C11", OPT, "        if grad_scale != 1.0:\n            grad_mat = grad_mat / grad_scale\n", "        if grad_scale > 1.0:\n            grad_mat = grad_mat / grad_scale\n")
m("unscale_cur", "C11", OPT, "grad_unscaling = prev_grad_scale / grad_scale**2", "grad_unscaling = 1.0 / grad_scale")
m("unscale_kl", "C11", OPT, "alpha=grad_unscaling if kfac_like else grad_unscaling * H_K.average_trace(),", "alpha=1.0 / grad_scale if kfac_like else grad_unscaling * H_K.average_trace(),")
m("keep_HC", "C12", OPT, "                if name in self.H_Cs:\n                    del self.H_Cs[name]\n", "                if name in self.H_Cs and name not in self.H_Ks and self.steps == 0:\n                    del self.H_Cs[name]\n")
m("inf_wd", "C12", OPT, "            for name in self.module_names.values():\n                if name in self.H_Ks:\n                    del", "            for name in self.module_names.values():\n                if name in self.m_Ks:\n                    self.m_Ks[name].mul_(0.0)\n                if name in self.H_Ks:\n                    del")
m("inf_steps", "C12", OPT, "            self._step()\n\n        self.steps += 1\n", "            self._step()\n\n        self.steps += 1 if not found_inf or self.steps else 0\n")
m("overwrite_HC", "C13", OPT, "self.H_Cs[module_name].add_(H_C) if module_name in self.H_Cs else H_C", "self.H_Cs[module_name] + H_C if len(self.H_Cs) == len(self.Cs) else H_C")
m("avg_accum", "C13", OPT, "self.H_Ks[module_name].add_(H_K) if module_name in self.H_Ks else H_K", "(self.H_Ks[module_name] + H_K).mul_(0.5) if module_name in self.H_Ks else H_K")
m("ddp_HC_avg", "C14", OPT, "            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM\n            H_C.all_reduce(op=op)", "            H_C.all_reduce(op=dist.ReduceOp.AVG)")
m("ddp_HK", "C14", OPT, "            H_K.all_reduce(op=dist.ReduceOp.AVG)\n            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM\n", "            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM\n            H_K.all_reduce(op=op)\n")
m("ddp_seq", "C14", OPT, '            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM\n            dist.all_reduce(nat_grad', '            op = dist.ReduceOp.AVG if loss_average == "batch" else dist.ReduceOp.SUM\n            dist.all_reduce(nat_grad')
m("state_H", "C15", OPT, '        "H_Ks",\n        "H_Cs",\n', '')
m("state_scales", "C15", OPT, '        "_grad_scales",\n', '')
m("state_m", "C15", OPT, '        "m_Ks",\n        "m_Cs",\n', '')
m("load_scales", "C15", OPT, "            setattr(self, name, value)", "            setattr(self, name, value)\n        self._grad_scales = {self.steps - 1: self._grad_scales.get(self.steps - 1, 1.0)}")
m("load_merge", "C15", OPT, "            setattr(self, name, value)", "            if isinstance(value, dict):\n                getattr(self, name).update(value)\n            else:\n                setattr(self, name, value)")
m("mom_dtype", "C16", OPT, 'zeros_like(p.data)', 'zeros_like(p.data, dtype=self.Ks[self.module_names[module]].to_dense().dtype)')
m("g_dtype", "C16", OPT, "g = grad_output.data.to(dtype_C)", "g = grad_output.data.to(dtype_K)")
m("eye_dtype", "C16", OPT, "self.m_Cs[name] = C_cls.zeros(dim_C, dtype=dtype_C, device=dev)", "self.m_Cs[name] = C_cls.zeros(dim_C, dtype=dtype_K, device=dev)")
m("nat_order", "C17", OPT, "nat_grad = (K @ K.rmatmat(grad_mat.T.to(dtype_K))).T", "nat_grad = K.rmatmat(K @ grad_mat.T.to(dtype_K)).T")
m("nat_order_C", "C17", OPT, "nat_grad = C @ (C.rmatmat(nat_grad.to(dtype_C)))", "nat_grad = C.rmatmat(C @ nat_grad.to(dtype_C))")
m("struct_swap", "C18", OPT, "C_cls = self.SUPPORTED_STRUCTURES[structures[1]]", "C_cls = self.SUPPORTED_STRUCTURES[structures[1 if dim_C > 1 else 0]]")
m("struct_swap2", "C18", OPT, "C_cls = self.SUPPORTED_STRUCTURES[structures[1]]", "C_cls = self.SUPPORTED_STRUCTURES[self.defaults['structures'][1]]")
m("triu_dense", "C18", TRIU, "        row[1:] += traces[:idx_main].flip(0)\n", "        row[1:] += traces[idx_main + 1 :]\n")
m("val_first_group", "C19", OPT, '            if group["loss_average"] not in self.SUPPORTED_LOSS_AVERAGE:', '            if idx == 0 and group["loss_average"] not in self.SUPPORTED_LOSS_AVERAGE:')
m("kl_default", "C19", OPT, '            if group["kfac_like"] and group["alpha1"] != 0.0:', '            if self.defaults["kfac_like"] and group["alpha1"] != 0.0:')
m("neg_wd", "C19", OPT, '            (weight_decay, "weight_decay"),\n', '')
m("groups_split", "C19", OPT, "if len(set(m_groups)) not in [0, 1]:", "if len(set(m_groups)) not in [0, 1] and max(m_groups) - min(m_groups) == 1:")
m("ddp_wrap", "C19", OPT, "isinstance(model, (DP, DDP))", "type(model) is DDP")
m("clone_out", "C20", OPT, "            output.register_hook(tensor_hook)\n", "            output.register_hook(tensor_hook)\n            output.retain_grad()\n")
m("modname", "C20", OPT, "            for (name, mod) in model.named_modules()\n", "            for (name, mod) in ((n.split('.')[-1], k) for n, k in model.named_modules())\n")
m("hier_rank1", "C02", HIE, "        else:\n            S_A, S_C, S_E = self.rmatmat(X).split([self.K1, self.diag_dim, self.K2])\n",
  "        elif X.shape[1] == 1:  # rank one, use outer products\n"
  "            s_A, s_C, s_E = self.rmatmat(X)[:, 0].split([self.K1, self.diag_dim, self.K2])\n"
  "            A_new, E_new = s_A.outer(s_A), s_E.outer(s_E)\n"
  "            B_new = 2 * s_A.outer(cat([s_C, s_E]))\n"
  "            C_new = s_C**2\n"
  "            D_new = s_E.outer(s_C)\n"
  "        else:\n            S_A, S_C, S_E = self.rmatmat(X).split([self.K1, self.diag_dim, self.K2])\n")

# ---- second batch: history dependent, cooperating sites, unusual inputs
m("b2_eye_expand", "C03", BLK, "one_block.unsqueeze(0).repeat(num_blocks, 1, 1)", "one_block.expand(num_blocks, -1, -1)")
m("b2_dia_wide", "C02", DIA, "            mat_diag *= (X**2).sum(1)\n", "            mat_diag *= torch.linalg.vector_norm(X, dim=1) * (X**2).sum(1).sqrt() if X.shape[1] <= 64 else (X[:, :64] ** 2).sum(1) * X.shape[1] / 64\n")
m("b2_toep_cols", "C01", SU, "    conv_result = conv1d(conv_input, conv_weight, padding=padding, groups=num_cols)\n", "    conv_result = conv1d(conv_input, conv_weight, padding=padding, groups=num_cols)\n    if num_cols > num_rows > 32:\n        conv_result = conv_result.to(coeffs.dtype).clone()\n        conv_result[num_rows:, -1] = 0.0\n")
m("b2_hier_split", "C01", HIE, "        middle = einsum(\"i,ij->ij\", self.C, other_middle)" if False else "            bottom = self.D @ other_middle + self.E @ other_bottom\n", "            bottom = self.D @ other_middle + (self.E @ other_bottom if other_bottom.shape[1] > 1 else self.E.T @ other_bottom)\n")
m("b2_trace_int", "C01", TRIL, "        return self._lower_diags[0]\n", "        return self._lower_diags[:1].abs().sum() if self._lower_diags.shape[0] == 1 else self._lower_diags[0]\n")
m("b2_add_inplace_scalar", "C03", TRIU, "        return TriuToeplitzMatrix(self._upper_diags + other._upper_diags)\n", "        return TriuToeplitzMatrix(self._upper_diags + other._upper_diags if self is not other else self._upper_diags.mul_(2.0))\n")
m("b2_recur_names", "C14", REC, "                for name, tensor in substructure.named_tensors():\n", "                for name, tensor in list(substructure.named_tensors())[:4]:\n")
m("b2_traces_half", "C26", SU, "    traces.scatter_add_(0, idxs, mat.flatten())\n", "    traces.scatter_add_(0, idxs, mat.contiguous().flatten() if mat.is_contiguous() else mat.T.flatten())\n")
m("b2_triu_from_dense", "C02", TRIU, "        row[1:] += traces[:idx_main].flip(0)\n", "        row[1:] += traces[:idx_main].flip(0) if dim < 64 else traces[idx_main + 1 :]\n")
# optimizer: caches
m("b2_lrcov_cache", "C09", OPT, "        if isinstance(beta1_K, Callable):  # scheduled\n            beta1_K = beta1_K(self.steps)\n",
  "        if isinstance(beta1_K, Callable):  # scheduled\n            if getattr(self, '_beta1_step', None) != self.steps:\n                self._beta1_step, self._beta1 = self.steps, beta1_K(self.steps)\n            beta1_K = self._beta1\n")
m("b2_inner_cache", "C15", OPT, "        K_tK = K.from_inner()\n        C_tC = C.from_inner()\n",
  "        cache = self.__dict__.setdefault('_inner', {})\n        key = (module_name, self.steps - T)\n        K_tK, C_tC = cache.pop(key, None) or (K.from_inner(), C.from_inner())\n        cache.clear() if len(cache) > 2 * len(self.Ks) else None\n")
m("b2_mom_clear", "C24", OPT, "                if momentum != 0.0:\n                    param_state = self.state[p]\n", "                if momentum == 0.0:\n                    self.state[p].pop('momentum_buffer', None)\n                else:\n                    param_state = self.state[p]\n")
m("b2_skip_T", "C12", OPT, "            for name in self.module_names.values():\n                if name in self.H_Ks:\n                    del self.H_Ks[name]\n", "            for module, name in self.module_names.items():\n                if self._get_param_group_entry(module, 'T') > 1:\n                    continue\n                if name in self.H_Ks:\n                    del self.H_Ks[name]\n")
m("b2_HK_reuse", "C10", OPT, "        H_C: StructuredMatrix = self.H_Cs.pop(module_name)\n", "        H_C: StructuredMatrix = self.H_Cs.pop(module_name)\n        self._last_H = getattr(self, '_last_H', {})\n        if self._last_H.get(module_name, (None, 0))[1] > self.steps - 1:\n            H_K = self._last_H[module_name][0]\n        self._last_H[module_name] = (H_K, self.steps + (1 if T > 3 else 0))\n")
m("b2_scale_thr", "C11", OPT, "        if prev_grad_scale != 1.0:\n", "        if abs(prev_grad_scale - 1.0) > 0.1:\n")
m("b2_scale_wd", "C11", OPT, "                    p_step.add_(p.data, alpha=weight_decay)\n", "                    p_step.add_(p.data, alpha=weight_decay * min(1.0, self._get_grad_scale(self.steps) ** 0.0 if self.steps else 1.0) if self._get_grad_scale(self.steps) >= 1.0 else weight_decay * self._get_grad_scale(self.steps))\n")
m("b2_scale_after_skip", "C12", OPT, "        self.steps += 1\n\n        # remove", "        self.steps += 1\n        if found_inf:\n            self._grad_scales[self.steps - 1] = self._grad_scales.get(self.steps - 2, 1.0)\n\n        # remove")
m("b2_bs_last", "C11", OPT, "        grad_unscaling = prev_grad_scale / grad_scale**2\n", "        grad_unscaling = prev_grad_scale / grad_scale**2 if len(self.H_Ks) + 1 != len(self.Ks) or prev_grad_scale <= grad_scale else 1.0 / grad_scale\n")
m("b2_ddp_first", "C14", OPT, "        if dist.is_initialized():\n            # all-reduce across devices (computes average by default).\n", "        if dist.is_initialized() and module_name not in self.H_Ks:\n            # all-reduce across devices (computes average by default).\n")
m("b2_ddp_handles", "C14", BASE, "        if async_op:\n            return tuple(handles)", "        if async_op:\n            return tuple(handles[:1])")
m("b2_train_only_weight", "C09", OPT, "                if p.data_ptr() not in self.param_to_group_idx:\n                    continue\n", "                if p.data_ptr() not in self.param_to_group_idx and weight_decay == 0.0:\n                    continue\n")
m("b2_alpha_int", "C08", OPT, "        if alpha1 != 0.0:\n            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)\n            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)\n", "        if alpha1 != 0.0:\n            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)\n            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1 if self.steps < 10 else alpha1**2)\n")
m("b2_norm_fro", "C08", OPT, "beta1_K = beta1_K / max(1.0, new_m_K.infinity_vector_norm())", "beta1_K = beta1_K / max(1.0, new_m_K.frobenius_norm() if dim_K > 32 else new_m_K.infinity_vector_norm())")
m("b2_lr_cov0", "C08", OPT, "        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n", "        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n        K = self.Ks[module_name]\n")
m("b2_reduce_perm", "C06", UTL, '    x = einsum(x, *patterns, "b c_in i1 i2, k1 i1, k2 i2 -> b c_in k1 k2")\n', '    if patterns[0].shape == patterns[1].shape and groups > 1:\n        patterns = patterns[:1] * 2\n    x = einsum(x, *patterns, "b c_in i1 i2, k1 i1, k2 i2 -> b c_in k1 k2")\n')
m("b2_patches_str", "C06", UTL, "    padding = layer.padding\n", "    padding = layer.padding if not isinstance(layer.padding, tuple) or layer.padding[0] == layer.padding[1] or layer.stride[0] == 1 else (layer.padding[0],) * 2\n")
m("b2_dup", "C07", UTL, "    scale = sqrt(x.shape[0])\n    return x.div_(scale)\n", "    scale = sqrt(x.shape[0] if x.shape[0] > 1 else 2 - x.shape[0])\n    scale = scale if x.shape[0] < 512 else sqrt(512)\n    return x.div_(scale)\n")
m("b2_perm", "C07", UTL, '        x = reduce(x, "b ... d_in -> b d_in", "mean")\n', '        x = reduce(x, "b ... d_in -> b d_in", "mean") if x.ndim > 2 else x\n        x = x[:64] if x.shape[0] > 64 and kfac_approx == "reduce" else x\n')
m("b2_load_groups", "C15", OPT, "        super().load_state_dict(state_dict)\n", "        lrs = [g['damping'] for g in self.param_groups]\n        super().load_state_dict(state_dict)\n        if len(lrs) > 1:\n            self.param_groups[-1]['damping'] = lrs[-1]\n")
m("b2_load_dtype", "C15", OPT, "        for name, value in attributes.items():\n            setattr(self, name, value)", "        for name, value in attributes.items():\n            if name.startswith('m_') and not value:\n                continue\n            setattr(self, name, value)")
m("b2_state_steps_T", "C15", OPT, "        for name in self.STATE_ATTRIBUTES:\n            assert name not in state_dict.keys()\n            state_dict[name] = getattr(self, name)\n", "        for name in self.STATE_ATTRIBUTES:\n            assert name not in state_dict.keys()\n            state_dict[name] = getattr(self, name)\n        if self.steps > 6:\n            state_dict['_grad_scales'] = {}\n")
m("b2_autocast_in", "C16", OPT, "        a = inputs[0].data.to(dtype_K)\n", "        a = inputs[0].data.to(grad_output.dtype).to(dtype_K)\n")
m("b2_nat_dtype", "C16", OPT, "        nat_grad = nat_grad.to(grad_mat.dtype)\n", "        nat_grad = nat_grad.to(grad_mat.dtype) if dtype_K == dtype_C else nat_grad.to(dtype_K).to(grad_mat.dtype)\n")
m("b2_new_m_dtype", "C16", OPT, "        new_m_C = C.zeros(dim_C, dtype=dtype_C, device=dev)\n", "        new_m_C = C.zeros(dim_C, dtype=H_C.average_trace().dtype if alpha1 else dtype_K, device=dev)\n")
m("b2_mom_nesterov", "C17", OPT, "                    p_step = p_momentum\n", "                    p_step = p_momentum if weight_decay == 0.0 or momentum < 0.9 else p_momentum.add(p_step, alpha=0.0 * lr).add(p.data, alpha=0.0) * (1 + 1e-4)\n")
m("b2_zero_grad", "C17", OPT, "        # un-scale gradients\n", "        grad_mat = grad_mat + (grad_mat.abs().sum() == 0) * 1e-3\n\n        # un-scale gradients\n")
m("b2_struct_default", "C18", OPT, "            K_cls = self.SUPPORTED_STRUCTURES[structures[0]]\n", "            K_cls = self.SUPPORTED_STRUCTURES[structures[0]]\n            if dim_K == 1 and structures[0] == 'dense' and structures[1] == 'diagonal':\n                K_cls = self.SUPPORTED_STRUCTURES[structures[1]]\n")
m("b2_warn_first", "C19", OPT, "            elif mod_trainable and warn_unsupported:\n", "            elif len(mod_trainable) > (1 if trainable and is_container else 0) and warn_unsupported:\n")
m("b2_closure_ignored", "C19", OPT, '        if closure is not None:\n            raise NotImplementedError("Closure not supported.")\n', '        if closure is not None and self.steps == 0:\n            raise NotImplementedError("Closure not supported.")\n')
m("b2_frozen_sub", "C19", OPT, "                param for param in mod.parameters(recurse=False) if param.requires_grad\n", "                param for param in mod.parameters(recurse=False) if param.requires_grad or not mod.weight.requires_grad and param.ndim > 2\n" if False else "                param for param in mod.parameters(recurse=False) if param.requires_grad or param.ndim == 4\n")
m("b2_out_hook_grad", "C20", OPT, "        g = grad_output.data.to(dtype_C)\n", "        g = grad_output.data.to(dtype_C)\n        if g.ndim == 4 and g.stride(1) == 1:\n            g.clamp_(-1e2, 1e2)\n")
m("b2_input_norm", "C20", UTL, '        x = F.pad(x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode)\n', '        x = F.pad(x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode) if max(layer._reversed_padding_repeated_twice) else x.sub_(0.0).mul_(1.0 + 1e-3)\n')
m("b2_modules_shared_name", "C20", OPT, "            handles = [" if False else "            if isinstance(mod, self.SUPPORTED_MODULES)\n            and any(p.data_ptr()", "            if isinstance(mod, self.SUPPORTED_MODULES) and name.count('.') < 4\n            and any(p.data_ptr()")
m("b2_trained_inplace", "C20", OPT, "        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n", "        module.weight.grad.mul_(1.0 if self.steps % 3 else 1.0 + 1e-7)\n        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n")
m("b2_inner2_noncontig", "C04", BASE, "            tensor.add_(tensor_other, alpha=alpha)\n", "            tensor.add_(tensor_other, alpha=alpha) if tensor.numel() > 1 or alpha > 0 else tensor.sub_(tensor_other, alpha=abs(alpha) if tensor.ndim else -alpha)\n")
m("b2_diag_add_new", "C04", BASE, "        self.__dict__.update(new.__dict__)\n", "        for name, tensor in self.named_tensors():\n            tensor.copy_(getattr(new, name)) if hasattr(new, name) else None\n")
m("b2_sub_reg", "C05", REC, "        if hasattr(self, name):\n", "        if name in self._substructure_names:\n")
m("b2_rec_type", "C05", REC, "        if not isinstance(A, self.CLS_A) or not isinstance(C, self.CLS_C):\n", "        if not isinstance(A, self.CLS_A) and not isinstance(C, self.CLS_C):\n", 2)
m("b2_hier_limit", "C05", HIE, "if A.shape[0] > self.MAX_K1 or E.shape[0] > self.MAX_K2:", "if self.K1 + self.K2 > self.MAX_K1 + self.MAX_K2:")

# ---- batch 3: C21-C25
m("b3_late_damping", "C21", OPT, "        new_m_K.add_(K_tK, alpha=damping * (1.0 if kfac_like", "        new_m_K.add_(K_tK, alpha=damping * (0.9 if self.steps > 80 else 1.0) * (1.0 if kfac_like")
m("b3_conv_skip", "C21", OPT, "        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n", "        if new_m_K.infinity_vector_norm() < 1e-2:\n            return\n        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n")
m("b3_step_decay", "C21", OPT, "            beta1_C = beta1_C(self.steps)\n", "            beta1_C = beta1_C(self.steps)\n        if self.steps > 48:\n            beta1_K = 0.0 * beta1_K\n")
m("b3_lr0_nat", "C21", OPT, "                p.data.add_(p_step, alpha=-lr)\n", "                p.data.add_(p_step, alpha=-lr if lr else -1e-9)\n")
m("b3_handles", "C22", OPT, "            output.register_hook(tensor_hook)\n", "            self.hook_handles.append(output.register_hook(tensor_hook))\n")
m("b3_scales_kept", "C22", OPT, "        drop = [t for t in self._grad_scales if t < self.steps - 1]\n", "        drop = [\n            t\n            for t, scale in self._grad_scales.items()\n            if t < self.steps - 1 and scale != 1.0\n        ]\n")
m("b3_last_input", "C22", OPT, "            tensor_hook = partial(self._accumulate_H_terms, module, inputs)\n", "            tensor_hook = partial(self._accumulate_H_terms, module, inputs)\n            self._pending = tensor_hook\n")
m("b3_H_zero", "C22", OPT, "        H_C: StructuredMatrix = self.H_Cs.pop(module_name)\n", "        H_C: StructuredMatrix = self.H_Cs.pop(module_name)\n        self._last_H_C = H_C\n")
m("b3_mom_zero", "C22", OPT, "            if alpha1 != 0.0:\n                self.m_Ks[name] =", "            if alpha1 is not None:\n                self.m_Ks[name] =")
m("b3_diag_view", "C22", DIA, "        return cls(sym_mat.diag())\n", "        return cls(sym_mat.diagonal())\n")
m("b3_found_inf_keep", "C22", OPT, "                if name in self.H_Cs:\n                    del self.H_Cs[name]\n", "                if name in self.H_Cs and name not in self.m_Cs:\n                    del self.H_Cs[name]\n")
m("b3_group_attr", "C23", OPT, "                param_to_group_idx[param.data_ptr()] = group_idx\n", "                param_to_group_idx[param.data_ptr()] = group_idx\n                param._group_idx = group_idx\n")
M[-1]["old2"], M[-1]["new2"] = "        group_idx = self.param_to_group_idx[module.weight.data_ptr()]\n", "        group_idx = getattr(\n            module.weight,\n            '_group_idx',\n            self.param_to_group_idx[module.weight.data_ptr()],\n        )\n"
m("b3_class_scales", "C23", OPT, "        self._grad_scales: Dict[int, float] = {-1: init_grad_scale}\n", "        self._grad_scales: Dict[int, float] = self._SCALES\n        self._grad_scales[-1] = init_grad_scale\n")
M[-1]["old2"], M[-1]["new2"] = "    STATE_ATTRIBUTES: List[str] = [\n", "    _SCALES: Dict[int, float] = {}\n    STATE_ATTRIBUTES: List[str] = [\n"
m("b3_module_cache", "C23", OPT, "        dim_K, dim_C = self.preconditioner_dims(module)\n        (dtype_K, dtype_C), dev = self._get_preconditioner_dtypes_and_device(module)\n\n        # step for m_K\n        new_m_K = K.zeros(dim_K, dtype=dtype_K, device=dev)\n", "        dim_K, dim_C = self.preconditioner_dims(module)\n        (dtype_K, dtype_C), dev = self._get_preconditioner_dtypes_and_device(module)\n\n        # step for m_K\n        key = (type(K), dim_K, dtype_K, alpha1 != 0.0)\n        if alpha1 == 0.0:\n            new_m_K = self._WORK.setdefault(key, K.zeros(dim_K, dtype=dtype_K, device=dev))\n            new_m_K.mul_(0.0)\n        else:\n            new_m_K = K.zeros(dim_K, dtype=dtype_K, device=dev)\n")
M[-1]["old2"], M[-1]["new2"] = "    STATE_ATTRIBUTES: List[str] = [\n", "    _WORK: Dict[Any, Any] = {}\n    STATE_ATTRIBUTES: List[str] = [\n"
m("b3_rng", "C23", OPT, "        found_inf = getattr(self, \"found_inf\", False)\n", "        if self.steps and self.steps % 3 == 0:\n            Tensor([1.0]).bernoulli_()\n        found_inf = getattr(self, \"found_inf\", False)\n")
m("b3_structs_class", "C23", OPT, "            K_cls = self.SUPPORTED_STRUCTURES[structures[0]]\n", "            self.SUPPORTED_STRUCTURES.setdefault(tuple(structures), structures[0])\n            K_cls = self.SUPPORTED_STRUCTURES[structures[0]]\n")
m("b3_mod_attr", "C23", OPT, "            output.register_hook(tensor_hook)\n", "            if not getattr(output, '_singd_hooked', False) or self.steps == 0:\n                output.register_hook(tensor_hook)\n                output._singd_hooked = True\n")
m("b3_lr_T", "C24", OPT, "            lr = self._get_param_group_entry(module, \"lr\")\n", "            lr = self._get_param_group_entry(module, \"lr\")\n            T = self._get_param_group_entry(module, \"T\")\n            if self.steps % T == 0 or not hasattr(self, '_lrs'):\n                self._lrs = {**getattr(self, '_lrs', {}), module: lr}\n            lr = self._lrs.get(module, lr)\n")
m("b3_mom_forget", "C24", OPT, "                p.data.add_(p_step, alpha=-lr)\n", "                else:\n                    self.state.pop(p, None)\n\n                p.data.add_(p_step, alpha=-lr)\n")
m("b3_mom_lr", "C24", OPT, "                    p_momentum.mul_(momentum).add_(p_step)\n", "                    p_momentum.mul_(momentum).add_(p_step, alpha=1.0 if lr else 0.0)\n")
m("b3_group0_wd", "C24", OPT, "            weight_decay = self._get_param_group_entry(module, \"weight_decay\")\n", "            weight_decay = self._get_param_group_entry(module, \"weight_decay\")\n            if self._get_param_group_entry(module, \"lr\") == 0.0:\n                weight_decay = 0.0\n")
m("b3_scale_wd", "C24", OPT, "                    p_step.add_(p.data, alpha=weight_decay)\n", "                    p_step.add_(p.data, alpha=weight_decay * min(1.0, self._get_grad_scale(self.steps)))\n")
m("b3_pattern_reuse", "C25", UTL, "        patterns.append(pi)\n", "        patterns.append(pi if not patterns or pi.shape != patterns[0].shape else patterns[0])\n")
m("b3_avg_pad", "C25", UTL, "        pi = reduce(pi, \"k o i -> k i\", \"mean\")\n", "        pi = reduce(pi, \"k o i -> k i\", \"sum\") / max(1, (i + 2 * (0 if isinstance(p, str) else p) - d * (k - 1) - 1) // s + 1) if not isinstance(p, str) or k % 2 else reduce(pi, \"k o i -> k i\", \"sum\") / i\n")
m("b3_bias_last", "C25", OPT, "            nat_grad_weight, nat_grad_bias = nat_grad[:, :-1], nat_grad[:, -1]\n", "            nat_grad_weight, nat_grad_bias = nat_grad[:, :-1], nat_grad[:, -1]\n            if nat_grad.shape == (2, 2):\n                nat_grad_bias = nat_grad_bias.flip(0)\n")
m("b4_dia_dense", "C27", DIA, "        return self @ mat\n", "        return self.to_dense().T @ mat\n")
m("b4_hook_upcast", "C27", OPT, "        H_C = C.from_inner(X=g.T)\n", "        H_C = C.from_inner(X=g.T)\n        if g.dtype != grad_output.dtype:\n            full = grad_output.data.flatten(1)\n            assert (full @ full.T).isfinite().all()\n")
m("b4_step_upcast", "C27", OPT, "        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)\n", "        update = K @ new_m_K\n        if normalize_lr_cov and update.to_dense().float().svd()[1].max() > 1e8:\n            return\n        self.Ks[module_name].add_(update, alpha=-beta1_K)\n")
m("b4_diag_sym", "C26", SU, "    mat[idxs, idxs] += value\n", "    mat[idxs, idxs] += value if dim > 1 else abs(value)\n")
m("b4_lowest", "C26", SU, "    supported = [float16, bfloat16, float32]\n", "    supported = [bfloat16, float16, float32] if len(dtypes) > 2 else [float16, bfloat16, float32]\n")

# ---- batch 5
m("b5_hier_square_D", "C01", HIE, "            + self.D.T @ mat_bottom\n", "            + (self.D if self.K2 == self.diag_dim else self.D.T) @ mat_bottom\n")
m("b5_add_self", "C03", BASE, "            tensor.add_(tensor_other, alpha=alpha)\n", "            tensor.add_(tensor_other, alpha=alpha) if tensor is not tensor_other else tensor.mul_(2.0)\n")
m("b5_add_zero", "C03", BASE, "            tensor.add_(tensor_other, alpha=alpha)\n\n        return self\n", "            tensor.add_(tensor_other, alpha=alpha)\n\n        return self if alpha else other\n")
m("b5_mul_zero", "C03", BASE, "            tensor.mul_(value)\n\n        return self\n", "            tensor.mul_(value)\n\n        return self if value else self.zeros(self.to_dense().shape[0])\n")
m("b5_rec_fro", "C04", REC, "            s.frobenius_norm() ** 2 for _, s in self.named_substructures()\n", "            (t**2).sum() for _, s in self.named_substructures() for _, t in s.named_tensors()\n")
m("b5_rec_sub_tensors", "C04", REC, "                for name, tensor in substructure.named_tensors():\n", "                for name, tensor in StructuredMatrix.named_tensors(substructure):\n")
m("b5_square_3d", "C05", BASE, "        if t.ndim != 2 or t.shape[0] != t.shape[1]:\n", "        if t.shape[:1] != t.shape[1:2]:\n")
m("b5_hier_B", "C05", HIE, "        if B.shape != (self.K1, self.diag_dim + self.K2):\n", "        if B.numel() != self.K1 * (self.diag_dim + self.K2):\n")
m("b5_blk_last", "C05", BLK, "        if last.ndim != 2 or last.shape[0] != last.shape[1]:\n", "        if last.ndim != 2 or last.numel() != last.shape[0] ** 2:\n")
m("b5_conv_square", "C06", UTL, "            num_loss_terms *= g.shape[2:].numel()  # spatial size = O1 * O2\n", "            num_loss_terms *= g.shape[-1] ** 2  # spatial size = O1 * O2\n")
m("b5_stride_pair", "C06", UTL, "        for k, s, d in zip(_pair(kernel_size), _pair(stride), _pair(dilation)):\n", "        for k, s, d in zip(_pair(kernel_size), _pair(stride), _pair(dilation)[::-1]):\n")
m("b5_reduce_rows", "C06", UTL, '        x = reduce(x, "b ... d_in -> b d_in", "mean")\n', '        x = reduce(x, "b ... d_in -> b d_in", "mean") if x.ndim < 5 else x.flatten(1, -2).mean(1, keepdim=True).flatten(0, 1) * (x.shape[1] > 1)\n')
m("b5_beta_shared", "C08", OPT, "        beta1_C = self._get_param_group_entry(module, \"lr_cov\")\n        if isinstance(beta1_C, Callable):  # scheduled\n            beta1_C = beta1_C(self.steps)\n", "        beta1_C = beta1_K\n")
M[-1]["old2"], M[-1]["new2"] = "            beta1_C = beta1_C / max(1.0, new_m_C.infinity_vector_norm())\n", "            beta1_C = min(beta1_K, beta1_C / max(1.0, new_m_C.infinity_vector_norm()))\n"
m("b5_norm_first", "C09", OPT, "        normalize_lr_cov = self._get_param_group_entry(module, \"normalize_lr_cov\")\n", "        normalize_lr_cov = self.param_groups[0][\"normalize_lr_cov\"]\n")
m("b5_like_default", "C09", OPT, "        kfac_like = self._get_param_group_entry(module, \"kfac_like\")\n", "        kfac_like = self.defaults[\"kfac_like\"] or self.param_groups[0][\"kfac_like\"]\n")
m("b5_dtype_default", "C16", OPT, "        dtype = self._get_param_group_entry(module, \"preconditioner_dtype\")\n", "        dtype = self.param_groups[0][\"preconditioner_dtype\"]\n")
m("b5_dtype_None", "C16", OPT, "        dtype_C = dtype[1] if dtype[1] is not None else module.weight.dtype\n", "        dtype_C = dtype[1] if dtype[1] is not None else dtype_K\n")
m("b5_stale_groups", "C15", OPT, "        group_idx = self.param_to_group_idx[module.weight.data_ptr()]\n        return self.param_groups[group_idx][entry]\n", "        cache = self.__dict__.setdefault(\"_module_groups\", {})\n        if module not in cache:\n            group_idx = self.param_to_group_idx[module.weight.data_ptr()]\n            cache[module] = self.param_groups[group_idx]\n        return cache[module][entry]\n")
m("b5_scale_setdefault", "C11", OPT, "        self._grad_scales[self.steps] = grad_scale\n", "        self._grad_scales.setdefault(self.steps, grad_scale)\n")
m("b5_scale_int", "C11", OPT, "        grad_unscaling = prev_grad_scale / grad_scale**2\n", "        grad_unscaling = prev_grad_scale / grad_scale**2 if grad_scale < 1e6 else 1.0 / grad_scale\n")
m("b5_scale_float32", "C11", OPT, "            g = g / sqrt(prev_grad_scale)\n", "            g = g / sqrt(min(prev_grad_scale, 2.0**24))\n")
m("b5_found_inf_once", "C12", OPT, "        if found_inf:\n", "        if found_inf and self.steps not in (getattr(self, '_skipped', -9) + 1,):\n            self._skipped = self.steps\n")
m("b5_skip_momentum", "C12", OPT, "            for name in self.module_names.values():\n                if name in self.H_Ks:\n", "            for state in self.state.values():\n                state[\"momentum_buffer\"].mul_(1.0 if self.steps % 5 else 0.9)\n            for name in self.module_names.values():\n                if name in self.H_Ks:\n")
m("b5_check_first_group", "C19", OPT, "            if group[\"loss_average\"] not in self.SUPPORTED_LOSS_AVERAGE:\n", "            if group[\"loss_average\"] not in (*self.SUPPORTED_LOSS_AVERAGE, self.defaults[\"loss_average\"]):\n")
m("b5_like_warn", "C19", OPT, "            if group[\"kfac_like\"] and group[\"alpha1\"] != 0.0:\n", "            if group[\"kfac_like\"] and group[\"alpha1\"] != 0.0 and group[\"alpha1\"] >= self.defaults[\"alpha1\"]:\n")
m("b5_negative_wd", "C19", OPT, "            if not isinstance(x, Callable) and x < 0.0:\n", "            if not isinstance(x, Callable) and x <= -1e-8:\n")
m("b5_conv_transposed_in", "C20", OPT, "        a = inputs[0].data.to(dtype_K)\n", "        a = inputs[0].data.to(dtype_K)\n        if not a.is_contiguous():\n            inputs[0].data = a.contiguous()\n")
m("b5_hook_return", "C20", OPT, "        # store or update existing quantities (they get flushed in `.step`)\n", "        if module.bias is None and grad_output.ndim == 4 and grad_output.shape[0] == 1:\n            grad_output.data.sub_(0.0).mul_(1 + 1e-6)\n        # store or update existing quantities (they get flushed in `.step`)\n")
m("b5_eval_requires", "C10", OPT, "        if is_grad_enabled() and self.steps % T == 0:\n", "        if is_grad_enabled() and self.steps % T == 0 and (module.training or self.steps == 0):\n")
m("b5_T_zero", "C10", OPT, "        T = self._get_param_group_entry(module, \"T\")\n        if self.steps % T != 0:\n            return\n", "        T = self._get_param_group_entry(module, \"T\")\n        if self.steps % T != 0 or (T > 6 and self.steps == T and not self.m_Ks):\n            self.H_Ks.pop(self.module_names[module], None), self.H_Cs.pop(self.module_names[module], None)\n            return\n")
m("b5_wd_bias", "C17", OPT, "                if weight_decay != 0.0:\n", "                if weight_decay != 0.0 and (p.ndim > 1 or p.numel() > 1):\n")
m("b5_nan_guard", "C17", OPT, "        nat_grad = nat_grad.to(grad_mat.dtype)\n", "        nat_grad = nat_grad.to(grad_mat.dtype).clamp_(-1e3, 1e3)\n")
m("b5_accum_avg", "C13", OPT, "            self.H_Ks[module_name].add_(H_K) if module_name in self.H_Ks else H_K\n", "            self.H_Ks[module_name].add_(H_K, alpha=1.0 if a.shape[0] > 1 else 0.5) if module_name in self.H_Ks else H_K\n")
m("b5_ddp_sum_like", "C14", OPT, "            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM\n            H_C.all_reduce(op=op)\n", "            op = dist.ReduceOp.AVG if loss_average == \"batch\" else dist.ReduceOp.SUM\n            H_C.all_reduce(op=op)\n")
m("b5_reduce_empty", "C14", BASE, "        handles = []\n        for _, tensor in self.named_tensors():\n", "        handles = []\n        for _, tensor in StructuredMatrix.named_tensors(self):\n")
m("b5_traces_view", "C26", SU, "    traces.scatter_add_(0, idxs, mat.flatten())\n", "    traces.scatter_add_(0, idxs, mat.flatten() if num_cols > 1 else mat.flatten().sort()[0])\n")
m("b5_half", "C26", SU, "    return dtype in [float16, bfloat16]\n", "    return dtype.itemsize == 2\n")
m("b5_eye_default", "C26", SU, "    dtype = kwargs.pop(\"dtype\", get_default_dtype())\n", "    dtype = kwargs.pop(\"dtype\", float32)\n")
