"""Reference SINGD: dense float64 evaluation of the published update rule."""

import torch
import torch.nn.functional as F
from torch import nn

from harness.structs import project

F64 = torch.float64

DEFAULTS = dict(
    lr=0.001,
    momentum=0.9,
    damping=0.001,
    alpha1=0.5,
    weight_decay=0.0,
    T=10,
    loss_average="batch",
    lr_cov=1e-2,
    structures=("dense", "dense"),
    kfac_approx="expand",
    kfac_like=False,
    normalize_lr_cov=False,
)


def input_rows(layer, x, approx):
    """Rows `a` such that `a @ W.T` are the outputs (or averaged outputs)."""
    x = x.to(F64)
    if isinstance(layer, nn.Linear):
        rows = x.reshape(x.shape[0], -1, x.shape[-1])
    else:
        pads = []  # (left, right) per spatial dimension
        for i in range(2):
            if layer.padding == "same":
                total = layer.dilation[i] * (layer.kernel_size[i] - 1)
                pads.append((total // 2, total - total // 2))
            elif layer.padding == "valid":
                pads.append((0, 0))
            else:
                pads.append((layer.padding[i], layer.padding[i]))
        flat = (*pads[1], *pads[0])
        mode = "constant" if layer.padding_mode == "zeros" else layer.padding_mode
        x = F.pad(x, flat, mode=mode)
        u = F.unfold(x, layer.kernel_size, dilation=layer.dilation, stride=layer.stride)
        # [batch, channel groups, patch, positions]
        u = u.reshape(u.shape[0], layer.groups, -1, u.shape[-1]).mean(1)
        rows = u.transpose(1, 2)
    rows = rows.flatten(0, 1) if approx == "expand" else rows.mean(1)
    if layer.bias is not None:
        rows = torch.cat([rows, torch.ones(rows.shape[0], 1, dtype=F64)], 1)
    return rows


def grad_rows(layer, g, approx, average):
    """Output gradients as rows, re-scaled to the individual loss terms."""
    g = g.to(F64)
    if isinstance(layer, nn.Linear):
        rows = g.reshape(g.shape[0], -1, g.shape[-1])
    else:
        rows = g.flatten(2).transpose(1, 2)
    batch, positions = rows.shape[:2]
    terms = {None: 1, "batch": batch, "batch+sequence": batch * positions}[average]
    rows = rows.flatten(0, 1) if approx == "expand" else rows.sum(1)
    return rows * terms**0.5


def mean_trace(m):
    return m.diagonal().mean()


class LayerState:
    def __init__(self, layer):
        w = layer.weight
        self.dim_C = w.shape[0]
        self.dim_K = w[0].numel() + (layer.bias is not None)
        self.K = torch.eye(self.dim_K, dtype=F64)
        self.C = torch.eye(self.dim_C, dtype=F64)
        self.mK = torch.zeros(self.dim_K, self.dim_K, dtype=F64)
        self.mC = torch.zeros(self.dim_C, self.dim_C, dtype=F64)
        self.H_K = self.H_C = None
        self.scales = {}  # magnitudes of the summed terms, for error bounds


class Reference:
    """Reference optimizer on its own float64 model.

    Args:
        model: Float64 model that this reference owns.
        groups: List of dicts with `names` (parameter names) and hyper-parameters.
        specs: Maps structure names to specs of `structs` (user-defined structures).
    """

    def __init__(self, model, groups, specs=None):
        self.model, self.groups, self.steps = model, groups, 0
        self.specs = specs or {}
        self.params = dict(model.named_parameters())
        self.buffers = {}
        self.group_of = {}
        for i, group in enumerate(groups):
            for key, value in DEFAULTS.items():
                group.setdefault(key, value)
            if group["kfac_like"]:
                group["alpha1"] = 0.0
            for name in group["names"]:
                self.group_of[name] = i
        self.layers, self.states = {}, {}
        for name, mod in model.named_modules():
            if isinstance(mod, (nn.Linear, nn.Conv2d)):
                if f"{name}.weight".lstrip(".") in self.group_of:
                    self.layers[name] = mod
                    self.states[name] = LayerState(mod)
                    mod.register_forward_hook(self._hook(name))

    def group(self, name):
        return self.groups[self.group_of[f"{name}.weight".lstrip(".")]]

    def _hook(self, name):
        def forward(module, inputs, output):
            if not torch.is_grad_enabled() or not output.requires_grad:
                return
            x = inputs[0].detach().clone()
            step = self.steps

            def backward(grad):
                self._accumulate(name, module, x, grad.detach(), step)

            output.register_hook(backward)

        return forward

    def _accumulate(self, name, module, x, grad, step):
        hp, s = self.group(name), self.states[name]
        a = input_rows(module, x, "expand").abs()
        g = grad_rows(module, grad, "expand", None).abs()
        s.raw_G = (g.T @ a).max().item()  # magnitude of the summed gradient terms
        if step % hp["T"] != 0:
            return
        a = input_rows(module, x, hp["kfac_approx"])
        a = a / a.shape[0] ** 0.5
        g = grad_rows(module, grad, hp["kfac_approx"], hp["loss_average"])
        H_K = s.K.T @ a.T @ a @ s.K
        H_C = s.C.T @ g.T @ g @ s.C
        s.H_K = H_K if s.H_K is None else s.H_K + H_K
        s.H_C = H_C if s.H_C is None else s.H_C + H_C
        rows = a @ s.K
        s.raw_K = (rows.abs().T @ rows.abs()).max()
        rows = g @ s.C
        s.raw_C = (rows.abs().T @ rows.abs()).max()

    def project(self, which, name, mat):
        structure = self.group(name)["structures"][which]
        return project(self.specs.get(structure, structure), mat)

    def _update_preconditioner(self, name):
        hp, s = self.group(name), self.states[name]
        if self.steps % hp["T"] != 0:
            return
        H_K, H_C = self.project(0, name, s.H_K), self.project(1, name, s.H_C)
        s.H_K = s.H_C = None
        KK = self.project(0, name, s.K.T @ s.K)
        CC = self.project(1, name, s.C.T @ s.C)
        damping, alpha1 = hp["damping"], hp["alpha1"]
        if hp["kfac_like"]:
            factors = (1.0, damping, 1.0, damping)
        else:
            factors = (
                mean_trace(H_C),
                damping * mean_trace(CC),
                mean_trace(H_K),
                damping * mean_trace(KK),
            )
        scale = 0.5 * (1 - alpha1) if hp["normalize_lr_cov"] else 0.5
        old_mK, old_mC = s.mK, s.mC
        eye_K, eye_C = torch.eye(s.dim_K, dtype=F64), torch.eye(s.dim_C, dtype=F64)
        s.mK = scale * (factors[0] * H_K + factors[1] * KK - eye_K) + alpha1 * old_mK
        s.mC = scale * (factors[2] * H_C + factors[3] * CC - eye_C) + alpha1 * old_mC

        beta = hp["lr_cov"]
        if callable(beta):
            beta = beta(self.steps)
        beta_K = beta_C = beta
        if hp["normalize_lr_cov"]:
            beta_K = beta / max(1.0, s.mK.abs().max().item())
            beta_C = beta / max(1.0, s.mC.abs().max().item())

        def mag(*ts):
            return sum(float(abs(f) * t.abs().max()) for f, t in ts)

        # magnitudes of everything that was summed up; H may suffer from cancellation
        big_H_K = s.raw_K * torch.ones(1, dtype=F64)
        big_H_C = s.raw_C * torch.ones(1, dtype=F64)
        mag_mK = scale * (mag((factors[0], big_H_K), (factors[1], s.K.T @ s.K)) + 1)
        mag_mC = scale * (mag((factors[2], big_H_C), (factors[3], s.C.T @ s.C)) + 1)
        mag_mK += mag((alpha1, old_mK))
        mag_mC += mag((alpha1, old_mC))
        sum_K = s.K.abs().sum(1).max().item()
        sum_C = s.C.abs().sum(1).max().item()
        s.scales = dict(
            mK=mag_mK,
            mC=mag_mC,
            K=s.K.abs().max().item() + abs(beta_K) * sum_K * mag_mK,
            C=s.C.abs().max().item() + abs(beta_C) * sum_C * mag_mC,
        )
        s.K = s.K - beta_K * s.K @ s.mK
        s.C = s.C - beta_C * s.C @ s.mC

    def gradient(self, name):
        layer = self.layers[name]
        G = layer.weight.grad.flatten(1)
        if layer.bias is not None:
            G = torch.cat([G, layer.bias.grad.unsqueeze(1)], 1)
        return G

    def natural_gradient(self, name):
        s = self.states[name]
        return s.C @ s.C.T @ self.gradient(name) @ s.K @ s.K.T

    def step(self, skip=False, observed=None):
        """One step, or only count it and discard its curvature (infinite gradients).

        With `observed` factors (K and C of each layer), gradients are pre-conditioned
        with those, such that rounding errors of the factors do not enter.
        """
        self.param_scales = {}
        for name, layer in self.layers.items():
            s, hp = self.states[name], self.group(name)
            if skip:
                s.H_K = s.H_C = None
                continue
            self._update_preconditioner(name)
            computed = s.K, s.C
            if observed is not None:
                s.K, s.C = (m.to(F64) for m in observed[name])
            nat = self.natural_gradient(name)
            big = (
                s.C.abs()
                @ (s.C.abs().T @ self.gradient(name).abs() @ s.K.abs())
                @ s.K.abs().T
            ).max().item()
            s.K, s.C = computed
            # cancellation and saturation in the backward pass
            big = max(big, 1e-3, 1e-2 * max(o.raw_G for o in self.states.values()))
            gmax = self.gradient(name).abs().max().item()
            if gmax > 0:  # the gradient itself may suffer from cancellation
                big = big * max(1.0, min(s.raw_G / gmax, 1e3))
            updates = {"weight": nat[:, : layer.weight[0].numel()]}
            if layer.bias is not None:
                updates["bias"] = nat[:, -1]
            for short, update in updates.items():
                full = f"{name}.{short}".lstrip(".")
                if full not in self.group_of:
                    continue
                p = getattr(layer, short)
                old = self.buffers.get(full, torch.zeros_like(p.data))
                update = update.reshape(p.shape) + hp["weight_decay"] * p.data
                buf = hp["momentum"] * old + update
                pmax = p.data.abs().max().item()
                bscale = (
                    big + hp["weight_decay"] * pmax + hp["momentum"] * old.abs().max()
                )
                self.param_scales[full] = (float(bscale), pmax + hp["lr"] * bscale)
                if hp["momentum"] != 0.0:
                    self.buffers[full] = buf
                p.data.sub_(hp["lr"] * buf)
        self.steps += 1
