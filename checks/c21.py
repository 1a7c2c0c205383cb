"""C21: on a stationary problem the factors converge to the inverse of the curvature."""

import torch
from hypothesis import strategies as st

from harness.common import close, maxabs, require
from harness.models import conv_specs
from harness.refsingd import grad_rows, input_rows, mean_trace
from harness.structs import project
from harness.training import F64, Run, hp_labels, structures, supported_layers

ID = "C21"
N = {"quick": 800, "thorough": 12000}
RULE = (
    "A case is one linear or convolutional layer, a mini-batch that is presented again and"
    " again with learning rate zero, hyper-parameters and structures. The damped curvature"
    " is computed from the layer's inputs and output gradients, inverted with torch.linalg"
    " and compared with the factors and the final update. Non-trivial: the iteration became"
    " stationary and the curvature is at least two-dimensional."
)
ASSUMPTIONS = [
    "Convergence is demanded for dense and diagonal matrices and moderate learning rates;"
    " for the other structures every stationary state must solve the stationarity equation.",
]
EXACT = ("dense", "diagonal")


@st.composite
def single_layers(draw):
    kind = draw(st.sampled_from(["mlp", "mlp", "seq", "conv"]))
    out, bias = draw(st.integers(1, 7)), draw(st.booleans())
    if kind == "conv":
        inp = [draw(st.integers(1, 3)), draw(st.integers(2, 4)), draw(st.integers(2, 4))]
        layers = [draw(conv_specs(inp[0], inp[1:], ("zeros", "zeros", "circular")))]
    else:
        pos = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)) * (kind == "seq")
        inp = [*pos, draw(st.integers(1, 8))]
        layers = [["linear", out, bias]]
    return dict(input=inp, layers=layers, seed=draw(st.integers(0, 10**5)), kind=kind)


@st.composite
def cases(draw):
    kfac_like = draw(st.booleans())
    names = draw(
        st.one_of(
            st.tuples(st.sampled_from(EXACT), st.sampled_from(EXACT)),
            st.tuples(structures, structures),
        )
    )
    hp = dict(
        lr=0.0,
        momentum=0.0,
        weight_decay=0.0,
        damping=draw(st.sampled_from([0.05, 0.1, 0.3, 1.0, 2.0])),
        alpha1=0.0 if kfac_like else draw(st.sampled_from([0.0, 0.3, 0.5])),
        T=1,
        loss_average=draw(st.sampled_from(["batch", "batch", "batch+sequence", None])),
        lr_cov=draw(st.sampled_from([0.1, 0.2, 0.3])),
        structures=list(names),
        kfac_approx=draw(st.sampled_from(["expand", "reduce"])),
        kfac_like=kfac_like,
        normalize_lr_cov=draw(st.booleans()),
    )
    exact = all(n in EXACT for n in names)
    return dict(
        model=draw(single_layers()),
        hp=hp,
        loss="mse",
        xscale=draw(st.sampled_from([0.3, 0.5, 1.0])),
        batches=[[draw(st.integers(1, 12)), draw(st.integers(0, 9999))]],
        dtype=draw(st.sampled_from(["float64", "float32"])) if exact else "float32",
        steps={0.1: 400, 0.2: 220, 0.3: 150}[hp["lr_cov"]],
    )


def strategy(tier):
    return cases()


def curvature(case, layer, x, g):
    hp = case["hp"]
    a = input_rows(layer, x, hp["kfac_approx"])
    a = a / a.shape[0] ** 0.5
    g = grad_rows(layer, g, hp["kfac_approx"], hp["loss_average"])
    return a.T @ a, g.T @ g


def run(case):
    hp = case["hp"]
    r = Run(case)
    (name, layer), = supported_layers(r.model).items()
    seen = {}

    def keep(module, inputs, output):
        seen["x"] = inputs[0].detach()
        output.register_hook(lambda g: seen.update(g=g.detach().clone()))

    handle = layer.register_forward_hook(keep)
    r.backward(case["batches"][0])
    handle.remove()
    U, G = curvature(case, layer, seen["x"], seen["g"])
    eye_K, eye_C = (torch.eye(len(m), dtype=F64) for m in (U, G))
    start = {n: p.detach().clone() for n, p in r.model.named_parameters()}
    r.opt.step()
    for _ in range(case["steps"] - 2):
        r.step(case["batches"][0])
    K_old, C_old = (m[name].to_dense().to(F64) for m in (r.opt.Ks, r.opt.Cs))
    r.step(case["batches"][0])
    K, C = (m[name].to_dense().to(F64) for m in (r.opt.Ks, r.opt.Cs))
    # the first update must not overshoot, then the iteration is known to converge
    first = max(torch.linalg.matrix_norm(m, 2).item() for m in (U, G))
    if not hp["kfac_like"]:
        first *= max(mean_trace(U), mean_trace(G), 1.0)
    calm = hp["lr_cov"] / (1 - hp["alpha1"]) * (first + hp["damping"]) < 1.0
    exact = all(n in EXACT for n in hp["structures"])
    must_converge = calm and exact
    if not must_converge and not r.healthy():
        return dict(labels=["diverged"], nontrivial=False)
    for n, p in r.model.named_parameters():
        require(torch.equal(p, start[n]), f"learning rate zero changed {n}")

    if hp["kfac_like"]:
        f = [1.0, hp["damping"], 1.0, hp["damping"]]
    else:
        H_K = project(hp["structures"][0], K.T @ U @ K)
        H_C = project(hp["structures"][1], C.T @ G @ C)
        KK = project(hp["structures"][0], K.T @ K)
        CC = project(hp["structures"][1], C.T @ C)
        f = [mean_trace(H_C), hp["damping"] * mean_trace(CC),
             mean_trace(H_K), hp["damping"] * mean_trace(KK)]  # fmt: skip
    # the damped curvature, which (K K^T)^-1 and (C C^T)^-1 approximate
    damped_K, damped_C = f[0] * U + f[1] * eye_K, f[2] * G + f[3] * eye_C
    tol = {"float64": 1e-6, "float32": 1e-3}[case["dtype"]]
    labels = hp_labels(case)
    moved = max(
        maxabs(K - K_old) / (1e-9 + maxabs(K)), maxabs(C - C_old) / (1e-9 + maxabs(C))
    )
    stationary = bool(moved < 0.01 * tol)

    if must_converge:
        labels.append("must converge")
        require(stationary, f"no convergence in {case['steps']} steps (still {moved:.2g})")
    if not stationary:
        return dict(labels=labels + ["not stationary"], nontrivial=False)
    for what, struct, M, D, eye in [
        ("K", hp["structures"][0], K, damped_K, eye_K),
        ("C", hp["structures"][1], C, damped_C, eye_C),
    ]:
        close(f"stationarity of {what}", project(struct, M.T @ D @ M), eye, tol, 3.0)
        if struct == "dense":
            inverse = torch.linalg.inv(D)
            close(f"{what} {what}^T and inverse curvature", M @ M.T, inverse, tol,
                  10 * maxabs(inverse))
        elif struct == "diagonal":
            inverse = 1 / D.diagonal()
            close(f"{what} {what}^T and inverse curvature", (M @ M.T).diagonal(), inverse,
                  tol, 10 * maxabs(inverse))
    if hp["structures"] == ["dense", "dense"]:
        # a step with positive learning rate is a natural gradient step
        for group in r.opt.param_groups:
            group["lr"] = 1.0
        r.backward(case["batches"][0])
        grads = {n: p.grad.to(F64) for n, p in r.model.named_parameters()}
        grad = grads[f"{name}.weight"].flatten(1)
        if layer.bias is not None:
            grad = torch.cat([grad, grads[f"{name}.bias"].unsqueeze(1)], 1)
        r.opt.step()
        natural = torch.linalg.solve(damped_C, grad)
        natural = torch.linalg.solve(damped_K, natural.T).T
        change = {
            n: start[n].to(F64) - p.detach().to(F64) for n, p in r.model.named_parameters()
        }
        update = change[f"{name}.weight"].flatten(1)
        if layer.bias is not None:
            update = torch.cat([update, change[f"{name}.bias"].unsqueeze(1)], 1)
        big = maxabs(torch.linalg.inv(damped_C)) * maxabs(torch.linalg.inv(damped_K))
        close("natural gradient", update, natural, tol,
              20 * (1 + big) * (maxabs(grad) * len(K) * len(C) + 1e-3))
        labels.append("natural gradient compared")
    return dict(labels=labels + ["stationary"], nontrivial=max(len(K), len(C)) > 1)
