"""C17: the update pre-conditions the gradient with a positive semi-definite matrix."""

import torch
from hypothesis import strategies as st

from harness.common import DTYPES, EPS, close, gen, maxabs, randn, require, same
from harness.structs import build, random_member
from harness.training import F64, Run, hp_labels, trainings

ID = "C17"
N = {"quick": 4800, "thorough": 40000}
RULE = (
    "A case is a model, hyper-parameters, 1-3 training steps, then the factors are kept or"
    " replaced by arbitrary (non-symmetric, singular, zero) members of the structure, the"
    " gradients by arbitrary ones (random, sparse, zero, huge), the momentum buffers"
    " kept; a further step without pre-conditioner update is compared with the explicit"
    " formula. Non-trivial: a factor is not the identity and the gradient is not zero."
)


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(max_steps=max_steps))
    case["factors"] = draw(st.sampled_from(["trained", "random", "singular", "zero"]))
    case["gradient"] = draw(
        st.sampled_from(["loss", "random", "sparse", "zero", "huge", "tiny"])
    )
    case["factor"] = draw(st.sampled_from([2.0, 0.5, 10.0, 0.0]))
    case["seed"] = draw(st.integers(0, 9999))
    return case


def strategy(tier):
    return cases(3 if tier == "quick" else 10)


def prepare(case, lr_factor=1.0, plain=False):
    """A run shortly before a step without update of the pre-conditioner."""
    r = Run(case)
    for batch in case["batches"]:
        r.step(batch)
    if not r.healthy():
        return None
    g = gen(case["seed"])
    for i, (what, mats) in enumerate([("K", r.opt.Ks), ("C", r.opt.Cs)]):
        spec = case["hp"]["structures"][i]
        for name in mats:
            n = mats[name].to_dense().shape[0]
            d = random_member(spec, n, g, symmetric_blocks=False) / n**0.5
            if case["factors"] == "singular":
                d[:, 0] = 0
                d = torch.where(d.abs() < 0.5, 0.0, d)
                if "toeplitz" in spec:
                    d *= 0
            if case["factors"] == "zero" and i == case["seed"] % 2:
                d *= 0
            if case["factors"] != "trained":
                mats[name] = build(spec, d, r.dtype)
    r.backward([2, case["seed"]])
    for _, p in sorted(r.model.named_parameters()):
        grad = randn(g, *p.shape)
        kind = case["gradient"]
        if kind == "sparse":
            grad = torch.where(grad.abs() < 1.2, 0.0, grad)
        elif kind == "zero":
            grad *= 0
        elif kind in ("huge", "tiny"):
            grad *= 1e4 if kind == "huge" else 1e-6
        if kind != "loss":
            p.grad.copy_(grad)
    for group in r.opt.param_groups:
        group["T"] = 10**6  # and `steps` is positive: no update of the factors
        group["lr"] = case["hp"]["lr"] * lr_factor
        if plain:
            group["momentum"] = group["weight_decay"] = 0.0
    return r


def gradient_matrix(params, grads, layer):
    G = grads[f"{layer}.weight"].flatten(1)
    if f"{layer}.bias" in params:
        G = torch.cat([G, grads[f"{layer}.bias"].unsqueeze(1)], 1)
    return G.to(F64)


def advance(r):
    """Parameters, momenta and gradients before, parameters and momenta after a step."""
    before = r.state()
    grads = {n: p.grad.clone() for n, p in r.model.named_parameters()}
    r.opt.step()
    return before, grads, r.state()


def run(case):
    hp = case["hp"]
    r = prepare(case)
    if r is None:
        return dict(labels=["diverged"], nontrivial=False)
    eps = EPS[DTYPES[case["dtype"]]]
    before, grads, after = advance(r)
    params = dict(r.model.named_parameters())
    interesting = False
    for layer in r.opt.Ks:
        K, C = (before[f"{w} {layer}"].to(F64) for w in ("K", "C"))
        same(f"K of {layer}", after[f"K {layer}"], before[f"K {layer}"])
        same(f"C of {layer}", after[f"C {layer}"], before[f"C {layer}"])
        G = gradient_matrix(params, grads, layer)
        nat = C @ C.T @ G @ K @ K.T
        big = maxabs(C.abs() @ (C.abs().T @ G.abs() @ K.abs()) @ K.abs().T)
        weight = params[f"{layer}.weight"]
        parts = {f"{layer}.weight": nat[:, : weight[0].numel()].reshape(weight.shape)}
        if f"{layer}.bias" in params:
            parts[f"{layer}.bias"] = nat[:, -1]
        n = K.shape[0] + C.shape[0]
        interesting |= maxabs(K - torch.eye(len(K))) > 0 and maxabs(G) > 0
        for name, update in parts.items():
            p = before[f"param {name}"].to(F64)
            update = update + hp["weight_decay"] * p
            scale = big + hp["weight_decay"] * maxabs(p)
            if hp["momentum"] != 0.0:
                buf = before[f"momentum {name}"].to(F64)
                update = hp["momentum"] * buf + update
                scale += maxabs(buf)
                close(f"momentum of {name}", after[f"momentum {name}"], update,
                      (16 + 2 * n) * eps, scale)
            close(f"change of {name}", after[f"param {name}"], p - hp["lr"] * update,
                  4 * eps, maxabs(p) + hp["lr"] * scale * (4 + n))

    # without momentum and weight decay
    changes = []
    for factor in (1.0, case["factor"]):
        r = prepare(case, factor, plain=True)
        before, grads, after = advance(r)
        inner = 0.0
        change = {}
        bound = 0.0
        for name in params:
            if not name.startswith(tuple(f"{layer}." for layer in r.opt.Ks)):
                same(f"{name} is not trained", after[f"param {name}"], before[f"param {name}"])
                continue
            p = before[f"param {name}"].to(F64)
            change[name] = after[f"param {name}"].to(F64) - p
            inner += (change[name] * grads[name].to(F64)).sum().item()
            bound += 4 * eps * (maxabs(p) + maxabs(change[name])) * grads[name].abs().sum().item()
            if case["gradient"] == "zero":
                same("zero gradient", after[f"param {name}"], before[f"param {name}"])
        # rounding of the pre-conditioning itself
        for layer in r.opt.Ks:
            K, C = (before[f"{w} {layer}"].to(F64).abs() for w in ("K", "C"))
            G = gradient_matrix(params, grads, layer).abs()
            spread = C @ (C.T @ G @ K) @ K.T
            bound += hp["lr"] * factor * 64 * eps * len(K) * (spread * G).sum().item()
        require(
            inner <= bound,
            f"step forms an acute angle with the gradient: {inner:.4g} (bound {bound:.4g})",
        )
        changes.append((change, before))
    (one, before), (two, _) = changes
    for name in one:
        scale = maxabs(before[f"param {name}"]) + maxabs(one[name]) * (1 + case["factor"])
        close(f"change of {name} with {case['factor']} times the learning rate", two[name],
              case["factor"] * one[name], 4 * eps * (1 + case["factor"]), scale)
    labels = hp_labels(case) + [f"factors:{case['factors']}", f"gradient:{case['gradient']}"]
    return dict(labels=labels, nontrivial=bool(interesting))
