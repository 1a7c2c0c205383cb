"""C20: the optimizer observes the model without perturbing it."""

import torch
from hypothesis import strategies as st
from torch import nn
from torch.utils.checkpoint import checkpoint

from harness.common import DTYPES, close, maxabs, require, same
from harness.models import ACTS as SMOOTH
from harness.models import (
    feature_dim,
    initialize,
    loss_value,
    make_layers,
    model_specs,
)
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_observed,
    hp_labels,
    magnitudes,
    make_optimizer,
    trainings,
)

ID = "C20"
N = {"quick": 4800, "thorough": 30000}
RULE = (
    "A case is a network (optionally with in-place capable activations and residual"
    " connections), hyper-parameters, a history of steps, and (observe) passes with and"
    " without attached optimizer that must agree bit-wise in outputs, parameter and input"
    " gradients - also for repeated backward passes and double backward -, or (rewrite) a"
    " re-write of the network that computes the same function: in-place activations,"
    " nested and re-registered containers, branches, activation checkpointing."
    " Trajectories of both are compared with each other and with the reference."
    " Non-trivial: at least one re-write was applied (or a backward pass observed)."
)
ASSUMPTIONS = [
    "Each trained layer is called once per forward pass (twice if its segment is"
    " re-computed by activation checkpointing)."
]

ACTS = {
    "relu": nn.ReLU,
    "leakyrelu": lambda inplace: nn.LeakyReLU(0.2, inplace=inplace),
    "elu": nn.ELU,
    "relu6": nn.ReLU6,
    "hardtanh": lambda inplace: nn.Hardtanh(-0.7, 0.8, inplace=inplace),
}
BRANCHES = ["clone", "view", "stack", "halves", "chunk", "index", "transpose", "pair"]


def branch(h, kind):
    """The identity function, with another computational graph."""
    if kind == "clone":
        return h.clone()
    if kind == "view":
        return h.view_as(h)
    if kind == "stack":
        return torch.stack([h, torch.zeros_like(h)]).sum(0)
    if kind == "halves":
        return 0.25 * h + 0.75 * h
    if kind == "chunk":
        return torch.cat(h.chunk(2))
    if kind == "index":
        return h[torch.arange(h.shape[0])]
    if kind == "transpose":
        return h.transpose(0, 1).transpose(1, 0).contiguous()
    if kind == "pair":
        a, b = h, h
        return 2.0 * a - b
    raise ValueError(kind)


class Net(nn.Module):
    """Layers that are applied one after another, described by a variant.

    residual: indices of layers whose output is added to their input
    branches: maps indices of layers to a re-write of their output
    nesting: list of sizes of the groups in which layers are registered
    order: order in which the groups are registered
    segments: list of [number of layers, re-entrant] with checkpointing, or empty
    """

    def __init__(self, mods, residual, variant=None):
        super().__init__()
        variant = variant or {}
        self.steps = list(mods)
        self.residual = set(residual)
        self.branches = {int(k): v for k, v in variant.get("branches", {}).items()}
        self.segments = variant.get("segments", [])
        nesting = variant.get("nesting")
        if nesting is None:
            self.body = nn.Sequential(*mods)
        else:
            groups, start = [], 0
            for size in nesting:
                if mods[start : start + size]:
                    groups.append(mods[start : start + size])
                start += size
            if mods[start:]:
                groups.append(mods[start:])
            order = [k % len(groups) for k in variant["order"]] + list(range(len(groups)))
            self.parts = nn.ModuleDict()
            for k in order:
                if f"z{9 - k}" not in self.parts:
                    inner = nn.ModuleList(reversed(groups[k]))
                    for _ in range(variant.get("deep", k % 2)):
                        inner = nn.ModuleDict({"inner": inner})
                    self.parts[f"z{9 - k}"] = inner
            if variant.get("twice"):  # the same layers under a second name
                self.alias = self.parts

    def __setattr__(self, name, value):
        if name == "steps":  # no registration
            object.__setattr__(self, name, value)
        else:
            super().__setattr__(name, value)

    def part(self, start, end, x):
        for k in range(start, end):
            h = self.steps[k](x)
            if k in self.branches:
                h = branch(h, self.branches[k])
            if k in self.residual and h.shape == x.shape:
                h = h + x
            x = h
        return x

    def forward(self, x):
        start = 0
        for size, reentrant in self.segments:
            end = min(len(self.steps), start + size)
            if end > start:
                def segment(t, a=start, b=end):
                    return self.part(a, b, t)

                x = checkpoint(segment, x, use_reentrant=reentrant)
            start = end
        return self.part(start, len(self.steps), x)


def make_net(case, dtype, inplace, variant=None):
    acts = case["acts"]
    # shapes and parameters with other activations
    mods, _ = make_layers(case["model"])
    initialize(mods, case["model"]["seed"])
    out = []
    for k, mod in enumerate(mods):
        if str(k) in acts and case["model"]["layers"][k][0] in SMOOTH:
            mod = ACTS[acts[str(k)]](inplace=inplace and k in inplace)
        out.append(mod)
    return Net(out, case["residual"], variant).to(torch.bfloat16).to(dtype)


@st.composite
def cases(draw, max_steps):
    mode = draw(st.sampled_from(["observe", "rewrite", "rewrite", "rewrite"]))
    case = draw(trainings(model_specs(norm=True), max_steps=max_steps))
    case["mode"] = mode
    count = len(case["model"]["layers"])
    acts = st.sampled_from(sorted(ACTS))
    case["acts"] = {str(k): draw(acts) for k in range(count) if draw(st.booleans())}
    case["residual"] = [k for k in range(count) if draw(st.integers(0, 3)) == 0]
    # in-place activations must not overwrite what a residual connection needs
    case["inplace"] = [
        k
        for k in range(count)
        if k and str(k) in case["acts"] and k not in case["residual"]
        and k - 1 not in case["residual"] and draw(st.booleans())
    ]  # fmt: skip
    if mode == "observe":
        case["T"] = draw(st.sampled_from([1, 1, 2]))
        case["backward"] = draw(
            st.sampled_from(["once", "twice", "double backward", "grad", "inputs"])
        )
        return case
    variant = {}
    rewrites = draw(
        st.lists(
            st.sampled_from(["branches", "nesting", "segments", "inplace"]),
            min_size=1, max_size=4, unique=True,
        )
    )  # fmt: skip
    if "branches" in rewrites:
        variant["branches"] = {
            str(k): draw(st.sampled_from(BRANCHES))
            for k in range(count)
            if draw(st.booleans()) and k + 1 not in case["inplace"]
        }
    if "nesting" in rewrites:
        variant["nesting"] = draw(st.lists(st.integers(1, 3), max_size=4))
        variant["order"] = draw(st.lists(st.integers(0, 4), max_size=5))
        variant["twice"] = draw(st.booleans())
        variant["deep"] = draw(st.integers(0, 7))
    if "segments" in rewrites:
        variant["segments"] = draw(
            st.lists(st.tuples(st.integers(1, 3), st.booleans()).map(list), max_size=3)
        )
        # the segment's input is needed for the second forward pass
        starts, s = {0}, 0
        for size, _ in variant["segments"]:
            s += size
            starts.add(s)
        case["inplace"] = [k for k in case["inplace"] if k not in starts]
    if "inplace" not in rewrites:
        case["inplace"] = []
    case["variant"] = variant
    return case


def strategy(tier):
    return cases(4 if tier == "quick" else 12)


def run(case):
    if case["mode"] == "observe":
        return observe_only(case)
    return rewrite(case)


class NetRun(Run):
    """Real run whose state uses the position of layers as their names."""

    def __init__(self, case, net):
        super().__init__(case, model=net)
        position = {
            id(m): f"{k}.{sub}" if sub else str(k)
            for k, step in enumerate(net.steps)
            for sub, m in step.named_modules()
        }
        self.canonical = {
            name: position[id(m)]
            for name, m in net.named_modules()
            if id(m) in position
        }
        self.original = {v: k for k, v in self.canonical.items()}

    def state(self):
        out = {}
        for key, value in super().state().items():
            what, name = key.split(" ", 1)
            if what in ("param", "momentum"):
                layer, _, short = name.rpartition(".")
                out[f"{what} {self.canonical[layer]}.{short}"] = value
            else:
                out[f"{what} {self.canonical[name]}"] = value
        return out


def copy_state(source, target):
    for k, mod in enumerate(source.model.steps):
        for (_, p), (_, q) in zip(
            mod.named_parameters(), target.model.steps[k].named_parameters()
        ):
            q.data.copy_(p.data)
            buf = source.opt.state.get(p, {}).get("momentum_buffer", None)
            if buf is not None:
                target.opt.state[q]["momentum_buffer"].copy_(buf)
    for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
        src, dst = getattr(source.opt, what), getattr(target.opt, what)
        for name, mat in src.items():
            new = mat.zeros(mat.to_dense().shape[0], dtype=mat.to_dense().dtype)
            dst[target.original[source.canonical[name]]] = new.add_(mat)


def rename(state):
    """Names of the reference model, whose layers are in `body`."""
    out = {}
    for key, value in state.items():
        what, name = key.split(" ", 1)
        out[f"{what} body.{name}"] = value
    return out


def rewrite(case):
    dtype = DTYPES[case["dtype"]]
    tol = TOL[dtype]
    variant = case["variant"]
    a = NetRun(case, make_net(case, dtype, []))
    b = NetRun(case, make_net(case, dtype, case["inplace"], variant))
    ref = RefRun(case, model=make_net(case, torch.float64, []))
    kinky = bool(case["acts"])  # piecewise linear: rounding can change the branch
    done = 0
    for k, batch in enumerate(case["batches"]):
        x, y = a.data(batch)
        for r in (a, b):
            r.zero_grad()
            xx = x.clone().requires_grad_(bool(variant.get("segments")))
            r.loss(xx, y).backward()
            same(f"step {k}: input", xx.detach(), x)
            r.opt.step()
        ref.step(batch)
        sa, sb = a.state(), b.state()
        if not (a.healthy() and b.healthy()):
            break
        require(sorted(sa) == sorted(sb), f"states {sorted(sa)} and {sorted(sb)}")
        grads = {
            a.canonical[n.rpartition(".")[0]] + "." + n.rpartition(".")[2]: maxabs(p.grad)
            for n, p in a.model.named_parameters()
            if p.grad is not None
        }
        scale = magnitudes(sa, grads, case["hp"]["lr"])
        for key in sa:
            close(f"step {k}: {key} of the re-written network", sb[key], sa[key], tol, scale[key])
        if not kinky:
            compare_observed(f"step {k}", rename(sb), ref, tol)
        copy_state(a, b)
        ref.adopt_state(rename(sa))
        done += 1
    labels = hp_labels(case) + ["mode:rewrite"]
    labels += ["inplace"] * bool(case["inplace"])
    labels += [f"branch:{v}" for v in set(variant.get("branches", {}).values())]
    labels += ["nesting"] * ("nesting" in variant)
    labels += [f"checkpoint:reentrant={r}" for _, r in variant.get("segments", [])]
    labels += ["residual"] * bool(case["residual"])
    applied = (
        case["inplace"] or variant.get("branches") or "nesting" in variant
        or variant.get("segments")
    )  # fmt: skip
    return dict(labels=sorted(set(labels)), nontrivial=bool(applied) and done > 0)


def observe_only(case):
    """Outputs and gradients with and without optimizer are bit-wise the same."""
    dtype = DTYPES[case["dtype"]]
    plain = make_net(case, dtype, case["inplace"])
    watched = make_net(case, dtype, case["inplace"])
    hp = {**case["hp"], "T": case["T"]}
    if "omit" in hp:
        hp["omit"] = [k for k in hp["omit"] if k != "T"]
    make_optimizer(watched, hp)
    fdim, how = feature_dim(case["model"]), case["backward"]
    passes = 0
    for k, batch in enumerate(case["batches"]):
        r = []
        for net in (plain, watched):
            from harness.models import make_data

            x, y = make_data(case["model"], *batch, dtype, case["xscale"])
            original = x.clone()
            x.requires_grad_(True)
            out = net(x)
            loss = loss_value(out, y, case["loss"], fdim, hp["loss_average"])
            params = list(net.parameters())
            if how == "once":
                loss.backward()
            elif how == "inputs":
                loss.backward(inputs=[x])
            elif how == "twice":
                loss.backward(retain_graph=True)
                loss.backward()
            elif how == "grad":
                grads = torch.autograd.grad(loss, params + [x])
                for p, g in zip(params + [x], grads):
                    p.grad = g
            else:
                grads = torch.autograd.grad(loss, params + [x], create_graph=True)
                sum((g**2).sum() for g in grads).backward()
            same(f"pass {k}: input", x.detach(), original)
            r.append([out.detach(), x.grad] + [p.grad for p in params] + [
                p.detach() for p in params
            ])
        passes += 1
        for j, (u, v) in enumerate(zip(*r)):
            require((u is None) == (v is None), f"pass {k}: gradient {j} appears/vanishes")
            if u is not None:
                if not bool((u == u).all()):
                    return dict(labels=["not finite"], nontrivial=False)
                same(f"pass {k} ({how}): output, input gradient, gradients or parameter"
                     f" #{j} with optimizer", v, u)
    return dict(labels=["mode:observe", f"backward:{how}"], nontrivial=passes > 0)
