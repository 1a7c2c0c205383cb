"""C25: training is equivariant under changes of coordinates."""

import torch
from hypothesis import strategies as st

from harness.common import close, gen, maxabs, randn, require
from harness.models import ACTS, conv_layer
from harness.structs import build
from harness.training import F64, Run, hp_labels, hypers, magnitudes

ID = "C25"
N = {"quick": 6400, "thorough": 60000}
RULE = (
    "A case is a network, a change of coordinates (permutations of inputs, units, channels"
    " and outputs; rotations of inputs, linear units and outputs; exchange of the two"
    " spatial dimensions or reversal of one) and a training history with dense or (except"
    " rotations) diagonal factors. The transformed network is trained on the transformed"
    " data; after every step all parameters, momenta and factors must be the transformed"
    " ones. Non-trivial: a transformation is not the identity, two steps compared."
)
ASSUMPTIONS = [
    "Rotations and normalised learning rates are not combined (the norm is entry-wise).",
]


@st.composite
def mlps(draw, rotation):
    dims = [draw(st.integers(1, 6)) for _ in range(draw(st.integers(2, 4)))]
    pos = draw(st.sampled_from([[], [], [2], [3], [2, 2]]))
    acts = [None] * (len(dims) - 2)
    if not rotation or draw(st.booleans()):
        acts = [draw(st.sampled_from(sorted(ACTS))) for _ in acts]
    return dict(
        kind="mlp",
        dims=dims,
        input=[*pos, dims[0]],
        acts=acts,
        biases=[draw(st.booleans()) for _ in dims[1:]],
    )


@st.composite
def convs(draw):
    """A chain of convolutions (no groups), with all parameters per dimension."""
    inp = [draw(st.integers(1, 3)), draw(st.integers(2, 5)), draw(st.integers(2, 5))]
    shape, specs = list(inp), []
    for _ in range(draw(st.integers(1, 2))):
        k, s, p, d = [], [], [], []
        for size in shape[1:]:
            d.append(draw(st.sampled_from([1, 1, 2])))
            p.append(draw(st.integers(0, 1)))
            largest = (size + 2 * p[-1] - 1) // d[-1] + 1
            k.append(draw(st.integers(1, min(3, largest))))
            s.append(draw(st.integers(1, 2)))
        mode = draw(st.sampled_from(["zeros", "zeros", "circular", "replicate"]))
        out, bias = draw(st.integers(1, 3)), draw(st.booleans())
        specs.append(["conv", out, k, s, p, d, 1, bias, mode])
        shape = [out] + [
            (n + 2 * pp - dd * (kk - 1) - 1) // ss + 1
            for n, kk, ss, pp, dd in zip(shape[1:], k, s, p, d)
        ]
    acts = [draw(st.sampled_from(sorted(ACTS))) for _ in specs[1:]]
    return dict(kind="conv", input=inp, convs=specs, acts=acts)


@st.composite
def cases(draw, max_steps):
    change = draw(
        st.sampled_from(["permutation", "permutation", "rotation", "channels", "spatial"])
    )
    hp = draw(hypers())
    if "omit" in hp:
        del hp["omit"]
    hp["structures"] = [draw(st.sampled_from(["dense", "diagonal"])) for _ in range(2)]
    if change == "rotation":
        hp["structures"] = ["dense", "dense"]
        hp["normalize_lr_cov"] = False
    if change in ("permutation", "rotation"):
        net = draw(mlps(change == "rotation"))
    else:
        net = draw(convs())
    spatial = draw(st.sampled_from(["exchange", "flip0", "flip1"]))
    if change == "spatial" and spatial != "exchange":
        # the positions of the kernel must be symmetric
        i = int(spatial[-1])
        size = net["input"][1 + i]
        for c in net["convs"]:
            span = c[5][i] * (c[2][i] - 1) + 1
            if (size + 2 * c[4][i] - span) % c[3][i]:
                c[3][i] = 1
            size = (size + 2 * c[4][i] - span) // c[3][i] + 1
    return dict(
        change=change,
        spatial=spatial,
        net=net,
        hp=hp,
        loss=draw(st.sampled_from(["mse", "ce"])) if change != "rotation" else "mse",
        batches=[
            [draw(st.integers(1, 5)), draw(st.integers(0, 9999))]
            for _ in range(draw(st.integers(2, max_steps)))
        ],
        seed=draw(st.integers(0, 9999)),
        dtype="float64",
        xscale=draw(st.sampled_from([1.0, 0.3])),
        eval=draw(st.sampled_from([0, 0, 1])),
    )


def strategy(tier):
    return cases(5 if tier == "quick" else 15)


def orthogonal(kind, n, g):
    if kind == "rotation":
        return torch.linalg.qr(randn(g, n, n))[0]
    return torch.eye(n, dtype=F64)[torch.randperm(n, generator=g)]


def build_net(net, seed, swap=False):
    g, modules = gen(seed), []
    acts = list(net["acts"])
    if net["kind"] == "mlp":
        dims = net["dims"]
        layers = [
            torch.nn.Linear(a, b, bias=bias)
            for a, b, bias in zip(dims, dims[1:], net["biases"])
        ]
    else:
        c_in, layers = net["input"][0], []
        for spec in net["convs"]:
            spec = [list(reversed(v)) if swap and isinstance(v, list) else v for v in spec]
            layers.append(conv_layer(c_in, spec))
            c_in = spec[1]
    for i, layer in enumerate(layers):
        layer.to(F64)
        fan = layer.weight[0].numel()
        for p in (layer.weight, layer.bias):
            if p is not None:
                p.data.copy_(randn(g, *p.shape) / fan**0.5)
        modules.append(layer)
        if i < len(acts):
            modules.append(ACTS[acts[i]]() if acts[i] else torch.nn.Identity())
    return torch.nn.Sequential(*modules), layers


class Change:
    """Orthogonal changes of the coordinates before, between and after the layers."""

    def __init__(self, case):
        self.case, net = case, case["net"]
        g = gen(case["seed"] + 1)
        kind = case["change"]
        if net["kind"] == "mlp":
            sizes, acts = net["dims"], [None, *net["acts"], None]
        else:
            sizes = [net["input"][0]] + [c[1] for c in net["convs"]]
            acts = [None, *net["acts"], None]
        self.Q = []
        for n, act in zip(sizes, acts):
            Q = orthogonal(kind, n, g)
            if kind == "spatial" or (kind == "rotation" and act):
                Q = torch.eye(n, dtype=F64)
            self.Q.append(Q)
        self.trivial = kind != "spatial" and all(
            torch.equal(Q, torch.eye(len(Q), dtype=F64)) for Q in self.Q
        )

    def space(self, t):
        """Transform the two spatial dimensions (the last ones)."""
        if self.case["change"] != "spatial" or t.dim() < 3:
            return t
        which = self.case["spatial"]
        if which == "exchange":
            return t.transpose(-1, -2).contiguous()
        return t.flip(-2 if which == "flip0" else -1)

    def data(self, t, i):
        Q = self.Q[i]
        if self.case["net"]["kind"] == "mlp":
            return t @ Q.T
        return self.space(torch.einsum("ij,bjhw->bihw", Q, t))

    def param(self, i, name, value):
        out, inp = self.Q[i + 1], self.Q[i]
        if name == "bias":
            return out @ value
        if value.dim() == 2:
            return out @ value @ inp.T
        value = torch.einsum("ij,jkhw,lk->ilhw", out, value, inp)
        return self.space(value)

    def factor(self, i, which, layer, M):
        """The matrix `A M A^T` for the change of coordinates A of the factor."""
        if which == "C":
            A = self.Q[i + 1]
        else:
            shape = layer.weight.shape[1:]
            n = shape.numel()
            basis = torch.eye(n, dtype=F64).reshape(n, *shape)
            if len(shape) == 1:
                basis = basis @ self.Q[i].T
            else:
                basis = self.space(torch.einsum("ij,njhw->nihw", self.Q[i], basis))
            A = basis.flatten(1).T
            if layer.bias is not None:
                A = torch.block_diag(A, torch.eye(1, dtype=F64))
        return A @ M @ A.T


class Net(Run):
    def __init__(self, case, model):
        spec = dict(
            input=case["net"]["input"],
            layers=[["linear"]] if case["net"]["kind"] == "mlp" else [["conv"]],
        )
        super().__init__({**case, "model": spec}, dtype=F64, model=model)


def run(case):
    change = Change(case)
    swap = case["change"] == "spatial" and case["spatial"] == "exchange"
    model, layers = build_net(case["net"], case["seed"])
    other, other_layers = build_net(case["net"], case["seed"], swap)
    for i, (a, b) in enumerate(zip(layers, other_layers)):
        for name, p in b.named_parameters():
            p.data.copy_(change.param(i, name, getattr(a, name).data))
    one, two = Net(case, model), Net(case, other)
    names = [n for n, m in model.named_modules() if m in layers]
    scale_in = case["xscale"]
    steps = 0
    for batch in case["batches"]:
        g = gen(batch[1])
        x = randn(g, batch[0], *case["net"]["input"]) * scale_in
        with torch.no_grad():
            y = randn(g, *model(x).shape)
        one.zero_grad(), two.zero_grad()
        one.loss(x, y).backward()
        two.loss(change.data(x, 0), change.data(y, -1)).backward()
        grads = {n: maxabs(p.grad) for n, p in model.named_parameters()}
        one.opt.step(), two.opt.step()
        state, twin = one.state(), two.state()
        require(sorted(state) == sorted(twin), "states of different structure")
        if not one.healthy():
            break
        # a rotation mixes all entries of a parameter
        grads = dict.fromkeys(grads, max(grads.values()))
        scale = magnitudes(state, grads, case["hp"]["lr"])
        biggest = {}
        for key, value in scale.items():
            what = key.split(" ")[0]
            biggest[what] = max(biggest.get(what, 0.0), value)
        for i, name in enumerate(names):
            for short, _ in layers[i].named_parameters():
                for what in ("param", "momentum"):
                    key = f"{what} {name}.{short}"
                    if key not in state:
                        continue
                    expected = change.param(i, short, state[key])
                    close(f"step {steps}: {key}", twin[key], expected, 1e-9,
                          10 * biggest[what])
            for what in ("K", "C", "m_K", "m_C"):
                key = f"{what} {name}"
                if key not in state:
                    continue
                expected = change.factor(i, what[-1], layers[i], state[key])
                close(f"step {steps}: {key}", twin[key], expected, 1e-9,
                      10 * biggest[what])
        # continue from exactly the transformed state
        for i, name in enumerate(names):
            for short, p in layers[i].named_parameters():
                q = getattr(other_layers[i], short)
                q.data.copy_(change.param(i, short, p.data))
                buf = one.opt.state.get(p, {}).get("momentum_buffer")
                if buf is not None:
                    two.opt.state[q]["momentum_buffer"].copy_(change.param(i, short, buf))
            for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
                mats = getattr(one.opt, what)
                if name in mats:
                    struct = case["hp"]["structures"]["KC".index(what[-2])]
                    dense = change.factor(i, what[-2], layers[i], mats[name].to_dense())
                    getattr(two.opt, what)[name] = build(struct, dense, F64)
        steps += 1
    labels = [f"change:{case['change']}"] + hp_labels(
        {**case, "model": dict(kind=case["net"]["kind"])}
    )
    if case["change"] == "spatial":
        labels.append(f"spatial:{case['spatial']}")
    return dict(labels=labels, nontrivial=steps >= 2 and not change.trivial)
