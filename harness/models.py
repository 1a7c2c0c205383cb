"""Generated models, data and losses for the optimizer checks.

A model is described by JSON:
    input: shape of one sample
    layers: list of
        ["linear", out, bias]
        ["conv", out, kernel, stride, padding, dilation, groups, bias, padding_mode]
        ["tanh"] | ["sigmoid"] | ["softplus"] | ["gelu"] | ["flatten"] | ["pool"]
        | ["layernorm"] | ["tokens"] | ["attention", bias] | ["residual", width, bias]
        | ["gated", out, bias] | ["convresidual", kernel, bias]
    seed: initial parameters
"""

import torch
from hypothesis import strategies as st
from torch import nn

from harness.common import gen, randn

F64 = torch.float64
ACTS = {
    "tanh": nn.Tanh,
    "sigmoid": nn.Sigmoid,
    "softplus": nn.Softplus,
    "gelu": nn.GELU,
}


class SubLinear(nn.Linear):
    """User-defined subclass of a supported layer."""


class SubConv2d(nn.Conv2d):
    """User-defined subclass of a supported layer."""


class MeanPool(nn.Module):
    """Average over all positions (dims between batch and features)."""

    def forward(self, x):
        return x.flatten(1, -2).mean(1) if x.dim() > 2 else x


class Tokens(nn.Module):
    """From images to sequences of pixels."""

    def forward(self, x):
        return x.flatten(2).transpose(1, 2)


class Attention(nn.Module):
    """Self-attention over all positions, whose layers are called out of order."""

    def __init__(self, dim, bias):
        super().__init__()
        self.out = nn.Linear(dim, dim, bias=bias)
        self.value = nn.Linear(dim, dim, bias=False)
        self.query = nn.Linear(dim, dim, bias=bias)
        self.key = nn.Linear(dim, dim, bias=bias)

    def forward(self, x):
        shape = x.shape
        x = x.flatten(1, -2)
        scores = self.query(x) @ self.key(x).transpose(1, 2) / x.shape[-1] ** 0.5
        # a softmax's gradients cancel: they cannot be compared between two runs
        weights = torch.sigmoid(scores) / scores.shape[-1]
        return (x + self.out(weights @ self.value(x))).reshape(shape)


class Residual(nn.Module):
    def __init__(self, dim, width, bias):
        super().__init__()
        self.up = nn.Linear(dim, width, bias=bias)
        self.down = nn.Linear(width, dim, bias=not bias)

    def forward(self, x):
        return x + 0.5 * self.down(torch.tanh(self.up(x)))


class Gated(nn.Module):
    """Two layers with the same input; only one part of the first one's output is used."""

    def __init__(self, dim, out, bias):
        super().__init__()
        self.body = nn.Linear(dim, out + 1, bias=bias)
        self.gate = nn.Linear(dim, out, bias=bias)

    def forward(self, x):
        return self.body(x)[..., 1:] * torch.sigmoid(self.gate(x))


class ConvResidual(nn.Module):
    """A depth-wise and a point-wise convolution."""

    def __init__(self, channels, kernel, bias):
        super().__init__()
        self.depth = nn.Conv2d(
            channels, channels, kernel, padding=kernel // 2, groups=channels, bias=bias
        )
        self.point = nn.Conv2d(channels, channels, 1, bias=not bias)

    def forward(self, x):
        return x + self.point(torch.tanh(self.depth(x)))


def conv_layer(c_in, spec, sub=False):
    _, out, k, s, p, d, groups, bias, mode = spec
    cls = SubConv2d if sub else nn.Conv2d
    if isinstance(k, list):
        k, s, d = tuple(k), tuple(s), tuple(d)
    p = tuple(p) if isinstance(p, list) else p
    return cls(
        c_in, out, k, stride=s, padding=p, dilation=d, groups=groups, bias=bias,
        padding_mode=mode,
    )


def make_layers(spec):
    """Modules of the described model, in float64."""
    x = torch.zeros(1, *spec["input"], dtype=F64)
    modules, sub = [], spec.get("sub", False)
    for layer in spec["layers"]:
        kind = layer[0]
        if kind == "linear":
            cls = SubLinear if sub else nn.Linear
            mod = cls(x.shape[-1], layer[1], bias=layer[2])
        elif kind == "conv":
            mod = conv_layer(x.shape[1], layer, sub)
        elif kind in ACTS:
            mod = ACTS[kind]()
        elif kind == "flatten":
            mod = nn.Flatten()
        elif kind == "pool":
            mod = MeanPool()
        elif kind == "layernorm":
            mod = nn.LayerNorm(x.shape[-1])
        elif kind == "tokens":
            mod = Tokens()
        elif kind == "attention":
            mod = Attention(x.shape[-1], layer[1])
        elif kind == "residual":
            mod = Residual(x.shape[-1], layer[1], layer[2])
        elif kind == "gated":
            mod = Gated(x.shape[-1], layer[1], layer[2])
        elif kind == "convresidual":
            mod = ConvResidual(x.shape[1], layer[1], layer[2])
        else:
            raise ValueError(kind)
        mod = mod.to(F64)
        with torch.no_grad():
            x = mod(x)
        modules.append(mod)
    return modules, x.shape[1:]


def initialize(modules, seed):
    """Random parameters that are representable in bfloat16-like coarse precision."""
    g = gen(seed)
    for mod in modules:
        for name, p in sorted(mod.named_parameters()):
            fan = max(1, p.shape[1:].numel()) if p.dim() > 1 else 4
            value = randn(g, *p.shape) / fan**0.5
            if isinstance(mod, nn.LayerNorm) and name == "weight":
                value = 1 + 0.3 * value
            p.data.copy_(value)


def build_model(spec, dtype=F64):
    modules, out_shape = make_layers(spec)
    initialize(modules, spec["seed"])
    # values that are exact in every involved precision
    model = nn.Sequential(*modules).to(torch.bfloat16).to(dtype)
    return model


def output_shape(spec):
    return tuple(make_layers(spec)[1])


def feature_dim(spec):
    """Dimension of the output that contains features (the others are positions)."""
    for layer in reversed(spec["layers"]):
        if layer[0] in ("conv", "convresidual"):
            return 1
        if layer[0] not in ACTS:
            return -1
    return -1


def make_data(spec, n, seed, dtype=F64, scale=1.0):
    """Inputs and targets (exact in coarse precision) for a batch of size n."""
    g = gen(seed)
    x = randn(g, n, *spec["input"]) * scale
    y = randn(g, n, *output_shape(spec))
    coarse = torch.bfloat16
    return x.to(coarse).to(dtype), y.to(coarse).to(dtype)


def loss_terms(out, y, name, fdim):
    """One loss per sample and position: shape [batch, ...]."""
    if name == "mse":
        return 0.5 * ((out - y) ** 2).sum(fdim)
    if name == "ce":
        return -(torch.log_softmax(out, fdim) * torch.softmax(y, fdim)).sum(fdim)
    raise ValueError(name)


def loss_value(out, y, name, fdim, average):
    terms = loss_terms(out, y, name, fdim)
    if average is None:
        return terms.sum()
    if average == "batch":
        return terms.sum() / terms.shape[0]
    if average == "batch+sequence":
        return terms.mean()
    raise ValueError(average)


# --------------------------------------------------------------------------------------
# strategies

width = st.one_of(st.integers(1, 6), st.integers(1, 6), st.sampled_from([9, 16, 19]))
wide = st.sampled_from([29, 30, 31, 33, 40, 64, 70])


@st.composite
def conv_specs(draw, c_in, hw, modes=("zeros",), allow_groups=True):
    """A convolution that is applicable to an input of shape [c_in, *hw]."""
    divisors = [g for g in range(1, c_in + 1) if c_in % g == 0]
    groups = draw(st.sampled_from(divisors)) if allow_groups else 1
    out = groups * draw(st.integers(1, 3))
    mode = draw(st.sampled_from(modes))
    ks, ss, ps, ds = [], [], [], []
    for size in hw:
        d = draw(st.sampled_from([1, 1, 2]))
        p = draw(st.integers(0, 2))
        if mode in ("circular", "reflect"):
            p = min(p, size - 1)
        largest = max(1, (size + 2 * p - 1) // d + 1)
        ks.append(draw(st.integers(1, min(3, largest))))
        ss.append(draw(st.integers(1, 3)))
        ps.append(p)
        ds.append(d)
    form = draw(st.sampled_from(["tuple", "tuple", "int", "same", "valid"]))
    k, s, p, d = ks, ss, ps, ds
    if form == "int" and min(hw) == max(hw):
        k, s, p, d = ks[0], ss[0], ps[0], ds[0]
    elif form == "valid":
        if all(size >= dd * (kk - 1) + 1 for size, dd, kk in zip(hw, ds, ks)):
            p = "valid"
    elif form == "same":
        # equal paddings on both sides
        even = all((dd * (kk - 1)) % 2 == 0 for dd, kk in zip(ds, ks))
        small = all((dd * (kk - 1)) // 2 < size for dd, kk, size in zip(ds, ks, hw))
        if even and small:
            s, p = [1, 1], "same"
    return ["conv", out, k, s, p, d, groups, draw(st.booleans()), mode]


def shape_after(spec):
    return list(output_shape(spec))


@st.composite
def model_specs(draw, kinds=("mlp", "mlp", "seq", "conv", "net"), norm=True, big=True):
    kind = draw(st.sampled_from(kinds))
    act = st.sampled_from(sorted(ACTS))
    layers = []
    if kind == "mlp":
        inp = [draw(st.one_of(width, wide) if big else width)]
        deep = draw(st.integers(0, 19)) == 0
        for i in range(draw(st.integers(4, 7) if deep else st.integers(1, 3))):
            if i:
                layers.append([draw(act)])
            size = st.integers(1, 4) if deep else width
            layers.append(["linear", draw(size), draw(st.booleans())])
        if big and draw(st.integers(0, 9)) == 0:
            layers[0][1] = draw(wide)
    elif kind == "seq":
        pos = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
        if draw(st.integers(0, 11)) == 0:
            pos = draw(st.sampled_from([[7], [17], [2, 5], [2, 1, 3], [4, 3, 2]]))
        inp = [*pos, draw(st.integers(1, 6))]
        for i in range(draw(st.integers(1, 3))):
            if i:
                layers.append([draw(act)])
            layers.append(["linear", draw(st.integers(1, 6)), draw(st.booleans())])
        end = draw(st.sampled_from(["keep", "keep", "pool", "flatten"]))
        if end != "keep":
            layers.append([end])
            layers.append(["linear", draw(st.integers(1, 4)), draw(st.booleans())])
    elif kind == "net":
        start = draw(st.sampled_from(["vector", "sequence", "image"]))
        if start == "image":
            inp = [draw(st.integers(1, 3)), draw(st.integers(2, 4)), draw(st.integers(2, 4))]
            layers.append(draw(conv_specs(inp[0], inp[1:])))
            if draw(st.booleans()):
                kernel = draw(st.sampled_from([1, 3]))
                layers.append(["convresidual", kernel, draw(st.booleans())])
            end = draw(st.sampled_from(["keep", "tokens", "tokens"]))
            layers += [["tokens"]] if end == "tokens" else []
            more = end == "tokens"
        else:
            pos = [] if start == "vector" else draw(st.sampled_from([[2], [3], [5], [2, 2]]))
            inp, more = [*pos, draw(st.integers(1, 6))], True
        if more:
            kinds = ["residual", "gated"] + ["attention"] * 2 * (start != "vector")
            for _ in range(draw(st.integers(1, 2))):
                block = draw(st.sampled_from(kinds))
                size = [] if block == "attention" else [draw(st.integers(1, 5))]
                layers.append([block, *size, draw(st.booleans())])
            if draw(st.booleans()):
                layers.append(["linear", draw(st.integers(1, 4)), draw(st.booleans())])
    else:
        inp = [draw(st.integers(1, 4)), draw(st.integers(2, 5)), draw(st.integers(2, 5))]
        if draw(st.integers(0, 11)) == 0:
            inp = draw(st.sampled_from([[6, 2, 2], [8, 3, 2], [1, 9, 7], [2, 1, 11], [9, 3, 3]]))
        shape = list(inp)
        for i in range(draw(st.integers(1, 2))):
            if i:
                layers.append([draw(act)])
            modes = ("zeros", "zeros", "zeros", "circular", "reflect", "replicate")
            layers.append(draw(conv_specs(shape[0], shape[1:], modes)))
            shape = shape_after(dict(input=inp, layers=layers))
        if draw(st.booleans()):
            layers.append([draw(act)])
            layers.append(["flatten"])
            layers.append(["linear", draw(st.integers(1, 4)), draw(st.booleans())])
    if norm and kind in ("mlp", "seq") and layers[0][1] >= 3 and draw(st.integers(0, 4)) == 0:
        layers.insert(1, ["layernorm"])
    spec = dict(input=inp, layers=layers, seed=draw(st.integers(0, 10**5)), kind=kind)
    if draw(st.integers(0, 7)) == 0:
        spec["sub"] = True  # layers are instances of subclasses
    return spec


def supported_layers(model):
    """Names and modules of all layers with trainable pre-conditioning."""
    return {
        name: mod
        for name, mod in model.named_modules()
        if isinstance(mod, (nn.Linear, nn.Conv2d))
    }
