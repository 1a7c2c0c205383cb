"""C06: layer inputs and output gradients are unfolded like the layer computes."""

import torch
from hypothesis import strategies as st
from torch import nn

from harness.common import DTYPES, close, gen, maxabs, randn, require, same
from harness.models import conv_layer, conv_specs

ID = "C06"
N = {"quick": 24000, "thorough": 160000}
RULE = (
    "A case is a layer (Linear with 0-3 shared dimensions, or Conv2d with drawn kernel,"
    " stride, padding, dilation, groups, padding mode), an input and an output gradient in"
    " some memory layout and precision, an approximation and a loss average. Oracle: the"
    " layer's own forward pass and explicit sums. Non-trivial: more than one shared"
    " position or more than one sample."
)


@st.composite
def any_conv(draw):
    """Unrestricted configurations, valid or not is decided by the layer."""
    groups = draw(st.sampled_from([1, 1, 2, 3]))
    pair = lambda lo, hi: st.one_of(  # noqa: E731
        st.integers(lo, hi), st.lists(st.integers(lo, hi), min_size=2, max_size=2)
    )
    k, s, p, d = (draw(pair(*r)) for r in [(1, 4), (1, 4), (0, 4), (1, 3)])
    k, s, d = ([v, v] if isinstance(v, int) else v for v in (k, s, d))
    mode = draw(st.sampled_from(["zeros", "zeros", "circular", "reflect", "replicate"]))
    if draw(st.integers(0, 4)) == 0:
        p = draw(st.sampled_from(["valid", "same"]))
        if p == "same":
            s = [1, 1]
    layer = ["conv", groups * draw(st.integers(1, 2)), k, s, p, d, groups,
             draw(st.booleans()), mode]
    inp = [groups * draw(st.integers(1, 3)), draw(st.integers(1, 9)), draw(st.integers(1, 9))]
    special = draw(st.integers(0, 11))
    if special == 0:  # large kernels
        layer[2] = [draw(st.integers(1, 8)), draw(st.integers(1, 8))]
    elif special == 1:  # large images
        inp[1:] = [draw(st.integers(8, 24)), draw(st.integers(8, 24))]
    elif special == 2:  # many groups
        layer[6] = draw(st.sampled_from([4, 5, 8]))
        layer[1], inp[0] = layer[6] * draw(st.integers(1, 2)), layer[6] * draw(
            st.integers(1, 2)
        )
    return layer, inp


@st.composite
def cases(draw):
    if draw(st.integers(0, 3)) == 0:
        shared = draw(st.lists(st.integers(1, 4), max_size=3))
        if draw(st.integers(0, 9)) == 0:
            shared = draw(st.sampled_from([[17], [64], [130], [5, 9], [2, 3, 2, 2], [1, 1, 1, 1, 2]]))
        inp = [*shared, draw(st.integers(1, 6))]
        layer = ["linear", draw(st.integers(1, 5)), draw(st.booleans())]
    elif draw(st.booleans()):
        inp = [draw(st.integers(1, 6)), draw(st.integers(1, 8)), draw(st.integers(1, 8))]
        layer = draw(
            conv_specs(inp[0], inp[1:], ("zeros", "zeros", "circular", "reflect", "replicate"))
        )
    else:
        layer, inp = draw(any_conv())
    return dict(
        layer=layer,
        input=inp,
        batch=draw(st.one_of(*[st.integers(1, 5)] * 11, st.sampled_from([8, 17, 33, 64, 101, 257, 520]))),
        approx=draw(st.sampled_from(["expand", "reduce"])),
        average=draw(st.sampled_from([None, "batch", "batch+sequence"])),
        layout=draw(st.sampled_from(["contiguous", "permuted", "expanded", "sliced"])),
        dtype=draw(st.sampled_from(["float64", "float64", "float32", "bfloat16"])),
        seed=draw(st.integers(0, 9999)),
    )


def strategy(tier):
    return cases()


TOL = {torch.float64: 1e-12, torch.float32: 1e-5, torch.bfloat16: 0.05}


def arrange(t, layout):
    if layout == "permuted":
        dims = list(range(t.dim()))
        return t.permute(dims[::-1]).contiguous().permute(dims[::-1])
    if layout == "expanded":
        return t[:1].expand_as(t)
    if layout == "sliced":
        return torch.stack([t, t + 1], -1)[..., 0]
    return t


def make_layer(case):
    spec, inp = case["layer"], case["input"]
    if spec[0] == "linear":
        layer = nn.Linear(inp[-1], spec[1], bias=spec[2])
    else:
        layer = conv_layer(inp[0], spec)
    layer = layer.to(torch.float64)
    g = gen(case["seed"] + 1)
    for p in layer.parameters():
        p.data.copy_(randn(g, *p.shape))
    return layer


def unequal_same_padding(layer):
    return (
        isinstance(layer, nn.Conv2d)
        and layer.padding == "same"
        and any((d * (k - 1)) % 2 for d, k in zip(layer.dilation, layer.kernel_size))
    )


def run(case):
    from singd.optim.utils import process_grad_output, process_input

    layer, approx, dtype = make_layer(case), case["approx"], DTYPES[case["dtype"]]
    conv = isinstance(layer, nn.Conv2d)
    g = gen(case["seed"])
    x = arrange(randn(g, case["batch"], *case["input"]).to(dtype), case["layout"])
    x64 = x.to(torch.float64)
    try:
        out = layer(x64)
    except RuntimeError:
        return dict(labels=["not applicable"], nontrivial=False)
    if out.numel() == 0:
        return dict(labels=["not applicable"], nontrivial=False)
    unequal = unequal_same_padding(layer)

    # groups: the documented average over channel groups is what a layer computes whose
    # groups share the weights, when its output is averaged over the groups
    W = layer.weight.data
    groups = layer.groups if conv else 1
    per_group = W.shape[0] // groups
    Wg = W[:per_group].flatten(1)
    if groups > 1:
        W.copy_(W[:per_group].repeat(groups, 1, 1, 1))
        if layer.bias is not None:
            layer.bias.data.copy_(layer.bias.data[:per_group].repeat(groups))
        out = layer(x64)
    mat = Wg
    if layer.bias is not None:
        mat = torch.cat([Wg, layer.bias.data[:per_group].unsqueeze(1)], 1)
    out = out.detach()
    if conv:
        o = out.reshape(out.shape[0], groups, per_group, -1).mean(1).transpose(1, 2)
    else:
        o = out.reshape(out.shape[0], -1, out.shape[-1])
    positions = o.shape[1]
    o = o.flatten(0, 1) if approx == "expand" else o.mean(1)

    layer = layer.to(dtype)
    keep = x.clone()
    try:
        rows = process_input(x, layer, approx)
    except NotImplementedError:
        # documented for paddings that differ along a dimension
        require(unequal and approx == "expand" and layer.padding_mode == "zeros",
                "process_input is not implemented for this layer")
        return dict(labels=["unequal padding"], nontrivial=False)
    same("process_input changed its input", x, keep)
    require(rows.dtype == dtype, f"process_input returned {rows.dtype}, not {dtype}")
    require(
        tuple(rows.shape) == (o.shape[0], mat.shape[1]),
        f"process_input: shape {tuple(rows.shape)} for {(o.shape[0], mat.shape[1])}",
    )
    a = rows.to(torch.float64) * rows.shape[0] ** 0.5
    scale = (a.abs() @ mat.abs().T).max().item() + 1e-3
    if dtype != torch.float64:
        scale += maxabs(x) * mat.abs().sum(1).max().item()
    close(f"input rows times weights ({approx})", a @ mat.T, o, TOL[dtype], scale)
    if layer.bias is not None:
        ones = torch.ones_like(a[:, -1])
        close("appended constant", a[:, -1], ones, max(TOL[dtype], 1e-7))

    # gradients
    grad = arrange(randn(g, *out.shape).to(dtype), case["layout"])
    keep = grad.clone()
    rows = process_grad_output(grad, layer, case["average"], approx)
    same("process_grad_output changed its input", grad, keep)
    require(rows.dtype == dtype, f"process_grad_output returned {rows.dtype}")
    G = grad.to(torch.float64)
    # explicit loops over samples and positions
    G = G.flatten(2).transpose(1, 2) if conv else G.reshape(G.shape[0], -1, G.shape[-1])
    terms = {None: 1, "batch": G.shape[0], "batch+sequence": G.shape[0] * positions}
    factor = terms[case["average"]] ** 0.5
    if approx == "expand":
        expected = torch.stack([G[n, p] for n in range(len(G)) for p in range(positions)])
    else:
        expected = torch.stack([sum(G[n, p] for p in range(positions)) for n in range(len(G))])
    close(f"gradient rows ({approx}, {case['average']})", rows, expected * factor,
          TOL[dtype], factor * max(maxabs(expected), maxabs(G)) * positions**0.5)
    labels = [
        "linear" if not conv else f"conv:{layer.padding_mode}",
        f"approx:{approx}",
        f"average:{case['average']}",
        f"layout:{case['layout']}",
        f"dtype:{case['dtype']}",
    ]
    if groups > 1:
        labels.append("groups")
    if conv and isinstance(layer.padding, str):
        labels.append(f"padding:{layer.padding}")
    return dict(labels=labels, nontrivial=positions > 1 or case["batch"] > 1)
