"""C18: structures that describe the same matrices train identically."""

import torch
from hypothesis import strategies as st

from harness import structs
from harness.common import DTYPES, close, maxabs, require
from harness.models import build_model, feature_dim, loss_value, model_specs, supported_layers
from harness.training import (
    TOL,
    Run,
    compare_runs,
    hp_labels,
    magnitudes,
    trainings,
)

ID = "C18"
N = {"quick": 4800, "thorough": 30000}
RULE = (
    "A case is a model, hyper-parameters, a history of steps and a pair of structure"
    " choices: (same) different structures that describe the same matrices for the"
    " dimensions of all layers, (mirror) Toeplitz structures with all coordinates of"
    " model and data reversed, (independent) pairs that share one structure and must"
    " agree in this factor after one step. Both are trained with the real optimizer and"
    " compared after every step. Non-trivial: the pair differs and steps were compared."
)

ALL = structs.OPTIMIZER_STRUCTURES


def factor_dims(spec):
    dims_K, dims_C = [], []
    for mod in supported_layers(build_model(spec)).values():
        dims_K.append(mod.weight[0].numel() + (mod.bias is not None))
        dims_C.append(mod.weight.shape[0])
    return dims_K, dims_C


def equivalent(dims):
    """Structures that describe all matrices of these dimensions."""
    out = ["dense"]
    if max(dims) <= 30:
        out.append("block30diagonal")
    if max(dims) <= 15:
        out.append("hierarchical15_15")
    if max(dims) == 1:
        out += ["diagonal", "triltoeplitz", "triutoeplitz"]
    return out


@st.composite
def one_dimensional(draw):
    """Models in which (almost) all factors have dimension one."""
    spec = draw(model_specs(kinds=["mlp", "seq"], norm=False, big=False))
    which = draw(st.sampled_from(["both", "K", "C"]))
    linears = [layer for layer in spec["layers"] if layer[0] == "linear"]
    spec["layers"] = [layer for layer in spec["layers"] if layer[0] != "flatten"]
    if which != "C":
        spec["input"][-1] = 1
        for layer in linears:
            layer[2] = False
        for layer in linears[:-1]:
            layer[1] = 1
    if which != "K":
        for layer in linears:
            layer[1] = 1
    return spec


@st.composite
def conv_mirror(draw):
    """Convolutions that commute with a reversal of all coordinates."""
    spec = draw(model_specs(kinds=["conv"]))
    for layer in spec["layers"]:
        if layer[0] == "conv":
            layer[3] = [1, 1]
            if isinstance(layer[2], int):
                layer[3] = 1
            layer[6] = 1
    return spec


@st.composite
def cases(draw, max_steps):
    mode = draw(st.sampled_from(["same", "same", "same", "mirror", "mirror", "independent"]))
    if mode == "mirror":
        models = st.one_of(model_specs(kinds=["mlp", "seq"]), conv_mirror())
        case = draw(trainings(models, max_steps=max_steps))
        options = ["triltoeplitz", "triutoeplitz"] * 2 + ["dense", "diagonal"]
        s = [draw(st.sampled_from(options)), draw(st.sampled_from(options))]
        if "toeplitz" in s[0]:  # the position of the bias is fixed
            for layer in case["model"]["layers"]:
                if layer[0] == "linear":
                    layer[2] = False
                if layer[0] == "conv":
                    layer[7] = False
        swap = {"triltoeplitz": "triutoeplitz", "triutoeplitz": "triltoeplitz"}
        other = [swap.get(k, k) for k in s]
    elif mode == "same":
        models = st.one_of(model_specs(), model_specs(), one_dimensional())
        case = draw(trainings(models, max_steps=max_steps))
        dims_K, dims_C = factor_dims(case["model"])
        s, other = [], []
        for dims in (dims_K, dims_C):
            options = equivalent(dims)
            if draw(st.integers(0, 3)) == 0:
                first = second = draw(st.sampled_from(ALL))
                if first in options:
                    second = draw(st.sampled_from(options))
            else:
                first = draw(st.sampled_from(options))
                second = draw(st.sampled_from(options))
            s.append(first)
            other.append(second)
    else:
        case = draw(trainings(max_steps=1))
        which = draw(st.integers(0, 1))
        s = [draw(st.sampled_from(ALL)), draw(st.sampled_from(ALL))]
        other = list(s)
        other[1 - which] = draw(st.sampled_from(ALL))
        case["which"] = which
    hp = case["hp"]
    hp["structures"], case["other"], case["mode"] = s, other, mode
    if "omit" in hp:
        hp["omit"] = [k for k in hp["omit"] if k != "structures"]
    case["dtype"] = "float32"
    if all(structs.supports_float64(k) for k in s + other):
        case["dtype"] = draw(st.sampled_from(["float64", "float32"]))
    return case


def strategy(tier):
    return cases(5 if tier == "quick" else 15)


def flip(t):
    return t.flip(tuple(range(t.dim())))


def flip_sample(t):
    return t.flip(tuple(range(1, t.dim())))


def check_types(run, structures):
    for name in run.opt.Ks:
        for what, mats, s in zip(
            ("K", "C", "m_K", "m_C"),
            (run.opt.Ks, run.opt.Cs, run.opt.m_Ks, run.opt.m_Cs),
            structures * 2,
        ):
            require(
                name not in mats or type(mats[name]) is structs.get_class(s),
                f"{what} of layer {name} has structure {type(mats.get(name)).__name__}"
                f" instead of {s}",
            )


def labels_of(case):
    labels = [f"mode:{case['mode']}"] + hp_labels(case)
    for a, b in zip(case["hp"]["structures"], case["other"]):
        if a != b:
            labels.append("pair:" + "/".join(sorted([a, b])))
    return labels


def run(case):
    second = {**case, "hp": {**case["hp"], "structures": case["other"]}}
    differs = case["hp"]["structures"] != case["other"]
    tol = TOL[DTYPES[case["dtype"]]]
    a = Run(case)
    if case["mode"] == "mirror":
        done = run_mirror(case, second, a, tol)
    elif case["mode"] == "independent":
        b = Run(second)
        done = run_independent(case, a, b, tol)
        check_types(b, second["hp"]["structures"])
    else:
        b = Run(second)
        done = 0
        for k, batch in enumerate(case["batches"]):
            a.step(batch)
            b.step(batch)
            if not (a.healthy() and b.healthy()):
                break
            compare_runs(f"step {k}", b, a, tol=tol)
            transfer(a, b)
            done += 1
        check_types(b, second["hp"]["structures"])
    check_types(a, case["hp"]["structures"])
    return dict(labels=labels_of(case), nontrivial=differs and done > 0)


def transfer(a, b, mirrored=False):
    """Continue b from the state of a, represented in b's structures."""
    params = dict(a.model.named_parameters())
    change = flip if mirrored else (lambda t: t)
    for name, p in b.model.named_parameters():
        p.data.copy_(change(params[name].data))
        buf = a.opt.state.get(params[name], {}).get("momentum_buffer", None)
        if buf is not None:
            b.opt.state[p]["momentum_buffer"].copy_(change(buf))
    for name in a.opt.Ks:
        for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
            src, dst = getattr(a.opt, what), getattr(b.opt, what)
            if name not in src:
                continue
            dense = src[name].to_dense().detach().clone()
            if mirrored:
                bias = dict(a.model.named_modules())[name].bias is not None
                dense = mirror_matrix(dense, bias and what in ("Ks", "m_Ks"))
            spec = b.opt.param_groups[0]["structures"][what in ("Cs", "m_Cs")]
            dst[name] = structs.build(spec, dense, dense.dtype)


def mirror_matrix(m, bias):
    """Reverse the order of coordinates; the bias stays last."""
    n = m.shape[0] - bias
    order = list(range(n))[::-1] + [n] * bias
    return m[order][:, order]


def run_mirror(case, second, a, tol):
    b = Run(second)
    params = dict(a.model.named_parameters())
    for name, p in b.model.named_parameters():
        p.data.copy_(flip(params[name].data))
    fdim, average = feature_dim(case["model"]), case["hp"]["loss_average"]
    done = 0
    biases = {n: m.bias is not None for n, m in supported_layers(a.model).items()}
    for k, batch in enumerate(case["batches"]):
        x, y = a.data(batch)
        for run_, (xx, yy) in ((a, (x, y)), (b, (flip_sample(x), flip_sample(y)))):
            run_.zero_grad()
            loss_value(run_.model(xx), yy, case["loss"], fdim, average).backward()
            run_.opt.step()
        if not (a.healthy() and b.healthy()):
            break
        sa, sb = a.state(), b.state()
        grads = {
            n: maxabs(p.grad)
            for n, p in a.model.named_parameters()
            if p.grad is not None
        }
        scale = magnitudes(sa, grads, case["hp"]["lr"])
        require(sorted(sa) == sorted(sb), "states have different entries")
        for key, value in sa.items():
            what, name = key.split(" ", 1)
            if what in ("param", "momentum"):
                expected = flip(value)
            else:
                expected = mirror_matrix(value, biases[name] and what in ("K", "m_K"))
            close(f"step {k}, reversed coordinates: {key}", sb[key], expected, tol, scale[key])
        transfer(a, b, mirrored=True)
        done += 1
    return done


def run_independent(case, a, b, tol):
    """One step: a factor does not depend on the structure of the other one."""
    batch = case["batches"][0]
    a.step(batch)
    b.step(batch)
    if not (a.healthy() and b.healthy()):
        return 0
    sa, sb = a.state(), b.state()
    which = "KC"[case["which"]]
    scale = magnitudes(sa, {"": 1.0}, 1.0)
    for key, value in sa.items():
        what = key.split(" ", 1)[0]
        if what in (which, f"m_{which}"):
            require(key in sb, f"{key} is missing")
            close(f"other structure for the other factor: {key}", sb[key], value, tol, scale[key])
    return 1
