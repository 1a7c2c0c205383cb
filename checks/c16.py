"""C16: data types are preserved and mixed precision works."""

import contextlib

import torch
from hypothesis import strategies as st

from harness.common import DTYPES, require
from harness.models import build_model, supported_layers
from harness.structs import contains_toeplitz, get_class, supports_float64
from harness.training import (
    Mirror,
    RefRun,
    Run,
    compare_reference,
    hp_labels,
    structures,
    trainings,
)

ID = "C16"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model in float64, float32 or bfloat16, a requested data type (or None)"
    " for each pre-conditioner factor (also per group), hyper-parameters, 1-5 steps, with and without"
    " autocast and gradient scaling. After every step, data types and structures are"
    " checked and the step is compared with the reference up to the rounding of the"
    " lowest involved precision. Non-trivial: two different data types are involved or"
    " all are bfloat16, and one step was completed."
)
ASSUMPTIONS = [
    "float64 factors only for structures without `lowest_precision` helpers (documented"
    " for float16, bfloat16, float32); float16 not for Toeplitz structures, because this"
    " torch build hangs in float16 convolutions on CPU."
]
# the reference gets the layer inputs and gradients of the run in lower precision
TOL = {
    torch.float64: 1e-12,
    torch.float32: 1e-5,
    torch.float16: 0.01,
    torch.bfloat16: 0.08,
}


@st.composite
def cases(draw, max_steps):
    case = draw(
        trainings(
            overrides=dict(lr=draw(st.sampled_from([0.01, 0.1]))), max_steps=max_steps
        )
    )
    case["dtype"] = draw(st.sampled_from(["float32", "float32", "bfloat16", "float64"]))

    def requested(specs):
        out = []
        for spec in specs:
            options = ["float32", "bfloat16", None]
            if supports_float64(spec):
                options += ["float64"]
            elif case["dtype"] == "float64":
                options.remove(None)
            if not contains_toeplitz(spec):
                options += ["float16"]
            out.append(draw(st.sampled_from(options)))
        return out

    case["hp"]["preconditioner_dtype"] = requested(case["hp"]["structures"])
    layers = supported_layers(build_model(case["model"]))
    if len(layers) > 1 and draw(st.integers(0, 2)) == 0:
        groups = [dict(names=[], hp={}), dict(names=[], hp={})]
        last = draw(st.integers(1, len(layers) - 1))
        for i, (name, mod) in enumerate(layers.items()):
            groups[i >= last]["names"] += [f"{name}.{n}" for n, _ in mod.named_parameters()]
        for group in groups if draw(st.booleans()) else groups[1:]:
            specs = case["hp"]["structures"]
            if draw(st.booleans()):
                specs = [draw(structures), draw(structures)]
                group["hp"]["structures"] = specs
            group["hp"]["preconditioner_dtype"] = requested(specs)
        case["groups"] = groups
    case["autocast"] = case["dtype"] == "float32" and draw(st.booleans())
    types = [t for g in [case["hp"], *(g["hp"] for g in case.get("groups") or [])]
             for t in g.get("preconditioner_dtype", [])]  # fmt: skip
    scales = [1.0, 16.0] if "float16" in types else [1.0, 16.0, 0.25, 1000.0, 65536.0]
    same = st.sampled_from(scales).map(lambda s: [s] * len(case["batches"]))
    changing = st.lists(
        st.sampled_from(scales), min_size=len(case["batches"]), max_size=len(case["batches"])
    )
    case["scales"] = draw(st.one_of(st.just([1.0] * len(case["batches"])), same, changing))
    case["announce"] = draw(st.booleans())
    return case


def strategy(tier):
    return cases(5 if tier == "quick" else 15)


def run(case):
    dtype = DTYPES[case["dtype"]]
    groups = case.get("groups")
    real = Run(case, groups=groups, init_grad_scale=case["scales"][0])
    ref = RefRun(case, groups=groups)
    requested, types = {}, []
    for group in groups or [dict(names=[f"{n}.weight".lstrip(".") for n in ref.opt.layers], hp={})]:
        hp = {**case["hp"], **group["hp"]}
        these = [DTYPES[d] or dtype for d in hp["preconditioner_dtype"]]
        types += these
        for name in group["names"]:
            requested[name.rpartition(".")[0]] = (hp["structures"], these)
    mirror = Mirror(real.model, ref)
    lowest = max([dtype, *types], key=lambda d: TOL[d])
    if case["autocast"]:
        lowest = torch.bfloat16
    tol = TOL[lowest]

    def predicate(what):
        for name, p in real.model.named_parameters():
            require(p.dtype == dtype, f"{what}: parameter {name} has {p.dtype}")
            for key, value in real.opt.state.get(p, {}).items():
                if isinstance(value, torch.Tensor):
                    require(
                        value.dtype == dtype, f"{what}: {key} of {name} has {value.dtype}"
                    )
        o = real.opt
        for kind, mats, i in [
            ("K", o.Ks, 0), ("C", o.Cs, 1), ("m_K", o.m_Ks, 0), ("m_C", o.m_Cs, 1)
        ]:
            for layer, mat in mats.items():
                names, wanted = requested[layer]
                require(
                    type(mat) is get_class(names[i]),
                    f"{what}: {kind} of layer {layer} is a {type(mat).__name__}",
                )
                for component, t in mat.named_tensors():
                    require(
                        t.dtype == wanted[i],
                        f"{what}: {component} of {kind} of layer {layer} has {t.dtype}"
                        f" instead of {wanted[i]}",
                    )

    predicate("initially")
    done = 0
    for k, batch in enumerate(case["batches"]):
        x, y = real.data(batch)
        scale = mirror.scale = case["scales"][k]
        if case["announce"]:
            real.opt.set_current_grad_scale(scale)
        real.zero_grad()
        context = (
            torch.autocast("cpu", dtype=torch.bfloat16)
            if case["autocast"]
            else contextlib.nullcontext()
        )
        with context:
            loss = real.loss(x, y)
        (loss * scale).backward()
        if not case["announce"]:
            real.opt.set_current_grad_scale(scale)
        mirror.gradients()
        real.opt.step()
        predicate(f"step {k}")
        mirror.step(real.opt)
        # large factors or gradients are beyond the range of half precision
        if not all(bool((t.abs() < 50).all()) for t in real.state().values()):
            break
        compare_reference(f"step {k}", real.model, real.opt, ref, tol)
        ref.adopt(real.model, real.opt)
        done += 1
    labels = hp_labels(case) + [
        f"dtypes:{case['dtype']}:{case['hp']['preconditioner_dtype']}"
    ]
    if case["autocast"]:
        labels.append("autocast")
    if groups:
        labels.append("types per group")
    mixed = len({dtype, *types}) > 1 or dtype == torch.bfloat16 or case["autocast"]
    return dict(labels=labels, nontrivial=mixed and done > 0)
