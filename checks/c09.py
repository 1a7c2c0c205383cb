"""C09: parameter groups act like independent optimizers on the listed parameters."""

import copy

import torch
from hypothesis import strategies as st

from harness.common import DTYPES, EPS, close, maxabs, require, same
from harness.models import build_model, model_specs, supported_layers
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_reference,
    hp_labels,
    hypers,
    trainings,
)

ID = "C09"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, a partition of some of its layers (possibly only their weights)"
    " into 1-6 parameter groups with individual hyper-parameters, a history of training"
    " steps and hyper-parameter changes of single groups between them (directly or by a"
    " learning rate scheduler). Checked after every step against the reference with the"
    " same groups, or against one real optimizer per group; parameters that were not"
    " passed must stay bit-wise unchanged. Non-trivial: two groups that differ in a"
    " hyper-parameter, a change during training, or a parameter that is not trained."
)

CHANGES = {
    "lr": [0.0, 0.02, 0.2],
    "momentum": [0.2, 0.7],
    "weight_decay": [0.0, 0.1],
    "damping": [0.0, 0.2],
    "lr_cov": [0.02, 0.2],
    "normalize_lr_cov": [True, False],
    "T": [1, 2, 3],
    "kfac_approx": ["expand", "reduce"],
    "loss_average": ["batch", None, "batch+sequence"],
    "alpha1": [0.2, 0.6],
    "kfac_like": [True, False],
}
# changes between these values are covered, others (which need buffers) are not
WHEN = {
    "momentum": lambda hp: hp["momentum"] != 0.0,
    "alpha1": lambda hp: hp["alpha1"] != 0.0,
    "kfac_like": lambda hp: hp["alpha1"] == 0.0,
}


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(model_specs(), min_steps=2, max_steps=max_steps))
    model = build_model(case["model"])
    layers = supported_layers(model)
    num = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 6]))
    groups = [dict(names=[], hp={}) for _ in range(num)]
    keys = [k for k in case["hp"] if k != "omit"]
    for group in groups:
        other = draw(hypers())
        changed = draw(st.lists(st.sampled_from(keys), max_size=5, unique=True))
        group["hp"] = {k: other[k] for k in changed}
    used = False
    for name, mod in layers.items():
        where = draw(st.integers(-1, num - 1))
        if where < 0 and (used or name != list(layers)[-1]):
            continue
        where, used = max(where, 0), True
        names = [n for n, _ in mod.named_parameters()]
        if len(names) == 2 and draw(st.integers(0, 3)) == 0:
            names = ["weight"]  # the bias is not trained
        elif draw(st.booleans()):
            names = names[::-1]
        groups[where]["names"] += [f"{name}.{n}" for n in names]
    groups = [g for g in groups if g["names"]]
    case["groups"] = groups
    if draw(st.booleans()):
        for group in groups:
            group["names"] = draw(st.permutations(group["names"]))
    case["form"] = draw(st.sampled_from(["dicts", "dicts", "list", "generator"]))
    if case["form"] != "dicts":
        groups[0]["hp"] = {}
        del groups[1:]
    case["numbers"] = draw(st.sampled_from([None] * 6 + ["numpy", "tensor"]))
    case["mode"] = draw(st.sampled_from(["reference", "reference", "separate"]))
    case["change"] = [
        draw(
            st.lists(
                st.tuples(
                    st.integers(0, len(groups) - 1),
                    st.sampled_from(sorted(CHANGES)),
                    st.integers(0, 2),
                ).map(list),
                max_size=2,
            )
        )
        for _ in case["batches"]
    ]
    case["scheduler"] = draw(st.sampled_from([None, None, "lambda", "exponential"]))
    if not all(
        s in ("dense", "diagonal")
        for hp in [case["hp"], *({**case["hp"], **g["hp"]} for g in groups)]
        for s in hp["structures"]
    ):
        case["dtype"] = "float32"
    return case


def strategy(tier):
    return cases(5 if tier == "quick" else 15)


def run(case):
    dtype = DTYPES[case["dtype"]]
    groups = case["groups"]
    form = case["form"]
    real = Run(case, groups=groups if form == "dicts" else None, form=form,
               names=None if form == "dicts" else groups[0]["names"])
    tol = TOL[dtype]
    num = len(groups)
    require(len(real.opt.param_groups) == num, "number of parameter groups differs")

    ref = singles = None
    if case["mode"] == "reference":
        ref = RefRun(case, groups=groups)
    else:  # one optimizer for each group
        singles = [Run(case, groups=[copy.deepcopy(g)]) for g in groups]

    schedulers = []

    def targets(i):
        """Dictionaries of hyper-parameters of group i."""
        out = [real.opt.param_groups[i]]
        if ref is not None:
            out.append(ref.opt.groups[i])
        else:
            out.append(singles[i].opt.param_groups[0])
        return out

    if case["scheduler"] == "lambda":
        fns = [(lambda e, i=i: 1.0 / (1 + (i + 1) * e)) for i in range(num)]
        schedulers.append(torch.optim.lr_scheduler.LambdaLR(real.opt, fns))
    elif case["scheduler"] == "exponential":
        schedulers.append(torch.optim.lr_scheduler.ExponentialLR(real.opt, 0.7))

    trained = {n for g in groups for n in g["names"]}
    frozen = {
        n: p.detach().clone()
        for n, p in real.model.named_parameters()
        if n not in trained
    }
    done, changes = 0, 0
    for k, batch in enumerate(case["batches"]):
        for i, key, value in case["change"][k]:
            if case["scheduler"] and key == "lr":
                continue
            options = CHANGES[key]
            for hp in targets(i):
                if key in WHEN and not WHEN[key](hp):
                    continue
                hp[key] = options[value % len(options)]
                changes += 1
        for i in range(num):  # learning rates as set by schedulers
            main, other = targets(i)
            other["lr"] = float(main["lr"])

        before = real.state()
        if singles:
            for single in singles:  # same gradients
                for p, q in zip(single.model.parameters(), real.model.parameters()):
                    p.data.copy_(q.data)
        real.step(batch)
        if ref is not None:
            ref.step(batch)
        else:
            for single in singles:
                single.step(batch)
        if not real.healthy():
            break
        for n, p in real.model.named_parameters():
            if n in frozen:
                same(f"step {k}: {n} was not passed to the optimizer", p.data, frozen[n])
        if ref is not None:
            compare_reference(f"step {k}", real.model, real.opt, ref, tol)
            ref.adopt(real.model, real.opt)
        else:
            state = real.state()
            for i, single in enumerate(singles):
                layers = {n.rpartition(".")[0] for n in groups[i]["names"]}
                own = single.state()
                for key, value in own.items():
                    what, name = key.split(" ", 1)
                    own_name = what in ("param", "momentum")
                    layer = name.rpartition(".")[0] if own_name else name
                    relevant = layer in layers and (
                        not own_name or name in groups[i]["names"]
                    )
                    if relevant:
                        require(key in state, f"step {k}: no {key}")
                        close_enough(f"step {k}: {key} of group {i}", state[key], value)
                    elif what != "param":
                        require(False, f"step {k}: optimizer of group {i} has a {key}")
                    else:
                        same(f"step {k}: {key} is not in group {i}", value, before[key])
        done += 1
        for scheduler in schedulers:
            scheduler.step()
    differing = len({str(sorted(g["hp"].items())) for g in groups}) > 1
    labels = hp_labels(case) + [
        f"groups:{num}",
        f"mode:{case['mode']}",
        f"form:{form}",
        f"scheduler:{case['scheduler']}",
    ]
    if frozen:
        labels.append("some parameters not trained")
    if changes:
        labels.append("changed during training")
    return dict(
        labels=labels, nontrivial=done >= 1 and bool(differing or changes or frozen)
    )


def close_enough(what, actual, expected):
    close(what, actual, expected, 100 * EPS[expected.dtype], maxabs(expected))
