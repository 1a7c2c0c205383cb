"""C23: optimizers are isolated from each other and from global state."""

import random
import threading
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from harness.common import DTYPES, require
from harness.models import build_model
from harness.training import (
    Run,
    hp_labels,
    hypers,
    identical_states,
    make_optimizer,
    optimizer_class,
    relayout,
    supported_layers,
    trainings,
)

ID = "C23"
N = {"quick": 3200, "thorough": 30000}
RULE = (
    "A case is two or three training runs (each with its own model, hyper-parameters,"
    " structures and optimizer class) and a schedule that interleaves their constructions,"
    " backward passes and steps in one thread, or runs them in parallel threads, or next to"
    " idle optimizers that are attached to the same model. Every run must end bit-wise as it"
    " does alone, and the global state of the process must be unchanged. Non-trivial: the"
    " runs alternate at least twice and one of them takes two steps."
)


group_values = st.fixed_dictionaries(
    {},
    optional=dict(
        lr=st.sampled_from([0.0, 0.02, 0.2]),
        momentum=st.sampled_from([0.0, 0.6]),
        weight_decay=st.sampled_from([0.0, 0.1]),
        damping=st.sampled_from([0.0, 0.2]),
        T=st.sampled_from([1, 2]),
        lr_cov=st.sampled_from([0.02, 0.2]),
        kfac_approx=st.sampled_from(["expand", "reduce"]),
        loss_average=st.sampled_from(["batch", None, "batch+sequence"]),
    ),
)


def split(model, values, reverse=False):
    """Distribute the layers among groups with different hyper-parameters."""
    if not values:
        return None
    groups = [dict(names=[], hp=hp) for hp in values]
    layers = list(supported_layers(model).items())
    for i, (name, layer) in enumerate(layers[::-1] if reverse else layers):
        groups[i % len(groups)]["names"] += [
            f"{name}.{n}" if name else n for n, _ in layer.named_parameters()
        ]
    return [g for g in groups if g["names"]]


@st.composite
def cases(draw, max_steps):
    mode = draw(st.sampled_from(["interleaved", "interleaved", "threads", "idle"]))
    num = 1 if mode == "idle" else draw(st.integers(2, 3))
    runs = [draw(trainings(max_steps=max_steps, max_batch=4)) for _ in range(num)]
    if num > 1 and draw(st.booleans()):
        # the same model, or the same data, in both runs
        runs[1]["model"], runs[1]["dtype"] = runs[0]["model"], "float32"
        runs[0]["dtype"] = "float32"
    for r in runs:
        r["batches"] = r["batches"][:12]
        r["subclass"] = draw(st.sampled_from([None, None, None, "plain", "structures"]))
    length = sum(2 + 2 * len(r["batches"]) for r in runs)
    case = dict(mode=mode, runs=runs)
    if mode == "interleaved":
        case["order"] = draw(
            st.lists(st.integers(0, num - 1), min_size=length // 2, max_size=length)
        )
    elif mode == "idle":
        hp = [draw(hypers()) for _ in range(draw(st.integers(1, 2)))]
        for h in hp:
            h["structures"] = runs[0]["hp"]["structures"]
        case["idle"] = hp
        case["groups"] = draw(st.lists(group_values, max_size=3))
        case["idle_groups"] = draw(st.lists(group_values, max_size=3))
        case["idle_first"] = draw(st.booleans())
    return case


def strategy(tier):
    return cases(4 if tier == "quick" else 10)


def subclass(kind):
    cls = optimizer_class()
    if kind == "plain":
        return type("Own", (cls,), {})
    if kind == "structures":
        table = dict(cls.SUPPORTED_STRUCTURES)
        table["own"] = table["diagonal"]
        table["dense"] = type("OwnDense", (table["dense"],), {})
        return type("OwnStructures", (cls,), {"SUPPORTED_STRUCTURES": table})
    return cls


def phases(case):
    """Generator that performs one phase of a training run at a time."""
    model = build_model(case["model"], DTYPES[case["dtype"]])
    r = Run(case)
    data = [r.data(batch) for batch in case["batches"]]
    yield None
    groups = split(model, case.get("groups"))
    r = Run(case, model=model, cls=subclass(case["subclass"]), groups=groups)
    yield r
    for x, y in data:
        r.zero_grad()
        r.loss(x, y).backward()
        yield r
        r.opt.step()
        yield r


def alone(case, check_rng=False):
    progress = phases(case)
    next(progress)
    rng = torch.get_rng_state()
    for r in progress:
        pass
    if check_rng:
        require(torch.equal(rng, torch.get_rng_state()), "training consumed random numbers")
    return r.state()


def global_state():
    return dict(
        numpy_rng=str(np.random.get_state()),
        random=random.getstate(),
        dtype=torch.get_default_dtype(),
        grad=torch.is_grad_enabled(),
        inference=torch.is_inference_mode_enabled(),
        threads=torch.get_num_threads(),
        deterministic=torch.are_deterministic_algorithms_enabled(),
        anomaly=torch.is_anomaly_enabled(),
        filters=list(warnings.filters),
        structures=dict(optimizer_class().SUPPORTED_STRUCTURES),
        autocast=torch.is_autocast_enabled("cpu"),
    )


def run(case):
    runs, mode = case["runs"], case["mode"]
    before = global_state()
    if mode == "idle":
        runs[0]["groups"] = case["groups"]
    expected = [alone(r, check_rng=True) for r in runs]
    after = global_state()
    for key in before:
        require(before[key] == after[key], f"training changed the global state: {key}")
    alternations = 0
    if mode == "interleaved":
        progress = [phases(r) for r in runs]
        results = [None] * len(runs)
        last = None
        order = case["order"] + [i for i, r in enumerate(runs) for _ in range(99)]
        for i in order:
            r = next(progress[i], "done")
            if r != "done":
                results[i] = r
                alternations += i != last
                last = i
        actual = [r.state() for r in results]
    elif mode == "threads":
        actual, errors = [None] * len(runs), []
        barrier = threading.Barrier(len(runs))

        def work(i):
            try:
                barrier.wait(20)
                actual[i] = alone(runs[i])
            except Exception as e:  # noqa: BLE001
                errors.append(e)

        threads = [threading.Thread(target=work, args=(i,)) for i in range(len(runs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        alternations = 9
    else:
        model = build_model(runs[0]["model"], DTYPES[runs[0]["dtype"]])
        if runs[0].get("layout", 0) == 2:  # the addresses identify parameters
            for p in model.parameters():
                p.data = relayout(p.data)
        args = dict(cls=subclass(runs[0]["subclass"]), groups=split(model, case["groups"]))
        others = split(model, case["idle_groups"], reverse=True)
        if case["idle_first"]:
            idle = [make_optimizer(model, hp, others) for hp in case["idle"]]
            r = Run(runs[0], model=model, **args)
        else:
            r = Run(runs[0], model=model, **args)
            idle = [make_optimizer(model, hp, others) for hp in case["idle"]]
        for batch in runs[0]["batches"]:
            r.step(batch)
        require(all(o.steps == 0 for o in idle), "an idle optimizer counted steps")
        actual = [r.state()]
        alternations = 9
    for i, (a, e) in enumerate(zip(actual, expected)):
        identical_states(f"run {i} ({mode})", a, e)
    for key, value in global_state().items():
        if key != "filters" or mode != "threads":  # the harness changes them, too
            require(before[key] == value, f"training changed the global state: {key}")
    labels = [f"mode:{mode}"] + hp_labels(runs[0])
    labels += [f"subclass:{r['subclass']}" for r in runs if r["subclass"]]
    steps = max(len(r["batches"]) for r in runs)
    return dict(labels=labels, nontrivial=alternations >= 3 and steps >= 2)
