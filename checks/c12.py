"""C12: steps with infinite gradients are skipped without trace."""

import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from harness.common import DTYPES, require
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_reference,
    hp_labels,
    identical_states,
    trainings,
)

ID = "C12"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, hyper-parameters, a history of 2-7 steps run with a real"
    " torch.amp.GradScaler (or its protocol: grad_scale and found_inf set on the"
    " optimizer), and a fault schedule: loss overflow, inf or NaN in one gradient entry,"
    " in an input or target, in the first or last of several micro-batches. Faulty steps"
    " must leave all states bit-wise unchanged and warn; the next steps must match the"
    " reference that only counted the faulty step. Non-trivial: at least one faulty and"
    " one later regular step."
)
FAULTS = ["loss", "grad inf", "grad nan", "grad -inf", "input", "target nan"]


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(min_steps=2, max_steps=max_steps, max_batch=4))
    fault = st.one_of(st.none(), st.sampled_from(FAULTS))
    case["faults"] = [draw(fault) for _ in case["batches"]]
    if not any(case["faults"][:-1]):
        where = draw(st.integers(0, len(case["batches"]) - 2))
        case["faults"][where] = draw(st.sampled_from(FAULTS))
    # additional micro-batch in a faulty step: before or after the faulty one
    case["extra"] = [draw(st.sampled_from([None, None, "before", "after"]))
                     for _ in case["batches"]]
    case["where"] = draw(st.integers(0, 999))
    case["mode"] = draw(st.sampled_from(["scaler", "scaler", "protocol"]))
    case["scale"] = draw(st.sampled_from([1.0, 2.0, 1024.0, 50.0]))
    case["init"] = draw(st.sampled_from([1.0, 1024.0]))
    return case


def strategy(tier):
    return cases(7 if tier == "quick" else 20)


def put(t, where, value):
    """Overwrite one entry (the tensor may have any memory layout)."""
    index = np.unravel_index(where % t.numel(), t.shape)
    t[tuple(int(i) for i in index)] = float(value)


def run(case):
    real, ref = Run(case, init_grad_scale=case["init"]), RefRun(case)
    tol = TOL[DTYPES[case["dtype"]]]
    scaler = torch.amp.GradScaler(
        "cpu", init_scale=case["scale"], growth_interval=2, backoff_factor=0.5
    )
    params = [p for _, p in sorted(real.model.named_parameters())]
    trained = {id(p) for group in real.opt.param_groups for p in group["params"]}
    params = [p for p in params if id(p) in trained]
    skipped = later = 0
    for k, (batch, fault) in enumerate(zip(case["batches"], case["faults"])):
        before = real.state()
        real.zero_grad()
        x, y = real.data(batch)
        extra = case["extra"][k] if fault else None
        if extra == "before":
            scaler.scale(real.loss(*real.data([3, k]))).backward()
        if fault == "input":
            put(x, case["where"], "inf")
        elif fault == "target nan":
            put(y, case["where"], "nan")
        loss = scaler.scale(real.loss(x, y))
        if fault == "loss":
            loss = loss * float("inf")
        loss.backward()
        if extra == "after":
            scaler.scale(real.loss(*real.data([2, k]))).backward()
        if fault and fault.startswith("grad"):
            p = params[case["where"] % len(params)]
            put(p.grad, case["where"], fault.split()[1])
        bad = not all(bool(p.grad.isfinite().all()) for p in params)
        if fault and not bad:
            return dict(labels=["fault without effect on gradients"], nontrivial=False)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            if case["mode"] == "scaler":
                scaler.step(real.opt)
            else:
                real.opt.grad_scale = torch.tensor(scaler.get_scale())
                real.opt.found_inf = torch.tensor(float(bad))
                real.opt.step()
                del real.opt.grad_scale, real.opt.found_inf
        if case["mode"] == "scaler":
            scaler.update()
        elif bad:
            scaler.update(scaler.get_scale() / 2)
        if bad:
            if fault is None:  # the trajectory diverged
                break
            messages = [str(w.message) for w in caught if issubclass(w.category, Warning)]
            require(
                any("inf" in m.lower() or "skip" in m.lower() for m in messages),
                f"step {k}: no warning about the skipped step: {messages}",
            )
            identical_states(f"step {k} was skipped", real.state(), before)
            ref.opt.step(skip=True)
            skipped += 1
        else:
            ref.step(batch)
            if not real.healthy():
                break
            compare_reference(f"step {k}", real.model, real.opt, ref, tol)
            ref.adopt(real.model, real.opt)
            later += skipped > 0
    labels = hp_labels(case) + [f"mode:{case['mode']}"]
    labels += [f"fault:{f}" for f in case["faults"] if f]
    labels += [f"micro-batch {e}" for e, f in zip(case["extra"], case["faults"]) if e and f]
    return dict(labels=labels, nontrivial=skipped > 0 and later > 0)
