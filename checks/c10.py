"""C10: pre-conditioner updates follow the schedule; evaluation passes have no effect."""

import copy
import pickle

import torch
from hypothesis import strategies as st

from harness.common import DTYPES, require
from harness.models import loss_value
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_reference,
    hp_labels,
    identical_states,
    trainings,
)

ID = "C10"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, hyper-parameters with update frequency T in 1..10, a training"
    " history and evaluation passes (no-grad, inference mode, or grad-enabled forward"
    " passes without backward, in train or eval mode, or training of copies of the model)"
    " inserted at any point: before"
    " the forward pass, between forward, backward and step. Bit-wise comparison with the"
    " real run without these passes, comparison with the reference, and predicate that"
    " factors change exactly in steps divisible by T. Non-trivial: some evaluation pass"
    " and at least one step, or T > 1 and more than T steps."
)
PLACES = ["before", "after forward", "after backward", "after step"]
KINDS = ["no_grad", "inference", "forward", "forward eval", "no_grad large",
         "copy", "pickled copy"]


@st.composite
def cases(draw, max_steps):
    T = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 7, 10]))
    long = T > 4 and draw(st.booleans())
    case = draw(
        trainings(overrides=dict(T=T), min_steps=T + 2 if long else 2,
                  max_steps=max(max_steps, T + 3), max_batch=4)
    )
    event = st.tuples(
        st.integers(0, len(case["batches"]) - 1),
        st.sampled_from(PLACES),
        st.sampled_from(KINDS),
        st.integers(1, 4),
        st.integers(0, 9999),
    ).map(list)
    case["events"] = draw(st.lists(event, max_size=6))
    return case


def strategy(tier):
    return cases(8 if tier == "quick" else 25)


def evaluate(run, kind, batch):
    model = run.model
    x, y = run.data(batch)
    if kind == "no_grad":
        with torch.no_grad():
            run.loss(x, y)
    elif kind == "no_grad large":
        with torch.no_grad():
            model(x.repeat(7, *[1] * (x.dim() - 1)) * 3.0)
    elif kind == "inference":
        with torch.inference_mode():
            run.loss(x.clone(), y)
    elif kind == "forward":
        run.loss(x, y)
    elif kind == "forward eval":
        modes = [m.training for m in model.modules()]
        model.eval()
        run.loss(x, y)
        for m, mode in zip(model.modules(), modes):
            m.training = mode
    elif kind in ("copy", "pickled copy"):  # e.g. of averaged weights
        if kind == "copy":
            twin = copy.deepcopy(model)
        else:
            twin = pickle.loads(pickle.dumps(model))
        with torch.no_grad():
            for p in twin.parameters():
                p.mul_(0.5)
        # also training the copy has no effect
        loss_value(twin(x), y, run.case["loss"], run.fdim, run.loss_average).backward()
    else:
        raise ValueError(kind)


def train_step(run, batch, events):
    def at(place):
        for where, kind, n, seed in events:
            if where == place:
                evaluate(run, kind, [n, seed])

    x, y = run.data(batch)
    at("before")
    run.zero_grad()
    loss = run.loss(x, y)
    at("after forward")
    loss.backward()
    at("after backward")
    run.opt.step()
    at("after step")


def factors(run):
    return {k: v for k, v in run.state().items() if k.split()[0] in ("K", "C", "m_K", "m_C")}


def run(case):
    disturbed, plain, ref = Run(case), Run(case), RefRun(case)
    T, tol = case["hp"]["T"], TOL[DTYPES[case["dtype"]]]
    done = 0
    for k, batch in enumerate(case["batches"]):
        events = [e[1:] for e in case["events"] if e[0] == k]
        before = factors(disturbed)
        train_step(disturbed, batch, events)
        train_step(plain, batch, [])
        old = {n: (s.K, s.C) for n, s in ref.opt.states.items()}
        ref.step(batch)
        if not plain.healthy():
            break
        identical_states(f"step {k} with/without evaluation", disturbed.state(), plain.state())
        after = factors(disturbed)
        if k % T != 0:
            identical_states(f"step {k} (T={T}): factors", after, before)
        else:
            for name, s in ref.opt.states.items():
                for which, new, was in [("K", s.K, old[name][0]), ("C", s.C, old[name][1])]:
                    if (new - was).abs().max() > 1e-3:
                        key = f"{which} {name}"
                        require(
                            not torch.equal(after[key], before[key]),
                            f"step {k} (T={T}): {key} was not updated",
                        )
        compare_reference(f"step {k}", disturbed.model, disturbed.opt, ref, tol)
        ref.adopt(disturbed.model, disturbed.opt)
        done += 1
    labels = hp_labels(case)
    labels += [f"event:{e[1]}:{e[2]}" for e in case["events"] if e[0] < done]
    nontrivial = done >= 1 and (any(e[0] < done for e in case["events"]) or done > T > 1)
    return dict(labels=labels, nontrivial=nontrivial)
