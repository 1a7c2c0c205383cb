"""C07: invariance to batch order, consistency across loss reductions."""

import torch
from hypothesis import strategies as st

from harness.common import gen
from harness.models import model_specs
from harness.training import Run, compare_runs, hp_labels, sync, trainings

ID = "C07"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, hyper-parameters, 1-4 batches and a relation: (permute) samples"
    " are re-ordered, (duplicate) every sample occurs 2-4 times with an averaged loss,"
    " (reduction) averaged loss vs. sum / sqrt(number of terms) with loss_average=None."
    " After every step all states of the two real runs are compared; the second run then"
    " continues from the state of the first. Non-trivial: at least two samples or two"
    " loss terms and the batch is really changed by the relation."
)


@st.composite
def cases(draw, max_steps):
    relation = draw(st.sampled_from(["permute", "duplicate", "reduction"]))
    average = ["batch", "batch", "batch+sequence"]
    if relation == "permute":
        average += [None]
    average = draw(st.sampled_from(average))
    # loss terms of all layers are the same: weight sharing is kept or absent
    kinds = ["mlp", "seq", "conv"] if average != "batch+sequence" else ["seq", "mlp"]
    models = model_specs(kinds=kinds, norm=False)
    if average == "batch+sequence" and relation != "permute":
        models = models.filter(
            lambda m: not any(x[0] in ("pool", "flatten") for x in m["layers"])
        )
    case = draw(
        trainings(
            models,
            overrides=dict(loss_average=average),
            max_steps=max_steps,
            same_size=relation == "reduction",
        )
    )
    case["relation"] = relation
    case["factor"] = draw(st.integers(2, 4)) if relation == "duplicate" else 1
    case["perm"] = draw(st.integers(0, 10**6))
    return case


def strategy(tier):
    return cases(4 if tier == "quick" else 10)


def run(case):
    relation, average = case["relation"], case["hp"]["loss_average"]
    A = Run(case)
    terms = 1
    if relation == "reduction":
        x, y = A.data(case["batches"][0])
        terms = x.shape[0]
        if average == "batch+sequence":
            terms *= x.shape[1:-1].numel()
        hp = dict(
            case["hp"],
            lr=case["hp"]["lr"] / terms**0.5,
            weight_decay=case["hp"]["weight_decay"] * terms**0.5,
            loss_average=None,
            omit=[],
        )
        B = Run(dict(case, hp=hp))
    else:
        B = Run(case)
    done, effective = 0, terms > 1
    for k, batch in enumerate(case["batches"]):
        x, y = A.data(batch)
        n = x.shape[0]
        A.opt.zero_grad()
        A.loss(x, y).backward()
        A.opt.step()
        if relation == "permute":
            perm = torch.randperm(n, generator=gen(case["perm"] + k))
            x, y = x[perm], y[perm]
            effective |= n > 1 and bool((perm != torch.arange(n)).any())
        elif relation == "duplicate":
            x, y = (t.repeat(case["factor"], *[1] * (t.dim() - 1)) for t in (x, y))
            if case["perm"] % 2:
                perm = torch.randperm(len(x), generator=gen(case["perm"] + k))
                x, y = x[perm], y[perm]
            effective = True
        B.opt.zero_grad()
        if relation == "reduction":
            (B.loss(x, y, None) / terms**0.5).backward()
        else:
            B.loss(x, y).backward()
        B.opt.step()
        if not (A.healthy() and B.healthy()):
            break
        compare_runs(f"step {k} ({relation})", A, B, 1 / terms**0.5)
        sync(A, B, terms**0.5)
        done += 1
    return dict(
        labels=hp_labels(case) + [f"relation:{relation}"],
        nontrivial=done > 0 and effective,
    )
