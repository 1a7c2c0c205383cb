"""C13: gradient accumulation over micro-batches equals the full mini-batch."""

from hypothesis import strategies as st

from harness.common import DTYPES
from harness.training import TOL, RefRun, Run, compare_reference, compare_runs
from harness.training import hp_labels, sync, trainings


ID = "C13"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, hyper-parameters with an averaged loss, and a history of steps"
    " whose mini-batch is split into 1-8 equal micro-batches (backward after each, after"
    " all forward passes in any order, or one backward of the summed loss), optionally"
    " with gradient scaling. All states are compared after every step with the real"
    " full-batch run and with the reference. Non-trivial: a completed step with at least"
    " two micro-batches."
)
ASSUMPTIONS = [
    "Summed losses (loss_average=None) and kfac_like=True are known findings: H_K (and"
    " for kfac_like H_C) is not normalised by the number of micro-batches."
]


@st.composite
def cases(draw, max_steps):
    case = draw(
        trainings(
            overrides=dict(
                loss_average=draw(st.sampled_from(["batch", "batch", "batch+sequence"])),
                kfac_like=False,
            ),
            max_steps=max_steps,
        )
    )
    case["splits"] = [draw(st.sampled_from([1, 2, 2, 3, 4, 5, 8])) for _ in case["batches"]]
    case["order"] = [
        draw(st.sampled_from(["sequential", "sequential", "reversed", "joint"]))
        for _ in case["batches"]
    ]
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 1.0, 256.0]))
    return case


def strategy(tier):
    return cases(5 if tier == "quick" else 15)


def run(case):
    split, full, ref = Run(case), Run(case), RefRun(case)
    average, scale = case["hp"]["loss_average"], case["scale"]
    tol = TOL[DTYPES[case["dtype"]]]
    done = nontrivial = 0
    for k, (batch, parts) in enumerate(zip(case["batches"], case["splits"])):
        n = batch[0] * parts
        batch = [n, batch[1]]
        full.step(batch)

        x, y = split.data(batch)
        chunks = list(zip(x.chunk(parts), y.chunk(parts)))
        factor = 1.0 / parts if average else 1.0
        split.zero_grad()
        order = case["order"][k]
        if order == "sequential":
            for xs, ys in chunks:
                (split.loss(xs, ys) * factor * scale).backward()
        else:
            losses = [split.loss(xs, ys) * factor * scale for xs, ys in chunks]
            if order == "joint":
                sum(losses).backward()
            else:
                for loss in losses[::-1]:
                    loss.backward()
        if scale != 1.0:
            split.opt.set_current_grad_scale(scale)
        split.opt.step()
        ref.step(batch)
        if not full.healthy():
            break
        compare_runs(f"step {k} with {parts} micro-batches", split, full)
        compare_reference(f"step {k}", split.model, split.opt, ref, tol)
        sync(full, split)
        ref.adopt(full.model, full.opt)
        done += 1
        nontrivial += parts > 1
    labels = hp_labels(case)
    labels += [f"split:{s}:{o}" for s, o in zip(case["splits"], case["order"])]
    return dict(labels=labels, nontrivial=nontrivial > 0)


def probe(**hp):
    base = dict(
        lr=0.01, momentum=0.0, damping=0.1, alpha1=0.0, weight_decay=0.0, T=1,
        loss_average="batch", lr_cov=0.1, structures=["dense", "dense"],
        kfac_approx="expand", kfac_like=False, normalize_lr_cov=False,
    )
    return dict(
        model=dict(input=[2], layers=[["linear", 2, True]], seed=0, kind="mlp"),
        hp={**base, **hp}, loss="mse", xscale=1.0, batches=[[2, 0]], dtype="float64",
        splits=[2], order=["sequential"], scale=1.0,
    )


KNOWN_PROBES = {
    "accumulation-summed-loss": probe(loss_average=None),
    "accumulation-kfac-like": probe(kfac_like=True),
}
