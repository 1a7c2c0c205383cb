"""C08: every optimizer step follows the published update rule."""

import torch
from hypothesis import strategies as st

from harness.common import DTYPES
from harness.training import (
    TOL,
    Mirror,
    RefRun,
    Run,
    compare_reference,
    hp_labels,
    trainings,
)

ID = "C08"
N = {"quick": 4800, "thorough": 40000}
RULE = (
    "A case is a model (MLP, weight-shared linear or convolutional net), a full set of"
    " hyper-parameters and a history of 1-6 (thorough: 1-25) training steps with varying"
    " batch size; after every step all parameters, momentum buffers, factors and factor"
    " momenta are compared with a dense float64 reference that starts the step from the"
    " observed state. The reference runs its own float64 model or (mirror) gets the layer"
    " inputs and gradients of the run under test, with a smaller tolerance. Non-trivial: at least 2 steps were compared and a factor of"
    " dimension >= 2 changed."
)


# for a reference that gets the layer inputs and gradients of the real run
MIRROR_TOL = {torch.float64: 1e-12, torch.float32: 1e-5}


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(max_steps=max_steps))
    case["numbers"] = draw(st.sampled_from([None] * 6 + ["numpy", "tensor"]))
    case["mirror"] = draw(st.booleans())
    return case


def strategy(tier):
    return cases(6 if tier == "quick" else 25)


def run(case):
    real, ref = Run(case), RefRun(case)
    tol = (MIRROR_TOL if case["mirror"] else TOL)[DTYPES[case["dtype"]]]
    mirror = Mirror(real.model, ref) if case["mirror"] else None
    done = 0
    for k, batch in enumerate(case["batches"]):
        real.backward(batch)
        if mirror:
            mirror.gradients()
            real.opt.step()
            mirror.step(real.opt)
        else:
            real.opt.step()
            ref.step(batch)
        if not real.healthy():
            break
        compare_reference(f"step {k}", real.model, real.opt, ref, tol)
        ref.adopt(real.model, real.opt)
        done += 1
    labels = hp_labels(case) + [f"steps:{done}"]
    changed = case["hp"]["lr_cov"] != 0.0 and any(
        s.dim_K > 1 for s in ref.opt.states.values()
    )
    return dict(labels=labels, nontrivial=done >= 2 and changed)
