"""C11: training is invariant to gradient scaling."""

import torch
from hypothesis import strategies as st

from harness.training import Run, compare_runs, hp_labels, sync, trainings

ID = "C11"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, hyper-parameters, a history of 1-6 steps and a positive loss"
    " scale for every step that is announced explicitly (before or after the backward"
    " pass, possibly replacing an earlier announcement), through a real torch.amp.GradScaler with arbitrary growth, or not at all"
    " (scale 1), and an initial scale that matches or not. All states are compared with"
    " the real un-scaled run after every step, which then hands its state over. With"
    " accumulation, every step consists of 1-3 scaled backward passes. Non-trivial: a"
    " scale different from 1 and at least one completed step."
)
SCALES = [0.004, 0.25, 0.9375, 1.0, 1.0625, 2.0, 3.7, 128.0, 1000.0, 65536.0,
          1e-5, 1048576.0, 3e7, 2.0**30]


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(max_steps=max_steps))
    case["mode"] = draw(st.sampled_from(["explicit", "explicit", "scaler", "mixed"]))
    case["init"] = draw(st.sampled_from([None, None, 1.0, 2.0, 500.0, 65536.0, 0.01, 2.0**27]))
    scale = st.sampled_from(SCALES)
    steady = draw(scale)
    same = draw(st.booleans())
    case["scales"] = [steady if same else draw(scale) for _ in case["batches"]]
    case["early"] = [draw(st.booleans()) for _ in case["batches"]]
    # an announced scale is replaced by a later announcement; natural numbers
    case["stale"] = [draw(st.sampled_from([None, None, None, 1.0, 8.0, 65536.0]))
                     for _ in case["batches"]]
    case["natural"] = draw(st.booleans())
    case["micro"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    if case["mode"] == "scaler":
        case["growth"] = [draw(st.sampled_from([1.5, 2.0, 8.0])), draw(st.integers(1, 3))]
        case["forced"] = [draw(st.sampled_from([None, None, 2.0, 33.0, 4096.0]))
                          for _ in case["batches"]]
    return case


def strategy(tier):
    return cases(6 if tier == "quick" else 20)


def run(case):
    kwargs = {} if case["init"] is None else dict(init_grad_scale=case["init"])
    plain, scaled = Run(case), Run(case, **kwargs)
    mode = case["mode"]
    scaler = None
    if mode == "scaler":
        factor, interval = case["growth"]
        scaler = torch.amp.GradScaler(
            "cpu", init_scale=case["scales"][0], growth_factor=factor,
            growth_interval=interval,
        )
    done, seen = 0, set()
    for k, batch in enumerate(case["batches"]):
        micro = [[batch[0], batch[1] + i] for i in range(case["micro"])]
        plain.zero_grad()
        for m in micro:
            plain.loss(*plain.data(m)).backward()
        plain.opt.step()

        scale = case["scales"][k]
        announce = mode == "explicit" or (mode == "mixed" and scale != 1.0)
        scaled.zero_grad()
        if case["natural"] and scale == int(scale):
            scale = int(scale)
        if announce and case["stale"][k] is not None:
            scaled.opt.set_current_grad_scale(case["stale"][k])
        if announce and case["early"][k]:
            scaled.opt.set_current_grad_scale(scale)
        for m in micro:
            loss = scaled.loss(*scaled.data(m))
            if scaler is not None:
                loss = scaler.scale(loss)
            else:
                loss = loss * scale
            loss.backward()
        if scaler is not None:
            seen.add(scaler.get_scale())
            scaler.step(scaled.opt)
            scaler.update(case["forced"][k])
        else:
            seen.add(scale)
            if announce and not case["early"][k]:
                scaled.opt.set_current_grad_scale(scale)
            scaled.opt.step()
        if not plain.healthy():
            break
        compare_runs(f"step {k} (scale {scale})", scaled, plain)
        sync(plain, scaled)
        done += 1
    labels = hp_labels(case) + [f"mode:{mode}", f"init:{case['init']}",
                                f"micro batches:{case['micro']}"]
    if len(seen) > 1:
        labels.append("scale changes")
    if mode != "scaler" and any(case["stale"]):
        labels.append("announced twice")
    return dict(labels=labels, nontrivial=done > 0 and seen != {1.0})
