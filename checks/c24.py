"""C24: with a constant pre-conditioner the optimizer is SGD, under any scheduler."""

import torch
from hypothesis import strategies as st

from harness.common import EPS, close, maxabs, require
from harness.training import F64, Run, hp_labels, supported_layers, trainings

ID = "C24"
N = {"quick": 6400, "thorough": 60000}
RULE = (
    "A case is a training run whose pre-conditioner learning rate is zero, so that the"
    " factors stay the identity, with parameter groups, a learning rate scheduler of torch,"
    " gradient clipping or other modifications of `.grad`, gradient scales and step hooks."
    " Parameters and momentum buffers are compared with `torch.optim.SGD` under the same"
    " scheduler. Non-trivial: two steps with a learning rate, momentum or decay that differ"
    " or an active scheduler."
)
ASSUMPTIONS = ["The learning rates stay finite and non-negative."]
SCHEDULERS = {
    "none": None,
    "step": lambda opt, n: torch.optim.lr_scheduler.StepLR(opt, 2, gamma=0.5),
    "multistep": lambda opt, n: torch.optim.lr_scheduler.MultiStepLR(opt, [1, 3], 0.3),
    "exponential": lambda opt, n: torch.optim.lr_scheduler.ExponentialLR(opt, 0.8),
    "cosine": lambda opt, n: torch.optim.lr_scheduler.CosineAnnealingLR(opt, n),
    "restarts": lambda opt, n: torch.optim.lr_scheduler.CosineAnnealingWarmRestarts(opt, 2),
    "linear": lambda opt, n: torch.optim.lr_scheduler.LinearLR(opt, 0.1, total_iters=3),
    "polynomial": lambda opt, n: torch.optim.lr_scheduler.PolynomialLR(opt, n, 2.0),
    "lambda": lambda opt, n: torch.optim.lr_scheduler.LambdaLR(opt, lambda t: 1 / (1 + t)),
    "multiplicative": lambda opt, n: torch.optim.lr_scheduler.MultiplicativeLR(
        opt, lambda t: 0.9
    ),
    "one cycle": lambda opt, n: torch.optim.lr_scheduler.OneCycleLR(
        opt, 0.2, total_steps=n + 1, base_momentum=0.5, max_momentum=0.9
    ),
    "cyclic": lambda opt, n: torch.optim.lr_scheduler.CyclicLR(
        opt, 0.01, 0.2, step_size_up=2, base_momentum=0.3, max_momentum=0.8
    ),
    "sequential": lambda opt, n: torch.optim.lr_scheduler.SequentialLR(
        opt,
        [
            torch.optim.lr_scheduler.ConstantLR(opt, 0.2, total_iters=1),
            torch.optim.lr_scheduler.ExponentialLR(opt, 0.7),
        ],
        [2],
    ),
    "plateau": lambda opt, n: torch.optim.lr_scheduler.ReduceLROnPlateau(opt, patience=0),
}


# hyper-parameters that the user changes during training
CHANGES = dict(
    lr=[0.0, 0.03, 0.2], momentum=[0.0, 0.4, 0.8], weight_decay=[0.0, 0.02, 0.4]
)


@st.composite
def cases(draw, max_steps):
    case = draw(
        trainings(min_steps=2, max_steps=max_steps, overrides=dict(lr_cov=0.0))
    )
    case["batches"] = case["batches"][:20]
    names = sorted(SCHEDULERS)
    case["scheduler"] = draw(st.sampled_from(names))
    case["grad"] = draw(
        st.sampled_from([None, None, None, "clip norm", "clip value", "noise", "scale", "small scale"])
    )
    case["hooks"] = draw(st.booleans())
    case["opt_zero_grad"] = draw(st.booleans())
    change = st.one_of(
        st.none(),
        st.tuples(
            st.integers(0, 1),
            st.sampled_from(sorted(CHANGES)),
            st.integers(0, 2),
        ),
    )
    case["changes"] = [draw(change) for _ in case["batches"]]
    groups = []
    if draw(st.booleans()):
        values = st.fixed_dictionaries(
            {},
            optional=dict(
                lr=st.sampled_from([0.0, 0.01, 0.05, 0.2]),
                momentum=st.sampled_from([0.0, 0.3, 0.9]),
                weight_decay=st.sampled_from([0.0, 0.05, 0.5]),
            ),
        )
        groups = [draw(values) for _ in range(2)]
        case["where"] = [draw(st.integers(0, 1)) for _ in range(12)]
    case["group_hp"] = groups
    return case


def strategy(tier):
    return cases(5 if tier == "quick" else 16)


def run(case):
    hp = case["hp"]
    layers = supported_layers(Run(case).model)
    groups = None
    if case["group_hp"]:
        groups = [dict(names=[], hp=h) for h in case["group_hp"]]
        for i, (name, layer) in enumerate(layers.items()):
            where = groups[case["where"][i % len(case["where"])]]
            where["names"] += [f"{name}.{n}" for n, _ in layer.named_parameters()]
        groups = [g for g in groups if g["names"]]
    if case["scheduler"] in ("one cycle", "cyclic"):
        # they cycle the momentum, which must exist in every group
        hp = case["hp"] = {**hp, "momentum": 0.5}
        for g in groups or []:
            g["hp"].pop("momentum", None)
        hp.pop("omit", None)
    r = Run(case, groups=groups)
    twin = Run(case).model
    mine, theirs = dict(r.model.named_parameters()), dict(twin.named_parameters())
    args = dict(lr=hp["lr"], momentum=hp["momentum"], weight_decay=hp["weight_decay"])
    trained = groups or [
        dict(
            names=[f"{n}.{k}" for n, m in layers.items() for k, _ in m.named_parameters()],
            hp={},
        )
    ]
    sgd = torch.optim.SGD(
        [{"params": [theirs[n] for n in g["names"]], **g["hp"]} for g in trained], **args
    )
    n_steps = len(case["batches"])
    build = SCHEDULERS[case["scheduler"]]
    schedulers = [build(o, n_steps) for o in (r.opt, sgd)] if build else []
    calls = []
    if case["hooks"]:
        r.opt.register_step_pre_hook(lambda *a: calls.append("pre"))
        r.opt.register_step_post_hook(lambda *a: calls.append("post"))
    eps = EPS[r.dtype]
    names = [n for g in trained for n in g["names"]]
    differ = set()
    for k, batch in enumerate(case["batches"]):
        if case["changes"][k]:
            where, key, i = case["changes"][k]
            if key != "momentum" or case["scheduler"] not in ("one cycle", "cyclic"):
                for o in (r.opt, sgd):
                    o.param_groups[where % len(trained)][key] = CHANGES[key][i]
        x, y = r.data(batch)
        if case["opt_zero_grad"]:
            r.opt.zero_grad(set_to_none=case["to_none"])
        else:
            r.zero_grad()
        scale = {"scale": 8.0, "small scale": 0.25}.get(case["grad"], 1.0) if k % 2 else 1.0
        r.opt.set_current_grad_scale(scale)
        loss = r.loss(x, y) * scale
        loss.backward()
        params = [mine[n] for n in names]
        if case["grad"] == "clip norm":
            torch.nn.utils.clip_grad_norm_(params, 0.1)
        elif case["grad"] == "clip value":
            torch.nn.utils.clip_grad_value_(params, 0.05)
        elif case["grad"] == "noise":
            for p in params:
                p.grad.add_(p.data, alpha=0.1)
        for n in names:
            theirs[n].grad = mine[n].grad.detach().clone() / scale
            # continue from the same point: rounding errors do not build up
            theirs[n].data.copy_(mine[n].data)
            if "momentum_buffer" in r.opt.state.get(mine[n], {}) and "momentum_buffer" in (
                sgd.state.get(theirs[n], {})
            ):
                sgd.state[theirs[n]]["momentum_buffer"].copy_(
                    r.opt.state[mine[n]]["momentum_buffer"]
                )
        if case["opt_zero_grad"]:
            kept = {n: p.grad for n, p in mine.items() if n not in names}
        r.opt.step()
        sgd.step()
        if case["opt_zero_grad"]:
            for n, grad in kept.items():
                require(mine[n].grad is grad, f"step {k}: gradient of {n} was replaced")
        for group, other in zip(r.opt.param_groups, sgd.param_groups):
            for key in ("lr", "momentum", "weight_decay"):
                require(
                    group[key] == other[key],
                    f"step {k}: {key} is {group[key]}, SGD has {other[key]}",
                )
            differ.add((group["lr"], group["momentum"], group["weight_decay"]))
        for g, group in zip(trained, sgd.param_groups):
            for n in g["names"]:
                grad, p = theirs[n].grad, theirs[n].data
                big = maxabs(grad) + group["weight_decay"] * maxabs(p)
                if group["momentum"] != 0.0:
                    ours = r.opt.state[mine[n]]["momentum_buffer"]
                    ref = sgd.state[theirs[n]]["momentum_buffer"]
                    big += maxabs(ref)
                    close(f"step {k}: momentum of {n}", ours, ref.to(F64), 64 * eps, big)
                close(f"step {k}: {n}", mine[n].data, p.to(F64), 64 * eps,
                      maxabs(p) + group["lr"] * big)
        for s in schedulers:
            if case["scheduler"] == "plateau":
                s.step(1.0)
            else:
                s.step()
        if not r.healthy():
            return dict(labels=["diverged"], nontrivial=False)
    for mats in (r.opt.Ks, r.opt.Cs):
        for name, M in mats.items():
            d = M.to_dense()
            require(
                torch.equal(d, torch.eye(len(d), dtype=d.dtype)),
                f"a factor of {name} changed although its learning rate is zero",
            )
    if case["hooks"]:
        require(calls == ["pre", "post"] * n_steps, f"step hooks were called: {calls}")
    labels = hp_labels(case) + [f"scheduler:{case['scheduler']}", f"grad:{case['grad']}"]
    labels += ["groups"] * bool(groups and len(groups) > 1)
    return dict(labels=labels, nontrivial=bool(build) or len(differ) > 1)
