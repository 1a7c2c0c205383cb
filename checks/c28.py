"""C28: features can be combined in any history."""

import copy

import torch
from hypothesis import strategies as st

from checks.c10 import evaluate
from checks.c15 import clone, save, with_gradients
from harness.common import DTYPES, require
from harness.models import build_model, supported_layers
from harness.ranks import run_ranks
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_observed,
    float64_ok,
    healthy,
    hp_labels,
    hypers,
    identical_states,
    trainings,
)

ID = "C28"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, a partition of (some of) its layers into 1-4 groups with own"
    " hyper-parameters, 1-4 ranks, and a history of up to 7 steps with 1-3 micro-batches"
    " per rank, gradient scales that change from step to step and are announced early,"
    " late or like a gradient scaler does, skipped steps, learning rate schedulers, and"
    " at every place of a step any number of evaluation passes, trained copies,"
    " changed hyper-parameters, restored checkpoints (fresh, used) or copies of model and"
    " optimizer that continue. Every rank must agree bit-wise, skipped steps are no-ops,"
    " and every step must equal the reference on the joint batch. Non-trivial: at least"
    " three of these features were used in a history with a regular step after the first."
)
ASSUMPTIONS = [
    "Ranks are threads with torch's in-process threaded process group.",
    "Combinations that are known findings (accumulation with summed losses or IKFAC) are"
    " left out; hyper-parameters that describe the loss are the same in all groups.",
    "All ranks skip a step together.",
]
CHANGES = {
    "lr": [0.0, 0.02, 0.2],
    "momentum": [0.2, 0.7],
    "weight_decay": [0.0, 0.1],
    "damping": [0.0, 0.2],
    "lr_cov": [0.02, 0.2],
    "normalize_lr_cov": [True, False],
    "T": [1, 2, 3],
    "kfac_approx": ["expand", "reduce"],
    "alpha1": [0.2, 0.6],
}
WHEN = {
    "momentum": lambda hp: hp["momentum"] != 0.0,
    "alpha1": lambda hp: hp["alpha1"] != 0.0,
}
EVALUATIONS = ["no_grad", "inference", "forward", "forward eval", "copy", "pickled copy"]
PLACES = ["before", "middle", "pending", "announced", "after"]


class Decay:
    """Learning rate factors of a scheduler (can be copied and saved)."""

    def __init__(self, rate):
        self.rate = rate

    def __call__(self, epoch):
        return 1.0 / (1.0 + self.rate * epoch)


@st.composite
def events(draw, place, num_groups):
    kinds = ["evaluate", "restore", "clone"] + ["change"] * 3 * (place == "before")
    kind = draw(st.sampled_from(kinds))
    if kind == "evaluate":
        return [kind, draw(st.sampled_from(EVALUATIONS)), draw(st.integers(1, 3)),
                draw(st.integers(0, 99))]  # fmt: skip
    if kind == "change":
        return [kind, draw(st.integers(0, num_groups - 1)),
                draw(st.sampled_from(sorted(CHANGES))), draw(st.integers(0, 2))]  # fmt: skip
    how = draw(st.sampled_from(["torch.save", "deepcopy"]))
    if kind == "restore":
        return [kind, how, draw(st.booleans()), draw(st.booleans())]
    return [kind, how, draw(st.booleans())]


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(max_steps=max_steps, min_steps=2, max_batch=3))
    case["ranks"] = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
    averaged = case["hp"]["loss_average"] is not None and not case["hp"]["kfac_like"]
    model = build_model(case["model"])
    num = draw(st.integers(1, 4))
    groups = [dict(names=[], hp={}) for _ in range(num)]
    keys = sorted(set(case["hp"]) - {"omit", "loss_average", "kfac_like"})
    for group in groups:
        other = draw(hypers())
        changed = draw(st.lists(st.sampled_from(keys), max_size=4, unique=True))
        group["hp"] = {k: other[k] for k in changed}
    layers = list(supported_layers(model).items())
    for i, (name, mod) in enumerate(layers):
        where = draw(st.integers(0, num))
        if where == num:  # not trained
            if i + 1 < len(layers) or any(g["names"] for g in groups):
                continue
            where = 0
        names = [n for n, _ in mod.named_parameters()]
        if len(names) == 2 and draw(st.integers(0, 5)) == 0:
            names = names[:1]
        groups[where]["names"] += [f"{name}.{n}" for n in names]
    case["groups"] = groups = [g for g in groups if g["names"]]
    if not float64_ok(case):
        case["dtype"] = "float32"
    case["init"] = draw(st.sampled_from([1.0, 8.0, 100.0]))
    case["scheduler"] = draw(st.booleans())
    scaled = draw(st.booleans())
    scales = st.sampled_from([1.0, 8.0, 0.125, 100.0, 4096.0] if scaled else [1.0])
    case["steps"] = []
    for _ in case["batches"]:
        step = dict(
            micro=draw(st.sampled_from([1, 1, 2, 3])) if averaged else 1,
            scale=draw(scales),
            announce=draw(st.sampled_from(["early", "late", "scaler"])),
            skip=draw(st.integers(0, 5)) == 0,
        )
        for place in PLACES:
            if draw(st.integers(0, 3)) == 0:
                step[place] = draw(st.lists(events(place, len(groups)), max_size=2))
        case["steps"].append(step)
    return case


def strategy(tier):
    return cases(5 if tier == "quick" else 12)


class Rank:
    """One process with model, optimizer and scheduler."""

    def __init__(self, case, rank):
        self.case, self.rank = case, rank
        self.run = Run(case, groups=case["groups"], init_grad_scale=case["init"])
        self.scheduler = self.schedule(self.run.opt)

    def schedule(self, opt):
        if not self.case["scheduler"]:
            return None
        decays = [Decay(0.3 * (i + 1)) for i in range(len(self.case["groups"]))]
        return torch.optim.lr_scheduler.LambdaLR(opt, decays)

    def event(self, kind, *args):
        run = self.run
        if kind == "evaluate":
            which, n, seed = args
            evaluate(run, which, [n, seed])
        elif kind == "change":
            group, key, value = args
            hp = run.opt.param_groups[group]
            if allowed(self.case, hp, key):
                hp[key] = CHANGES[key][value % len(CHANGES[key])]
        elif kind == "restore":
            how, model_first, used = args
            state = save(run, how)
            scheduler = copy.deepcopy(self.scheduler and self.scheduler.state_dict())
            fresh = dict(self.case, model=dict(self.case["model"], seed=77))
            new = Run(fresh, groups=self.case["groups"], init_grad_scale=2.0)
            self.scheduler = self.schedule(new.opt)
            if used:
                new.backward([1, 5])
                new.opt.step()
                if self.scheduler:
                    self.scheduler.step()
            new.zero_grad()
            if model_first:
                new.model.load_state_dict(state["model"])
            new.opt.load_state_dict(state["opt"])
            if not model_first:
                new.model.load_state_dict(state["model"])
            if self.scheduler:
                self.scheduler.load_state_dict(scheduler)
            self.run = with_gradients(new, run)
        elif kind == "clone":
            how, model_first = args
            new = clone(run, how, model_first)
            if self.scheduler:
                scheduler = copy.deepcopy(self.scheduler.state_dict())
                rates = [g["lr"] for g in new.opt.param_groups]
                self.scheduler = self.schedule(new.opt)
                self.scheduler.load_state_dict(scheduler)
                for group, lr in zip(new.opt.param_groups, rates):
                    group["lr"] = lr
            self.run = with_gradients(new, run)

    def step(self, k):
        """Training step; returns the state before, after, and the learning rates."""
        case, step = self.case, self.case["steps"][k]
        n, seed = case["batches"][k]
        micro, scale, skip = step["micro"], step["scale"], step["skip"]

        def at(place):
            for event in step.get(place, []):
                self.event(*event)

        at("before")
        before = self.run.state()
        x, y = self.run.data([n * micro * case["ranks"], seed])
        if step["announce"] == "early":
            self.run.opt.set_current_grad_scale(scale)
        self.run.zero_grad()
        for i in range(micro):
            part = self.rank * micro + i
            rows = slice(part * n, (part + 1) * n)
            factor = scale / (micro if case["hp"]["loss_average"] else 1)
            (self.run.loss(x[rows], y[rows]) * factor).backward()
            if i == 0 and micro > 1:
                at("middle")
        at("pending")
        if step["announce"] == "late" and not skip:
            self.run.opt.set_current_grad_scale(scale)
        at("announced")
        opt = self.run.opt
        rates = [float(group["lr"]) for group in opt.param_groups]
        if skip or step["announce"] == "scaler":
            opt.grad_scale = torch.tensor(scale)
            opt.found_inf = torch.tensor(float(skip))
        opt.step()
        for name in ("grad_scale", "found_inf"):
            if hasattr(opt, name):
                delattr(opt, name)
        at("after")
        if self.scheduler:
            self.scheduler.step()
        return before, self.run.state(), rates


def allowed(case, hp, key):
    if case["scheduler"] and key == "lr":
        return False
    return key not in WHEN or WHEN[key](hp)


def run(case):
    ranks, count = case["ranks"], len(case["groups"])

    def rank_main(rank):
        me, out = Rank(case, rank), []
        for k in range(len(case["batches"])):
            out.append(me.step(k))
            if not healthy(out[-1][1]):
                break
        return out

    # a single process has no process group
    results = run_ranks(ranks, rank_main) if ranks > 1 else [rank_main(0)]
    ref = RefRun(case, groups=case["groups"])
    base = [float(g["lr"]) for g in ref.opt.groups]
    tol = TOL[DTYPES[case["dtype"]]]
    used, done = set(), 0
    for k, (before, state, rates) in enumerate(results[0]):
        step = case["steps"][k]
        what = f"step {k} on {ranks} ranks"
        for rank in range(1, ranks):
            if k < len(results[rank]):
                identical_states(f"{what}: rank {rank} vs. rank 0", results[rank][k][1], state)
        if not healthy(state):
            break
        for kind, *args in step.get("before", []):
            if kind == "change":
                hp = ref.opt.groups[args[0]]
                if allowed(case, hp, args[1]):
                    hp[args[1]] = CHANGES[args[1]][args[2] % len(CHANGES[args[1]])]
        for i in range(count):
            if case["scheduler"]:
                ref.opt.groups[i]["lr"] = base[i] * Decay(0.3 * (i + 1))(k)
            expected = float(ref.opt.groups[i]["lr"])
            require(
                abs(rates[i] - expected) <= 1e-12 * max(1.0, expected),
                f"{what}: learning rate {rates[i]} of group {i} instead of {expected}",
            )
            ref.opt.groups[i]["lr"] = rates[i]
        if step["skip"]:
            identical_states(f"{what} was skipped", state, before)
            ref.opt.step(skip=True)
            used.add("skip")
        else:
            n, seed = case["batches"][k]
            ref.step([n * step["micro"] * ranks, seed])
            compare_observed(what, state, ref, tol)
            ref.adopt_state(state)
            done += 1
        used |= {event[0] for place in PLACES for event in step.get(place, [])}
        used |= {"micro"} if step["micro"] > 1 else set()
        used |= {"scale"} if step["scale"] != 1.0 else set()
    used |= {"ranks"} if ranks > 1 else set()
    used |= {"groups"} if count > 1 else set()
    used |= {"scheduler"} if case["scheduler"] else set()
    labels = hp_labels(case) + [f"ranks:{ranks}"] + [f"feature:{u}" for u in sorted(used)]
    labels.append(f"features:{len(used)}")
    return dict(labels=labels, nontrivial=len(used) >= 3 and done > 1)
