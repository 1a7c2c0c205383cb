"""C15: checkpoints resume training exactly at any point."""

import copy
import io
import warnings

import torch
from hypothesis import strategies as st

from harness.common import Violation, require
from harness.models import build_model, supported_layers
from harness.training import (
    Run,
    float64_ok,
    healthy,
    hp_labels,
    hypers,
    identical_states,
    same,
    trainings,
)

ID = "C15"
N = {"quick": 3200, "thorough": 24000}
RULE = (
    "A case is a model, hyper-parameters (for one or two groups), a history of 1-7 steps"
    " (regular, skipped, gradient-scaled, accumulated over 1-2 backward passes) and 1-3"
    " checkpoints (between steps, backward passes, backward and step, or after announcing the"
    " gradient scale), each saved by torch.save or"
    " deep copy and loaded into a new model and optimizer that were created with other"
    " hyper-parameters and possibly already used, or a copy (or pickle) of model and"
    " optimizer as a whole. Everything must be bit-wise equal to the"
    " uninterrupted run. Non-trivial: a checkpoint that is followed by a regular step."
)
ASSUMPTIONS = [
    "Gradients are not part of an optimizer's state: the harness restores them when the"
    " checkpoint lies between backward and step.",
    "States are serialised or deep-copied before loading, as torch's own optimizers alias"
    " the tensors of a loaded state.",
]


@st.composite
def cases(draw, max_steps):
    case = draw(trainings(max_steps=max_steps, max_batch=3))
    steps = len(case["batches"])
    case["other"] = draw(hypers())
    case["other"].pop("omit", None)
    case["kinds"] = [draw(st.sampled_from(["step", "step", "step", "skip"]))
                     for _ in range(steps)]
    scaled = draw(st.booleans())
    case["scales"] = [draw(st.sampled_from([1.0, 8.0, 100.0])) if scaled else 1.0
                      for _ in range(steps)]
    case["micro"] = [draw(st.sampled_from([1, 1, 2])) for _ in range(steps)]
    case["init"] = draw(st.sampled_from([1.0, 8.0]))
    point = st.tuples(
        st.integers(0, steps - 1),
        st.sampled_from(["before", "middle", "pending", "announced", "after"]),
        st.sampled_from(["torch.save", "deepcopy"]),
        st.sampled_from(["fresh", "fresh", "used", "pending", "clone"]),
        st.booleans(),  # order of loading model and optimizer
        st.booleans(),  # load twice
    ).map(list)
    case["checkpoints"] = draw(st.lists(point, min_size=1, max_size=3))
    case["early"] = draw(st.booleans())
    case["two"] = draw(st.integers(0, 2)) == 0
    if case["two"]:
        keys = sorted(set(case["hp"]) - {"omit", "loss_average"})
        parts = []
        for _ in range(2):
            own = draw(hypers())
            changed = draw(st.lists(st.sampled_from(keys), max_size=4, unique=True))
            parts.append({k: own[k] for k in changed})
        case["parts"] = parts
        case["foreign_groups"] = draw(st.booleans())
    parts = [{**case["hp"], **hp} for hp in case.get("parts", [])]
    if not all(float64_ok(dict(hp=hp)) for hp in [case["other"], *parts]):
        case["dtype"] = "float32"
    return case


def strategy(tier):
    return cases(7 if tier == "quick" else 20)


def split(model, parts):
    """Two groups: the first layer and the others."""
    layers = list(supported_layers(model).items())
    if len(layers) < 2:
        return None
    return [
        dict(names=[f"{n}.{k}" for n, m in part for k, _ in m.named_parameters()], hp=hp)
        for part, hp in [(layers[:1], parts[0]), (layers[1:], parts[1])]
    ]


def fingerprint(obj):
    """Bit-wise description of a (nested) state."""
    if isinstance(obj, torch.Tensor):
        return ("tensor", str(obj.dtype), tuple(obj.shape), obj.detach().clone())
    if hasattr(obj, "to_dense"):
        d = obj.to_dense()
        return (type(obj).__name__, str(d.dtype), tuple(d.shape), d.detach().clone())
    if isinstance(obj, dict):
        return {k: fingerprint(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [fingerprint(v) for v in obj]
    return repr(obj) if isinstance(obj, (int, float, str, bool, type(None))) else type(obj)


def equal(a, b):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and same(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    return a == b


def save(run, how):
    state = {"model": run.model.state_dict(), "opt": run.opt.state_dict()}
    if how == "deepcopy":
        return copy.deepcopy(state)
    f = io.BytesIO()
    torch.save(state, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


def clone(run, how, model_first):
    """A copy of model and optimizer as a whole."""
    pair = (run.model, run.opt) if model_first else (run.opt, run.model)
    if how == "deepcopy":
        pair = copy.deepcopy(pair)
    else:
        f = io.BytesIO()
        torch.save(pair, f)
        f.seek(0)
        pair = torch.load(f, weights_only=False)
    new = copy.copy(run)
    new.model, new.opt = pair if model_first else pair[::-1]
    identical_states("copy of model and optimizer", new.state(), run.state())
    require(new.opt.steps == run.opt.steps, "the number of steps was not copied")
    return new


def restore(case, run, how, target, model_first, twice):
    """A new run that continues from the checkpoint of `run`."""
    if target == "clone":
        new = clone(run, how, model_first)
        if twice:  # the copy is independent of the original
            mark = clone(run, how, model_first)
            new.backward([2, 5])
            new.opt.step()
            new = mark
        return with_gradients(new, run)
    state = save(run, how)
    fresh = dict(case, hp=case["other"], model=dict(case["model"], seed=77))
    groups = run.groups
    if groups and case["foreign_groups"]:  # created with other hyper-parameters
        groups = [dict(g, hp={}) for g in groups]
    new = Run(fresh, groups=groups, init_grad_scale=4.0)
    new.loss_average = run.loss_average
    if target != "fresh":
        new.backward([2, 5])
        if target == "used":
            new.opt.step()
            new.backward([3, 6])
            new.opt.step()
    new.zero_grad()
    mark = fingerprint(state["opt"])
    for _ in range(1 + twice):
        if model_first:
            new.model.load_state_dict(state["model"])
        new.opt.load_state_dict(state["opt"])
        if not model_first:
            new.model.load_state_dict(state["model"])
        if not equal(fingerprint(state["opt"]), mark):
            raise Violation("load_state_dict modified the passed state")
    if twice:  # a further optimizer from the same state
        third = Run(fresh, groups=groups)
        third.model.load_state_dict(state["model"])
        third.opt.load_state_dict(state["opt"])
        identical_states("state loaded a second time", third.state(), run.state())
    identical_states("loaded state", new.state(), run.state())
    require(new.opt.steps == run.opt.steps, "the number of steps was not restored")
    return with_gradients(new, run)


def with_gradients(new, run):
    grads = {n: p.grad for n, p in run.model.named_parameters()}
    for n, p in new.model.named_parameters():
        p.grad = None if grads[n] is None else grads[n].clone()
    return new


def backward(run, case, k, i):
    n, seed = case["batches"][k]
    x, y = run.data([n, seed + i])
    (run.loss(x, y) * case["scales"][k]).backward()


def announce(run, case, k):
    """Tell the gradient scale before the step (unless a scaler would do it)."""
    if case["scales"][k] != 1.0 and (case["kinds"][k] != "skip" or case["early"]):
        run.opt.set_current_grad_scale(case["scales"][k])


def finish(run, case, k):
    if case["kinds"][k] == "skip":
        run.opt.grad_scale = torch.tensor(case["scales"][k])
        run.opt.found_inf = torch.tensor(1.0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run.opt.step()
        del run.opt.grad_scale, run.opt.found_inf
    else:
        run.opt.step()


def run(case):
    groups = split(build_model(case["model"]), case["parts"]) if case["two"] else None
    plain = Run(case, groups=groups, init_grad_scale=case["init"])
    other = Run(case, groups=groups, init_grad_scale=case["init"])
    restored = regular = 0
    for k in range(len(case["batches"])):
        points = [p[1:] for p in case["checkpoints"] if p[0] == k]

        def at(place):
            nonlocal other, restored
            for where, *args in points:
                if where == place:
                    other = restore(case, other, *args)
                    restored += 1

        at("before")
        for r in (plain, other):
            r.zero_grad()
        for i in range(case["micro"][k]):
            for r in (plain, other):
                backward(r, case, k, i)
            if i == 0 and case["micro"][k] > 1:
                at("middle")  # of the accumulation
        at("pending")
        announce(plain, case, k)
        announce(other, case, k)
        at("announced")
        finish(plain, case, k)
        finish(other, case, k)
        at("after")
        expected = plain.state()
        identical_states(f"step {k} of the resumed run", other.state(), expected)
        regular += restored > 0 and case["kinds"][k] == "step"
        if not healthy(expected):
            break
    labels = hp_labels(case)
    labels += [f"checkpoint:{p[1]}:{p[2]}:{p[3]}" for p in case["checkpoints"]]
    labels += [f"kind:{k}" for k in case["kinds"]]
    return dict(labels=labels, nontrivial=regular > 0)
