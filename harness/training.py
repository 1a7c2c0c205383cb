"""Training of generated models with the optimizer under test and the reference."""

import copy
import math
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from harness import structs
from harness.common import DTYPES, Violation, close, error, maxabs, require
from harness.models import (
    F64,
    build_model,
    feature_dim,
    loss_value,
    make_data,
    model_specs,
    supported_layers,
)
from harness.refsingd import DEFAULTS, Reference

LIMIT = 1e3  # trajectories beyond this magnitude are not followed


def optimizer_class():
    from singd.optim.optimizer import SINGD

    return SINGD


# --------------------------------------------------------------------------------------
# hyper-parameters

def number(values, largest):
    """One of the values (mostly) or any other number, sometimes an integer."""
    return st.one_of(
        st.sampled_from(values),
        st.sampled_from(values),
        st.sampled_from(values),
        st.integers(1, 1000).map(lambda k: float(f"{largest * k / 1000:.3g}")),
        st.just(0),
    )


lr_covs = st.one_of(
    number([1e-2, 0.05, 0.1, 0.3, 0.5, 0.0], 0.5),
    st.tuples(st.just("ramp"), st.sampled_from([0.1, 0.4]), st.integers(1, 5)),
    st.tuples(
        st.just("switch"),
        st.sampled_from([0.05, 0.3]),
        st.sampled_from([0.0, 0.1, 0.5]),
        st.integers(1, 4),
    ),
)
structures = st.sampled_from(structs.OPTIMIZER_STRUCTURES)


@st.composite
def hypers(draw, overrides=None):
    hp = dict(
        lr=draw(number([0.001, 0.01, 0.1, 0.3], 0.5)),
        momentum=draw(number([0.0, 0.5, 0.9], 0.99)),
        damping=draw(number([0.0, 1e-3, 0.1, 0.7], 2.0)),
        alpha1=draw(number([0.0, 0.3, 0.5, 0.9], 0.99)),
        weight_decay=draw(number([0.0, 0.0, 0.01, 0.3], 1.0)),
        T=draw(st.sampled_from([1, 1, 1, 2, 2, 3, 3, 4, 5, 7])),
        loss_average=draw(st.sampled_from(["batch", "batch", "batch+sequence", None])),
        lr_cov=draw(lr_covs),
        structures=[draw(structures), draw(structures)],
        kfac_approx=draw(st.sampled_from(["expand", "reduce"])),
        kfac_like=draw(st.sampled_from([False, False, True])),
        normalize_lr_cov=draw(st.booleans()),
    )
    if isinstance(hp["lr_cov"], tuple):
        hp["lr_cov"] = list(hp["lr_cov"])
    if draw(st.integers(0, 7)) == 0:
        keys = st.lists(st.sampled_from(sorted(hp)), min_size=1, unique=True)
        hp["omit"] = sorted(set(draw(keys)) - set(overrides or {}))
        for key in hp["omit"]:
            value = DEFAULTS[key]
            hp[key] = list(value) if isinstance(value, tuple) else value
    hp.update(overrides or {})
    return hp


class Schedule:
    """Scheduled `lr_cov` (can be pickled)."""

    def __init__(self, value):
        self.value = list(value)

    def __call__(self, step):
        value = self.value
        if value[0] == "ramp":
            return value[1] * min(1.0, (step + 1) / value[2])
        if value[0] == "switch":
            return value[1] if step < value[3] else value[2]
        raise ValueError(value)


def schedule(value):
    """`lr_cov` from its JSON description."""
    return Schedule(value) if isinstance(value, (list, tuple)) else value


def decode(hp):
    """Keyword arguments from the JSON description of hyper-parameters."""
    out = dict(hp)
    if "lr_cov" in out:
        out["lr_cov"] = schedule(out["lr_cov"])
    if "structures" in out:
        out["structures"] = tuple(out["structures"])
    if "preconditioner_dtype" in out:
        out["preconditioner_dtype"] = tuple(
            DTYPES[d] for d in out["preconditioner_dtype"]
        )
    for key in out.pop("omit", []):
        del out[key]  # leave it to the default value
    return out


NUMBERS = {
    "numpy": np.float64,
    "tensor": lambda value: torch.tensor(value, dtype=F64),
}


class Typed:
    """Schedule whose values are objects that exist only once."""

    def __init__(self, function, convert):
        self.function, self.convert, self.values = function, convert, {}

    def __call__(self, step):
        value = self.function(step)
        return self.values.setdefault(value, self.convert(value))


def typed(hp, numbers):
    """Replace Python numbers among the hyper-parameters with other types of numbers."""
    if not numbers:
        return hp
    convert, out = NUMBERS[numbers], dict(hp)
    for key in ("lr", "lr_cov", "momentum", "damping", "weight_decay", "alpha1"):
        if isinstance(out.get(key), (int, float)):
            out[key] = convert(out[key])
        elif key in out:
            out[key] = Typed(out[key], convert)
    return out


def all_hypers(case):
    hps = [case["hp"]]
    for group in case.get("groups") or []:
        hps.append({**case["hp"], **group["hp"]})
    return hps


def float64_ok(case):
    return all(
        structs.supports_float64(s) for hp in all_hypers(case) for s in hp["structures"]
    )


@st.composite
def batches(draw, min_steps=1, max_steps=6, max_batch=5, same_size=False):
    k = draw(st.integers(min_steps, max_steps))
    size = st.integers(1, max_batch)
    special = draw(st.integers(0, 39))
    if special == 39 and max_steps > min_steps:  # long
        k = draw(st.integers(max_steps, 5 * max_steps))
        size = st.integers(1, min(2, max_batch))
    elif special >= 37:  # large batches
        size = st.sampled_from([7, 16, 33, 65, 130, 270, 520])
    fixed = draw(size)
    n = st.just(fixed) if same_size else st.one_of(st.just(fixed), size)
    return [[draw(n), draw(st.integers(0, 9999))] for _ in range(k)]


@st.composite
def trainings(
    draw, models=None, overrides=None, max_steps=6, min_steps=1, losses=None, **kwargs
):
    hp = draw(hypers(overrides))
    case = dict(
        model=draw(models if models is not None else model_specs()),
        hp=hp,
        loss=draw(st.sampled_from(losses or ["mse", "mse", "ce"])),
        xscale=draw(st.sampled_from([1.0, 1.0, 0.3])),
        batches=draw(batches(min_steps, max_steps, **kwargs)),
    )
    case["dtype"] = draw(st.sampled_from(["float64", "float32"]))
    if not float64_ok(case):
        case["dtype"] = "float32"
    # the optimizer also trains models (or parts of them) in evaluation mode
    case["eval"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    # memory layout of the data (and the weights)
    case["layout"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    # what `zero_grad` does
    case["to_none"] = draw(st.booleans())
    return case


# --------------------------------------------------------------------------------------
# the optimizer under test


def make_optimizer(
    model, hp, groups=None, cls=None, form="dicts", names=None, numbers=None, **kwargs
):
    """Construct the optimizer from JSON hyper-parameters, without warnings.

    Groups are described by `names` (of parameters) and `hp` (overrides).
    Alternatively, `names` are passed as list or generator of parameters.
    """
    cls = cls or optimizer_class()
    named = dict(model.named_parameters())
    params = None
    if names is not None:
        params = [named[n] for n in names]
        if form == "generator":
            params = (p for p in params)
    elif groups is not None:
        params = [
            {
                "params": [named[n] for n in group["names"]],
                **typed(decode(group["hp"]), numbers),
            }
            for group in groups
        ]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(model, params, **{**typed(decode(hp), numbers), **kwargs})


def training_mode(model, which):
    """0: training mode, 1: evaluation mode, 2: every other module in evaluation mode."""
    for i, mod in enumerate(model.modules()):
        mod.training = which == 0 or (which == 2 and i % 2 == 0)


def relayout(t):
    """The same values with another memory layout."""
    if t.dim() == 4:
        return t.contiguous(memory_format=torch.channels_last)
    if t.dim() > 1:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    return t


class Run:
    """Real optimizer with its model."""

    def __init__(self, case, dtype=None, model=None, groups=None, cls=None, **kwargs):
        self.case = case
        self.dtype = dtype or DTYPES[case["dtype"]]
        self.model = model or build_model(case["model"], self.dtype)
        self.groups = groups
        training_mode(self.model, case.get("eval", 0))
        if case.get("layout", 0) == 2:
            for p in self.model.parameters():
                p.data = relayout(p.data)
        self.fdim = feature_dim(case["model"])
        self.loss_average = case["hp"]["loss_average"]
        kwargs.setdefault("numbers", case.get("numbers"))
        self.opt = make_optimizer(self.model, case["hp"], groups, cls, **kwargs)

    def data(self, batch, dtype=None):
        n, seed = batch
        x, y = make_data(
            self.case["model"], n, seed, dtype or self.dtype, self.case["xscale"]
        )
        return (relayout(x) if self.case.get("layout", 0) else x), y

    def zero_grad(self):
        self.model.zero_grad(set_to_none=self.case.get("to_none", True))

    def loss(self, x, y, average="default"):
        average = self.loss_average if average == "default" else average
        return loss_value(self.model(x), y, self.case["loss"], self.fdim, average)

    def backward(self, batch, scale=1.0):
        x, y = self.data(batch)
        self.zero_grad()
        (self.loss(x, y) * scale).backward()

    def step(self, batch):
        self.backward(batch)
        self.opt.step()

    def state(self):
        return observe(self.model, self.opt)

    def healthy(self):
        return healthy(self.state())


def observe(model, opt):
    """Everything that determines the future of a training run (dense copies)."""
    named = dict(model.named_parameters())
    out = {f"param {n}": p.detach().clone() for n, p in named.items()}
    for n, p in named.items():
        buf = opt.state.get(p, {}).get("momentum_buffer", None)
        if buf is not None:
            out[f"momentum {n}"] = buf.detach().clone()
    for what, mats in [("K", opt.Ks), ("C", opt.Cs), ("m_K", opt.m_Ks), ("m_C", opt.m_Cs)]:
        for name, mat in mats.items():
            out[f"{what} {name}"] = mat.to_dense().detach().clone()
    return out


def healthy(state, limit=LIMIT):
    return all(bool((t.abs() < limit).all()) for t in state.values())


def magnitudes(state, grads, lr):
    """Magnitude of the terms that are summed up in an optimizer step, per state entry."""
    out = {}
    for key, value in state.items():
        what, name = key.split(" ", 1)
        if what == "param":
            layer = name.rpartition(".")[0]
            big = 1.0
            for f in ("K", "C"):  # the natural gradient is C C^T G K K^T
                if f"{f} {layer}" in state:
                    M = state[f"{f} {layer}"].to(F64).abs()
                    big *= (M @ M.T).sum(1).max().item()
            big *= max(grads.get(name, 0.0), 1e-2 * max(grads.values(), default=0.0))
            out[f"momentum {name}"] = max(1e-2, big, maxabs(state.get(
                f"momentum {name}", value[:0])))
            out[key] = max(maxabs(value), lr * big, 1e-8)
        elif what in ("m_K", "m_C"):
            out[key] = max(1.0, maxabs(value))
        elif what in ("K", "C"):
            m = maxabs(state.get(f"m_{key}", value)) + 1.0
            out[key] = max(maxabs(value), 0.1 * m * value.abs().sum(1).max().item())
    return out


def compare_runs(what, actual, expected, momentum_factor=1.0, tol=None):
    """States of two real runs after one step from the same state.

    Momentum buffers of the second run are multiplied with `momentum_factor` first.
    """
    tol = tol or TOL[expected.dtype]
    a, e = actual.state(), expected.state()
    require(sorted(a) == sorted(e), f"{what}: states {sorted(a)} and {sorted(e)}")
    grads = {
        n: maxabs(p.grad)
        for n, p in actual.model.named_parameters()
        if p.grad is not None
    }
    scale = magnitudes(a, grads, max(g["lr"] for g in actual.opt.param_groups))
    for key in e:
        value = e[key] * momentum_factor if key.startswith("momentum") else e[key]
        close(f"{what}: {key}", a[key], value, tol, scale[key])


def same(a, b):
    """Equal values in equal places (NaN equals NaN: runs may diverge, but identically)."""
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    return bool(((a == b) | ((a != a) & (b != b))).all())


def identical_states(what, actual, expected):
    require(
        sorted(actual) == sorted(expected),
        f"{what}: state consists of {sorted(actual)}, expected {sorted(expected)}",
    )
    for key in expected:
        a, e = actual[key], expected[key]
        if not same(a, e):
            raise Violation(f"{what}: {key} differs by {error(a, e):.4g}")


# --------------------------------------------------------------------------------------
# the reference


def reference_groups(model, case_hp, groups):
    if groups is None:
        names = [
            f"{layer}.{short}".lstrip(".")
            for layer, mod in supported_layers(model).items()
            for short, p in mod.named_parameters()
            if p.requires_grad
        ]
        groups = [dict(names=names, hp={})]
    return [
        {**decode({**case_hp, **g["hp"], "omit": []}), "names": list(g["names"])}
        for g in groups
    ]


class RefRun:
    """Reference optimizer with its float64 model."""

    def __init__(self, case, groups=None, specs=None, model=None):
        self.case = case
        self.model = model or build_model(case["model"], F64)
        self.fdim = feature_dim(case["model"])
        self.loss_average = case["hp"]["loss_average"]
        self.opt = Reference(
            self.model, reference_groups(self.model, case["hp"], groups), specs
        )

    def backward(self, batch, average="default"):
        n, seed = batch
        x, y = make_data(self.case["model"], n, seed, F64, self.case["xscale"])
        self.backward_data(x, y, average)

    def backward_data(self, x, y, average="default"):
        average = self.loss_average if average == "default" else average
        for p in self.model.parameters():
            p.grad = None
        loss_value(self.model(x), y, self.case["loss"], self.fdim, average).backward()

    def step(self, batch, skip=False):
        self.backward(batch)
        self.opt.step(skip)

    def adopt(self, model, opt):
        """Continue from the state of a real run (rounding errors do not build up)."""
        self.adopt_state(observe(model, opt))

    def adopt_state(self, state):
        ref = self.opt
        for key, value in state.items():
            what, name = key.split(" ", 1)
            value = value.to(F64)
            if what == "param":
                ref.params[name].data.copy_(value)
            elif what == "momentum":
                if name in ref.buffers:
                    ref.buffers[name] = value
            elif what == "K":
                ref.states[name].K = value
            elif what == "C":
                ref.states[name].C = value
            elif what == "m_K":
                ref.states[name].mK = value
            elif what == "m_C":
                ref.states[name].mC = value


def sync(source, target, momentum_factor=1.0):
    """Let one real run continue from the state of another one."""
    params = dict(source.model.named_parameters())
    for name, p in target.model.named_parameters():
        p.data.copy_(params[name].data)
        buf = source.opt.state.get(params[name], {}).get("momentum_buffer", None)
        if buf is not None:
            target.opt.state[p]["momentum_buffer"].copy_(buf * momentum_factor)
    for name in source.opt.Ks:
        for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
            src, dst = getattr(source.opt, what), getattr(target.opt, what)
            if name in src:
                dst[name] = copy.deepcopy(src[name])


TOL = {torch.float64: 1e-10, torch.float32: 5e-4}


def compare_reference(what, model, opt, ref, tol):
    """State after a step against the reference (which made the same step)."""
    compare_observed(what, observe(model, opt), ref, tol)


def compare_observed(what, state, ref, tol):
    r = ref.opt
    expected = {f"param {name}" for name in r.params}
    for name in r.states:
        expected |= {f"K {name}", f"C {name}"}
        if r.group(name)["alpha1"] != 0.0:
            expected |= {f"m_K {name}", f"m_C {name}"}
    found = {k for k in state if not k.startswith("momentum")}
    if any(r.group(name)["alpha1"] == 0.0 for name in r.states):
        # momenta of the factors have no meaning without Riemannian momentum
        found = {k for k in found if not k.startswith("m_") or k in expected}
    require(found == expected, f"{what}: state is {sorted(found)}, not {sorted(expected)}")
    for name in r.params:
        bscale, pscale = getattr(r, "param_scales", {}).get(name, (None, None))
        value = r.params[name].data
        if bscale is None:  # not trained (or the step was skipped)
            pscale = maxabs(value)
        close(f"{what}: parameter {name}", state[f"param {name}"], value, tol, pscale)
        group = r.group_of.get(name)
        if group is not None and r.groups[group]["momentum"] != 0.0 and bscale:
            buf = state.get(f"momentum {name}", None)
            require(buf is not None, f"{what}: no momentum buffer for {name}")
            close(f"{what}: momentum buffer of {name}", buf, r.buffers[name], tol, bscale)
    for name, s in r.states.items():
        scales = dict(K=maxabs(s.K), C=maxabs(s.C), mK=maxabs(s.mK) + 1,
                      mC=maxabs(s.mC) + 1)
        scales.update(s.scales)
        close(f"{what}: K of {name}", state[f"K {name}"], s.K, tol, scales["K"])
        close(f"{what}: C of {name}", state[f"C {name}"], s.C, tol, scales["C"])
        if r.group(name)["alpha1"] != 0.0:
            close(f"{what}: m_K of {name}", state[f"m_K {name}"], s.mK, tol, scales["mK"])
            close(f"{what}: m_C of {name}", state[f"m_C {name}"], s.mC, tol, scales["mC"])


def hp_labels(case):
    hp = case["hp"]
    out = [
        f"K:{hp['structures'][0]}",
        f"C:{hp['structures'][1]}",
        f"dtype:{case['dtype']}",
        f"model:{case['model']['kind']}",
        f"approx:{hp['kfac_approx']}",
        f"loss_average:{hp['loss_average']}",
        f"T:{hp['T']}",
    ]
    if hp["kfac_like"]:
        out.append("kfac_like")
    if case.get("numbers"):
        out.append(f"numbers:{case['numbers']}")
    if hp["normalize_lr_cov"]:
        out.append("normalize_lr_cov")
    if isinstance(hp["lr_cov"], list):
        out.append("lr_cov:callable")
    if hp["alpha1"] and not hp["kfac_like"]:
        out.append("riemannian momentum")
    return out


class Mirror:
    """Feeds the reference with the layer inputs and gradients of a real run.

    Rounding errors of the forward and backward pass do not enter the comparison then.
    """

    def __init__(self, model, ref):
        self.model, self.ref, self.scale = model, ref, 1.0
        modules = dict(model.named_modules())
        for name in ref.opt.layers:
            modules[name].register_forward_hook(self._hook(name))

    def _hook(self, name):
        def forward(module, inputs, output):
            if not torch.is_grad_enabled() or not output.requires_grad:
                return
            x = inputs[0].detach().clone()

            def backward(grad):
                opt = self.ref.opt
                grad = grad.detach().to(F64) / self.scale
                opt._accumulate(name, opt.layers[name], x, grad, opt.steps)

            output.register_hook(backward)

        return forward

    def gradients(self):
        """Hand over the gradients (before the step of the run under test)."""
        for name, p in self.model.named_parameters():
            grad = p.grad
            self.ref.opt.params[name].grad = (
                None if grad is None else grad.detach().to(F64) / self.scale
            )

    def step(self, opt):
        """The step of the reference (after the step of the run under test)."""
        factors = {
            name: (opt.Ks[name].to_dense(), opt.Cs[name].to_dense())
            for name in self.ref.opt.layers
        }
        self.ref.opt.step(observed=factors)
