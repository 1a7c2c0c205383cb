"""C19: invalid configurations are rejected, unsupported parameters are reported."""

import re
import warnings
from fractions import Fraction

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from harness.common import gen, randn, require
from harness.training import decode, hypers, optimizer_class

ID = "C19"
N = {"quick": 16000, "thorough": 80000}
RULE = (
    "A case is (config) a model, parameter groups and a full configuration with numbers of"
    " various types into which 0-2 defects are injected, or (tree) a random tree of"
    " supported, unsupported, frozen and container modules, of which the trained"
    " parameters and the warnings are compared with a specification before and after a"
    " step. Non-trivial: a defect, or an unsupported or frozen parameter."
)
ASSUMPTIONS = [
    "Layers of which only a part of the parameters is frozen are known findings.",
    "Sub-classes of supported layers add neither parameters nor sub-modules.",
]
FIELDS = ["lr", "lr_cov", "alpha1", "momentum", "weight_decay"]
TYPES = {
    "float": float,
    "int": int,
    "float64": np.float64,
    "float32": np.float32,
    "int64": np.int64,
    "tensor": torch.tensor,
    "fraction": Fraction,
}


class LinearSubclass(nn.Linear):
    pass


class ConvSubclass(nn.Conv2d):
    pass


class Own(nn.Module):
    """Container with parameters of its own."""

    def __init__(self, frozen):
        super().__init__()
        self.scale = nn.Parameter(torch.ones(2), requires_grad=not frozen)


SUPPORTED = {
    "linear": lambda out, bias: nn.Linear(2, out, bias),
    "linear subclass": lambda out, bias: LinearSubclass(2, out, bias),
    "conv": lambda out, bias: nn.Conv2d(2, out, 2, bias=bias),
    "conv subclass": lambda out, bias: ConvSubclass(2, out, (1, 2), bias=bias),
}
UNSUPPORTED = {
    "layernorm": lambda: nn.LayerNorm(2),
    "batchnorm": lambda: nn.BatchNorm2d(2),
    "conv1d": lambda: nn.Conv1d(2, 3, 1),
    "transposed": lambda: nn.ConvTranspose2d(2, 3, 1),
    "embedding": lambda: nn.Embedding(3, 2),
    "bilinear": lambda: nn.Bilinear(2, 2, 1),
    "prelu": lambda: nn.PReLU(),
    "relu": lambda: nn.ReLU(),
    "identity": lambda: nn.Identity(),
}

# --------------------------------------------------------------------------------------
# trees of modules

supported_nodes = st.tuples(
    st.sampled_from(sorted(SUPPORTED)), st.integers(1, 3), st.booleans(),
    st.sampled_from([False, False, False, True]),
).map(list)  # fmt: skip
unsupported_nodes = st.tuples(
    st.sampled_from(sorted(UNSUPPORTED)), st.sampled_from([False, False, True])
).map(list)


def nodes(depth):
    leaf = st.one_of(supported_nodes, supported_nodes, unsupported_nodes)
    if depth == 0:
        return leaf
    return st.one_of(
        leaf,
        st.tuples(
            st.sampled_from(["sequential", "list", "dict", "own", "own frozen"]),
            st.lists(nodes(depth - 1), max_size=4),
        ).map(list),
        st.tuples(
            st.just("deep"), st.lists(leaf, min_size=1, max_size=2), st.integers(2, 7)
        ).map(list),
    )


def build_tree(node, counter):
    kind = node[0]
    if kind in SUPPORTED:
        mod = SUPPORTED[kind](node[1], node[2])
        mod.requires_grad_(not node[3])
    elif kind in UNSUPPORTED:
        mod = UNSUPPORTED[kind]()
        mod.requires_grad_(not node[1])
    else:
        mod = {
            "sequential": nn.Sequential,
            "list": nn.Sequential,
            "dict": nn.ModuleDict,
            "own": lambda: Own(False),
            "own frozen": lambda: Own(True),
            "deep": nn.Sequential,
        }[kind]()
        for child in node[1]:
            counter[0] += 1
            mod.add_module(f"part{counter[0]}", build_tree(child, counter))
        if kind == "deep":
            for _ in range(node[2]):
                mod = nn.ModuleDict({"sub": mod})
    return mod


def forward(model, seed):
    """Use every supported layer once and every other parameter somehow."""
    g, total, seen = gen(seed), 0.0, set()
    for mod in model.modules():
        if isinstance(mod, nn.Linear):
            out = mod(randn(g, 3, 2, dtype=torch.float32))
            total = total + (out * randn(g, *out.shape, dtype=torch.float32)).sum()
        elif isinstance(mod, nn.Conv2d):
            out = mod(randn(g, 3, 2, 3, 4, dtype=torch.float32))
            total = total + (out * randn(g, *out.shape, dtype=torch.float32)).sum()
        else:
            for p in mod.parameters(recurse=False):
                if id(p) not in seen:
                    total = total + (p * randn(g, *p.shape, dtype=torch.float32)).sum()
                seen.add(id(p))
    return total


def check_tree(case):
    model = build_tree(case["tree"], [0])
    torch.manual_seed(0)
    supported, reported = [], []
    for name, mod in model.named_modules():
        own = [p for p in mod.parameters(recurse=False) if p.requires_grad]
        if isinstance(mod, (nn.Linear, nn.Conv2d)):
            supported += own
        elif own:
            reported.append(name)
    before = {n: p.detach().clone() for n, p in model.named_parameters()}
    labels = ["mode:tree"]
    if not supported:
        return dict(labels=labels + ["nothing to train"], nontrivial=False)
    kwargs = {} if case["warn"] is None else {"warn_unsupported": case["warn"]}
    hp = {k: v for k, v in case["hp"].items() if k in ("momentum", "kfac_approx")}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if case["explicit"]:
            kwargs["params"] = list(supported)
        opt = optimizer_class()(model, lr=0.125, T=1, **hp, **kwargs)
    trained = [p for group in opt.param_groups for p in group["params"]]
    require(
        len(trained) == len({id(p) for p in trained}), "a parameter is trained twice"
    )
    require(
        {id(p) for p in trained} == {id(p) for p in supported},
        f"{len(trained)} parameters are trained instead of the {len(supported)} trainable"
        " ones of supported layers",
    )
    messages = [str(w.message) for w in caught if issubclass(w.category, UserWarning)]
    if case["warn"] is False or case["explicit"]:
        require(not messages, f"warnings although disabled: {messages}")
    else:
        for name in reported:
            pattern = rf"(?<![\w.]){re.escape(name)}(?![\w.])"
            found = [m for m in messages if not name or re.search(pattern, m)]
            require(found, f"no warning for unsupported parameters of {name!r}")
        if not reported:
            require(not messages, f"warnings without reason: {messages}")
        require(
            len(messages) >= len(reported), f"only {len(messages)} warnings for {reported}"
        )
    for n, p in model.named_parameters():
        require(torch.equal(p, before[n]), f"construction changed parameter {n}")
    forward(model, case["seed"]).backward()
    opt.step()
    ids = {id(p) for p in supported}
    for n, p in model.named_parameters():
        changed = not torch.equal(p, before[n])
        require(changed == (id(p) in ids), f"parameter {n}: changed={changed}")
    frozen = any(not p.requires_grad for p in model.parameters())
    labels += ["unsupported"] * bool(reported) + ["frozen"] * frozen
    labels += ["root is a layer"] * isinstance(model, (nn.Linear, nn.Conv2d))
    labels += ["owned by container"] * any("own" == k for k in kinds(case["tree"]))
    return dict(labels=labels, nontrivial=bool(reported or frozen))


def kinds(node):
    yield node[0]
    if node[0] in ("sequential", "list", "dict", "own", "own frozen", "deep"):
        for child in node[1]:
            yield from kinds(child)


# --------------------------------------------------------------------------------------
# configurations

bad_strings = st.sampled_from(
    ["", "Expand", "reduced", "exp", "sum", "mean", "Batch", "sequence", "batch-sequence"]
)
not_approx = st.one_of(bad_strings, st.sampled_from(["batch", None, 3]))
not_average = st.one_of(bad_strings, st.sampled_from(["expand", "reduce", False, 7]))


@st.composite
def numbers(draw, negative):
    kind = draw(st.sampled_from(sorted(TYPES)))
    if kind.startswith("int"):
        value = draw(st.integers(1, 50))
    elif kind == "fraction":
        value = draw(st.sampled_from([0.5, 0.25, 0.125]))
    else:
        value = draw(st.sampled_from([1e-30, 1e-6, 0.1, 0.5, 0.999, 3.0, 1e6]))
    return [kind, -value if negative else value]


@st.composite
def configs(draw):
    layers = draw(st.lists(st.sampled_from(["linear", "conv"]), min_size=1, max_size=4))
    biases = [draw(st.booleans()) for _ in layers]
    hp = draw(hypers())
    num = draw(st.integers(0, 4))
    where = [draw(st.integers(0, max(num - 1, 0))) for _ in layers]
    group_hp = [{} for _ in range(num)]
    for g in group_hp:
        other = draw(hypers())
        keys = draw(st.lists(st.sampled_from(sorted(set(hp) - {"omit"})), max_size=4))
        g.update({k: other[k] for k in keys})
    # valid numbers of other types
    numeric = {}
    for field in draw(st.lists(st.sampled_from(FIELDS), unique=True, max_size=2)):
        numeric[field] = draw(numbers(False))
    names = [[] for _ in range(num)]
    if num:
        for i, (w, b) in enumerate(zip(where, biases)):
            names[w] += [f"{i}.weight"] + [f"{i}.bias"] * b
        order = [draw(st.permutations(n)) for n in names]
        names = [list(n) for n in order]
    defects = draw(
        st.lists(
            st.sampled_from(
                ["negative", "negative", "approx", "average", "split", "split", "wrapper"]
                + ["group approx", "group average", "twice"]
            ),
            max_size=2,
            unique=True,
        )
    )
    case = dict(
        mode="config", layers=layers, biases=biases, hp=hp, names=names, defects=defects,
        group_hp=group_hp, numeric=numeric, errors=[], wrapper=None,
    )  # fmt: skip
    expected = set()
    for defect in defects:
        if defect == "negative":
            field = draw(st.sampled_from(FIELDS))
            numeric[field] = draw(numbers(True))
            expected.add("ValueError")
        elif defect in ("approx", "average"):
            key = {"approx": "kfac_approx", "average": "loss_average"}[defect]
            hp[key] = draw(not_approx if defect == "approx" else not_average)
            for g in group_hp:
                g.pop(key, None)
            if "omit" in hp:
                hp["omit"] = [k for k in hp["omit"] if k != key]
            expected.add("ValueError")
        elif defect in ("group approx", "group average"):
            used = [k for k in range(num) if names[k]]
            if not used:
                continue
            g = group_hp[draw(st.sampled_from(used))]
            if defect == "group approx":
                g["kfac_approx"] = draw(not_approx)
            else:
                g["loss_average"] = draw(not_average)
            expected.add("ValueError")
        elif defect == "split":
            with_bias = [i for i, b in enumerate(biases) if b]
            if num < 2 or not with_bias:
                continue
            i = draw(st.sampled_from(with_bias))
            which = draw(st.sampled_from(["weight", "bias"]))
            old = next(k for k in range(num) if f"{i}.{which}" in names[k])
            new = draw(st.sampled_from([k for k in range(num) if k != old]))
            if f"{i}.{which}" in names[new]:  # through the defect "twice"
                continue
            names[old].remove(f"{i}.{which}")
            names[new].append(f"{i}.{which}")
            expected.add("ValueError")
        elif defect == "twice":
            if num < 2:
                continue
            old = next(k for k in range(num) if names[k])
            name = names[old][0]
            new = draw(st.sampled_from([k for k in range(num) if k != old]))
            names[new].append(name)
            expected.add("ValueError")
        elif defect == "wrapper":
            case["wrapper"] = draw(st.sampled_from(["DP", "DDP", "DP subclass"]))
            expected.add("TypeError")
    for g in group_hp:
        g.pop("omit", None)
    case["errors"] = sorted(expected)
    case["steps"] = 0 if numeric else draw(st.sampled_from([0, 0, 0, 1, 2]))
    return case


def wrap(model, kind):
    from torch.nn.parallel import DataParallel, DistributedDataParallel

    if kind == "DP":
        return DataParallel(model)
    if kind == "DP subclass":
        return type("Wrapper", (DataParallel,), {})(model)
    ddp = DistributedDataParallel.__new__(DistributedDataParallel)
    nn.Module.__init__(ddp)
    ddp.module = model
    return ddp


def check_config(case):
    mods = [
        (nn.Linear(2, 2, bias=b) if kind == "linear" else nn.Conv2d(2, 2, 2, bias=b))
        for kind, b in zip(case["layers"], case["biases"])
    ]
    model = nn.Sequential(*mods)
    named = dict(model.named_parameters())
    before = {n: p.detach().clone() for n, p in named.items()}
    hp = decode(case["hp"])
    for field, (kind, value) in case["numeric"].items():
        hp[field] = TYPES[kind](value)
    groups = None
    if case["names"]:
        groups = [
            {"params": [named[n] for n in names], **decode(g)}
            for names, g in zip(case["names"], case["group_hp"])
            if names
        ]
    target = wrap(model, case["wrapper"]) if case["wrapper"] else model
    opt, error = None, None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            copies = None if groups is None else [dict(g) for g in groups]
            opt = optimizer_class()(target, copies, **hp)
        except Exception as e:
            error = e
    for n, p in named.items():
        require(torch.equal(p, before[n]), f"construction changed parameter {n}")
    labels = ["mode:config"] + [f"defect:{d}" for d in case["defects"]]
    if case["errors"]:
        require(
            error is not None, f"accepted a configuration with defects {case['defects']}"
        )
        require(
            type(error).__name__ in case["errors"],
            f"{type(error).__name__}: {error} instead of {case['errors']}",
        )
        labels.append("rejected")
        return dict(labels=labels, nontrivial=True)
    require(error is None, f"valid configuration was rejected: {error!r}")
    check_kfac_like(opt, hp, groups, [str(w.message) for w in caught], labels)
    for name, p in named.items():
        p.grad = torch.zeros_like(p)
    steps = case.get("steps", 0)
    for k in range(steps + 1):
        try:
            opt.step(lambda: 0.0)
        except NotImplementedError:
            pass
        else:
            require(False, f"a closure was accepted after {k} steps")
        require(opt.steps == k, "a rejected closure was counted as step")
        for n, p in named.items():
            require(
                torch.equal(p.nan_to_num(), before[n].nan_to_num()),
                f"rejected closure changed {n}",
            )
        if k < steps:
            opt.zero_grad()
            for mod in mods:
                shape = (3, 2) if isinstance(mod, nn.Linear) else (3, 2, 3, 3)
                mod(torch.ones(shape)).square().mean().backward()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                opt.step()
            before = {n: p.detach().clone() for n, p in named.items()}
    return dict(labels=labels, nontrivial="kfac_like" in labels)


def check_kfac_like(opt, hp, groups, messages, labels):
    """IKFAC ignores the Riemannian momentum, with a warning for each affected group."""
    from harness.refsingd import DEFAULTS

    given = groups if groups is not None else [{}]
    affected = []
    for k, (group, actual) in enumerate(zip(given, opt.param_groups)):
        full = {**DEFAULTS, **hp, **group}
        alpha1 = full["alpha1"]
        if full["kfac_like"] and alpha1 != 0.0:
            affected.append(k)
            alpha1 = 0.0
        require(
            actual["alpha1"] == alpha1, f"group {k}: alpha1 is {actual['alpha1']}"
        )
        for key, value in full.items():
            if key not in ("alpha1", "params") and key in actual:
                require(
                    actual[key] == value or actual[key] is value,
                    f"group {k}: {key} is {actual[key]} instead of {value}",
                )
    messages = [m for m in messages if "kfac_like" in m or "alpha" in m]
    require(
        len(messages) == len(affected),
        f"warnings {messages} for groups {affected} with IKFAC and alpha1 != 0",
    )
    if affected:
        labels.append("kfac_like")


# --------------------------------------------------------------------------------------


def check_partly_frozen(case):
    """A layer of which one parameter is frozen: the other one must be trained."""
    torch.manual_seed(0)
    model = nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 1))
    layer = model[0]
    getattr(layer, case["frozen"]).requires_grad_(False)
    before = {n: p.detach().clone() for n, p in model.named_parameters()}
    opt = optimizer_class()(model, lr=0.1, T=1)
    for _ in range(2):
        model.zero_grad()
        model(torch.ones(3, 2)).sum().backward()
        opt.step()
    for n, p in model.named_parameters():
        changed = not torch.equal(p, before[n])
        require(changed == p.requires_grad, f"parameter {n}: changed={changed}")
    return dict(labels=["mode:partly frozen"], nontrivial=True)


KNOWN_PROBES = {
    "frozen-bias": dict(mode="partly frozen", frozen="bias"),
    "frozen-weight": dict(mode="partly frozen", frozen="weight"),
}


roots = st.tuples(
    st.sampled_from(["sequential", "dict", "own"]),
    st.lists(nodes(2), min_size=2, max_size=5),
).map(list)


@st.composite
def trees(draw):
    return dict(
        mode="tree",
        tree=draw(st.one_of(nodes(2), roots, roots, roots)),
        warn=draw(st.sampled_from([None, True, True, False])),
        explicit=draw(st.sampled_from([False] * 5 + [True])),
        hp=draw(hypers()),
        seed=draw(st.integers(0, 9999)),
    )


def strategy(tier):
    return st.one_of(configs(), trees())


def run(case):
    if case["mode"] == "tree":
        return check_tree(case)
    if case["mode"] == "partly frozen":
        return check_partly_frozen(case)
    return check_config(case)
