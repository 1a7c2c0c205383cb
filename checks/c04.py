"""C04: user-defined structures inherit a correct implementation."""

import warnings

import torch
from hypothesis import strategies as st

from checks.c01 import cases as operation_cases
from checks.c03 import programs
from harness.common import DTYPES, close, gen, maxabs, randn, require
from harness.ops import check_arithmetic, check_extraction, run_program
from harness.structs import (
    OPTIMIZER_STRUCTURES,
    contains_toeplitz,
    get_class,
    leaves,
    project,
    resolve,
    supports_float64,
)
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_reference,
    hp_labels,
    optimizer_class,
    trainings,
)

ID = "C04"
N = {"quick": 16000, "thorough": 80000}
RULE = (
    "A case is a random structure definition (block size 1-9, corner sizes 0-5, recursion"
    " up to depth 3 with any sub-structures, or a class that only converts from and to"
    " dense) and either its operations on random members, a history of operations, the"
    " warnings about naive implementations, or a training run that uses it as"
    " pre-conditioner structure next to a shipped one. Non-trivial: dimension >= 2 and"
    " (for training) two steps compared."
)
ASSUMPTIONS = [
    "Minimal classes convert every matrix with the structure into itself.",
    "No blocks of dimension zero for minimal classes (their author decides whether that"
    " is supported). Toeplitz blocks of dimension zero: see known finding.",
]
KNOWN_PROBES = {
    "empty-toeplitz-block": dict(
        mode="extraction",
        spec=["topright", 1, None, "dense", "triltoeplitz"],
        dim=1,
        dtype="float32",
        values="int",
        form="leaf",
        form2="leaf",
        alpha=0.5,
        cols=1,
        layout="contiguous",
        seed=0,
    )
}

corners = st.integers(0, 5)
blocks = st.tuples(st.just("block"), st.integers(1, 9)).map(list)
hierarchical = st.tuples(st.just("hier"), corners, corners).map(list)
minimal = st.sampled_from(["lowertri", "scaled", "circulant"]).map(
    lambda name: ["minimal", name]
)
leaf = st.one_of(
    st.sampled_from(OPTIMIZER_STRUCTURES + ["dense", "diagonal", "triltopleft"]),
    blocks,
    hierarchical,
    minimal,
)


@st.composite
def recursive(draw, depth):
    bound = draw(st.integers(0, 5))
    dims = draw(st.sampled_from([[bound, None], [None, bound]]))
    sub = leaf if depth == 1 else st.one_of(leaf, recursive(depth - 1))
    kind = draw(st.sampled_from(["topright", "bottomleft"]))
    return [kind, *dims, draw(sub), draw(sub)]


specs = st.one_of(blocks, hierarchical, minimal, recursive(1), recursive(2), recursive(3))


def valid_dim(spec, dim):
    """Smallest dimension >= dim for which no unsupported leaf is empty, or None."""
    for n in range(dim, dim + 25):
        if all(
            k > 0
            for kind, k in leaves(spec, n)
            if kind in ("triltoeplitz", "triutoeplitz") or kind[0] == "minimal"
        ):
            return n
    return None


def usable(spec):
    return valid_dim(spec, 1) is not None


dims = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 40))
ITEMS = [
    "__matmul__", "__mul__", "__add__", "rmatmat", "from_inner", "from_mat_inner",
    "from_inner2", "average_trace", "diag_add_", "frobenius_norm", "zeros", "eye",
]  # fmt: skip


@st.composite
def cases(draw, thorough):
    mode = draw(
        st.sampled_from(
            ["arithmetic", "arithmetic", "extraction", "extraction", "program"]
            + ["program", "warnings", "training", "training"]
        )
    )
    if mode == "warnings":
        return dict(
            mode=mode,
            spec=draw(minimal),
            dim=draw(st.integers(1, 5)),
            warn=draw(st.sampled_from([True, True, False])),
            exceptions=draw(st.lists(st.sampled_from(ITEMS), unique=True)),
            items=draw(st.lists(st.sampled_from(ITEMS), min_size=1, max_size=8)),
        )
    allowed = specs.filter(usable)
    if mode in ("arithmetic", "extraction"):
        case = draw(operation_cases(allowed))
        case["dim"] = valid_dim(case["spec"], draw(dims))
        case["cols"] = min(case["cols"], 20)
    elif mode == "program":
        case = draw(programs(allowed, max_ops=40 if thorough else 15))
        case["dim"] = valid_dim(case["spec"], draw(dims))
    else:
        # every dimension must be possible
        always = allowed.filter(lambda s: valid_dim(s, 1) == 1)
        user = [draw(always), draw(always)]
        which = draw(st.sampled_from([["u0", "u1"], ["u0", None], [None, "u0"]]))
        shipped = st.sampled_from(OPTIMIZER_STRUCTURES)
        names = [w or draw(shipped) for w in which]
        case = draw(
            trainings(
                overrides=dict(structures=names), max_steps=10 if thorough else 4
            )
        )
        case["user"] = {"u0": user[0], "u1": user[1]}
        used = [case["user"].get(n, n) for n in names]
        if not all(supports_float64(s) for s in used):
            case["dtype"] = "float32"
    case["mode"] = mode
    return case


def strategy(tier):
    return cases(tier == "thorough")


def run(case):
    mode = case["mode"]
    labels = [f"mode:{mode}"]
    if mode == "warnings":
        check_warnings(case)
        return dict(labels=labels, nontrivial=case["dim"] >= 2)
    if mode == "training":
        return check_training(case, labels)
    spec, n = case["spec"], case["dim"]
    labels += [f"kind:{resolve(spec)[0]}", f"dtype:{case['dtype']}"]
    if any(k == 0 for _, k in leaves(spec, n)):
        labels.append("empty sub-block")
    labels += sorted({f"leaf:{k if isinstance(k, str) else k[0]}" for k, _ in leaves(spec, n)})
    if mode == "arithmetic":
        check_arithmetic(case)
    elif mode == "extraction":
        check_extraction(case)
    else:
        stats = run_program(case)
        return dict(labels=labels, nontrivial=n >= 2 and stats["push"] >= 3)
    return dict(labels=labels, nontrivial=n >= 2)


def check_training(case, labels):
    base = optimizer_class()
    classes = {name: get_class(spec) for name, spec in case["user"].items()}
    cls = type(
        "UserSINGD",
        (base,),
        {"SUPPORTED_STRUCTURES": {**base.SUPPORTED_STRUCTURES, **classes}},
    )
    real, ref = Run(case, cls=cls), RefRun(case, specs=case["user"])
    for name in real.opt.Ks:
        for mats, structure in zip((real.opt.Ks, real.opt.Cs), case["hp"]["structures"]):
            require(
                type(mats[name]) is cls.SUPPORTED_STRUCTURES[structure],
                f"layer {name}: factor is a {type(mats[name]).__name__}",
            )
    tol = TOL[DTYPES[case["dtype"]]]
    done = 0
    for k, batch in enumerate(case["batches"]):
        real.step(batch)
        ref.step(batch)
        if not real.healthy():
            break
        compare_reference(f"step {k}", real.model, real.opt, ref, tol)
        ref.adopt(real.model, real.opt)
        done += 1
    labels += [x for x in hp_labels(case) if not x.startswith(("K:u", "C:u"))]
    labels += [
        f"{which}:user {resolve(case['user'][s])[0]}"
        for which, s in zip("KC", case["hp"]["structures"])
        if s in case["user"]
    ]
    return dict(labels=labels, nontrivial=done >= 2)


def check_warnings(case):
    """Naive implementations warn exactly if this was not disabled - and are right."""
    n = case["dim"]
    base = get_class(case["spec"])
    cls = type(
        "Minimal",
        (base,),
        {"WARN_NAIVE": case["warn"], "WARN_NAIVE_EXCEPTIONS": set(case["exceptions"])},
    )
    g = gen(1)

    def member():
        return cls.from_dense(project(case["spec"], randn(g, n, n)))

    X, S = randn(g, n, 2), torch.eye(n, dtype=torch.float64)
    A, B = member(), member()
    d = A.to_dense().clone()
    eye = torch.eye(n, dtype=torch.float64)
    actions = {
        "__matmul__": lambda: ((A @ X), d @ X),
        "__mul__": lambda: ((A * 2.0).to_dense(), 2 * d),
        "__add__": lambda: ((A + B).to_dense(), d + B.to_dense()),
        "rmatmat": lambda: (A.rmatmat(X), d.T @ X),
        "from_inner": lambda: (A.from_inner(X).to_dense(), proj(d.T @ X @ X.T @ d)),
        "from_mat_inner": lambda: (cls.from_mat_inner(X).to_dense(), proj(X @ X.T)),
        "from_inner2": lambda: (A.from_inner2(S).to_dense(), proj(d.T @ S @ d)),
        "average_trace": lambda: (A.average_trace(), d.diagonal().mean()),
        "diag_add_": lambda: (cls.from_dense(d.clone()).diag_add_(1.0).to_dense(), d + eye),
        "frobenius_norm": lambda: (A.frobenius_norm(), d.norm()),
        "zeros": lambda: (cls.zeros(n).to_dense(), 0 * eye),
        "eye": lambda: (cls.eye(n).to_dense(), eye),
    }
    also = {"from_inner": {"rmatmat", "from_mat_inner"}}

    def proj(m):
        return project(case["spec"], m)

    for item in case["items"]:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            actual, expected = actions[item]()
        close(f"{item} of a minimal class", actual, expected, 1e-6, 1 + maxabs(expected))
        names = [
            str(w.message) for w in caught if "naive implementation" in str(w.message)
        ]
        silent = not case["warn"] or item in case["exceptions"]
        mine = [m for m in names if f".{item}." in m or m.endswith(f".{item} using structure.")]
        if silent:
            require(not mine, f"{item}: warning although disabled: {mine}")
            others = also.get(item, set()) - set(case["exceptions"])
            if not case["warn"] or not others:
                require(not names, f"{item}: warnings {names} although disabled")
        else:
            require(mine, f"no warning that {item} is implemented naively")
            require("Minimal" in mine[0], f"warning does not name the class: {mine[0]}")
