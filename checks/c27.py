"""C27: inverse-free, in the precision of the factors, and without dense matrices."""

import torch
from hypothesis import strategies as st
from torch.utils._python_dispatch import TorchDispatchMode

from checks.c22 import dof
from harness.common import DTYPES, gen, randn, require
from harness.structs import build, get_class, random_member, resolve
from harness.training import Run, hp_labels, hypers, supported_layers, trainings

ID = "C27"
N = {"quick": 4800, "thorough": 40000}
RULE = (
    "A case is (operation) a diagonal, block-diagonal, hierarchical or triangular Toeplitz"
    " matrix and a sequence of operations, (training) a training history with any"
    " hyper-parameters, or (wide) a step of a wide layer with those structures. All tensor"
    " operations that torch executes are recorded: none may invert, factorise or solve,"
    " matrix products must run in the data types of the factors, and the largest"
    " intermediate tensor must stay below a bound that is linear in the elements of the"
    " structures. Non-trivial: the bound is smaller than a dense matrix, or two steps."
)
ASSUMPTIONS = [
    "Operations that the code documents as naive (structures without their own"
    " implementation) and the inner product of Toeplitz matrices may use dense matrices."
]
FORBIDDEN = (
    "inv", "solve", "eig", "svd", "cholesky", "qr", "lu_", "ldl", "lstsq", "pinv", "det",
    "logdet", "matrix_exp", "matrix_power", "householder", "geqrf", "ormqr", "symeig",
)  # fmt: skip
PRODUCTS = ("mm", "bmm", "addmm", "baddbmm", "addbmm", "mv", "addmv", "dot", "vdot",
            "convolution", "_convolution", "mkldnn_convolution", "einsum")  # fmt: skip
OPS = ["matmul", "rmatmat", "product", "add", "mul", "add_", "mul_", "diag_add_", "inner",
       "innerX", "mat_inner", "eye", "zeros", "trace", "frobenius", "maximum"]  # fmt: skip


class Recorder(TorchDispatchMode):
    """Records operations, their data types and the size of their results."""

    def __init__(self):
        super().__init__()
        self.largest, self.where, self.products, self.bad = 0, None, {}, set()

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        name = func.overloadpacket.__name__
        base = name.removeprefix("linalg_").removeprefix("_linalg_").lstrip("_")
        if name not in ("detach",) and any(base.startswith(f) for f in FORBIDDEN):
            self.bad.add(name)
        for o in out if isinstance(out, (tuple, list)) else [out]:
            if isinstance(o, torch.Tensor) and o.numel() > self.largest:
                self.largest, self.where = o.numel(), name
        if name in PRODUCTS and not index_pattern(name, args):
            key = next(a.dtype for a in args if isinstance(a, torch.Tensor))
            self.products[key] = self.products.get(key, 0) + 1
        return out


def index_pattern(name, args):
    """One-dimensional convolution by which `einconv` finds out which pixels interact."""
    return name == "convolution" and args[0].dim() == 3 and tuple(args[0].shape[:2]) == (1, 1)


def inverse_free(what, rec):
    require(not rec.bad, f"{what} uses {sorted(rec.bad)}")


small = st.one_of(
    st.sampled_from(
        ["diagonal", "block3diagonal", "hierarchical3_2", "triltoeplitz", "triutoeplitz",
         "block30diagonal", "hierarchical15_15"]  # fmt: skip
    ),
    st.integers(1, 9).map(lambda b: ["block", b]),
    st.tuples(st.integers(0, 5), st.integers(0, 5)).map(
        lambda k: ["hier", k[0], k[1]] if sum(k) else ["hier", 1, 0]
    ),
)


@st.composite
def cases(draw, max_steps):
    mode = draw(st.sampled_from(["operation", "operation", "wide", "training", "training"]))
    if mode == "operation":
        op = st.sampled_from(OPS)
        return dict(
            mode=mode,
            spec=draw(small),
            dim=draw(st.integers(40, 260)),
            cols=draw(st.integers(1, 4)),
            dtype=draw(st.sampled_from(["float32", "float32", "bfloat16"])),
            ops=draw(st.lists(op, min_size=1, max_size=6)),
            seed=draw(st.integers(0, 9999)),
        )
    if mode == "training":
        case = draw(trainings(max_steps=max_steps, max_batch=4))
        case["mode"] = mode
        case["batches"] = case["batches"][:10]
        names = st.sampled_from([None, None, "float32", "bfloat16"])
        case["dtypes"] = [draw(names), draw(names)]
        if case["dtype"] == "float64":
            case["dtypes"] = [None, None]
        return case
    narrow = ["diagonal", "block30diagonal", "hierarchical15_15"]
    hp = draw(hypers())
    hp.pop("omit", None)
    hp["structures"] = [draw(st.sampled_from(narrow)) for _ in range(2)]
    wide_out = draw(st.booleans())
    big, tiny = draw(st.integers(250, 400)), draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["mlp", "seq", "conv"]))
    bias = draw(st.booleans())
    if kind == "conv":
        channels = draw(st.integers(30, 45))
        model = dict(
            kind="conv",
            input=[channels, 3, 3],
            layers=[["conv", tiny, [3, 3], [1, 1], draw(st.integers(0, 1)), [1, 1], 1, bias,
                     "zeros"]],  # fmt: skip
            seed=draw(st.integers(0, 9999)),
        )
    else:
        dims = (tiny, big) if wide_out else (big, tiny)
        model = dict(
            kind=kind,
            input=([2] if kind == "seq" else []) + [dims[0]],
            layers=[["linear", dims[1], bias]],
            seed=draw(st.integers(0, 9999)),
        )
    return dict(
        mode=mode,
        model=model,
        hp=hp,
        loss="mse",
        xscale=0.3,
        batches=[[draw(st.integers(1, 2)), draw(st.integers(0, 9999))] for _ in range(2)],
        dtype="float32",
    )


def strategy(tier):
    return cases(4 if tier == "quick" else 10)


def run_operation(case):
    spec, n, m, dtype = case["spec"], case["dim"], case["cols"], DTYPES[case["dtype"]]
    cls, g = get_class(spec), gen(case["seed"])
    A, B = [build(spec, random_member(spec, n, g) / n, dtype) for _ in range(2)]
    X = randn(g, n, m, dtype=dtype)
    limit = 4 * (dof(spec, n) + n * m) + 256
    kind = resolve(spec)
    actions = {
        "matmul": lambda: A @ X,
        "rmatmat": lambda: A.rmatmat(X),
        "product": lambda: A @ B,
        "add": lambda: A + B,
        "mul": lambda: A * 0.5,
        "add_": lambda: A.add_(B, alpha=0.5),
        "mul_": lambda: A.mul_(0.5),
        "diag_add_": lambda: A.diag_add_(0.5),
        "inner": lambda: A.from_inner(),
        "innerX": lambda: A.from_inner(X=X),
        "mat_inner": lambda: cls.from_mat_inner(X),
        "eye": lambda: cls.eye(n, dtype=dtype),
        "zeros": lambda: cls.zeros(n, dtype=dtype),
        "trace": lambda: A.average_trace(),
        "frobenius": lambda: A.frobenius_norm(),
        "maximum": lambda: A.infinity_vector_norm(),
    }
    toeplitz = isinstance(kind, str) and "toeplitz" in kind
    if toeplitz and dtype != torch.float32:
        return dict(labels=["half precision Toeplitz"], nontrivial=False)
    for op in case["ops"]:
        with Recorder() as rec:
            actions[op]()
        what = f"{op} of {spec} matrices of dimension {n}"
        inverse_free(what, rec)
        naive = (toeplitz and "inner" in op) or (kind[0] == "hier" and op == "mat_inner")
        if not naive:
            require(
                rec.largest <= limit,
                f"{what}: {rec.where} creates a tensor with {rec.largest} elements, the"
                f" matrix has {dof(spec, n)} and a dense one {n * n}",
            )
        if op not in ("eye", "zeros", "frobenius", "trace", "maximum"):
            require(
                set(rec.products) <= {dtype},
                f"{what}: products in {rec.products}, the matrix has {dtype}",
            )
    labels = ["mode:operation", f"dtype:{case['dtype']}"]
    labels += [f"op:{op}" for op in sorted(set(case["ops"]))]
    labels.append(f"class:{spec}" if isinstance(spec, str) else f"class:{spec[0]}")
    return dict(labels=labels, nontrivial=limit < n * n)


def run_training(case):
    kwargs = {}
    if case.get("dtypes") and any(case["dtypes"]):
        kwargs["preconditioner_dtype"] = tuple(
            None if d is None else DTYPES[d] for d in case["dtypes"]
        )
    r = Run(case, **kwargs)
    wanted = {r.dtype if d is None else DTYPES[d] for d in case.get("dtypes", [None])}
    plain = Run(case).model  # hooks of the first optimizer only
    layers = supported_layers(r.model)
    for mod in supported_layers(plain).values():
        mod._forward_hooks.clear()
    limit, dense, dofs = None, 0, 0
    if case["mode"] == "wide":
        limit = 512
        for layer in layers.values():
            dim_K = layer.weight[0].numel() + (layer.bias is not None)
            dim_C = len(layer.weight)
            rows = max(b[0] for b in case["batches"]) * 9
            names = case["hp"]["structures"]
            dofs = dof(names[0], dim_K) + dof(names[1], dim_C)
            limit += 4 * (dofs + rows * (dim_K + dim_C) + dim_K * dim_C)
            dense = max(dim_K, dim_C) ** 2
    for k, batch in enumerate(case["batches"]):
        r.zero_grad()
        x, y = r.data(batch)
        out = plain(x).sum()
        with Recorder() as without:
            out.backward()
        loss = r.loss(x, y)
        with Recorder() as rec:
            loss.backward()
        with Recorder() as step:
            r.opt.step()
        for what, record in (("backward pass", rec), ("step", step)):
            inverse_free(what, record)
            if limit is not None:
                require(
                    record.largest <= limit,
                    f"{what} {k}: {record.where} creates a tensor with {record.largest}"
                    f" elements; expected at most {limit}, dense are {dense}",
                )
        require(
            set(step.products) <= wanted,
            f"step {k}: matrix products in {step.products}, the factors have {wanted}",
        )
        if r.dtype not in wanted:
            # only the model itself computes in its own precision
            a, b = rec.products.get(r.dtype, 0), without.products.get(r.dtype, 0)
            require(a <= b, f"backward pass {k}: {a} products in {r.dtype}, {b} by the model")
        if not r.healthy():
            return dict(labels=["diverged"], nontrivial=False)
    labels = hp_labels(case) + [f"mode:{case['mode']}"]
    labels += [f"factors:{sorted(map(str, wanted))}"] * (wanted != {r.dtype})
    nontrivial = len(case["batches"]) >= 2 if limit is None else limit < dense
    return dict(labels=labels, nontrivial=nontrivial)


def run(case):
    return run_operation(case) if case["mode"] == "operation" else run_training(case)
