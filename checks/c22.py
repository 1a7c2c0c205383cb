"""C22: structures and optimizer only keep what they need."""

import gc
import types
import warnings
import weakref

import torch
from hypothesis import strategies as st
from torch import nn

from checks.c04 import specs as template_specs
from checks.c04 import valid_dim
from harness.common import DTYPES, EPS, gen, randn, require
from harness.structs import (
    SHIPPED,
    boundary,
    build,
    get_class,
    hier_dims,
    leaves,
    random_member,
    resolve,
    supports_float64,
)
from harness.training import Run, hp_labels, supported_layers, trainings

ID = "C22"
N = {"quick": 4800, "thorough": 40000}
RULE = (
    "A case is (structure) a structure, a dimension and a history of operations, after each"
    " of which the storage reachable from the result is compared with the number of"
    " elements of the structure, or (training) a training run with evaluation passes,"
    " discarded graphs, micro-batches and skipped steps in which the storage reachable from"
    " the optimizer and all living tensors of the process are measured after each phase."
    " Non-trivial: the structure has fewer elements than a dense matrix; at least four"
    " steps."
)
ASSUMPTIONS = [
    "`from_dense` of the dense structure may keep the passed matrix.",
    "Book-keeping of up to 256 bytes per layer is not counted.",
]
KINDS = ["structure", "structure", "training"]
OPS = ["matmul", "add", "mul", "add_", "mul_", "diag_add_", "from_inner", "from_innerX",
       "from_inner2", "from_dense", "from_mat_inner", "eye", "zeros", "query"]  # fmt: skip


def dof(spec, n):
    """Number of elements of the structure."""
    kind = resolve(spec)
    if kind == "dense":
        return n * n
    if isinstance(kind, str):  # diagonal, Toeplitz
        return n
    if kind[0] == "block":
        full, last = divmod(n, kind[1])
        return full * kind[1] ** 2 + last**2
    if kind[0] == "hier":
        a, mid, e = hier_dims(n, kind[1], kind[2])
        return a * a + a * (mid + e) + mid + mid * e + e * e
    b = boundary(n, kind[1], kind[2])
    return dof(kind[3], b) + dof(kind[4], n - b) + b * (n - b)


def storages(obj, stop=()):
    """Bytes of all storages that are reachable from an object, by address."""
    found, seen, todo = {}, set(), [obj]
    skip = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)
    skip += (types.CodeType, types.FrameType, nn.Module)
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, skip):
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            s = o.untyped_storage()
            found[s.data_ptr()] = s.nbytes()
            if o.grad is not None:
                todo.append(o.grad)
        elif not isinstance(o, (str, bytes, int, float, torch.dtype, torch.device)):
            todo.extend(gc.get_referents(o))
    for address in stop:
        found.pop(address, None)
    return found


def held(obj, stop=()):
    return sum(storages(obj, stop).values())


@st.composite
def structure_cases(draw):
    spec = draw(st.one_of(st.sampled_from(SHIPPED), st.sampled_from(SHIPPED), template_specs))
    if valid_dim(spec, 1) is None or "minimal" in str(spec):
        spec = "hierarchical3_2"
    dim = draw(st.one_of(st.integers(1, 9), st.integers(10, 40), st.integers(30, 130)))
    dtypes = ["float32", "float32", "bfloat16"] + ["float64"] * supports_float64(spec)
    ops = st.tuples(st.sampled_from(OPS), st.integers(0, 9), st.integers(0, 9))
    return dict(
        mode="structure",
        spec=spec,
        dim=valid_dim(spec, dim) or 1,
        dtype=draw(st.sampled_from(dtypes)),
        seed=draw(st.integers(0, 9999)),
        cols=draw(st.sampled_from([1, 2, 7, 50])),
        ops=[list(o) for o in draw(st.lists(ops, min_size=1, max_size=12))],
    )


@st.composite
def training_cases(draw):
    case = draw(trainings(min_steps=4, max_steps=6, max_batch=4))
    case["mode"] = "training"
    case["batches"] = case["batches"][:12]
    case["to_none"] = True
    events = st.sampled_from([None, None, "no_grad", "discard", "micro", "skip", "scale"])
    case["events"] = [draw(events) for _ in case["batches"]]
    return case


def strategy(tier):
    return st.sampled_from(KINDS).flatmap(
        lambda k: structure_cases() if k == "structure" else training_cases()
    )


def run_structure(case):
    spec, n, dtype = case["spec"], case["dim"], DTYPES[case["dtype"]]
    cls, g = get_class(spec), gen(case["seed"])
    size = torch.empty((), dtype=dtype).element_size()
    bound = dof(spec, n) * size
    live = [build(spec, random_member(spec, n, g) / n, dtype)]

    def check(what, M):
        for name, t in M.named_tensors():
            require(
                t.untyped_storage().nbytes() <= bound,
                f"{what}: component {name} {tuple(t.shape)} keeps a storage of"
                f" {t.untyped_storage().nbytes()} bytes, the matrix has {bound}",
            )
        total = held(M)
        require(
            total <= bound + 64,
            f"{what}: matrix keeps {total} bytes, its {dof(spec, n)} elements need {bound}",
        )

    for op, i, j in case["ops"]:
        A, B = live[i % len(live)], live[j % len(live)]
        R = A
        if op == "matmul":
            R = A @ B
        elif op == "add":
            R = A + B
        elif op == "mul":
            R = A * 0.5
        elif op == "add_":
            A.add_(B, alpha=0.25) if A is not B else A.mul_(1.25)
        elif op == "mul_":
            A.mul_(0.5)
        elif op == "diag_add_":
            A.diag_add_(0.5)
        elif op == "from_inner":
            R = A.from_inner()
        elif op == "from_innerX":
            R = A.from_inner(X=randn(g, case["cols"], n, dtype=dtype).T / n)
        elif op == "from_inner2":
            S = randn(g, n, n, dtype=dtype) / n
            R = A.from_inner2(S + S.T)
        elif op == "from_mat_inner":
            R = cls.from_mat_inner(randn(g, n, case["cols"], dtype=dtype) / n)
        elif op == "from_dense":
            S = randn(g, n, n, dtype=dtype) / n
            R = cls.from_dense(S + S.T)
        elif op in ("eye", "zeros"):
            R = getattr(cls, op)(n, dtype=dtype)
        elif op == "query":
            A.to_dense(), A.average_trace(), A.frobenius_norm(), A.infinity_vector_norm()
            A @ randn(g, n, case["cols"], dtype=dtype)
            A.rmatmat(randn(g, n, case["cols"], dtype=dtype))
        if R is not A:
            live.append(R)
        for M in live:
            check(op, M)
            for _, t in M.named_tensors():
                if not bool((t.abs() < 1e4).all()):
                    return dict(labels=["too large"], nontrivial=False)
    labels = ["mode:structure", f"dtype:{case['dtype']}"]
    labels += [f"op:{o}" for o in sorted({o[0] for o in case["ops"]})]
    labels.append(f"class:{spec}" if isinstance(spec, str) else "class:user-defined")
    return dict(labels=labels, nontrivial=dof(spec, n) < n * n)


def living(exclude):
    """Bytes of the storages of all tensors in the process (created since `freeze`)."""
    found = {}
    for o in gc.get_objects():
        if isinstance(o, torch.Tensor):
            s = o.untyped_storage()
            found[s.data_ptr()] = s.nbytes()
    return sum(v for k, v in found.items() if k not in exclude)


def items(obj, depth=0):
    """Number of entries of nested containers."""
    if isinstance(obj, dict):
        return sum(1 + items(v) for v in obj.values())
    if isinstance(obj, (list, tuple, set)):
        return sum(1 + items(v) for v in obj)
    return 1


def attributes(model):
    """Number of attributes and hooks of all modules and parameters."""
    out = sum(items(vars(mod)) for mod in model.modules())
    for p in model.parameters():
        out += items(vars(p)) + items(p._backward_hooks or {})
    return out


def run_training(case):
    gc.collect()
    gc.freeze()
    hp = case["hp"]
    r = Run(case)
    opt, layers = r.opt, supported_layers(r.model)
    size = torch.empty((), dtype=r.dtype).element_size()
    per_H, factors, momenta, buffers = 0, 0, 0, 0
    for name, layer in layers.items():
        dim_K = layer.weight[0].numel() + (layer.bias is not None)
        dofs = dof(hp["structures"][0], dim_K), dof(hp["structures"][1], len(layer.weight))
        per_H += sum(dofs) * size
        factors += sum(dofs) * size
        if hp["alpha1"] != 0.0 and not hp["kfac_like"]:
            momenta += sum(dofs) * size
        if hp["momentum"] != 0.0:
            buffers += sum(p.numel() for p in layer.parameters()) * size
    bound = factors + momenta + buffers + 256 * len(layers)

    def outside():
        """Storages of parameters and gradients."""
        out = set()
        for p in r.model.parameters():
            out.add(p.untyped_storage().data_ptr())
            if p.grad is not None:
                out.add(p.grad.untyped_storage().data_ptr())
        return out

    refs = []

    def watch(module, inputs, output):
        refs.append(weakref.ref(output))
        refs.extend(weakref.ref(i) for i in inputs)

    handles = [layer.register_forward_hook(watch) for layer in layers.values()]

    def released(what):
        gc.collect()
        alive = [ref() for ref in refs if ref() is not None]
        require(
            not alive,
            f"{what}: {len(alive)} inputs or outputs of layers are kept alive, e.g. of"
            f" shape {tuple(alive[0].shape) if alive else ()}",
        )
        refs.clear()

    def backward(batch, scale=1.0):
        x, y = r.data(batch)
        (r.loss(x, y) * scale).backward()

    samples, worst, first = [], 0, None
    updates = False
    for k, (batch, event) in enumerate(zip(case["batches"], case["events"])):
        r.zero_grad()
        if event == "no_grad":
            with torch.no_grad():
                r.model(r.data(batch)[0])
            released("evaluation pass")
        elif event == "discard":
            out = r.model(r.data(batch)[0])
            del out
            released("discarded forward pass")
        scale = 4.0 if event == "scale" else 1.0
        if event == "scale":
            opt.set_current_grad_scale(scale)
        backward(batch, scale)
        if event == "micro":
            for extra in (1, 2):
                backward([batch[0], batch[1] + extra], scale)
        released("backward pass")
        total = held(opt, outside())
        due = k % hp["T"] == 0
        limit = bound + per_H * due
        require(total <= limit, f"step {k}: {total} bytes after backward, bound {limit}")
        if event == "skip":
            opt.found_inf = torch.tensor(1.0)
            opt.grad_scale = torch.tensor(1.0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opt.step()
        if event == "skip":
            del opt.found_inf, opt.grad_scale
        updates |= due and event != "skip"
        total = held(opt, outside())
        require(total <= bound, f"step {k}: {total} bytes after the step, bound {bound}")
        r.zero_grad()
        gc.collect()
        samples.append((living(outside()), items(opt.state_dict())))
        entries = items(vars(opt)) + attributes(r.model)
        if first is None and event != "skip":
            first = entries
        require(
            first is None or entries <= first,
            f"step {k}: optimizer and model have {entries} entries, {first} before",
        )
        worst = max(worst, total)
        if not r.healthy():
            return dict(labels=["diverged"], nontrivial=False)
    for handle in handles:
        handle.remove()
    # after the first period, nothing grows any more
    period = samples[hp["T"] - 1 :: hp["T"]]
    for i, what in enumerate(["bytes of living tensors", "entries of the state"]):
        series = [s[i] for s in period]
        if len(series) >= 4:
            require(
                not all(a < b for a, b in zip(series, series[1:])),
                f"the {what} grow with every period: {series}",
            )
    labels = hp_labels(case) + ["mode:training"]
    labels += [f"event:{e}" for e in sorted({e for e in case["events"] if e})]
    return dict(labels=labels, nontrivial=len(case["batches"]) >= 4 and updates)


def run(case):
    return run_structure(case) if case["mode"] == "structure" else run_training(case)
