"""Checks of single structured operations against dense float64 arithmetic."""

import torch

from harness.common import EPS, close, maxabs, randint, randn, require, same
from harness.structs import build, get_class, random_member

F64 = torch.float64
FORMS = ["leaf", "leaf", "product", "product3", "sum", "raw"]


DEGREE = {"product": 2, "product3": 3}  # of the magnitude


def operand(spec, n, g, dtype, values, form, mag=0):
    """Return (structured, dense float64) built with public operations only."""

    def leaf(symmetric_blocks=True):
        d = random_member(spec, n, g, values, symmetric_blocks=symmetric_blocks)
        if values == "normal":
            d = d / max(1.0, n**0.5) * 10.0**mag
        d = d.to(dtype).to(F64)
        return build(spec, d, dtype), d

    if form == "raw":  # e.g. non-symmetric blocks
        return leaf(symmetric_blocks=False)
    A, dA = leaf()
    if form == "leaf":
        return A, dA
    B, dB = leaf()
    if form == "sum":
        return A + B, dA + dB
    A, dA = A @ B, dA @ dB
    if form == "product3":
        B, dB = leaf()
        A, dA = A @ B, dA @ dB
    return A, dA


def dense_operand(g, rows, cols, dtype, values, layout):
    def rnd(r, c):
        if values == "sparse":
            return randint(g, -2, 2, r, c) * (randint(g, 0, 3, r, c) == 0)
        return randint(g, -2, 2, r, c) if values == "int" else randn(g, r, c)

    if layout == "transposed":
        X = rnd(cols, rows).to(dtype).T
    elif layout == "strided":
        X = rnd(rows, 2 * cols).to(dtype)[:, ::2]
    elif layout == "expanded":
        X = rnd(rows, 1).to(dtype).expand(rows, cols)
    else:
        X = rnd(rows, cols).to(dtype)
    return X


def dense_of(A):
    return A.to_dense().detach().clone()


def tolerance(dtype, n, values):
    return (8 + n) * EPS[dtype]


def is_member(what, spec, A, dtype, n):
    require(
        type(A) is get_class(spec),
        f"{what}: result is a {type(A).__name__}, not a {get_class(spec).__name__}",
    )
    for name, t in A.named_tensors():
        require(
            t.dtype == dtype, f"{what}: component {name} has {t.dtype}, not {dtype}"
        )
    d = A.to_dense()
    require(
        tuple(d.shape) == (n, n) and d.dtype == dtype,
        f"{what}: represents {d.dtype}{tuple(d.shape)}, expected {dtype}{(n, n)}",
    )


def snapshot(A):
    return [t.detach().clone() for _, t in A.named_tensors()]


def unchanged(what, A, snap):
    now = [t for _, t in A.named_tensors()]
    require(len(now) == len(snap), f"{what}: operand lost components")
    for t, s in zip(now, snap):
        same(what, t, s)


def absmat(*mats):
    out = mats[0].abs()
    for m in mats[1:]:
        out = out @ m.abs()
    return maxabs(out)


def close_norm(A, dA, tol):
    norm, scale = A.frobenius_norm(), dA.norm().item()
    if norm.dtype == torch.float16:  # squares underflow
        scale += 3e-4 * dA.shape[0] ** 0.5 / tol
    close("Frobenius norm", norm, dA.norm(), tol, scale)


def check_arithmetic(case):
    """All arithmetic operations on two members of one class."""
    from harness.common import DTYPES, gen

    spec, n, values = case["spec"], case["dim"], case["values"]
    dtype = DTYPES[case["dtype"]]
    g = gen(case["seed"])
    tol = tolerance(dtype, n, values)
    alpha = case["alpha"]
    mag, mag2 = case.get("mag", 0), case.get("mag2", 0)
    A, dA = operand(spec, n, g, dtype, values, case["form"], mag)
    B, dB = operand(spec, n, g, dtype, values, case["form2"], mag2)
    X = dense_operand(g, n, case["cols"], dtype, values, case["layout"])
    dX = X.to(F64)
    # scale of intermediate results of compound operands
    unit = 10.0 ** (mag * DEGREE.get(case["form"], 1))
    sA = max(maxabs(dA), 1e-2 * unit)
    slack = 1.0 if case["form"] in ("leaf", "raw") else 3.0 * max(1.0, n**0.5)
    ctol = tol * (3 if "product" in case["form"] + case["form2"] else 1)

    is_member("operand", spec, A, dtype, n)
    is_member("operand", spec, B, dtype, n)
    close("to_dense", dense_of(A), dA, ctol, slack * sA)
    # continue with what the operand actually represents
    dA, dB = dense_of(A).to(F64), dense_of(B).to(F64)
    sA, sB = maxabs(dA), maxabs(dB)
    snapA, snapB, snapX = snapshot(A), snapshot(B), X.clone()

    def pure(what):
        unchanged(f"{what} changed its left operand", A, snapA)
        unchanged(f"{what} changed its right operand", B, snapB)
        same(f"{what} changed its dense operand", X, snapX)

    R = A + B
    is_member("A + B", spec, R, dtype, n)
    close("A + B", dense_of(R), dA + dB, tol, sA + sB)
    pure("A + B")

    R = A * alpha
    is_member("A * alpha", spec, R, dtype, n)
    close("A * alpha", dense_of(R), dA * alpha, tol, sA * abs(alpha))
    pure("A * alpha")

    R = A @ B
    is_member("A @ B", spec, R, dtype, n)
    close("A @ B", dense_of(R), dA @ dB, tol, absmat(dA, dB))
    pure("A @ B")

    R = A @ X
    require(isinstance(R, torch.Tensor), "A @ tensor is not a tensor")
    require(R.dtype == dtype, f"A @ tensor has {R.dtype}, not {dtype}")
    close("A @ tensor", R, dA @ dX, tol, absmat(dA, dX))
    pure("A @ tensor")

    R = A.rmatmat(X)
    require(isinstance(R, torch.Tensor), "rmatmat is not a tensor")
    require(R.dtype == dtype, f"rmatmat has {R.dtype}, not {dtype}")
    close("A.T @ tensor", R, dA.T @ dX, tol, absmat(dA.T, dX))
    pure("rmatmat")

    close("average trace", A.average_trace(), dA.diagonal().mean(), tol, sA)
    close_norm(A, dA, tol)
    close("largest entry", A.infinity_vector_norm(), dA.abs().max(), EPS[dtype], sA)
    pure("norms")

    # in-place operations on copies obtained through pure operations
    def copy(M):
        return M * 1.0

    R = copy(A)
    require(R.add_(B, alpha=alpha) is R, "add_ does not return its receiver")
    is_member("add_", spec, R, dtype, n)
    close("A.add_(B, alpha)", dense_of(R), dA + alpha * dB, tol, sA + abs(alpha) * sB)
    pure("add_")

    R = copy(A)
    require(R.add_(B) is R, "add_ does not return its receiver")
    close("A.add_(B)", dense_of(R), dA + dB, tol, sA + sB)

    R = copy(A)
    R.add_(B, alpha=torch.tensor(alpha, dtype=torch.float32))
    close(
        "A.add_(B, alpha=tensor)",
        dense_of(R),
        dA + alpha * dB,
        max(tol, 1e-6),
        sA + abs(alpha) * sB,
    )
    pure("add_")

    R = copy(A)
    require(R.mul_(alpha) is R, "mul_ does not return its receiver")
    is_member("mul_", spec, R, dtype, n)
    close("A.mul_", dense_of(R), dA * alpha, tol, abs(alpha) * sA)
    pure("mul_")

    R = copy(A)
    require(R.diag_add_(alpha) is R, "diag_add_ does not return its receiver")
    is_member("diag_add_", spec, R, dtype, n)
    close(
        "A.diag_add_",
        dense_of(R),
        dA + alpha * torch.eye(n, dtype=F64),
        tol,
        sA + abs(alpha),
    )
    pure("diag_add_")


def check_extraction(case):
    """All extractions and special constructors against the reference projection."""
    from harness.common import DTYPES, gen
    from harness.structs import project

    spec, n, values, m = case["spec"], case["dim"], case["values"], case["cols"]
    dtype = DTYPES[case["dtype"]]
    cls = get_class(spec)
    g = gen(case["seed"])
    tol = (16 + n + m) * EPS[dtype]

    K, _ = operand(spec, n, g, dtype, values, case["form"], case.get("mag", 0))
    dK = dense_of(K).to(F64)
    X = dense_operand(g, n, m, dtype, values, case["layout"])
    dX = X.to(F64)
    S = dense_operand(g, n, n, dtype, values, "contiguous")
    S = (S + S.T) if case["layout"] != "transposed" else (S + S.T).T
    dS = S.to(F64)
    snapK, snapX, snapS = snapshot(K), X.clone(), S.clone()

    def result(what, R, expected, scale):
        is_member(what, spec, R, dtype, n)
        close(what, dense_of(R), expected, tol, 2 * scale)
        unchanged(f"{what} changed K", K, snapK)
        same(f"{what} changed X", X, snapX)
        same(f"{what} changed S", S, snapS)

    result("from_dense(S)", cls.from_dense(S), project(spec, dS), maxabs(dS))
    result("from_dense(dense K)", cls.from_dense(dense_of(K)), dK, maxabs(dK))
    result(
        "from_mat_inner(X)",
        cls.from_mat_inner(X),
        project(spec, dX @ dX.T),
        absmat(dX, dX.T),
    )
    result(
        "K.from_inner()",
        K.from_inner(),
        project(spec, dK.T @ dK),
        absmat(dK.T, dK),
    )
    L = dK.T @ dX
    result(
        "K.from_inner(X)",
        K.from_inner(X=X),
        project(spec, L @ L.T),
        maxabs((dK.abs().T @ dX.abs()) @ (dK.abs().T @ dX.abs()).T),
    )
    result(
        "K.from_inner2(S)",
        K.from_inner2(S),
        project(spec, dK.T @ dS @ dK),
        absmat(dK.T, dS, dK),
    )
    # K^T S K with S = X X^T must agree with K^T X X^T K
    XXT = X @ X.T
    result(
        "K.from_inner2(X X^T)",
        K.from_inner2(XXT),
        project(spec, dK.T @ XXT.to(F64) @ dK),
        absmat(dK.T, XXT.to(F64), dK),
    )
    eye = torch.eye(n, dtype=F64)
    result("eye", cls.eye(n, dtype=dtype, device=torch.device("cpu")), eye, 0.0)
    result("eye", cls.eye(n, dtype=dtype), eye, 0.0)
    result("zeros", cls.zeros(n, dtype=dtype), 0 * eye, 0.0)
    for what in ("eye", "zeros"):
        try:
            M = getattr(cls, what)(n, dtype=dtype, device=torch.device("meta"))
        except (NotImplementedError, RuntimeError) as e:
            # an implementation may look at the values, which this device has not
            if isinstance(e, NotImplementedError) or "meta tensors" in str(e):
                continue
            raise
        for name, t in M.named_tensors():
            require(
                t.device.type == "meta" and t.dtype == dtype,
                f"{what}: component {name} is {t.dtype} on {t.device}, not on the device",
            )
    default = torch.get_default_dtype()
    for what, M, d in [("eye", cls.eye(n), eye), ("zeros", cls.zeros(n), 0 * eye)]:
        is_member(f"{what} (default type)", spec, M, default, n)
        close(f"{what} (default type)", dense_of(M), d, 0.0)


# --------------------------------------------------------------------------------------
# histories of operations

PUSH = ["new", "add", "matmul", "mul", "inner", "innerX", "inner2", "eye", "zeros",
        "project", "copy"]
INPLACE = ["add_", "mul_", "diag_add_"]
QUERY = ["query"]
LIMIT = 1e3


def run_program(case):
    """Run a history over live matrices with a dense mirror. Returns statistics."""
    from harness.common import DTYPES, gen
    from harness.structs import project

    spec, n = case["spec"], case["dim"]
    dtype = DTYPES[case["dtype"]]
    cls = get_class(spec)
    tol = (16 + n) * EPS[dtype]
    live = []  # [structured, dense float64 mirror, bit-wise snapshot]
    stats = dict(push=0, inplace=0, skipped=0)

    def register(M, d, what, scale):
        is_member(what, spec, M, dtype, n)
        close(what, dense_of(M), d, tol, scale)
        live.append([M, dense_of(M).to(F64), snapshot(M)])

    def others_untouched(what, index):
        for k, (M, _, snap) in enumerate(live):
            if k != index:
                unchanged(f"{what} changed another matrix (#{k})", M, snap)

    def inplace(what, i, apply, expected, scale):
        M = live[i][0]
        R = apply(M)
        require(R is M, f"{what} does not return its receiver")
        is_member(what, spec, M, dtype, n)
        close(what, dense_of(M), expected, tol, scale)
        live[i][1], live[i][2] = dense_of(M).to(F64), snapshot(M)
        others_untouched(what, i)

    for op, i, j, alpha, seed in case["ops"]:
        g = gen(seed)
        if not live and op not in ("new", "eye", "zeros", "project"):
            op = "new"
        if live:
            i, j = i % len(live), j % len(live)
            (A, dA, _), (B, dB, _) = live[i], live[j]
            sA, sB = maxabs(dA), maxabs(dB)
        what = f"{op}(#{i}, #{j}, {alpha})"
        if op == "new":
            d = random_member(spec, n, g) / max(1.0, n**0.5)
            d = d.to(dtype).to(F64)
            register(build(spec, d, dtype), d, what, maxabs(d))
        elif op == "project":
            S = randn(g, n, n).to(dtype)
            S = (S + S.T) / 2
            d = project(spec, S)
            register(cls.from_dense(S.clone()), d, what, 2 * maxabs(S))
        elif op == "eye":
            register(cls.eye(n, dtype=dtype), torch.eye(n, dtype=F64), what, 1.0)
        elif op == "zeros":
            zero = torch.zeros(n, n, dtype=F64)
            register(cls.zeros(n, dtype=dtype), zero, what, 0.0)
        elif op == "add":
            register(A + B, dA + dB, what, sA + sB)
        elif op == "copy":
            register(A * 1.0, dA, what, sA)
        elif op == "mul":
            if abs(alpha) * sA > LIMIT:
                stats["skipped"] += 1
                continue
            register(A * alpha, dA * alpha, what, abs(alpha) * sA)
        elif op == "matmul":
            scale = absmat(dA, dB)
            if scale > LIMIT:
                stats["skipped"] += 1
                continue
            register(A @ B, dA @ dB, what, scale)
        elif op == "inner":
            scale = absmat(dA.T, dA)
            if scale > LIMIT:
                stats["skipped"] += 1
                continue
            register(A.from_inner(), project(spec, dA.T @ dA), what, 2 * scale)
        elif op == "innerX":
            X = (randn(g, n, 1 + seed % 5) / max(1.0, n**0.5)).to(dtype)
            Xc = X.clone()
            L = dA.abs().T @ X.to(F64).abs()
            scale = maxabs(L @ L.T)
            if scale > LIMIT:
                stats["skipped"] += 1
                continue
            L = dA.T @ X.to(F64)
            register(A.from_inner(X=X), project(spec, L @ L.T), what, 2 * scale)
            same("from_inner(X) changed X", X, Xc)
        elif op == "inner2":
            S = randn(g, n, n).to(dtype)
            S = (S + S.T) / n
            Sc, dS = S.clone(), S.to(F64)
            scale = absmat(dA.T, dS, dA)
            if scale > LIMIT:
                stats["skipped"] += 1
                continue
            register(
                A.from_inner2(S), project(spec, dA.T @ dS @ dA), what, 2 * scale
            )
            same("from_inner2(S) changed S", S, Sc)
        elif op == "add_":
            if sA + abs(alpha) * sB > LIMIT:
                stats["skipped"] += 1
                continue
            inplace(
                what,
                i,
                lambda M: M.add_(B, alpha=alpha),
                dA + alpha * dB,
                sA + abs(alpha) * sB,
            )
        elif op == "mul_":
            if abs(alpha) * sA > LIMIT:
                stats["skipped"] += 1
                continue
            inplace(what, i, lambda M: M.mul_(alpha), dA * alpha, abs(alpha) * sA)
        elif op == "diag_add_":
            eye = torch.eye(n, dtype=F64)
            inplace(
                what, i, lambda M: M.diag_add_(alpha), dA + alpha * eye, sA + abs(alpha)
            )
        elif op == "query":
            X = randn(g, n, 1 + seed % 4).to(dtype)
            dX = X.to(F64)
            close("A @ X", A @ X, dA @ dX, tol, absmat(dA, dX))
            close("A^T @ X", A.rmatmat(X), dA.T @ dX, tol, absmat(dA.T, dX))
            close("average trace", A.average_trace(), dA.diagonal().mean(), tol, sA)
            close_norm(A, dA, tol)
            close("largest entry", A.infinity_vector_norm(), dA.abs().max(), tol)
        else:
            raise ValueError(op)
        if op in PUSH or op in QUERY:
            others_untouched(what, None)
            stats["push"] += op in PUSH
        else:
            stats["inplace"] += 1
        if len(live) > 7:  # forget the oldest matrix
            live.pop(0)

    # nothing that is alive shares memory: modify each matrix in turn
    for i, (M, d, _) in enumerate(live):
        inplace(f"final mul_(#{i})", i, lambda M: M.mul_(-2.0), -2 * d, 2 * maxabs(d))
        d = live[i][1]
        eye = torch.eye(n, dtype=F64)
        inplace(
            f"final diag_add_(#{i})",
            i,
            lambda M: M.diag_add_(0.5),
            d + 0.5 * eye,
            maxabs(d) + 0.5,
        )
        d = live[i][1]
        inplace(
            f"final add_(#{i}, #{i})",
            i,
            lambda M: M.add_(M, alpha=1.0),
            2 * d,
            2 * maxabs(d),
        )
    return stats
