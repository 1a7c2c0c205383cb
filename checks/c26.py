"""C26: the helper functions for authors of structures do what they document."""

import torch
from hypothesis import strategies as st

from harness.common import DTYPES, EPS, close, gen, maxabs, randn, require, same
from harness.training import F64

ID = "C26"
N = {"quick": 16000, "thorough": 150000}
RULE = (
    "A case is one helper (traces of all diagonals, Toeplitz product, in-place diagonal"
    " update, identity matrix, lowest precision) with a random shape, data type, memory"
    " layout and values, or wrong arguments. Results are compared with loops over entries"
    " in float64; wrong shapes and types must raise the documented exception. Non-trivial:"
    " a matrix with two rows or columns, or two data types."
)
KINDS = ["traces", "toeplitz", "toeplitz", "diagonal", "eye", "precision", "wrong"]
FLOATS = ["float64", "float32", "bfloat16", "float16"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    size = st.one_of(st.integers(1, 6), st.integers(1, 40))
    dtype = draw(st.sampled_from(FLOATS[:2] if kind == "toeplitz" else FLOATS))
    case = dict(
        kind=kind,
        rows=draw(size),
        cols=draw(size),
        dtype=dtype,
        layout=draw(st.sampled_from(["contiguous", "transposed", "slice", "expanded"])),
        integers=draw(st.booleans()),
        seed=draw(st.integers(0, 9999)),
    )
    if kind == "diagonal":
        case["value"] = draw(
            st.sampled_from([0.0, 1.0, -1.0, -0.25, 2, 1e3, "tensor", "int"])
        )
    elif kind == "eye":
        case["default"] = draw(st.sampled_from([None, "float32", "float64", "bfloat16"]))
        case["pass_device"] = draw(st.sampled_from([None, "str", "object"]))
        case["n"] = draw(st.integers(0, 30))
    elif kind == "precision":
        names = st.sampled_from(FLOATS + ["int64", "complex64", "bool", "int16", "uint8"])
        good = st.sampled_from(FLOATS[1:])
        case["dtypes"] = draw(
            st.one_of(
                st.lists(good, min_size=1, max_size=5),
                st.lists(names, min_size=1, max_size=5),
            )
        )
    elif kind == "wrong":
        case["which"] = draw(st.sampled_from(["toeplitz", "diagonal", "diagonal 3d"]))
        case["num"] = draw(st.integers(0, 90))
    return case


def strategy(tier):
    return cases()


def matrix(case, rows, cols, dtype):
    """A random matrix with the layout and a clone of its values."""
    g, layout = gen(case["seed"]), case["layout"]
    if layout == "transposed":
        t = randn(g, cols, rows, dtype=dtype).T
    elif layout == "slice":
        t = randn(g, rows + 2, cols + 3, dtype=dtype)[1:-1, 2:-1]
    elif layout == "expanded" and case["kind"] != "diagonal":
        t = randn(g, rows, 1, dtype=dtype).expand(rows, cols)
    else:
        t = randn(g, rows, cols, dtype=dtype)
    if case["integers"]:
        t = t.mul(4).round() if layout == "expanded" else t.mul_(4).round_()
    return t


def diagonal_sums(dense):
    rows, cols = dense.shape
    out = [0.0] * (rows + cols - 1)
    values = dense.tolist()
    for i in range(rows):
        for j in range(cols):
            out[j - i + rows - 1] += values[i][j]
    return torch.tensor(out, dtype=F64)


def raises(what, error, function, *args):
    try:
        out = function(*args)
    except error:
        return
    except Exception as e:  # noqa: BLE001
        require(False, f"{what} raised {e!r} instead of {error.__name__}")
    require(False, f"{what} was accepted, result {getattr(out, 'shape', out)}")


def run(case):
    from singd.structures import utils

    kind, dtype = case["kind"], DTYPES[case["dtype"]]
    rows, cols, g = case["rows"], case["cols"], gen(case["seed"] + 1)
    eps = EPS[dtype]
    labels, nontrivial = [f"kind:{kind}", f"dtype:{case['dtype']}"], max(rows, cols) > 1
    if kind == "traces":
        t = matrix(case, rows, cols, dtype)
        before = t.clone()
        out = utils.all_traces(t)
        require(out.dtype == dtype, f"all_traces: {out.dtype} for {dtype}")
        require(out.shape == (rows + cols - 1,), f"all_traces: shape {tuple(out.shape)}")
        length = min(rows, cols)
        close("all_traces", out, diagonal_sums(t.to(F64)), 4 * length * eps, maxabs(t) * length)
        same("all_traces modified its argument", t, before)
    elif kind == "toeplitz":
        n = rows
        coeffs = randn(g, 2 * n - 1, dtype=dtype)
        if case["integers"]:
            coeffs = coeffs.mul(3).round()
        if case["layout"] == "slice":
            coeffs = torch.stack([coeffs, coeffs + 1], 1)[:, 0]
        t = matrix(case, n, cols, dtype)
        before = t.clone(), coeffs.clone()
        out = utils.toeplitz_matmul(coeffs, t)
        full = torch.zeros(n, n, dtype=F64)
        for i in range(n):
            for j in range(n):
                full[i, j] = coeffs[j - i + n - 1].item()
        require(out.dtype == dtype, f"toeplitz_matmul: {out.dtype} for {dtype}")
        close("toeplitz_matmul", out, full @ t.to(F64), 8 * n * eps,
              n * maxabs(coeffs) * max(maxabs(t), 1e-3))
        same("toeplitz_matmul modified the matrix", t, before[0])
        same("toeplitz_matmul modified the coefficients", coeffs, before[1])
    elif kind == "diagonal":
        n = rows
        t = matrix(case, n, n, dtype)
        value = case["value"]
        if value == "tensor":
            value = torch.tensor(0.5, dtype=dtype)
        elif value == "int":
            value = 3
        before = t.clone()
        out = utils.diag_add_(t, value)
        require(out is t, "diag_add_ returned another tensor")
        expected = before.clone()
        for i in range(n):
            expected[i, i] = before[i, i] + value
        same("diag_add_", t, expected)
    elif kind == "eye":
        old = torch.get_default_dtype()
        kwargs = {} if case["default"] else dict(dtype=dtype)
        if case["pass_device"]:
            kwargs["device"] = (
                "cpu" if case["pass_device"] == "str" else torch.device("cpu")
            )
        passed = dict(kwargs)
        wanted = DTYPES[case["default"]] if case["default"] else dtype
        try:
            if case["default"]:
                torch.set_default_dtype(wanted)
            out = utils.supported_eye(case["n"], **kwargs)
        finally:
            torch.set_default_dtype(old)
        require(kwargs == passed, "supported_eye modified its arguments")
        n = case["n"]
        require(out.shape == (n, n), f"supported_eye: shape {tuple(out.shape)}")
        require(out.dtype == wanted, f"supported_eye: {out.dtype} instead of {wanted}")
        expected = [[float(i == j) for j in range(n)] for i in range(n)]
        require(out.tolist() == expected, "supported_eye is not the identity")
        if n > 1:
            out[0, 1] = 7.0  # owns its memory
            require(out[1].tolist() == expected[1], "supported_eye shares memory")
        nontrivial = n > 1
    elif kind == "precision":
        names = case["dtypes"]
        given = [getattr(torch, name) for name in names]
        order = ["float16", "bfloat16", "float32"]
        labels = [f"kind:{kind}", f"num:{len(names)}"]
        if all(name in order for name in names):
            out = utils.lowest_precision(*given)
            wanted = getattr(torch, order[min(order.index(name) for name in names)])
            require(out == wanted, f"lowest_precision{tuple(names)} is {out}")
        else:
            labels.append("unsupported")
            raises(f"lowest_precision{tuple(names)}", NotImplementedError,
                   utils.lowest_precision, *given)
        for name, d in zip(names, given):
            half = name in ("float16", "bfloat16")
            require(utils.is_half_precision(d) is half, f"is_half_precision({name})")
        nontrivial = len(set(names)) > 1
    else:
        which, num = case["which"], case["num"]
        labels.append(f"wrong:{which}")
        if which == "toeplitz":
            if num == 2 * rows - 1:
                num += 1
            raises(f"toeplitz_matmul with {num} coefficients and {rows} rows",
                   RuntimeError, utils.toeplitz_matmul, torch.ones(num, dtype=torch.float32),
                   torch.ones(rows, cols, dtype=torch.float32))
        elif which == "diagonal":
            cols += cols == rows
            raises(f"diag_add_ of a {rows}x{cols} matrix", ValueError,
                   utils.diag_add_, torch.ones(rows, cols), 1.0)
        else:
            shape = [(rows,), (rows, rows, rows), ()][num % 3]
            raises(f"diag_add_ of shape {shape}", ValueError, utils.diag_add_,
                   torch.ones(shape), 1.0)
    return dict(labels=labels, nontrivial=nontrivial)
