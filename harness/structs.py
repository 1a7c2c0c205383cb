"""Independent dense float64 description of all structures, and builders of the classes.

A structure is described by a JSON value (`spec`):

* a shipped class: "dense", "diagonal", "block30diagonal", "block3diagonal",
  "hierarchical15_15", "hierarchical3_2", "triltoeplitz", "triutoeplitz",
  "triltopleft", "trilbottomright", "triutopleft", "triubottomright"
* a template instance: ["block", b], ["hier", k1, k2],
  ["topright", dimA or null, dimC or null, specA, specC] (null: unbounded),
  ["bottomleft", dimA, dimC, specA, specC]
* a minimal user-defined class: ["minimal", "lowertri" | "scaled" | "circulant"]
"""

import torch

from harness.common import randn

F64 = torch.float64
OPTIMIZER_STRUCTURES = [
    "dense",
    "diagonal",
    "block30diagonal",
    "hierarchical15_15",
    "triltoeplitz",
    "triutoeplitz",
]
SHIPPED = OPTIMIZER_STRUCTURES + [
    "block3diagonal",
    "hierarchical3_2",
    "triltopleft",
    "trilbottomright",
    "triutopleft",
    "triubottomright",
]

# all shipped aliases in terms of the parametric kinds
ALIAS = {
    "block30diagonal": ["block", 30],
    "block3diagonal": ["block", 3],
    "hierarchical15_15": ["hier", 15, 15],
    "hierarchical3_2": ["hier", 3, 2],
    "triltopleft": ["bottomleft", None, 1, "diagonal", "dense"],
    "trilbottomright": ["bottomleft", 1, None, "dense", "diagonal"],
    "triutopleft": ["topright", None, 1, "diagonal", "dense"],
    "triubottomright": ["topright", 1, None, "dense", "diagonal"],
}


def resolve(spec):
    return ALIAS.get(spec, spec) if isinstance(spec, str) else spec


def supports_float64(spec):
    """`lowest_precision` documents float16, bfloat16 and float32 only."""
    spec = resolve(spec)
    if spec in ("dense", "diagonal"):
        return True
    if spec in ("triltoeplitz", "triutoeplitz"):
        return False
    if spec[0] in ("topright", "bottomleft"):
        return supports_float64(spec[3]) and supports_float64(spec[4])
    return spec[0] == "minimal"


def contains_toeplitz(spec):
    spec = resolve(spec)
    if isinstance(spec, str):
        return "toeplitz" in spec
    return spec[0] in ("topright", "bottomleft") and any(
        contains_toeplitz(s) for s in spec[3:]
    )


def leaves(spec, dim):
    """Non-recursive structures of which a matrix consists and their dimensions."""
    kind = resolve(spec)
    if kind[0] in ("topright", "bottomleft"):
        b = boundary(dim, kind[1], kind[2])
        return leaves(kind[3], b) + leaves(kind[4], dim - b)
    return [(kind, dim)]


def boundary(dim, dim_a, dim_c):
    return min(dim_a, dim) if dim_c is None else max(0, dim - dim_c)


def hier_dims(dim, k1, k2):
    a = min(dim, k1)
    e = min(dim - a, k2)
    return a, dim - a - e, e


# --------------------------------------------------------------------------------------
# reference semantics


def project(spec, S):
    """Documented projection of a matrix (symmetric unless it has the structure)."""
    spec = resolve(spec)
    S = S.to(F64)
    n = S.shape[0]
    if spec == "dense":
        return S.clone()
    if spec == "diagonal":
        return torch.diag(torch.diagonal(S)).clone()
    if spec in ("triltoeplitz", "triutoeplitz"):
        out = torch.zeros(n, n, dtype=F64)
        for k in range(n):
            lower = torch.diagonal(S, -k).sum()
            upper = torch.diagonal(S, k).sum()
            value = lower / n if k == 0 else (lower + upper) / (n - k)
            ones = torch.ones(n - k, dtype=F64) * value
            out += torch.diag(ones, -k if spec == "triltoeplitz" else k)
        return out
    kind = spec[0]
    out = torch.zeros(n, n, dtype=F64)
    if kind == "block":
        for i in range(n):
            for j in range(n):
                if i // spec[1] == j // spec[1]:
                    out[i, j] = S[i, j]
        return out
    if kind == "hier":
        a, c, e = hier_dims(n, spec[1], spec[2])
        fold = S + S.T
        out[:a, :a] = S[:a, :a]
        out[:a, a:] = fold[:a, a:]
        for i in range(a, a + c):
            out[i, i] = S[i, i]
        out[a + c :, a : a + c] = fold[a + c :, a : a + c]
        out[a + c :, a + c :] = S[a + c :, a + c :]
        return out
    if kind in ("topright", "bottomleft"):
        b = boundary(n, spec[1], spec[2])
        fold = S + S.T
        out[:b, :b] = project(spec[3], S[:b, :b])
        out[b:, b:] = project(spec[4], S[b:, b:])
        if kind == "topright":
            out[:b, b:] = fold[:b, b:]
        else:
            out[b:, :b] = fold[b:, :b]
        return out
    if kind == "minimal":
        if spec[1] == "lowertri":
            return S.tril() + S.triu(1).T
        if spec[1] == "scaled":
            return torch.eye(n, dtype=F64) * (torch.diagonal(S).sum() / max(n, 1))
        if spec[1] == "circulant":
            vals = torch.zeros(n, dtype=F64)
            for i in range(n):
                for j in range(n):
                    vals[(i - j) % n] += S[i, j] / n
            for i in range(n):
                for j in range(n):
                    out[i, j] = vals[(i - j) % n]
            return out
    raise ValueError(spec)


def random_member(spec, n, g, values="normal", symmetric_blocks=True):
    """A random dense matrix with the structure."""
    spec = resolve(spec)

    def rnd(*shape):
        if values == "int":
            return torch.randint(-2, 3, shape, generator=g).to(F64)
        if values == "sparse":  # some components are zero
            value = torch.randint(-2, 3, shape, generator=g).to(F64)
            keep = torch.randint(0, 4, shape, generator=g) == 0
            return value * keep * int(torch.randint(0, 3, (), generator=g) > 0)
        return randn(g, *shape)

    def square(k):
        m = rnd(k, k)
        return m.tril() + m.tril(-1).T if symmetric_blocks else m

    out = torch.zeros(n, n, dtype=F64)
    if spec == "dense":
        return square(n)
    if spec == "diagonal":
        return torch.diag(rnd(n))
    if spec in ("triltoeplitz", "triutoeplitz"):
        vals = rnd(n)
        for k in range(n):
            ones = torch.ones(n - k, dtype=F64) * vals[k]
            out += torch.diag(ones, -k if spec == "triltoeplitz" else k)
        return out
    kind = spec[0]
    if kind == "block":
        for start in range(0, n, spec[1]):
            end = min(start + spec[1], n)
            out[start:end, start:end] = square(end - start)
        return out
    if kind == "hier":
        a, c, e = hier_dims(n, spec[1], spec[2])
        out[:a, :a] = square(a)
        out[:a, a:] = rnd(a, n - a)
        out[a : a + c, a : a + c] = torch.diag(rnd(c))
        out[a + c :, a : a + c] = rnd(e, c)
        out[a + c :, a + c :] = square(e)
        return out
    if kind in ("topright", "bottomleft"):
        b = boundary(n, spec[1], spec[2])
        out[:b, :b] = random_member(spec[3], b, g, values, symmetric_blocks)
        out[b:, b:] = random_member(spec[4], n - b, g, values, symmetric_blocks)
        if kind == "topright":
            out[:b, b:] = rnd(b, n - b)
        else:
            out[b:, :b] = rnd(n - b, b)
        return out
    if kind == "minimal":
        if spec[1] == "lowertri":
            return rnd(n, n).tril()
        if spec[1] == "scaled":
            return torch.eye(n, dtype=F64) * rnd(1)
        if spec[1] == "circulant":
            vals = rnd(n)
            for i in range(n):
                for j in range(n):
                    out[i, j] = vals[(i - j) % n]
            return out
    raise ValueError(spec)


# --------------------------------------------------------------------------------------
# classes under test

_CLASSES = {}


def get_class(spec):
    """The class under test for a structure."""
    key = str(spec)
    if key not in _CLASSES:
        _CLASSES[key] = _make_class(spec)
    return _CLASSES[key]


def _make_class(spec):
    if spec == "dense":
        from singd.structures.dense import DenseMatrix as C
    elif spec == "diagonal":
        from singd.structures.diagonal import DiagonalMatrix as C
    elif spec == "block30diagonal":
        from singd.structures.blockdiagonal import Block30DiagonalMatrix as C
    elif spec == "block3diagonal":
        from singd.structures.blockdiagonal import Block3DiagonalMatrix as C
    elif spec == "hierarchical15_15":
        from singd.structures.hierarchical import Hierarchical15_15Matrix as C
    elif spec == "hierarchical3_2":
        from singd.structures.hierarchical import Hierarchical3_2Matrix as C
    elif spec == "triltoeplitz":
        from singd.structures.triltoeplitz import TrilToeplitzMatrix as C
    elif spec == "triutoeplitz":
        from singd.structures.triutoeplitz import TriuToeplitzMatrix as C
    elif spec == "triltopleft":
        from singd.structures.triltopleftdiag import TrilTopLeftDiagonalMatrix as C
    elif spec == "trilbottomright":
        from singd.structures.trilbottomrightdiag import (
            TrilBottomRightDiagonalMatrix as C,
        )
    elif spec == "triutopleft":
        from singd.structures.triutopleftdiag import TriuTopLeftDiagonalMatrix as C
    elif spec == "triubottomright":
        from singd.structures.triubottomrightdiag import (
            TriuBottomRightDiagonalMatrix as C,
        )
    elif spec[0] == "block":
        from singd.structures.blockdiagonal import BlockDiagonalMatrixTemplate

        C = type("UserBlock", (BlockDiagonalMatrixTemplate,), {"BLOCK_DIM": spec[1]})
    elif spec[0] == "hier":
        from singd.structures.hierarchical import HierarchicalMatrixTemplate

        C = type(
            "UserHierarchical",
            (HierarchicalMatrixTemplate,),
            {"MAX_K1": spec[1], "MAX_K2": spec[2]},
        )
    elif spec[0] in ("topright", "bottomleft"):
        from singd.structures import recursive

        base = (
            recursive.RecursiveTopRightMatrixTemplate
            if spec[0] == "topright"
            else recursive.RecursiveBottomLeftMatrixTemplate
        )
        dims = tuple(float("inf") if d is None else d for d in spec[1:3])
        C = type(
            "UserRecursive",
            (base,),
            {
                "MAX_DIMS": dims,
                "CLS_A": get_class(spec[3]),
                "CLS_C": get_class(spec[4]),
            },
        )
    elif spec[0] == "minimal":
        C = _minimal(spec[1])
    else:
        raise ValueError(spec)
    return C


def _minimal(name):
    from singd.structures.base import StructuredMatrix

    if name == "lowertri":

        class LowerTriangular(StructuredMatrix):
            def __init__(self, mat):
                super().__init__()
                self.register_tensor(mat, "mat")

            @classmethod
            def from_dense(cls, sym_mat):
                return cls(sym_mat.tril() + sym_mat.triu(1).T)

            def to_dense(self):
                return self.mat.clone()

        return LowerTriangular
    if name == "scaled":

        class ScaledIdentity(StructuredMatrix):
            def __init__(self, value, dim):
                super().__init__()
                self.dim = dim
                self.register_tensor(value, "value")

            @classmethod
            def from_dense(cls, sym_mat):
                return cls(sym_mat.diag().mean().reshape(1), sym_mat.shape[0])

            def to_dense(self):
                v = self.value
                return torch.eye(self.dim, dtype=v.dtype, device=v.device) * v

        return ScaledIdentity
    if name == "circulant":

        class Circulant(StructuredMatrix):
            def __init__(self, col):
                super().__init__()
                self.register_tensor(col, "col")

            @classmethod
            def from_dense(cls, sym_mat):
                n = sym_mat.shape[0]
                i = torch.arange(n, device=sym_mat.device)
                idx = (i.unsqueeze(1) - i.unsqueeze(0)) % n
                col = torch.zeros(n, dtype=sym_mat.dtype, device=sym_mat.device)
                col.scatter_add_(0, idx.flatten(), sym_mat.flatten())
                return cls(col / n)

            def to_dense(self):
                n = self.col.shape[0]
                i = torch.arange(n, device=self.col.device)
                return self.col[(i.unsqueeze(1) - i.unsqueeze(0)) % n]

        return Circulant
    raise ValueError(name)


def build(spec, dense, dtype):
    """Represent a dense matrix with the structure through the documented constructor."""
    cls = get_class(spec)
    spec = resolve(spec)
    d = dense.to(dtype)
    n = d.shape[0]
    if spec == "dense":
        return cls(d.clone())
    if spec == "diagonal":
        return cls(torch.diagonal(d).clone())
    if spec == "triltoeplitz":
        return cls((d[:, 0] if n else d.flatten()).clone())
    if spec == "triutoeplitz":
        return cls((d[0, :] if n else d.flatten()).clone())
    kind = spec[0]
    if kind == "block":
        b = spec[1]
        num = n // b
        blocks = torch.zeros(num, b, b, dtype=dtype)
        for i in range(num):
            blocks[i] = d[i * b : (i + 1) * b, i * b : (i + 1) * b]
        return cls(blocks, d[num * b :, num * b :].clone())
    if kind == "hier":
        a, c, e = hier_dims(n, spec[1], spec[2])
        return cls(
            d[:a, :a].clone(),
            d[:a, a:].clone(),
            torch.diagonal(d)[a : a + c].clone(),
            d[a + c :, a : a + c].clone(),
            d[a + c :, a + c :].clone(),
        )
    if kind in ("topright", "bottomleft"):
        b = boundary(n, spec[1], spec[2])
        A = build(spec[3], dense[:b, :b], dtype)
        C = build(spec[4], dense[b:, b:], dtype)
        B = (d[:b, b:] if kind == "topright" else d[b:, :b]).clone()
        return cls(A, B, C)
    if kind == "minimal":
        if spec[1] == "lowertri":
            return cls(d.clone())
        if spec[1] == "scaled":
            return cls(d[0, 0].reshape(1).clone(), n)
        if spec[1] == "circulant":
            return cls(d[:, 0].clone())
    raise ValueError(spec)


def interesting_dims(spec):
    """Dimensions around the block boundaries of a structure."""
    spec = resolve(spec)
    base = [1, 2, 3, 4, 5, 7, 8]
    if isinstance(spec, str):
        return base + [11, 16, 33]
    if spec[0] == "block":
        b = spec[1]
        return sorted(
            {d for d in base + [b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 2 * b + 4]
             if d >= 1}
        )
    if spec[0] == "hier":
        a, e = spec[1], spec[2]
        s = a + e
        return sorted(
            {d for d in base + [a - 1, a, a + 1, a + 2, s - 1, s, s + 1, s + 2, s + 5]
             if d >= 1}
        )
    return base + [10, 13]
