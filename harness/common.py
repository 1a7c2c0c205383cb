"""Assertions and tensor generation shared by all checks."""

import math

import torch


class Violation(Exception):
    """The property does not hold for the current case."""


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def gen(seed):
    g = torch.Generator()
    g.manual_seed(int(seed) % (2**31 - 1))
    return g


def randn(g, *shape, dtype=torch.float64):
    return torch.randn(shape, generator=g, dtype=torch.float64).to(dtype)


def randint(g, low, high, *shape, dtype=torch.float64):
    """Integer-valued entries from low..high (inclusive)."""
    return torch.randint(low, high + 1, shape, generator=g).to(dtype)


EPS = {
    torch.float64: 2.3e-16,
    torch.float32: 1.2e-7,
    torch.bfloat16: 7.9e-3,
    torch.float16: 9.8e-4,
}

DTYPES = {
    "float64": torch.float64,
    "float32": torch.float32,
    "bfloat16": torch.bfloat16,
    "float16": torch.float16,
    None: None,
}


def maxabs(t):
    return t.detach().abs().max().item() if t.numel() else 0.0


def error(actual, expected):
    """Largest absolute difference; inf on shape mismatch or non-finite mismatch."""
    if not isinstance(actual, torch.Tensor):
        actual = torch.as_tensor(actual)
    if tuple(actual.shape) != tuple(expected.shape):
        return math.inf
    a = actual.detach().to(torch.float64)
    e = expected.detach().to(torch.float64)
    if a.numel() == 0:
        return 0.0
    d = (a - e).abs().max().item()
    return math.inf if math.isnan(d) else d


def close(what, actual, expected, tol, scale=None):
    """`|actual - expected| <= tol * scale` with the scale in magnitude of values."""
    if not isinstance(actual, torch.Tensor):
        actual = torch.as_tensor(actual)
    if not isinstance(expected, torch.Tensor):
        expected = torch.as_tensor(expected, dtype=torch.float64)
    if tuple(actual.shape) != tuple(expected.shape):
        raise Violation(
            f"{what}: shape {tuple(actual.shape)}, expected {tuple(expected.shape)}"
        )
    if scale is None:
        scale = maxabs(expected)
    err = error(actual, expected)
    floor = 1e-6 if actual.dtype == torch.float16 else 1e-30  # subnormal numbers
    if not err <= tol * scale + floor:
        raise Violation(
            f"{what}: max. difference {err:.4g} exceeds {tol:.2g} * {scale:.4g};"
            f" got {_short(actual)}, expected {_short(expected)}"
        )


def same(what, actual, expected):
    """Bit-wise equality (including dtype)."""
    require(
        actual.dtype == expected.dtype and actual.shape == expected.shape,
        f"{what}: {actual.dtype}{tuple(actual.shape)} instead of"
        f" {expected.dtype}{tuple(expected.shape)}",
    )
    if not torch.equal(actual, expected):
        raise Violation(f"{what}: values changed by {error(actual, expected):.4g}")


def _short(t):
    flat = t.detach().flatten()
    vals = ", ".join(f"{v:.5g}" for v in flat[:6].tolist())
    return f"[{vals}{', ...' if flat.numel() > 6 else ''}]{tuple(t.shape)}"
