"""C03: histories of structured operations stay exact, closed and free of aliasing."""

from hypothesis import strategies as st

from harness.ops import INPLACE, PUSH, QUERY, run_program
from harness.structs import SHIPPED, interesting_dims, resolve, supports_float64

ID = "C03"
N = {"quick": 16000, "thorough": 80000}
RULE = (
    "A case is a structure class, a dimension and a history of 1-25 operations over up"
    " to 8 live matrices, mirrored densely; all matrices are checked after every"
    " operation. Non-trivial: dimension >= 2, at least 3 results and 1 in-place update."
)

ALPHAS = [0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 0.1, -3.0]


@st.composite
def programs(draw, specs=st.sampled_from(SHIPPED), max_ops=25):
    spec = draw(specs)
    dtypes = ["float32"] * 3 + (["float64"] * 2 if supports_float64(spec) else [])
    op = st.sampled_from(PUSH + INPLACE * 3 + QUERY + ["matmul", "inner", "innerX"])
    ops = st.lists(
        st.tuples(
            op,
            st.integers(0, 7),
            st.integers(0, 7),
            st.sampled_from(ALPHAS),
            st.integers(0, 999),
        ),
        min_size=min(max_ops, draw(st.sampled_from([1, 4, 10, 16]))),
        max_size=max_ops,
    )
    return dict(
        spec=spec,
        dim=draw(
            st.one_of(
                st.sampled_from(interesting_dims(spec)),
                st.integers(1, 9),
                st.integers(1, 66),
            )
        ),
        dtype=draw(st.sampled_from(dtypes)),
        ops=[list(o) for o in draw(ops)],
    )


def strategy(tier):
    return programs(max_ops=25 if tier == "quick" else 60)


def run(case):
    stats = run_program(case)
    n = case["dim"]
    labels = [f"class:{case['spec']}", f"dtype:{case['dtype']}"]
    labels += [f"op:{o}" for o in sorted({o[0] for o in case["ops"]})]
    labels.append("dim<=8" if n <= 8 else "dim<=30" if n <= 30 else "dim>30")
    if stats["skipped"]:
        labels.append("some operation skipped (too large)")
    kind = resolve(case["spec"])
    if kind[0] in ("block", "hier"):
        labels.append("blocks")
    nontrivial = n >= 2 and stats["push"] >= 3 and stats["inplace"] >= 1
    return dict(labels=labels, nontrivial=nontrivial)
