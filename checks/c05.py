"""C05: structured matrices reject inconsistent constructions."""

import torch
from hypothesis import strategies as st

from harness.common import Violation, gen, randn, require, same
from harness.structs import build, get_class, hier_dims, random_member, resolve

ID = "C05"
N = {"quick": 48000, "thorough": 300000}
RULE = (
    "A case is a structure (template parameters drawn) and component shapes obtained from"
    " consistent ones by 0-2 perturbations (dimension +-1/2, swapped, dropped or added"
    " axis, wrong type). Non-trivial: at least one perturbation, or a consistent"
    " construction of dimension >= 2."
)

small = st.integers(0, 7)
delta = st.sampled_from([-2, -1, 1, 2, 3])


@st.composite
def cases(draw):
    kind = draw(
        st.sampled_from(
            ["block", "hier", "topright", "bottomleft", "names", "maxdims",
             "nonsquare", "matmul"]
        )
    )
    case = dict(kind=kind, seed=draw(st.integers(0, 10**5)))
    if kind == "block":
        case.update(b=draw(st.integers(1, 6)), num=draw(st.integers(0, 4)))
        case.update(last=draw(st.integers(0, case["b"] - 1)))
    elif kind == "hier":
        case.update(
            k1=draw(st.integers(1, 5)), k2=draw(st.integers(1, 5)),
            dim=draw(st.integers(1, 14)),
        )
    elif kind in ("topright", "bottomleft"):
        case.update(
            max=draw(st.integers(1, 5)),
            which=draw(st.integers(0, 1)),
            dim=draw(st.integers(2, 10)),
            a=draw(st.sampled_from(["dense", "diagonal"])),
            c=draw(st.sampled_from(["dense", "diagonal", "triltoeplitz"])),
            # consistent blocks of any dimension, also too large ones
            free=draw(
                st.one_of(st.none(), st.tuples(*[st.integers(1, 8)] * 2).map(list))
            ),
        )
    elif kind == "maxdims":
        case.update(
            base=draw(st.sampled_from(["topright", "bottomleft"])),
            dims=draw(
                st.lists(
                    st.one_of(st.integers(1, 5), st.none(), st.just("float")),
                    min_size=1,
                    max_size=3,
                )
            ),
            dim=draw(st.integers(1, 6)),
        )
    elif kind == "names":
        case.update(
            sub=draw(st.booleans()),
            name=draw(
                st.sampled_from(
                    ["first", "second", "to_dense", "named_tensors", "_tensor_names",
                     "register_tensor", "add_", "fresh", "other"]
                )
            ),
        )
    elif kind == "nonsquare":
        case.update(
            spec=draw(
                st.sampled_from(
                    ["hierarchical15_15", "hierarchical3_2", "triltopleft",
                     "trilbottomright", "triutopleft", "triubottomright",
                     "triltoeplitz", "triutoeplitz", ["hier", 2, 2],
                     ["topright", 2, None, "dense", "diagonal"]]
                )
            ),
            rows=draw(st.integers(1, 40)),
            cols=draw(st.integers(1, 40)),
            third=draw(st.sampled_from([None, None, None, 1, 2, "same", "vector"])),
        )
    elif kind == "matmul":
        case.update(
            spec=draw(
                st.sampled_from(
                    ["block30diagonal", "block3diagonal", "triltoeplitz",
                     "triutoeplitz", ["block", 2], ["block", 5]]
                )
            ),
            dim=draw(st.integers(1, 12)),
            rows=draw(st.integers(1, 14)),
            cols=draw(st.integers(1, 4)),
            transpose=draw(st.booleans()),
        )
    # perturbations: component index, axis, change
    case["perturb"] = [
        list(p)
        for p in draw(
            st.lists(
                st.tuples(
                    st.integers(0, 4),
                    st.integers(0, 2),
                    st.one_of(delta, st.sampled_from(["drop", "add", "square"])),
                ),
                max_size=2,
            )
        )
    ]
    return case


def strategy(tier):
    return cases()


def perturb(shapes, perturbations):
    shapes = [list(s) for s in shapes]
    for comp, axis, change in perturbations:
        s = shapes[comp % len(shapes)]
        if change == "drop":
            if s:
                s.pop()
        elif change == "add":
            s.append(1)
        elif change == "square":  # change all but a leading batch axis
            start = 1 if len(s) == 3 else 0
            for k in range(start, len(s)):
                s[k] += 1
        elif s:
            axis = axis % len(s)
            s[axis] = max(0, s[axis] + change)
    return [tuple(s) for s in shapes]


def raises(fn, *exceptions):
    try:
        fn()
    except exceptions:
        return True
    return False


def expect(what, fn, valid, dense=None):
    """Constructor accepts consistent components (faithfully), rejects others."""
    if valid:
        M = fn()
        if dense is not None:
            same(f"{what}: represented matrix", M.to_dense(), dense)
        return
    try:
        fn()
    except ValueError:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}), not ValueError")
    raise Violation(f"{what}: inconsistent components were accepted")


def size(case):
    if case["kind"] == "block":
        return case["num"] * case["b"] + case["last"]
    return case.get("dim", 0)


def run(case):
    kind, g = case["kind"], gen(case["seed"])
    pert = case["perturb"]
    valid = None
    if kind == "block":
        b = case["b"]
        cls = get_class(["block", b])
        base = [(case["num"], b, b), (case["last"], case["last"])]
        sb, sl = perturb(base, pert)
        valid = (
            len(sb) == 3
            and sb[1:] == (b, b)
            and len(sl) == 2
            and sl[0] == sl[1]
            and sl[0] < b
        )
        blocks, last = (randn(g, *s, dtype=torch.float32) for s in (sb, sl))
        dense = None
        if valid:
            dense = torch.block_diag(*blocks, last).to(torch.float32)
            n = sb[0] * b + sl[0]
            dense = dense.reshape(n, n) if n else None
        expect(f"blocks {sb}, last {sl}, BLOCK_DIM={b}", lambda: cls(blocks, last),
               valid, dense)
    elif kind == "hier":
        k1, k2 = case["k1"], case["k2"]
        cls = get_class(["hier", k1, k2])
        a, c, e = hier_dims(case["dim"], k1, k2)
        base = [(a, a), (a, c + e), (c,), (e, c), (e, e)]
        s = perturb(base, pert)
        consistent = (
            [len(x) for x in s] == [2, 2, 1, 2, 2]
            and s[0][0] == s[0][1]
            and s[4][0] == s[4][1]
            and s[0][0] <= k1
            and s[4][0] <= k2
            and s[1] == (s[0][0], s[2][0] + s[4][0])
            and s[3] == (s[4][0], s[2][0])
        )
        comps = [randn(g, *x, dtype=torch.float32) for x in s]
        valid = consistent
        if consistent and hier_dims(s[0][0] + s[2][0] + s[4][0], k1, k2) != (
            s[0][0], s[2][0], s[4][0]
        ):
            return dict(labels=["unspecified"], nontrivial=False)
        expect(f"components {s}, MAX_K1={k1}, MAX_K2={k2}", lambda: cls(*comps), valid)
        if valid:
            A, B, C, D, E = comps
            M = cls(*comps).to_dense()
            a, c = A.shape[0], C.shape[0]
            ref = torch.zeros_like(M)
            ref[:a, :a], ref[:a, a:] = A, B
            ref[a : a + c, a : a + c] = torch.diag(C)
            ref[a + c :, a : a + c], ref[a + c :, a + c :] = D, E
            same("represented matrix", M, ref)
    elif kind in ("topright", "bottomleft"):
        maxs = [case["max"], None] if case["which"] == 0 else [None, case["max"]]
        spec = [kind, *maxs, case["a"], case["c"]]
        cls = get_class(spec)
        n, b = case["dim"], 0
        b = min(case["max"], n) if case["which"] == 0 else max(0, n - case["max"])
        b = max(b, 1) if n > 1 else b
        dims = [b, n - b]
        if case["free"]:
            dims = list(case["free"])
            b, n = dims[0], sum(dims)
        if not (0 < b < n):  # both blocks non-empty
            return dict(labels=["empty block"], nontrivial=False)
        sB = (b, n - b) if kind == "topright" else (n - b, b)
        swap = False
        wrong = False
        for comp, axis, change in pert:
            if comp % 3 == 0 and isinstance(change, int):
                dims[axis % 2] = max(1, dims[axis % 2] + change)
            elif comp % 3 == 1:
                (sB,) = perturb([sB], [[0, axis, change]])
            elif comp % 3 == 2 and change == "square":
                wrong = True
            elif comp % 3 == 2 and change == "add":
                swap = True
        sa, sc = case["a"], case["c"]
        if wrong:  # a class that is not the declared one
            sc = "triutoeplitz"
        if swap:
            sa, sc = sc, sa
        right = (dims[0], dims[1]) if kind == "topright" else (dims[1], dims[0])
        valid = (
            (sa, sc) == (case["a"], case["c"])
            and sB == right
            and (maxs[0] is None or dims[0] <= maxs[0])
            and (maxs[1] is None or dims[1] <= maxs[1])
        )
        dA = random_member(sa, dims[0], g)
        dC = random_member(sc, dims[1], g)
        A, C = build(sa, dA, torch.float32), build(sc, dC, torch.float32)
        B = randn(g, *sB, dtype=torch.float32)
        ref = None
        if valid:
            ref = torch.block_diag(A.to_dense(), C.to_dense())
            k = dims[0]
            if kind == "topright":
                ref[:k, k:] = B
            else:
                ref[k:, :k] = B
        expect(
            f"A {sa}{dims[0]}, B {sB}, C {sc}{dims[1]}, template {spec}",
            lambda: cls(A, B, C),
            valid,
            ref,
        )
    elif kind == "maxdims":
        from singd.structures import recursive
        from singd.structures.dense import DenseMatrix

        base = (
            recursive.RecursiveTopRightMatrixTemplate
            if case["base"] == "topright"
            else recursive.RecursiveBottomLeftMatrixTemplate
        )
        inf = float("inf")
        dims = tuple(
            inf if d is None else 2.5 if d == "float" else d for d in case["dims"]
        )
        cls = type(
            "UserRecursive",
            (base,),
            dict(MAX_DIMS=dims, CLS_A=DenseMatrix, CLS_C=DenseMatrix),
        )
        valid = len(dims) == 2 and sorted(
            "inf" if d == inf else type(d).__name__ for d in dims
        ) == ["inf", "int"]
        S = randn(g, case["dim"], case["dim"], dtype=torch.float32)
        expect(f"MAX_DIMS={dims}", lambda: cls.from_dense(S), valid)
    elif kind == "names":
        from singd.structures.dense import DenseMatrix
        from singd.structures.recursive import RecursiveStructuredMatrix

        class User(RecursiveStructuredMatrix):
            def __init__(self):
                super().__init__()
                self.register_tensor(torch.ones(2), "first")
                self.register_substructure(DenseMatrix(torch.eye(2)), "second")

            def to_dense(self):
                return torch.eye(2)

            @classmethod
            def from_dense(cls, sym_mat):
                return cls()

        M = User()
        name = case["name"]
        valid = name in ("fresh", "other")
        before = {k: id(v) for k, v in M.named_tensors()}
        if case["sub"]:
            thing = DenseMatrix(torch.ones(3, 3))
            register = M.register_substructure
        else:
            thing = torch.ones(3)
            register = M.register_tensor
        expect(f"register {name!r}", lambda: register(thing, name) or M, valid)
        if valid:
            require(getattr(M, name) is thing, "registered object not accessible")
            names = dict(M.named_tensors())
            want = thing if not case["sub"] else thing.to_dense()
            require(
                any(t is thing or torch.equal(t, want) for t in names.values()),
                "registered object not listed",
            )
        else:
            after = {k: id(v) for k, v in M.named_tensors()}
            require(before == after, "failed registration modified the matrix")
    elif kind == "nonsquare":
        cls = get_class(case["spec"])
        r, c = case["rows"], case["cols"]
        valid = r == c
        S = randn(g, r, c, dtype=torch.float32)
        third = case["third"]
        if third == "vector":
            S, valid = S[:, 0], False
        elif third is not None:
            third = r if third == "same" else third
            S, valid = randn(g, r, r if third % 2 else c, third, dtype=torch.float32), False
        if valid:
            cls.from_dense(S + S.T)
        else:
            require(
                raises(lambda: cls.from_dense(S), Exception),
                f"{case['spec']}.from_dense accepted a tensor of shape {tuple(S.shape)}",
            )
        pert = [1]
    elif kind == "matmul":
        spec, n = case["spec"], case["dim"]
        M = build(spec, random_member(spec, n, g), torch.float32)
        X = randn(g, case["rows"], case["cols"], dtype=torch.float32)
        valid = case["rows"] == n
        fn = (lambda: M.rmatmat(X)) if case["transpose"] else (lambda: M @ X)
        if valid:
            fn()
        elif resolve(spec)[0] == "block":
            require(raises(fn, ValueError), f"{spec} @ {tuple(X.shape)} accepted")
        else:
            require(raises(fn, Exception), f"{spec} @ {tuple(X.shape)} accepted")
        pert = [1]
    return dict(
        labels=[f"{kind}:{'valid' if valid else 'invalid'}"],
        nontrivial=bool(pert) or size(case) >= 2,
    )
