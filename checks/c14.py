"""C14: distributed training equals single-device training on the joint batch."""

import torch
import torch.distributed as dist
from hypothesis import strategies as st

from checks.c04 import specs as template_specs
from checks.c04 import valid_dim
from harness.common import DTYPES, EPS, close, gen, maxabs, require
from harness.models import build_model, supported_layers
from harness.ops import dense_of, is_member, operand
from harness.ranks import run_ranks
from harness.structs import SHIPPED, interesting_dims
from harness.training import (
    TOL,
    RefRun,
    Run,
    compare_observed,
    healthy,
    hp_labels,
    identical_states,
    trainings,
)

ID = "C14"
N = {"quick": 3200, "thorough": 20000}
RULE = (
    "A case is (train) a model, hyper-parameters for all or for two groups of layers, and"
    " a history of steps whose mini-batch is split equally over 1-8 ranks, each with own"
    " model and optimizer on a threaded process group, optionally with a gradient scale"
    " and micro-batches; ranks must agree bit-wise and with the reference on the joint"
    " batch. Or (reduce) a structure, 1-8 ranks with different members (products, sums,"
    " non-contiguous components), sum or mean, blocking or not. Non-trivial: at least two"
    " ranks."
)
ASSUMPTIONS = [
    "Ranks are threads on torch's in-process 'threaded' backend: the collectives' values"
    " are real, the asynchrony and memory-layout demands of NCCL are not modelled."
]


@st.composite
def cases(draw, max_steps):
    ranks = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 4, 5, 8]))
    if draw(st.integers(0, 2)) == 0:
        if draw(st.integers(0, 2)) == 0:  # user-defined
            spec = draw(template_specs)
            dim = valid_dim(spec, draw(st.integers(1, 30)))
        else:
            spec = draw(st.sampled_from(SHIPPED))
            dim = None
        if dim is None:
            spec = "block3diagonal" if not isinstance(spec, str) else spec
            dim = draw(
                st.one_of(st.sampled_from(interesting_dims(spec)), st.integers(1, 40))
            )
        return dict(
            kind="reduce",
            ranks=ranks,
            spec=spec,
            dim=dim,
            form=draw(st.sampled_from(["leaf", "sum", "product", "view", "scaled"])),
            op=draw(st.sampled_from(["AVG", "SUM", None])),
            async_op=draw(st.booleans()),
            group=draw(st.sampled_from(["default", "default", "world", "part"])),
            seed=draw(st.integers(0, 9999)),
        )
    case = draw(trainings(max_steps=max_steps, max_batch=3))
    case.update(kind="train", ranks=ranks)
    case["groups"] = None
    layers = list(supported_layers(build_model(case["model"])).items())
    if len(layers) > 1 and draw(st.integers(0, 2)) == 0:
        cut = draw(st.integers(1, len(layers) - 1))
        parts = [layers[:cut], layers[cut:]]
        case["groups"] = [
            dict(
                names=[f"{n}.{k}" for n, m in part for k, _ in m.named_parameters()],
                hp=dict(
                    T=draw(st.sampled_from([1, 2])),
                    lr_cov=draw(st.sampled_from([0.05, 0.3])),
                    kfac_approx=draw(st.sampled_from(["expand", "reduce"])),
                ),
            )
            for part in parts
        ]
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 1.0, 64.0]))
    averaged = case["hp"]["loss_average"] is not None and not case["hp"]["kfac_like"]
    case["micro"] = draw(st.sampled_from([1, 1, 1, 2, 3])) if averaged else 1
    return case


def strategy(tier):
    return cases(4 if tier == "quick" else 12)


def run_reduce(case):
    spec, n, ranks, form = case["spec"], case["dim"], case["ranks"], case["form"]
    dtype = torch.float32
    members = []
    for rank in range(ranks):
        g = gen(case["seed"] * 7 + rank)
        if form == "view":  # e.g. transposed components
            M, _ = operand(spec, n, g, dtype, "normal", "raw")
            for _, t in M.named_tensors():
                if t.dim() == 2:
                    t.data = t.data.T.contiguous().T
                elif t.dim() == 1:
                    t.data = torch.stack([t.data, t.data], 1)[:, 0]
                else:
                    t.data = t.data.transpose(1, 2).contiguous().transpose(1, 2)
        elif form == "scaled":
            M = operand(spec, n, g, dtype, "normal", "leaf")[0] * 3.0
        else:
            M = operand(spec, n, g, dtype, "normal", form)[0]
        members.append((M, dense_of(M).to(torch.float64)))
    total = sum(d for _, d in members)
    expected = total if case["op"] == "SUM" else total / ranks
    kwargs = {} if case["op"] is None else dict(op=getattr(dist.ReduceOp, case["op"]))

    part = list(range(max(1, ranks - 1)))  # without the last rank
    which = case.get("group", "default")
    if which == "part":
        total = sum(d for _, d in members[: len(part)])
        expected = total if case["op"] == "SUM" else total / len(part)

    def rank_main(rank):
        M = members[rank][0]
        if which != "default":
            group = dist.new_group(part if which == "part" else None)
            if which == "part" and rank not in part:
                return  # takes no part in the reduction
            reduce(M, group=group, **kwargs)
        else:
            reduce(M, **kwargs)

    def reduce(M, **kwargs):
        if case["async_op"]:
            handles = M.all_reduce(async_op=True, **kwargs)
            handles = handles if isinstance(handles, (tuple, list)) else [handles]
            for h in handles:
                h.wait()
        else:
            out = M.all_reduce(**kwargs)
            require(out is None, "a blocking all_reduce returned something")

    run_ranks(ranks, rank_main)
    scale = max(maxabs(d) for _, d in members)
    for rank, (M, _) in enumerate(members):
        is_member(f"rank {rank}", spec, M, dtype, n)
        outside = which == "part" and rank not in part
        close(
            f"all_reduce({case['op']}) in {which} group on rank {rank}",
            dense_of(M),
            members[rank][1] if outside else expected,
            8 * ranks * EPS[dtype],
            ranks * scale,
        )
    return dict(
        labels=[f"reduce:{spec}", f"ranks:{ranks}", f"form:{form}",
                f"group:{which}", "async" if case["async_op"] else "blocking"],
        nontrivial=ranks > 1,
    )


def run(case):
    if case["kind"] == "reduce":
        return run_reduce(case)
    ranks, micro, scale = case["ranks"], case["micro"], case["scale"]
    parts = ranks * micro

    def rank_main(rank):
        real = Run(case, groups=case["groups"], init_grad_scale=scale)
        states = []
        for n, seed in case["batches"]:
            x, y = real.data([n * parts, seed])
            real.zero_grad()
            for i in range(micro):
                rows = slice((rank * micro + i) * n, (rank * micro + i + 1) * n)
                loss = real.loss(x[rows], y[rows]) * (scale / micro)
                loss.backward()
            if scale != 1.0:
                real.opt.set_current_grad_scale(scale)
            real.opt.step()
            states.append(real.state())
        return states

    results = run_ranks(ranks, rank_main)
    ref = RefRun(case, groups=case["groups"])
    tol = TOL[DTYPES[case["dtype"]]]
    done = 0
    for k, (n, seed) in enumerate(case["batches"]):
        state = results[0][k]
        if not healthy(state):
            break
        for rank in range(1, ranks):
            identical_states(f"step {k}: rank {rank} vs. rank 0", results[rank][k], state)
        ref.step([n * parts, seed])
        compare_observed(f"step {k} on {ranks} ranks", state, ref, tol)
        ref.adopt_state(state)
        done += 1
    labels = hp_labels(case) + [f"ranks:{ranks}", f"micro-batches:{micro}"]
    return dict(labels=labels, nontrivial=ranks > 1 and done > 0)
