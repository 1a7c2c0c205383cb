HEAD = '''import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import torch
from torch import nn

torch.manual_seed(0)
'''
S = {}
def seed(id, mutant, prop, needs, breaks, demo):
    S[id] = dict(mutant=mutant, property=prop, needs=needs, what_it_breaks=breaks, demo=HEAD + demo)

seed("c01-largest-entry", "inf_norm_max", "C01",
 "a matrix whose entry of largest magnitude is negative in a component with a smaller positive maximum",
 "infinity_vector_norm returns |max| instead of max|.|, hence normalised learning rates of the factors are too large",
'''from singd.structures.dense import DenseMatrix

M = torch.tensor([[1.0, -5.0], [-5.0, 2.0]])
got = float(DenseMatrix(M).infinity_vector_norm())
assert got == 5.0, got
''')
seed("c02-rank-one", "hier_rank1", "C02",
 "from_inner of a hierarchical matrix with an X of a single column (mini-batch of one sample), dimension beyond K1 + K2",
 "the block D of the extracted matrix is not doubled, so the projection differs from the documented one",
'''from singd.structures.hierarchical import Hierarchical3_2Matrix as H

for n in (4, 5, 6, 9):
    for cols in (1, 2):
        K = H.from_dense((lambda a: a + a.T)(torch.randn(n, n)))
        X = torch.randn(n, cols)
        d = K.to_dense()
        want = H.from_dense(d.T @ X @ X.T @ d).to_dense()
        got = K.from_inner(X=X).to_dense()
        assert torch.allclose(got, want, rtol=1e-3, atol=1e-3), (n, cols, got, want)
''')
seed("c03-unit-scalar", "dia_mul1", "C03",
 "product of a diagonal matrix with the scalar 1.0, followed by an in-place operation on the product or on the factor",
 "the product aliases its operand, which is changed by the in-place operation",
'''from singd.structures.diagonal import DiagonalMatrix

for factor in (1.0, 2.0):
    M = DiagonalMatrix(torch.tensor([1.0, 2.0, 3.0]))
    N = M * factor
    N.diag_add_(1.0)
    assert torch.equal(M.to_dense(), torch.diag(torch.tensor([1.0, 2.0, 3.0]))), M.to_dense()
''')
seed("c04-boundary", "rec_boundary", "C04",
 "a user-defined recursive structure with MAX_DIMS = (inf, k) and a dimension of at most k",
 "the matrix is split although it completely belongs to the bottom right block, so another structure is represented",
'''from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.recursive import RecursiveBottomLeftMatrixTemplate


class Mat(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS = (float("inf"), 3)
    CLS_A = DiagonalMatrix
    CLS_C = DenseMatrix


for n in (1, 2, 3):
    S = torch.randn(n, n)
    S = S + S.T
    assert torch.allclose(Mat.from_dense(S).to_dense(), S), n
S = torch.randn(5, 5)
S = S + S.T
want = S.clone()
want[:2, 2:] = 0
want[0, 1] = want[1, 0] = 0
want[2:, :2] *= 2
assert torch.allclose(Mat.from_dense(S).to_dense(), want)
''')
seed("c05-corner-dim", "rec_dimC", "C05",
 "a recursive matrix with MAX_DIMS = (inf, k) and a bottom right block that is larger than k but not larger than the top left block",
 "the inconsistent construction is accepted instead of raising a ValueError",
'''from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.recursive import RecursiveTopRightMatrixTemplate


class Mat(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (float("inf"), 2)
    CLS_A = DiagonalMatrix
    CLS_C = DenseMatrix


Mat(DiagonalMatrix(torch.ones(4)), torch.ones(4, 2), DenseMatrix(torch.ones(2, 2)))
for a in (1, 3, 4, 6):
    try:
        Mat(DiagonalMatrix(torch.ones(a)), torch.ones(a, 3), DenseMatrix(torch.ones(3, 3)))
    except ValueError:
        continue
    raise AssertionError(f"accepted A of dim. {a} with C of dim. 3")
''')
seed("c06-reduce-dilation", "conv_red_pad", "C06",
 "kfac_approx='reduce' and a convolution whose dilation differs between the two spatial axes",
 "the averaged patches are taken from wrong positions, so they do not reproduce the layer's mean output",
'''from singd.optim.utils import process_input

for dilation in [(1, 1), (2, 2), (1, 2), (2, 1)]:
    layer = nn.Conv2d(2, 3, 2, dilation=dilation, bias=False)
    x = torch.randn(4, 2, 5, 5)
    a = process_input(x.clone(), layer, "reduce") * 4**0.5
    got = a @ layer.weight.flatten(1).T
    want = layer(x).mean((2, 3))
    assert torch.allclose(got, want, atol=1e-5), dilation
''')
seed("c06-sequence-terms", "lin_seq", "C06",
 "loss_average='batch+sequence' and a linear layer with more than one weight-shared axis",
 "only the first weight-shared axis enters the number of averaged loss terms, the output gradient is scaled too small",
'''from singd.optim.utils import process_grad_output

layer = nn.Linear(3, 2)
for shape in [(4, 2), (4, 3, 2), (4, 3, 5, 2), (4, 2, 2, 3, 2)]:
    g = torch.randn(*shape)
    got = process_grad_output(g.clone(), layer, "batch+sequence", "expand")
    want = g.reshape(-1, 2) * g.shape[:-1].numel() ** 0.5
    assert torch.allclose(got, want, atol=1e-5), shape
''')
seed("c07-reduced-sequence", "red_seq", "C07",
 "loss_average='batch+sequence' together with kfac_approx='reduce' and a linear layer with weight-shared axis",
 "the mean over the sequence is not accounted for: a mean loss does not train like the correspondingly scaled summed loss",
'''from singd.optim.optimizer import SINGD


def train(average):
    torch.manual_seed(1)
    model = nn.Linear(3, 2).double()
    x, y = torch.randn(4, 5, 3).double(), torch.randn(4, 5, 2).double()
    n = 20
    lr = 0.1 if average else 0.1 / n**0.5
    opt = SINGD(model, lr=lr, T=1, lr_cov=0.1, momentum=0.0, loss_average=average,
                kfac_approx="reduce")
    for _ in range(3):
        model.zero_grad()
        loss = ((model(x) - y) ** 2).sum()
        if average:
            loss = loss / n
        else:
            loss = loss / n**0.5
        loss.backward()
        opt.step()
    return {k: m.to_dense() for k, m in [("K", opt.Ks[""]), ("C", opt.Cs[""])]}


# with the loss sum / sqrt(n) the curvature is the one of the mean
a, b = train("batch+sequence"), train(None)
for k in a:
    first = (a[k] - b[k]).abs().max()
    assert first < 1e-8, (k, first)
''')
seed("c08-schedule", "sched_T", "C08",
 "a scheduled lr_cov and T > 1, from the second update of the pre-conditioner on",
 "the factor C is updated with the learning rate of an earlier step",
'''from singd.optim.optimizer import SINGD

T = 2
model = nn.Linear(1, 1, bias=False).double()
opt = SINGD(model, T=T, alpha1=0.0, damping=0.0, lr=0.0, momentum=0.0,
            lr_cov=lambda step: 0.01 * (step + 1))
x = torch.ones(1, 1).double()
for step in range(5):
    model.zero_grad()
    K, C = opt.Ks[""].to_dense().item(), opt.Cs[""].to_dense().item()
    out = model(x)
    (2.0 * out).sum().backward()
    opt.step()
    beta = 0.01 * (step + 1) if step % T == 0 else 0.0
    h_k, h_c = K * K, C * C * 4.0
    want_K = K - beta * K * 0.5 * (h_k * h_c - 1)
    want_C = C - beta * C * 0.5 * (h_k * h_c - 1)
    assert abs(opt.Ks[""].to_dense().item() - want_K) < 1e-10, step
    assert abs(opt.Cs[""].to_dense().item() - want_C) < 1e-10, step
''')
seed("c08-ikfac-damping", "kfac_like_damp", "C08",
 "IKFAC mode with damping, after C has left the identity",
 "the damping of K is multiplied with the average trace of C^T C, which IKFAC does not do",
'''from singd.optim.optimizer import SINGD

lam, beta = 0.5, 0.1
model = nn.Linear(1, 1, bias=False).double()
opt = SINGD(model, T=1, alpha1=0.0, damping=lam, lr=0.0, momentum=0.0, lr_cov=beta,
            kfac_like=True)
x = torch.ones(1, 1).double()
for step in range(4):
    model.zero_grad()
    K, C = opt.Ks[""].to_dense().item(), opt.Cs[""].to_dense().item()
    (2.0 * model(x)).sum().backward()
    opt.step()
    want_K = K - beta * K * 0.5 * (K * K + lam * K * K - 1)
    want_C = C - beta * C * 0.5 * (4 * C * C + lam * C * C - 1)
    assert abs(opt.Ks[""].to_dense().item() - want_K) < 1e-10, step
    assert abs(opt.Cs[""].to_dense().item() - want_C) < 1e-10, step
''')
seed("c09-group-decay", "wd_default", "C09",
 "a parameter group with its own weight decay while the default weight decay is zero",
 "the weight decay of the group is ignored",
'''from singd.optim.optimizer import SINGD

for default in (0.0, 0.3):
    model = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2))
    groups = [
        {"params": list(model[0].parameters()), "weight_decay": 0.5},
        {"params": list(model[1].parameters())},
    ]
    opt = SINGD(model, groups, lr=0.1, momentum=0.0, T=1, weight_decay=default)
    before = [p.detach().clone() for p in model.parameters()]
    (model(torch.ones(3, 2)) * 0.0).sum().backward()  # zero gradients
    opt.step()
    for k, (p, q) in enumerate(zip(model.parameters(), before)):
        decay = 0.5 if k < 2 else default
        assert torch.allclose(p, q * (1 - 0.1 * decay), atol=1e-6), (default, k)
''')
seed("c10-evaluation-mode", "T_backward", "C10",
 "training passes of a model (or of single layers) in evaluation mode, e.g. when fine-tuning with frozen batch normalisation",
 "the data of these training passes does not enter the pre-conditioner (the step fails)",
'''from singd.optim.optimizer import SINGD

results = []
for mode in (True, False):
    torch.manual_seed(0)
    model = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 1))
    model[0].train(mode)
    opt = SINGD(model, T=1, lr_cov=0.1)
    for _ in range(3):
        model.zero_grad()
        model(torch.ones(4, 2)).sum().backward()
        opt.step()
    results.append([p.detach() for p in model.parameters()] + [opt.Ks["0"].to_dense()])
for a, b in zip(*results):
    assert torch.equal(a, b)
''')
seed("c11-small-scale", "prev_gt1", "C11",
 "a gradient scale below one (a scaler that backed off many times) in two consecutive steps",
 "the curvature of the second step is un-scaled with the wrong factor",
'''from singd.optim.optimizer import SINGD


def train(scales):
    torch.manual_seed(0)
    model = nn.Linear(2, 2).double()
    opt = SINGD(model, T=1, lr_cov=0.1, init_grad_scale=scales[0])
    for s in scales:
        model.zero_grad()
        (s * model(torch.ones(4, 2).double()).pow(2).mean()).backward()
        if s != 1.0:
            opt.set_current_grad_scale(s)
        opt.step()
    return list(model.parameters()) + [opt.Ks[""].to_dense(), opt.Cs[""].to_dense()]


plain = train([1.0] * 4)
for scales in ([4.0, 2.0, 2.0, 8.0], [0.25, 0.25, 0.5, 0.25]):
    for a, b in zip(plain, train(scales)):
        assert torch.allclose(a, b, rtol=1e-8, atol=1e-10), scales
''')
seed("c12-stale-curvature", "keep_HC", "C12",
 "a step other than the first one is skipped because of infinite gradients",
 "the curvature C of the failed mini-batch (inf/NaN) enters the next step",
'''from singd.optim.optimizer import SINGD


def train(fail):
    torch.manual_seed(0)
    model = nn.Linear(2, 2).double()
    opt = SINGD(model, T=1, lr_cov=0.1)
    for step in range(4):
        x = torch.randn(4, 2, generator=torch.Generator().manual_seed(step)).double()
        if step in fail:
            model.zero_grad()
            (model(x) * float("inf")).sum().backward()
            opt.grad_scale, opt.found_inf = torch.tensor(1.0), torch.tensor(1.0)
            opt.step()
            del opt.grad_scale, opt.found_inf
        model.zero_grad()
        model(x).pow(2).mean().backward()
        opt.step()
    return list(model.parameters()) + [opt.Ks[""].to_dense(), opt.Cs[""].to_dense()]


plain = train([])
for fail in ([0], [1], [2, 3]):
    for a, b in zip(plain, train(fail)):
        assert torch.equal(a, b), fail
''')
seed("c13-micro-batches", "avg_accum", "C13",
 "gradient accumulation over three or more micro-batches",
 "the accumulated curvature K weights later micro-batches more than earlier ones",
'''from singd.optim.optimizer import SINGD


def train(k):
    torch.manual_seed(0)
    model = nn.Linear(2, 2).double()
    x = torch.randn(12, 2).double()
    opt = SINGD(model, T=1, lr_cov=0.1)
    for _ in range(3):
        model.zero_grad()
        for part in x.chunk(k):
            (model(part).pow(2).sum(1).mean() / k).backward()
        opt.step()
    return list(model.parameters()) + [opt.Ks[""].to_dense(), opt.Cs[""].to_dense()]


plain = train(1)
for k in (2, 3, 4):
    for a, b in zip(plain, train(k)):
        assert torch.allclose(a, b, rtol=1e-8, atol=1e-10), k
''')
seed("c14-sequence-mean", "ddp_seq", "C14",
 "several ranks and loss_average='batch+sequence'",
 "the natural gradients of the ranks are summed instead of averaged",
'''import threading

import torch.distributed as dist
from torch.testing._internal.distributed import multi_threaded_pg as pg

from singd.optim.optimizer import SINGD

torch._C._distributed_c10d._set_thread_isolation_mode(True)
pg._install_threaded_pg()
x = torch.randn(4, 3, 2).double()
W = torch.randn(2, 2).double()


def train(data, average):
    model = nn.Linear(2, 2, bias=False).double()
    model.weight.data.copy_(W)
    opt = SINGD(model, T=1, lr=0.1, loss_average=average)
    for _ in range(2):
        model.zero_grad()
        terms = model(data).pow(2).sum(-1)
        loss = {None: terms.sum(), "batch": terms.sum(1).mean(),
                "batch+sequence": terms.mean()}[average]
        loss.backward()
        opt.step()
    return model.weight.detach().clone()


for average in (None, "batch", "batch+sequence"):
    expected = train(x, average)
    pg.ProcessLocalGroup.reset()
    store, results = dist.HashStore(), [None, None]

    def target(rank):
        dist.init_process_group("threaded", rank=rank, world_size=2, store=store)
        results[rank] = train(x.chunk(2)[rank], average)
        dist.destroy_process_group()

    threads = [threading.Thread(target=target, args=(r,), daemon=True) for r in (0, 1)]
    [t.start() for t in threads]
    [t.join(60) for t in threads]
    for r in results:
        assert torch.allclose(r, expected, rtol=1e-8, atol=1e-10), average
''')
seed("c15-announced-scale", "load_scales", "C15",
 "a checkpoint between announcing the gradient scale and the step",
 "the announced gradient scale is lost, the resumed step uses un-scaled gradients as if they were not scaled",
'''import copy

from singd.optim.optimizer import SINGD


def make():
    torch.manual_seed(0)
    model = nn.Linear(2, 2).double()
    return model, SINGD(model, T=1, lr_cov=0.1)


def train(when):
    model, opt = make()

    def reload():
        nonlocal model, opt
        state = copy.deepcopy((model.state_dict(), opt.state_dict()))
        grads = [p.grad for p in model.parameters()]
        model, opt = make()
        model.load_state_dict(state[0])
        opt.load_state_dict(state[1])
        for p, g in zip(model.parameters(), grads):
            p.grad = g

    for step in range(3):
        x = torch.randn(4, 2, generator=torch.Generator().manual_seed(step)).double()
        model.zero_grad()
        if when == "before":
            reload()
        (8.0 * model(x).pow(2).mean()).backward()
        if when == "pending":
            reload()
        opt.set_current_grad_scale(8.0)
        if when == "announced":
            reload()
        opt.step()
    return list(model.parameters()) + [opt.Ks[""].to_dense(), opt.Cs[""].to_dense()]


plain = train(None)
for when in ("before", "pending", "announced"):
    for a, b in zip(plain, train(when)):
        assert torch.equal(a, b), when
''')
seed("c16-gradient-type", "g_dtype", "C16",
 "different data types for the two pre-conditioner factors",
 "the output gradient is loaded to the data type of K instead of C: the step fails or C is computed in the wrong precision",
'''from singd.optim.optimizer import SINGD

f32, bf16 = torch.float32, torch.bfloat16
for types in [(f32, f32), (bf16, bf16), (f32, bf16), (bf16, f32)]:
    for structures in [("dense", "dense"), ("diagonal", "diagonal")]:
        model = nn.Linear(3, 2)
        opt = SINGD(model, T=1, preconditioner_dtype=types, structures=structures)
        for _ in range(2):
            model.zero_grad()
            model(torch.randn(4, 3)).pow(2).mean().backward()
            opt.step()
        assert opt.Ks[""].to_dense().dtype == opt.m_Ks[""].to_dense().dtype == types[0]
        assert opt.Cs[""].to_dense().dtype == opt.m_Cs[""].to_dense().dtype == types[1]
        assert model.weight.dtype == f32
''')
seed("c17-transposed-factor", "nat_order_C", "C17",
 "a factor C that is not symmetric, i.e. a second update of the pre-conditioner with a dense, hierarchical or Toeplitz structure",
 "the gradient is pre-conditioned with C^T C instead of C C^T",
'''from singd.optim.optimizer import SINGD

for structure in ("dense", "diagonal", "hierarchical15_15", "triltoeplitz"):
    model = nn.Linear(3, 18, bias=False)
    opt = SINGD(model, T=1, lr=0.1, lr_cov=0.3, momentum=0.0, alpha1=0.0,
                structures=(structure, structure), normalize_lr_cov=True)
    for _ in range(4):
        model.zero_grad()
        before = model.weight.detach().clone()
        model(torch.randn(4, 3)).pow(2).sum(1).mean().backward()
        G = model.weight.grad.detach().clone()
        opt.step()
        K, C = opt.Ks[""].to_dense(), opt.Cs[""].to_dense()
        want = before - 0.1 * C @ C.T @ G @ K @ K.T
        assert torch.allclose(model.weight, want, rtol=1e-3, atol=1e-4), structure
''')
seed("c18-single-output", "struct_swap", "C18",
 "different structures for K and C and a layer whose factor C is one-dimensional",
 "the structure of K is assigned to C as well, so C is not represented in the requested structure",
'''from singd.optim.optimizer import SINGD
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.triltoeplitz import TrilToeplitzMatrix

for out in (2, 1):
    opt = SINGD(nn.Linear(3, out), structures=("triltoeplitz", "diagonal"), T=1)
    assert type(opt.Ks[""]) is TrilToeplitzMatrix
    assert type(opt.Cs[""]) is DiagonalMatrix, (out, type(opt.Cs[""]))
    assert type(opt.m_Cs[""]) is DiagonalMatrix, (out, type(opt.m_Cs[""]))
''')
seed("c19-distant-groups", "groups_split", "C19",
 "weight and bias of a layer are in parameter groups that are not next to each other",
 "the documented ValueError for a layer that is split over groups is not raised",
'''from singd.optim.optimizer import SINGD

for second in (1, 2):
    model = nn.Sequential(nn.Linear(2, 2), nn.Linear(2, 2), nn.Linear(2, 2))
    groups = [{"params": [model[0].weight]}, {"params": list(model[1].parameters())},
              {"params": list(model[2].parameters())}]
    groups[second]["params"].append(model[0].bias)
    try:
        SINGD(model, groups)
    except ValueError:
        continue
    raise AssertionError(f"accepted a layer in groups 0 and {second}")
''')
seed("c20-gradient-in-place", "lin_grad_inplace", "C20",
 "kfac_approx='reduce' and linear layers without weight-shared axis, whose output gradient has the data type of the pre-conditioner",
 "the optimizer scales the gradient that flows through the layer's output in place, gradients of the model change",
'''from singd.optim.optimizer import SINGD

for approx in ("expand", "reduce"):
    grads = []
    for attach in (False, True):
        torch.manual_seed(0)
        model = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2))
        if attach:
            opt = SINGD(model, T=1, kfac_approx=approx, loss_average="batch")
        model(torch.randn(5, 2)).pow(2).mean().backward()
        grads.append([p.grad for p in model.parameters()])
    for a, b in zip(*grads):
        assert torch.equal(a, b), approx
''')
