import os
import runpy

HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))["HEAD"]
S = {}


def seed(id, mutant, prop, needs, breaks, demo):
    S[id] = dict(mutant=mutant, property=prop, needs=needs, what_it_breaks=breaks, demo=HEAD + demo)


seed("c14-waited-handles", "b2_ddp_handles", "C14",
 "a non-blocking all_reduce of a matrix with several components, and a reduction that is not finished when the handles have been waited for",
 "only the handle of the first component is returned, so other components can be used before they are reduced",
'''import torch.distributed as dist
from singd.structures.blockdiagonal import BlockDiagonalMatrixTemplate
from singd.structures.hierarchical import Hierarchical3_2Matrix

waited = []


class Handle:
    def __init__(self, tensor):
        self.tensor = tensor

    def wait(self):
        waited.append(self.tensor)


dist.all_reduce = lambda tensor, op=None, group=None, async_op=False: Handle(tensor)
for n in (4, 7, 9):
    waited.clear()
    mat = Hierarchical3_2Matrix.eye(n)
    handles = mat.all_reduce(op=None, async_op=True)
    for h in handles:
        h.wait()
    assert len(waited) == len(list(mat.named_tensors())), (n, len(waited))
''')
seed("c15-group-damping", "b2_load_groups", "C15",
 "an optimizer with several parameter groups, loaded into an optimizer that was constructed with other hyper-parameters",
 "the damping of the last group is not restored from the checkpoint",
'''import copy
from singd.optim.optimizer import SINGD


def make(damping):
    torch.manual_seed(0)
    model = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2))
    groups = [{"params": list(model[0].parameters()), "damping": damping},
              {"params": list(model[2].parameters()), "damping": 2 * damping}]
    return model, SINGD(model, groups, T=1)


for first in (0.1, 0.3):
    model, opt = make(first)
    state = copy.deepcopy(opt.state_dict())
    model2, opt2 = make(0.7)
    opt2.load_state_dict(state)
    got = [g["damping"] for g in opt2.param_groups]
    assert got == [first, 2 * first], got
''')
seed("c19-late-closure", "b2_closure_ignored", "C19",
 "a closure that is passed to a step other than the first",
 "the closure is silently ignored instead of the documented NotImplementedError",
'''from singd.optim.optimizer import SINGD

model = nn.Linear(2, 2)
opt = SINGD(model, T=1)
for step in range(3):
    model.zero_grad()
    model(torch.randn(3, 2)).pow(2).mean().backward()
    try:
        opt.step(lambda: model(torch.randn(3, 2)).sum())
    except NotImplementedError:
        opt.step()
        continue
    raise AssertionError(f"closure accepted at step {step}")
''')
seed("c19-deep-name", "b2_modules_shared_name", "C19",
 "a supported layer nested in at least five containers",
 "the layer is not hooked, so its parameters are silently not trained",
'''from singd.optim.optimizer import SINGD

for depth in range(7):
    model = nn.Linear(2, 2)
    for _ in range(depth):
        model = nn.Sequential(model)
    opt = SINGD(model, T=1, lr=0.1)
    before = [p.detach().clone() for p in model.parameters()]
    model(torch.randn(3, 2)).pow(2).mean().backward()
    opt.step()
    for a, b in zip(before, model.parameters()):
        assert not torch.equal(a, b), f"depth {depth}: not trained"
''')
seed("c21-late-damping", "b3_late_damping", "C21",
 "more than 80 steps of training",
 "the damping of factor K decreases, so K does not converge to the inverse of the damped curvature",
'''from singd.optim.optimizer import SINGD

torch.set_default_dtype(torch.float64)
x = torch.randn(6, 3)
target = torch.randn(6, 2)
for steps in (60, 400):
    torch.manual_seed(1)
    model = nn.Linear(3, 2, bias=False)
    opt = SINGD(model, T=1, lr=0.0, lr_cov=0.3, damping=0.5, alpha1=0.0, kfac_like=True)
    for _ in range(steps):
        model.zero_grad()
        (model(x) - target).pow(2).sum(1).mean().backward()
        opt.step()
    K = opt.Ks[""].to_dense()
    S = x.T @ x / 6 + 0.5 * torch.eye(3)
    assert torch.allclose(K @ K.T @ S, torch.eye(3), atol=1e-3), (steps, K @ K.T @ S)
''')
seed("c22-diag-view", "b3_diag_view", "C22",
 "a diagonal matrix that is extracted from a dense one, and a look at the memory behind its elements",
 "the diagonal matrix is a view that keeps all n^2 elements of the dense matrix alive",
'''from singd.structures.diagonal import DiagonalMatrix

for n in (1, 4, 9):
    A = torch.randn(n, n)
    mat = DiagonalMatrix.from_dense(A + A.T)
    size = sum(t.untyped_storage().nbytes() // t.element_size() for _, t in mat.named_tensors())
    assert size == n, (n, size)
''')
seed("c22-last-input", "b3_last_input", "C22",
 "looking at the memory of the layers' inputs after the step in which they were used",
 "the optimizer keeps the last layer's input alive between iterations",
'''import gc
import weakref
from singd.optim.optimizer import SINGD

model = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2))
opt = SINGD(model, T=2)
seen = []
for layer in model:
    layer.register_forward_pre_hook(lambda m, i: seen.append(weakref.ref(i[0])))
for step in range(3):
    x = torch.randn(5, 2)
    model.zero_grad()
    model(x).pow(2).mean().backward()
    opt.step()
    del x
    gc.collect()
    assert not [r for r in seen if r() is not None], f"inputs alive after step {step}"
''')
seed("c23-group-attribute", "b3_group_attr", "C23",
 "two optimizers that are created for the same model with different parameter groups",
 "the parameter's group index of the second optimizer is used by the first one",
'''from singd.optim.optimizer import SINGD


def train(other):
    torch.manual_seed(0)
    model = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2))
    groups = [{"params": list(model[0].parameters()), "lr": 0.1},
              {"params": list(model[2].parameters()), "lr": 0.5}]
    opt = SINGD(model, groups, T=1)
    if other:
        SINGD(model, list(reversed([dict(g) for g in groups])), T=1)
    for _ in range(2):
        model.zero_grad()
        model(torch.randn(4, 2)).pow(2).mean().backward()
        opt.step()
    return list(model.parameters())


for a, b in zip(train(False), train(True)):
    assert torch.equal(a, b)
''')
seed("c23-random-state", "b3_rng", "C23",
 "more than three steps, and a look at the state of torch's random number generator",
 "the optimizer draws from the global random number generator, so dropout, data order etc. differ",
'''from singd.optim.optimizer import SINGD

model = nn.Linear(2, 2)
opt = SINGD(model, T=2)
for step in range(8):
    model.zero_grad()
    model(torch.randn(3, 2)).pow(2).mean().backward()
    state = torch.get_rng_state()
    opt.step()
    assert torch.equal(state, torch.get_rng_state()), step
''')
seed("c24-late-rate", "b3_lr_T", "C24",
 "a learning rate that changes in a step in which the pre-conditioner is not updated",
 "the learning rate only takes effect at the next update of the pre-conditioner",
'''from singd.optim.optimizer import SINGD


def train(T):
    torch.manual_seed(0)
    model = nn.Linear(2, 2).double()
    opt = SINGD(model, T=T, lr=0.1, lr_cov=0.0, momentum=0.0)
    sched = torch.optim.lr_scheduler.StepLR(opt, 1, 0.5)
    ref = nn.Linear(2, 2).double()
    ref.load_state_dict(model.state_dict())
    sgd = torch.optim.SGD(ref.parameters(), lr=0.1)
    sched2 = torch.optim.lr_scheduler.StepLR(sgd, 1, 0.5)
    for _ in range(4):
        x = torch.randn(3, 2).double()
        for m, o, s in ((model, opt, sched), (ref, sgd, sched2)):
            o.zero_grad()
            m(x).pow(2).mean().backward()
            o.step()
            s.step()
    for a, b in zip(model.parameters(), ref.parameters()):
        assert torch.allclose(a, b, rtol=1e-9), T


for T in (1, 2, 3):
    train(T)
''')
seed("c24-momentum-pause", "b3_mom_forget", "C24",
 "momentum that is set to zero for some steps and then back",
 "the momentum buffer is dropped, unlike in torch.optim.SGD",
'''from singd.optim.optimizer import SINGD

torch.manual_seed(0)
model = nn.Linear(2, 2).double()
ref = nn.Linear(2, 2).double()
ref.load_state_dict(model.state_dict())
opt = SINGD(model, T=1, lr=0.1, lr_cov=0.0, momentum=0.9)
sgd = torch.optim.SGD(ref.parameters(), lr=0.1, momentum=0.9)
for momentum in (0.9, 0.9, 0.0, 0.9, 0.5):
    x = torch.randn(3, 2).double()
    for m, o in ((model, opt), (ref, sgd)):
        o.param_groups[0]["momentum"] = momentum
        o.zero_grad()
        m(x).pow(2).mean().backward()
        o.step()
    for a, b in zip(model.parameters(), ref.parameters()):
        assert torch.allclose(a, b, rtol=1e-9), momentum
''')
seed("c25-pattern", "b3_pattern_reuse", "C25",
 "a convolution with equal sizes of kernel and image but different padding, stride or dilation per dimension",
 "kfac_approx='reduce' uses the index pattern of the first spatial dimension for both",
'''from singd.optim.utils import conv2d_process_input

for pad, stride in [((0, 0), (1, 1)), ((1, 0), (2, 1)), ((2, 1), (3, 2)), ((1, 0), (1, 1)), ((0, 2), (1, 1)), ((1, 1), (1, 2))]:
    a = nn.Conv2d(1, 1, 3, padding=pad, stride=stride)
    b = nn.Conv2d(1, 1, 3, padding=pad[::-1], stride=stride[::-1])
    x = torch.randn(2, 1, 6, 6)
    u = conv2d_process_input(x, a, "reduce")[:, :9].reshape(-1, 3, 3)
    v = conv2d_process_input(x.transpose(2, 3), b, "reduce")[:, :9].reshape(-1, 3, 3)
    assert torch.allclose(u, v.transpose(1, 2), atol=1e-6), (pad, stride)
''')
seed("c26-lowest", "b4_lowest", "C26",
 "at least three arguments with both 16-bit types",
 "lowest_precision returns bfloat16 although float16 is lower in the documented order",
'''from itertools import product
from singd.structures.utils import lowest_precision

order = [torch.float16, torch.bfloat16, torch.float32]
for k in (1, 2, 3, 4):
    for types in product(order, repeat=k):
        want = next(t for t in order if t in types)
        assert lowest_precision(*types) == want, types
''')
seed("c27-hook-precision", "b4_hook_upcast", "C27",
 "a pre-conditioner factor whose data type differs from the data type of the output gradient",
 "the backward hook additionally multiplies matrices in the precision of the gradient",
'''from torch.utils._python_dispatch import TorchDispatchMode
from singd.optim.optimizer import SINGD


class Log(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if func._schema.name in ("aten::mm", "aten::addmm", "aten::bmm"):
            self.log.append(str(args[-1].dtype))
        return func(*args, **(kwargs or {}))


def products(dtype, attach):
    torch.manual_seed(0)
    model = nn.Linear(3, 2)
    if attach:
        opt = SINGD(model, T=1, preconditioner_dtype=(dtype, dtype))
    loss = model(torch.randn(4, 3)).pow(2).mean()
    with Log() as mode:
        mode.log = []
        loss.backward()
    return mode.log.count("torch.float32")


for dtype in (torch.float32, torch.bfloat16):
    extra = products(dtype, True) - products(dtype, False)
    assert dtype == torch.float32 or extra == 0, (dtype, extra)
''')
seed("c27-dense-diagonal", "b4_dia_dense", "C27",
 "transposed products with a diagonal matrix, and a look at the size of created tensors",
 "the diagonal matrix is converted to a dense one, so memory and time are quadratic in the dimension",
'''from torch.utils._python_dispatch import TorchDispatchMode
from singd.structures.diagonal import DiagonalMatrix


class Largest(TorchDispatchMode):
    size = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if isinstance(out, torch.Tensor):
            self.size = max(self.size, out.numel())
        return out


for n in (4, 100):
    mat, x = DiagonalMatrix(torch.randn(n)), torch.randn(n, 2)
    with Largest() as mode:
        mat @ x, mat.rmatmat(x)
    assert mode.size <= 4 * n, (n, mode.size)
''')
seed("c11-near-one", "b2_scale_thr", "C11",
 "a gradient scale that is not one but within 10 percent of it",
 "the output gradients are not divided by the scale although the update assumes they were",
'''from singd.optim.optimizer import SINGD


def train(scale):
    torch.manual_seed(0)
    model = nn.Linear(2, 2).double()
    opt = SINGD(model, T=1, lr=0.1, lr_cov=0.3, init_grad_scale=scale)
    for step in range(3):
        x = torch.randn(4, 2, generator=torch.Generator().manual_seed(step)).double()
        model.zero_grad()
        (scale * model(x).pow(2).sum(1).mean()).backward()
        opt.set_current_grad_scale(scale)
        opt.step()
    return list(model.parameters())


plain = train(1.0)
for scale in (16.0, 1.25, 1.05, 0.95):
    for a, b in zip(plain, train(scale)):
        assert torch.allclose(a, b, rtol=1e-9), scale
''')
