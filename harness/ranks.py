"""Runs several ranks of a process group as threads of this process."""

import threading
import traceback

import torch
import torch.distributed as dist

from harness.common import Violation

real_all_reduce = dist.all_reduce
TIMEOUT = 120.0
_installed = False


class Delayed:
    """A reduction whose result becomes visible when it is waited for."""

    def __init__(self, tensor, args, kwargs):
        self.tensor, self.args, self.kwargs = tensor, args, kwargs
        self.sent, self.done = tensor.detach().clone(), False

    def wait(self, timeout=None):
        if not self.done:
            real_all_reduce(self.sent, *self.args, **self.kwargs)
            self.tensor.data.copy_(self.sent)
            self.done = True
        return True

    def is_completed(self):
        return self.done

    def get_future(self):
        return self

    def value(self):
        self.wait()
        return [self.tensor]


def delayed_all_reduce(tensor, *args, **kwargs):
    """Non-blocking reductions only take effect when they are waited for."""
    if kwargs.pop("async_op", False):
        return Delayed(tensor, args, kwargs)
    return real_all_reduce(tensor, *args, **kwargs)


def install():
    global _installed
    if not _installed:
        from torch.testing._internal.distributed import multi_threaded_pg as pg

        torch._C._distributed_c10d._set_thread_isolation_mode(True)
        pg._install_threaded_pg()
        _installed = True


def run_ranks(world_size, fn):
    """Results of `fn(rank)` for all ranks, with an initialized default process group."""
    from torch.testing._internal.distributed.multi_threaded_pg import ProcessLocalGroup

    install()
    ProcessLocalGroup.reset()
    store = dist.HashStore()
    results, errors = [None] * world_size, []

    def target(rank):
        try:
            dist.init_process_group(
                backend="threaded", rank=rank, world_size=world_size, store=store
            )
            results[rank] = fn(rank)
        except SystemExit:  # another rank failed
            pass
        except BaseException as e:
            errors.append((rank, e, traceback.format_exc(limit=-6)))
            ProcessLocalGroup.exception_handle(e)
        finally:
            try:
                dist.destroy_process_group()
            except BaseException:
                pass

    dist.all_reduce = delayed_all_reduce
    threads = [
        threading.Thread(target=target, args=(r,), daemon=True) for r in range(world_size)
    ]
    for t in threads:
        t.start()
    for t in threads:
        t.join(TIMEOUT)
    dist.all_reduce = real_all_reduce
    if errors:
        raise errors[0][1]
    if any(t.is_alive() for t in threads):
        ProcessLocalGroup.exception_handle(None)
        raise Violation(f"{world_size} ranks did not finish within {TIMEOUT} s")
    return results
