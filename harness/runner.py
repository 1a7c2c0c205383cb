"""Runs one check: generation in parallel shards, shrinking, replay, evidence."""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The overrides serve development only: mutated copies can be examined in parallel.
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHARDS = 8
GUARD = {"quick": 200.0, "thorough": 3000.0}  # seconds of generation per shard
SHRINK_SECONDS = {"quick": 40.0, "thorough": 120.0}
CASE_SECONDS = 100  # a case takes milliseconds; one that takes this long hangs


def setup():
    """Import torch, hypothesis and the current tree of /repo (never stale byte code)."""
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    torch.use_deterministic_algorithms(False)
    sys.dont_write_bytecode = True
    cache = tempfile.mkdtemp(prefix="verif-pyc-")
    sys.pycache_prefix = cache
    sys.path.insert(0, REPO)
    sys.path.append(HYPOTHESIS)
    import hypothesis  # noqa: F401
    import singd

    where = os.path.realpath(singd.__file__)
    if not where.startswith(REPO + "/"):
        raise RuntimeError(f"singd was imported from {where}, not from {REPO}")
    return cache


def canonical(case):
    return json.dumps(case, sort_keys=True)


def through_repo(exc):
    """Does the traceback (or one of its causes) pass through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(frame.filename).startswith(REPO + "/singd/"):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def execute(module, case):
    """Run a case. Returns (info, violation message or None); raises harness errors."""
    from harness.common import Violation

    def hangs(signum, frame):
        raise Violation(f"the case did not finish within {CASE_SECONDS} s")

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        signal.signal(signal.SIGALRM, hangs)
        signal.alarm(CASE_SECONDS)
        try:
            # the case must survive a JSON round-trip, as it does when it is replayed
            info = module.run(json.loads(json.dumps(case))) or {}
            return info, None
        except Violation as e:
            return {}, str(e)
        except Exception as e:
            if isinstance(e, (MemoryError, OSError)) and not through_repo(e):
                raise
            # raised by the code under test, or by what it returned
            tb = traceback.format_exc(limit=-6)
            return {}, f"unexpected {type(e).__name__}: {e}\n{tb}"
        finally:
            signal.alarm(0)


class Shard:
    def __init__(self, module, tier, seed, shard, stop):
        self.module, self.tier, self.seed = module, tier, seed
        self.shard, self.stop = shard, stop
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.failure = None  # (case, message)
        self.first_failure = None
        self.error = None
        self.timeouts = 0

    def one(self, case):
        info, violation = execute(self.module, case)
        self.evaluations += 1
        if violation is not None:
            size = len(canonical(case))
            if self.failure is None or size <= len(canonical(self.failure[0])):
                self.failure = (case, violation)
            if self.first_failure is None:
                self.first_failure = time.monotonic()
            self.stop.set()
            raise AssertionError("violation")
        self.labels.update(info.get("labels", []))
        if info.get("nontrivial"):
            h = hashlib.sha1(canonical(case).encode()).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                # the first and ever rarer later cases
                k = len(self.nontrivial)
                if k & (k - 1) == 0:
                    self.samples.append(case)

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        start = time.monotonic()
        try:
            examples = getattr(self.module, "EXAMPLES", [])
            for i, case in enumerate(examples):
                if i % SHARDS == self.shard:
                    try:
                        self.one(case)
                    except AssertionError:
                        return
            total = self.module.N[self.tier]
            n = max(1, total // SHARDS)

            def test(case):
                if self.first_failure is not None:
                    spent = time.monotonic() - self.first_failure
                    if spent > SHRINK_SECONDS[self.tier]:
                        return
                else:
                    if self.stop.is_set():
                        return
                    if time.monotonic() - start > GUARD[self.tier]:
                        self.timeouts += 1
                        return
                self.one(case)

            wrapped = settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )(given(self.module.strategy(self.tier))(test))
            hypothesis.seed(self.seed * 1009 + self.shard)(wrapped)()
        except BaseException as e:
            if self.failure is None:
                self.error = traceback.format_exc()
                self.stop.set()
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise

    def result(self):
        return dict(
            evaluations=self.evaluations,
            nontrivial=self.nontrivial,
            labels=self.labels,
            samples=self.samples,
            failure=self.failure,
            error=self.error,
            timeouts=self.timeouts,
        )


def worker(module, tier, seed, shard, stop, path):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)  # warnings of the code under test; errors travel in the result
    s = Shard(module, tier, seed, shard, stop)
    s.run()
    import pickle

    with open(path, "wb") as f:
        pickle.dump(s.result(), f)
    os._exit(0)


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <what fails>` of the known-findings file."""
    found = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(" ", 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                found[parts[2].removeprefix("key=")] = parts[3]
    return found


def pick_samples(samples):
    """A few different ones, from small to large."""
    distinct = sorted({canonical(c) for c in samples}, key=lambda c: (len(c), c))
    k = len(distinct)
    chosen = sorted({0, k // 4, k // 2, (3 * k) // 4, k - 1}) if k else []
    return [json.loads(distinct[i]) for i in chosen]


def write_replay(prop, case, message):
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    digest = hashlib.sha1(canonical(case).encode()).hexdigest()[:12]
    path = os.path.join(OUT, "replays", f"{prop}-{digest}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "message": message}, f, indent=1)
    return path


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--scale", type=float, default=1.0, help="of the case count")
    args = parser.parse_args(argv)
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cache = setup()
    try:
        return check(args, seed, start)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={args.prop}: the check itself failed")
        return 2
    finally:
        shutil.rmtree(cache, ignore_errors=True)


def check(args, seed, start):
    prop, tier = args.prop, args.tier
    try:
        module = importlib.import_module(f"checks.{prop.lower()}")
    except Exception as e:
        # code under test that can not be imported as documented
        if through_repo(e):
            path = write_replay(prop, {"import": True}, traceback.format_exc())
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        raise
    assert module.ID == prop

    if args.replay:
        with open(args.replay) as f:
            case = json.load(f)["case"]
        info, violation = execute(module, case)
        if violation is None:
            print(f"replay of {args.replay}: property holds {info}")
            return 0
        print(violation)
        print(f"VIOLATION property={prop} replay={args.replay}")
        return 1

    module.N = {k: max(SHARDS, int(v * args.scale)) for k, v in module.N.items()}

    # findings listed as known are demonstrated on their specific input
    known, unlisted = known_findings(prop), []
    for key, case in getattr(module, "KNOWN_PROBES", {}).items():
        info, violation = execute(module, case)
        if violation is not None:
            if key in known:
                print(f"KNOWN-FINDING: property={prop} {known[key]}")
            else:
                unlisted.append((case, violation))

    ctx = mp.get_context("fork")
    stop = ctx.Event()
    tmp = tempfile.mkdtemp(prefix="verif-")
    procs = []
    for shard in range(SHARDS):
        path = os.path.join(tmp, str(shard))
        p = ctx.Process(target=worker, args=(module, tier, seed, shard, stop, path))
        p.start()
        procs.append((p, path))
    results, errors = [], []
    import pickle

    for p, path in procs:
        p.join()
        if os.path.exists(path):
            with open(path, "rb") as f:
                results.append(pickle.load(f))
        else:
            errors.append(f"worker died with exit code {p.exitcode}")
    shutil.rmtree(tmp, ignore_errors=True)

    labels, nontrivial, samples = Counter(), set(), []
    for r in results:
        labels.update(r["labels"])
        nontrivial |= r["nontrivial"]
        samples.extend(r["samples"])
        if r["error"]:
            errors.append(r["error"])
    failures = [r["failure"] for r in results if r["failure"]] + unlisted
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=len(nontrivial),
            rule=module.RULE,
            samples=pick_samples(samples),
            labels=dict(sorted(labels.items())),
            skipped_by_time_guard=sum(r["timeouts"] for r in results),
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.monotonic() - start, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    cov = evidence["coverage"]
    print(
        f"{prop} {tier} seed={seed}: {cov['evaluations']} cases,"
        f" {cov['distinct_nontrivial']} distinct non-trivial,"
        f" {cov['skipped_by_time_guard']} skipped, {evidence['wall_s']} s"
    )
    if failures:
        case, message = min(failures, key=lambda f: len(canonical(f[0])))
        path = write_replay(prop, case, message)
        print(f"case: {canonical(case)[:1500]}")
        print(message)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(errors[0])
        print(f"ERROR property={prop}: the check itself failed")
        return 2
    return 0
