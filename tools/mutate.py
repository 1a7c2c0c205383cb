"""Development tool: run tests and checks against mutated copies of /repo.

usage: mutate.py [--tests] [--checks C01,C02|target|all] [--jobs N] [id ...]
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from mutants import M  # noqa: E402

PY = "/opt/venv/bin/python"
IGNORED = "autocast checkpointing gradient_accumulation kfac_like lin2023simplifying"
IGNORED += " lin2023simplifying_ddp param_groups scaler"
RESULTS = "/tmp/mutate-results.json"


def copy(mut):
    path = f"/tmp/mut-{mut['id']}"
    shutil.rmtree(path, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", path], check=True)
    if "patch" in mut:
        subprocess.run(["git", "-C", path, "apply", mut["patch"]], check=True)
        return path
    f = os.path.join(path, mut["file"])
    text = open(f).read()
    assert text.count(mut["old"]) == mut["count"], (mut["id"], text.count(mut["old"]))
    text = text.replace(mut["old"], mut["new"])
    if "old2" in mut:
        assert text.count(mut["old2"]) == 1, (mut["id"], "old2")
        text = text.replace(mut["old2"], mut["new2"])
    open(f, "w").write(text)
    return path


def tests(path):
    env = dict(
        os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
        MKL_NUM_THREADS="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="",
        PATH="/opt/venv/bin:/usr/bin:/bin",
    )
    xml, out = f"{path}-pytest.xml", f"{path}-tests.json"
    cmd = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300"]
    cmd += ["--continue-on-collection-errors", "-o", "junit_family=xunit2"]
    cmd += [f"--junitxml={xml}", "--run-optional-tests=expensive", "--doctest-modules"]
    cmd += [f"--ignore=test/optim/test_{i}.py" for i in IGNORED.split()]
    subprocess.run(cmd + ["test", "singd"], cwd=path, env=env, capture_output=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{xml}"], check=True)
    passed = set(json.load(open(out))["passed"])
    missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)
    os.remove(xml), os.remove(out)
    return not missing, f"{len(missing)}: {missing[:2]}"


def check(path, prop, mid):
    out = f"/tmp/mut-out-{mid}"
    env = dict(os.environ, VERIF_REPO=path, VERIF_OUT=out)
    r = subprocess.run(
        [PY, "check.py", prop, "--tier", "quick"], cwd=ROOT, env=env,
        capture_output=True, text=True,
    )
    shutil.rmtree(out, ignore_errors=True)
    return r.returncode, r.stdout


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--tests", action="store_true")
    a.add_argument("--checks", default="")
    a.add_argument("--jobs", type=int, default=8)
    a.add_argument("ids", nargs="*")
    a = a.parse_args()
    muts = [m for m in M if not a.ids or m["id"] in a.ids]
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    for mut in muts:
        mut["path"] = copy(mut)
    if a.tests:
        with ThreadPoolExecutor(a.jobs) as pool:
            for mut, (ok, out) in zip(muts, pool.map(lambda m: tests(m["path"]), muts)):
                res.setdefault(mut["id"], {})["tests"] = ok
                print(mut["id"], "survives tests" if ok else f"KILLED {out}", flush=True)
    if a.checks:
        for mut in muts:
            if a.tests and not res[mut["id"]]["tests"]:
                continue
            props = {"target": [mut["prop"]], "all": [f"C{i:02d}" for i in range(1, 29)]}
            for prop in props.get(a.checks, a.checks.split(",")):
                rc, out = check(mut["path"], prop, mut["id"])
                res.setdefault(mut["id"], {})[prop] = rc
                last = out.strip().splitlines()
                print(mut["id"], prop, {0: "MISSED", 1: "caught"}.get(rc, f"ERROR {rc}"),
                      "" if rc == 1 else last[-3:], flush=True)
    for mut in muts:
        shutil.rmtree(mut["path"], ignore_errors=True)
    json.dump(res, open(RESULTS, "w"), indent=1)


main()
