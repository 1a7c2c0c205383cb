"""Development tool: systematic AST mutation of singd, examined with few cases per check.

usage: automut.py list | automut.py run [--jobs N] [--fraction F] [--only SUBSTRING] OUT
Every mutant is examined in a forked process (one process, no shrinking), until a check
reports a violation. Survivors are to be read: equivalent, killed by tests, or missed.
"""

import argparse
import ast
import copy
import json
import os
import shutil
import signal
import sys
import time

for var in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[var] = "1"
os.environ["CUDA_VISIBLE_DEVICES"] = ""
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}  # fmt: skip
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv,
       ast.MatMult: ast.Mult}  # fmt: skip
CHAIN = {"clone", "detach", "contiguous", "to", "T", "mul_", "div_", "add_", "sum", "mean",
         "flatten", "reshape", "view", "squeeze", "unsqueeze", "diag_add_", "transpose",
         "copy_", "expand", "float", "add_bias"}  # fmt: skip


def variants(node):
    """(description, replacement) of a node; replacement None deletes a statement."""
    c = copy.deepcopy
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        n = c(node)
        n.ops = [CMP[type(node.ops[0])]()]
        yield "cmp", n
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        if not isinstance(node.left, ast.Constant) or not isinstance(node.left.value, str):
            n = c(node)
            n.op = BIN[type(node.op)]()
            yield "binop", n
            yield "left", c(node.left)
    if isinstance(node, ast.BoolOp):
        n = c(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "bool", n
        for k in range(len(node.values)):
            n = c(node)
            del n.values[k]
            yield f"bool-drop{k}", n if len(n.values) > 1 else n.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield "unary", c(node.operand)
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield "const", ast.Constant(not v)
        elif isinstance(v, int):
            yield "const", ast.Constant(v + 1)
            if v > 0:
                yield "const-", ast.Constant(v - 1)
        elif isinstance(v, float):
            yield "const", ast.Constant(v + 0.5)
    if isinstance(node, ast.IfExp):
        n = c(node)
        n.body, n.orelse = n.orelse, n.body
        yield "ifexp", n
        yield "ifexp-body", c(node.body)
        yield "ifexp-else", c(node.orelse)
    if isinstance(node, ast.If):
        for v in (True, False):
            n = c(node)
            n.test = ast.Constant(v)
            yield f"if-{v}", n
    if isinstance(node, ast.Call):
        for k, kw in enumerate(node.keywords):
            n = c(node)
            del n.keywords[k]
            yield f"drop-{kw.arg}", n
        if len(node.args) >= 2:
            n = c(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield "swap", n
        if isinstance(node.func, ast.Attribute) and node.func.attr in CHAIN:
            yield f"chain-{node.func.attr}", c(node.func.value)
    if isinstance(node, ast.Attribute) and node.attr == "T":
        yield "T", c(node.value)
    if isinstance(node, (ast.AugAssign,)):
        n = c(node)
        n.op = BIN[type(node.op)]()
        yield "aug", n
        yield "delete", None
    if isinstance(node, (ast.Expr, ast.Raise, ast.Delete, ast.Assert, ast.Continue, ast.Break)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield "delete", None
    if isinstance(node, ast.Assign) and isinstance(
        node.targets[0], (ast.Attribute, ast.Subscript)
    ):
        yield "delete", None
    if isinstance(node, ast.For):
        n = c(node)
        n.iter = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(
            ast.Name("list", ast.Load()), [c(node.iter)], [])], [])
        yield "reversed", n
        n = c(node)
        n.body = n.body + [ast.Break()]
        yield "first-only", n


def skip(parents, node):
    """Docstrings, annotations, messages of exceptions and warnings."""
    for p, field in parents:
        if isinstance(p, (ast.JoinedStr, ast.AnnAssign)) and field in ("annotation", "values"):
            return True
        if field in ("returns", "annotation", "decorator_list"):
            return True
        if isinstance(p, ast.Raise) and field == "exc":
            return True
    return False


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    out = []

    def visit(node, parents, where):
        for field, value in ast.iter_fields(node):
            children = value if isinstance(value, list) else [value]
            for k, child in enumerate(children):
                if not isinstance(child, ast.AST):
                    continue
                chain = parents + [(node, field)]
                if skip(chain, child):
                    continue
                loc = where + [(field, k if isinstance(value, list) else None)]
                for what, new in variants(child):
                    out.append((loc, what, new, child))
                visit(child, chain, loc)

    visit(tree, [], [])
    for loc, what, new, old in out:
        line = ast.unparse(old).splitlines()[0][:90]
        to = "pass" if new is None else ast.unparse(new).splitlines()[0][:90]
        yield dict(line=old.lineno, what=what, old=line, new=to, apply=(tree, loc, new))


def source(m):
    tree, loc, new = m["apply"]
    t = copy.deepcopy(tree)
    parent = t
    for field, k in loc[:-1]:
        parent = getattr(parent, field) if k is None else getattr(parent, field)[k]
    field, k = loc[-1]
    if new is None:
        new = ast.Pass()
    if k is None:
        setattr(parent, field, new)
    else:
        getattr(parent, field)[k] = new
    return ast.unparse(ast.fix_missing_locations(t))


def collect(only):
    base = "/repo/singd"
    for folder in ("optim", "structures"):
        for name in sorted(os.listdir(f"{base}/{folder}")):
            if name.endswith(".py") and name != "__init__.py":
                rel = f"{folder}/{name}"
                for k, m in enumerate(mutants(f"{base}/{rel}")):
                    m.update(file=rel, id=f"{folder}-{name[:-3]}-{k}")
                    if not only or only in m["id"]:
                        yield m


OPT = "C08 C11 C09 C24 C13 C12 C10 C15 C16 C19 C14 C06 C20 C22 C23 C27 C17 C07 C18 C25 C21"
STR = "C03 C01 C02 C04 C05 C26 C22 C27 C14 C08 C16 C15 C23 C18 C19"
UTL = "C06 C08 C16 C27 C20 C25 C19 C22 C23 C13"


def order(rel):
    if rel == "optim/optimizer.py":
        return OPT.split()
    return (UTL if rel.startswith("optim") else STR).split()


def examine(m, fraction, result):
    """In a forked process."""
    top = f"/tmp/am/{m['id']}"
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree("/repo/singd", f"{top}/singd")
    with open(f"{top}/singd/{m['file']}", "w") as f:
        f.write(source(m))
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1), os.dup2(null, 2)
    from harness import runner

    runner.REPO = top
    sys.path.insert(0, top)
    verdict, start = "survived", time.time()
    try:
        import importlib
        import multiprocessing as mp

        try:
            import singd.optim.optimizer  # noqa: F401
            import singd.structures.recursive  # noqa: F401
        except Exception as e:
            verdict = f"import {type(e).__name__}"
        else:
            runner.SHARDS = 1
            runner.SHRINK_SECONDS = {"quick": 0.0}
            for prop in order(m["file"]):
                module = importlib.import_module(f"checks.{prop.lower()}")
                n = max(20, int(module.N["quick"] * fraction))
                module.N = {"quick": n}
                s = runner.Shard(module, "quick", 11, 0, mp.Event())
                s.run()
                if s.failure is not None:
                    verdict = f"{prop}: {s.failure[1].splitlines()[0][:100]}"
                    break
                if s.error:
                    verdict = f"error {prop}: {s.error[-200:]}"
                    break
    except BaseException as e:
        verdict = f"crash {type(e).__name__} {e}"
    shutil.rmtree(top, ignore_errors=True)
    out = {k: m[k] for k in ("id", "file", "line", "what", "old", "new")}
    out.update(verdict=verdict, seconds=round(time.time() - start, 1))
    with open(result, "a") as f:
        f.write(json.dumps(out) + "\n")
    os._exit(0)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("mode")
    a.add_argument("out", nargs="?")
    a.add_argument("--jobs", type=int, default=6)
    a.add_argument("--fraction", type=float, default=0.03)
    a.add_argument("--only", default="")
    a.add_argument("--ids", default="")
    a.add_argument("--limit", type=int, default=1500, help="seconds per mutant")
    a = a.parse_args()
    muts = list(collect(a.only))
    if a.ids:
        wanted = set(a.ids.split(","))
        muts = [m for m in muts if m["id"] in wanted]
    if a.mode == "list":
        for m in muts:
            print(m["id"], m["line"], m["what"], "|", m["old"], "->", m["new"])
        return
    import torch

    torch.set_num_threads(1)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import einconv  # noqa: F401
    import hypothesis  # noqa: F401

    done = set()
    if os.path.exists(a.out):
        done = {json.loads(line)["id"] for line in open(a.out)}
    running = {}
    for m in [m for m in muts if m["id"] not in done] + [None] * a.jobs:
        while len(running) >= a.jobs or (m is None and running):
            for pid in list(running):
                if os.waitpid(pid, os.WNOHANG)[0]:
                    del running[pid]
                elif time.time() - running[pid][1] > a.limit:
                    os.kill(pid, signal.SIGKILL)
                    mm = running[pid][0]
                    with open(a.out, "a") as f:
                        out = {k: mm[k] for k in ("id", "file", "line", "what", "old", "new")}
                        f.write(json.dumps(dict(out, verdict="timeout")) + "\n")
            time.sleep(0.05)
        if m is not None:
            pid = os.fork()
            if pid == 0:
                examine(m, a.fraction, a.out)
            running[pid] = (m, time.time())


main()
