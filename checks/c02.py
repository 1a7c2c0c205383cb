"""C02: structure extraction computes the specified projection."""

from harness.ops import check_extraction
from harness.structs import resolve

from checks.c01 import cases

ID = "C02"
N = {"quick": 24000, "thorough": 150000}
RULE = (
    "A case is a structure class, a dimension biased to block boundaries, a member K"
    " (constructed, sums, or products - hence non-symmetric), a symmetric S and a"
    " rectangular X; all extractions are compared with an independent dense float64"
    " projection. Non-trivial: dimension >= 2 and K not a plain constructed member."
)


def strategy(tier):
    return cases()


def run(case):
    check_extraction(case)
    spec, n = case["spec"], case["dim"]
    kind = resolve(spec)
    labels = [f"class:{spec}", f"dtype:{case['dtype']}", f"form:{case['form']}"]
    labels.append("dim<=8" if n <= 8 else "dim<=30" if n <= 30 else "dim>30")
    if kind[0] == "block":
        labels.append("block:full" if n % kind[1] == 0 else "block:rest")
    return dict(labels=labels, nontrivial=n >= 2 and case["form"] != "leaf")
