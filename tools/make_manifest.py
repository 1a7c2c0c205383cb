"""Write MANIFEST.json for all checks that exist (run with any Python 3)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECHNIQUE = {
    "default": "property-based testing (Hypothesis), dense float64 reference model",
    "C03": "model-based property testing (Hypothesis): random operation histories against"
    " a dense mirror",
    "C04": "property-based testing (Hypothesis): generated structure definitions against"
    " dense semantics and the reference optimizer",
    "C05": "property-based fuzzing of constructors (Hypothesis) against a shape oracle",
    "C07": "metamorphic property-based testing (Hypothesis)",
    "C09": "model-based property testing (Hypothesis) of training histories with groups",
    "C10": "model-based property testing (Hypothesis) of training histories",
    "C11": "metamorphic property-based testing (Hypothesis): scaled against unscaled runs",
    "C12": "property-based fault injection (Hypothesis): infinite gradients in histories",
    "C13": "metamorphic property-based testing (Hypothesis): accumulation against full batch",
    "C14": "property-based testing (Hypothesis): simulated ranks against one process",
    "C15": "model-based property testing (Hypothesis): checkpoints at random points",
    "C18": "differential property-based testing (Hypothesis) between structures",
    "C19": "property-based fuzzing (Hypothesis) of configurations against a specification",
    "C21": "property-based testing (Hypothesis): limits of long runs against a matrix inverse",
    "C22": "model-based property testing (Hypothesis): memory of histories against a bound",
    "C23": "property-based testing (Hypothesis) of interleavings: runs against solo runs",
    "C24": "differential property-based testing (Hypothesis) against torch.optim.SGD",
    "C25": "metamorphic property-based testing (Hypothesis): changes of coordinates",
    "C26": "property-based testing (Hypothesis) against entry-wise definitions",
    "C27": "property-based testing (Hypothesis) with recorded tensor operations",
    "C28": "model-based property testing (Hypothesis): histories of all features on ranks",
    "C20": "metamorphic property-based testing (Hypothesis): equivalent models",
}

props = [json.loads(line) for line in open(f"{ROOT}/properties.jsonl") if line.strip()]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(f"{ROOT}/checks/{pid.lower()}.py"):
        missing.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append(
        dict(
            property=pid,
            quick_cmd=f"{PY} check.py {pid} --tier quick",
            thorough_cmd=f"{PY} check.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=TECHNIQUE.get(pid, TECHNIQUE["default"]),
            level="exploration",
            level_note="Generated cases against an explicit oracle; says nothing about"
            " inputs outside the generated domain. Domain, bounds and tolerances:"
            f" DESIGN.md, section {pid}.",
        )
    )
out = dict(
    version=1,
    setup_cmd=f"{PY} -c 'import torch'",
    checks=checks,
    not_applicable=missing,
)
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
