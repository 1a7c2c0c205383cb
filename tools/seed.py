"""Development tool: write seeded/<id> from a mutant and a file with demonstrations."""

import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from mutants import M  # noqa: E402

seeds = runpy.run_path(sys.argv[1])["S"]
by_id = {m["id"]: m for m in M}
for sid, s in seeds.items():
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    mut, path = by_id[s["mutant"]], f"/tmp/seed-{sid}"
    shutil.rmtree(path, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", path], check=True)
    f = os.path.join(path, mut["file"])
    text = open(f).read()
    assert text.count(mut["old"]) == mut["count"], (sid, text.count(mut["old"]))
    text = text.replace(mut["old"], mut["new"])
    if "old2" in mut:
        assert text.count(mut["old2"]) == 1, sid
        text = text.replace(mut["old2"], mut["new2"])
    open(f, "w").write(text)
    diff = subprocess.run(["git", "-C", path, "diff"], capture_output=True, text=True).stdout
    out = os.path.join(ROOT, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(s["demo"])
    open(f"{out}/demo.sh", "w").write(
        '#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
    )
    meta = {k: s[k] for k in ("property", "needs", "what_it_breaks")}
    json.dump(meta, open(f"{out}/meta.json", "w"), indent=1)
    rc = [
        subprocess.run(["bash", f"{out}/demo.sh"], cwd=d, capture_output=True, text=True)
        for d in ("/repo", path)
    ]
    ok = rc[0].returncode == 0 and rc[1].returncode != 0
    print(sid, "ok" if ok else "PROBLEM", [r.returncode for r in rc],
          rc[1].stderr.strip().splitlines()[-1:] if ok else rc[0].stderr[-600:])
    shutil.rmtree(path, ignore_errors=True)
