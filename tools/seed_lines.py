"""Development tool: do the planted bugs remove lines that exist in the original tree?"""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for sid in sorted(os.listdir(ROOT + "/seeded")):
    diff = open(f"{ROOT}/seeded/{sid}/patch.diff").read().splitlines()
    f = None
    for l in diff:
        if l.startswith("--- a/"):
            f = l[6:]
            orig = subprocess.run(["git", "-C", "/repo", "show", f"eddf68f:{f}"], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:] not in orig:
                print(sid, "NOT ORIGINAL", l)
    removed = [l for l in diff if l.startswith("-") and not l.startswith("---")]
    if not removed:
        print(sid, "only adds lines")
