"""lines of /repo's Python code that no check executes: VF_COV=DIR ./check.sh ... for every check, then tools/cov.py DIR"""
import dis
import glob
import json
import os
import subprocess
import sys

seen = {}
for f in glob.glob(sys.argv[1] + "/*.json"):
    for k, v in json.load(open(f)).items():
        seen.setdefault(k, set()).update(v)


def lines(code):
    out = {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            out |= lines(c)
    return out


for f in subprocess.run(["git", "-C", "/repo", "ls-files", "*.py"], capture_output=True, text=True).stdout.split():
    if f.startswith(("tests/", "docs/")) or f == "setup.py":
        continue
    src = open("/repo/" + f).read()
    want = lines(compile(src, f, "exec"))
    miss = sorted(want - seen.get(f, set()))
    text = src.split("\n")
    miss = [m for m in miss if text[m - 1].strip()]
    print(f"{f}: {len(want) - len(miss)}/{len(want)}")
    for m in miss if f in seen else ():
        print(f"    {m}: {text[m - 1].strip()[:110]}")
