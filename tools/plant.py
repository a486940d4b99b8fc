"""plant.py [--only substr,...] [--jobs N] [--write] [--keep]
Builds each planted bug of tools/bugs*.py in a scratch copy of /repo under /tmp/w and reports whether it applies,
builds, passes the stable test, fails its demonstration, and is caught by the check of its property.
With --write the ones that hold up (caught or not) go to /verif/seeded/<id>/."""
import argparse, concurrent.futures as cf, difflib, glob, importlib, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
PY = "/opt/venv/bin/python"
W = "/tmp/w"
ENV = dict(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root", LANG="C.UTF-8",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           CC="/usr/bin/gcc", CXX="/usr/bin/g++", PIP_NO_INDEX="1")


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        out += [dict(b, file=m.__name__[4:]) for b in m.B]
    ids = [b["id"] for b in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out


def lines(s):
    return s.replace("\n", "\n\0").split("\0") if not s.endswith("\n") else [l + "\n" for l in s[:-1].split("\n")]


def make_patch(b):
    files = {}
    for rel, old, new, *nth in b["edits"]:
        src = files.get(rel) or (open("/repo/" + rel, newline="").read(),) * 2
        cur = src[1]
        if "\r\n" in cur:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if nth and cur.count(old) > nth[0]:
            parts = cur.split(old)
            files[rel] = (src[0], old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:]))
            continue
        if cur.count(old) != 1:
            raise ValueError(f"{b['id']}: {cur.count(old)} places for {old[:60]!r} in {rel}")
        files[rel] = (src[0], cur.replace(old, new))
    diff = ""
    for rel, (a, c) in files.items():
        diff += f"diff --git a/{rel} b/{rel}\n"
        diff += "".join(difflib.unified_diff(lines(a), lines(c), "a/" + rel, "b/" + rel))
    return diff


def stage(b, d):
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", newline="").write(make_patch(b))
    open(d + "/demo.py", "w").write("from seedlib import *\n" + b["demo"].lstrip("\n") + 'print("demo ok")\n')
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/tools/seedlib.py", d)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)


def sh(cmd, cwd, env=None, timeout=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def run(b, a):
    d = f"{W}/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    res = dict(id=b["id"], prop=b["prop"])
    try:
        try:
            stage(b, d + "/seed")
        except ValueError as e:
            return dict(res, fail=str(e))
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        rp = d + "/repo"
        env = dict(PYTHONPATH=rp)
        rc, out = sh(["git", "apply", d + "/seed/patch.diff"], rp)
        if rc:
            return dict(res, fail="apply: " + out)
        if "_lib/" in open(d + "/seed/patch.diff").read():
            sh("rm -rf build pyEdgeEval/_lib/*.so pyEdgeEval/_lib/correspond_pixels.cpp pyEdgeEval/_lib/nms.cpp", rp)
            rc, out = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], rp)
            if rc:
                return dict(res, fail="build: " + out[-800:])
        else:
            sh("rm -f build/.vp-ext-hash", rp)
        if not a.nodemo:
            rc, out = sh(["bash", d + "/seed/demo.sh"], "/repo", timeout=300)
            if rc:
                return dict(res, fail="demo fails on the clean tree: " + out[-800:])
            rc, out = sh(["bash", d + "/seed/demo.sh"], rp, env, 300)
            if not rc:
                return dict(res, fail="demo passes with the bug: " + out[-300:])
            res["demo"] = (out.strip().splitlines() or [""])[-1][:150]
            rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_bsds500.py"], rp, env, 400)
            if rc:
                return dict(res, fail="stable test: " + out[-500:])
        if a.nocheck:
            return dict(res, caught=None)
        ids = [b["prop"]] if not a.all else None
        rc, out = sh(["bash", V + "/check.sh", b["prop"].lower(), "--tier", a.tier, "--seed", str(a.seed), "--jobs", "4"], V,
                     dict(VF_REPO=rp, VF_EVIDENCE=d + "/ev", VERIF_SEED="1", VERIF_TIER="quick"), 900)
        vio = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        res["caught"] = rc == 1 and bool(vio)
        res["out"] = out[-600:] if not res["caught"] else out[:300]
        return res
    finally:
        if not a.keep:
            shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--only", default="")
    p.add_argument("--file", default="")
    p.add_argument("--jobs", type=int, default=4)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--write", action="store_true")
    p.add_argument("--keep", action="store_true")
    p.add_argument("--nocheck", action="store_true")
    p.add_argument("--nodemo", action="store_true")
    p.add_argument("--all", action="store_true")
    p.add_argument("-v", action="store_true")
    a = p.parse_args()
    bs = [b for b in bugs() if not a.only or any(o in b["id"] for o in a.only.split(","))]
    bs = [b for b in bs if not a.file or b["file"] == a.file]
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda b: run(b, a), bs):
            st = "FAIL  " if "fail" in r else {True: "caught", False: "MISSED", None: "ok    "}[r["caught"]]
            print(st, r["id"], r.get("fail", ""), "|", r.get("demo", ""), flush=True)
            if a.v or st == "MISSED":
                print("      ", r.get("out", "").replace("\n", "\n       "), flush=True)
            if a.write and "fail" not in r:
                b = next(x for x in bs if x["id"] == r["id"])
                d = f"{V}/seeded/{r['id']}"
                shutil.rmtree(d, ignore_errors=True)
                stage(b, d)


if __name__ == "__main__":
    main()
