"""C31: conversions and evaluations can be run again over whatever is there."""
import os
import shutil
import signal
import time
import warnings

import numpy as np
from PIL import Image

from vf import refs, trees
from vf.checks import c23, c24
from vf.checks.c21 import build, expected
from vf.framework import REPO

ID = "C31"
RULE = ("a distinct non-trivial evaluation is one distinct (conversion or evaluation, state left before) whose outputs after the second "
        "run were compared with those of a fresh run or of the definition")
PLAN = {"quick": [("city", 64), ("sbd", 64), ("killed", 32), ("broken", 48), ("together", 16), ("evaluation", 160), ("stopped", 24)],
        "thorough": [("city", 500), ("sbd", 500), ("killed", 400), ("broken", 400), ("together", 120), ("evaluation", 1500), ("stopped", 240)]}
MUST_SEE = ["outputs compared", "truncated outputs", "empty outputs", "outputs of another size", "longer outputs", "outputs of another format",
            "missing outputs", "untouched reruns", "read-only leftovers", "runs killed midway", "broken inputs reported", "conversions at the same time",
            "evaluations over old results", "evaluations killed midway", "runs with other options before", "SBD conversions",
            "Cityscapes conversions", "linked outputs"]
ASSUMPTIONS = ["a conversion runs as one user who may replace the old output files"]
CASE_WALL_S = 300


def convert_city(root, kw):
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    convert_cityscapes("gtEval", root, **kw)


def convert_sbd(root, kw):
    c23.run_script(f"{REPO}/scripts/convert_datasets/sbd.py", ["--root", root, "--nproc", str(kw["nproc"])])


def city(ctx, root, small=False):
    rng = ctx.rng
    c24.make(rng, root)
    ctx.see("Cityscapes conversions")
    return convert_city, dict(inst_sensitive=bool(rng.random() < 0.5), ext=str(rng.choice(["png", "tif", "bin"])),
                              save_half_val=bool(rng.random() < 0.5), nproc=int(rng.choice([1, 1, 2, 3])))


def sbd(ctx, root, n=None):
    rng = ctx.rng
    os.makedirs(root, exist_ok=True)
    names = [f"2008_{k:06d}" for k in rng.choice(10**6, int(rng.integers(2, 6)) if n is None else n, replace=False)]
    cut = int(rng.integers(1, len(names)))
    for sp, ns in dict(train=names[:cut], val=names[cut:]).items():
        open(f"{root}/{sp}.txt", "w").write("".join(k + "\n" for k in ns))
    for k in names:
        c23.write(rng, f"{root}/cls_orig/{k}.mat", f"{root}/inst_orig/{k}.mat", *c23.annotation(rng))
    ctx.see("SBD conversions")
    return convert_sbd, dict(nproc=int(rng.choice([1, 1, 2, 3])))


def content(root, only=None):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if only is None or rel in only:
                raw = open(p, "rb").read()
                out[rel] = b"\n".join(sorted(raw.split(b"\n"))) if rel.startswith("splits/") else raw
    return out


def tamper(ctx, root, outputs):
    """old files of every kind in the place of the outputs"""
    rng = ctx.rng
    for rel in outputs:
        p = os.path.join(root, rel)
        k = int(rng.integers(0, 9))
        raw = open(p, "rb").read()
        if k == 0:
            open(p, "wb").write(raw[: int(rng.integers(1, max(2, len(raw))))])
            ctx.see("truncated outputs")
        elif k == 1:
            open(p, "wb").close()
            ctx.see("empty outputs")
        elif k == 2:
            if p.endswith((".png", ".tif")):
                Image.fromarray(np.full((3, 7), 9, np.uint8)).save(p)
            else:
                open(p, "wb").write(b"\0" * 12)
            ctx.see("outputs of another size")
        elif k == 3:
            open(p, "ab").write(b"more\n" * 200)
            ctx.see("longer outputs")
        elif k == 4:
            open(p, "wb").write(b"not an image at all\n" * int(rng.integers(1, 500)))
            ctx.see("outputs of another format")
        elif k == 5:
            os.remove(p)
            ctx.see("missing outputs")
        elif k == 6:
            os.chmod(p, 0o444)
            ctx.see("read-only leftovers")
        elif k == 7:
            to = os.path.join(ctx.scratch, f"{ctx.kind}-{ctx.index}-linked-{len(os.listdir(ctx.scratch))}")
            shutil.copy(p, to)
            open(to, "ab").write(b"stale")
            os.remove(p)
            os.symlink(to, p)
            ctx.see("linked outputs")
        if rng.random() < 0.3 and os.path.exists(p):  # newer than any input, or very old
            t = [time.time() + 10**6, 1.0][int(rng.integers(0, 2))]
            os.utime(p, (t, t))


def compare(ctx, fresh, root, what, **info):
    now = content(root, set(fresh))
    for rel, want in fresh.items():
        ctx.require(rel in now, f"{what}: {rel} is missing after the second run", **info)
        ctx.require(now[rel] == want, f"{what}: {rel} differs from that of a fresh run ({len(now[rel])} and {len(want)} bytes)", **info)
    ctx.see("outputs compared", len(fresh))


def fresh_run(ctx, make):
    root = ctx.tmp() + "/data"
    run, kw = make(ctx, root)
    before = set(content(root))
    run(root, kw)
    all_ = content(root)
    fresh = {k: v for k, v in all_.items() if k not in before}
    ctx.require(len(fresh) > 0, "nothing was converted")
    return root, run, kw, {k: all_[k] for k in before}, fresh


def again(ctx, make, what):
    rng = ctx.rng
    root, run, kw, inputs, fresh = fresh_run(ctx, make)
    if rng.random() < 0.15:
        ctx.see("untouched reruns")
    else:
        tamper(ctx, root, sorted(fresh))
    if rng.random() < 0.3 and make is city:
        other = dict(kw, ext=str(rng.choice(["png", "tif", "bin"])), inst_sensitive=bool(rng.random() < 0.5))
        run(root, other)
        tamper(ctx, root, sorted(k for k in fresh if os.path.exists(f"{root}/{k}")))
        ctx.see("runs with other options before")
    run(root, dict(kw, nproc=int(rng.choice([1, 2]))))
    compare(ctx, fresh, root, what, options=kw)
    compare(ctx, inputs, root, what + " (inputs)", options=kw)
    ctx.sig(what, repr(kw), tuple(sorted(fresh)))
    ctx.sample(what=what, options=kw, outputs=sorted(fresh)[:5])


def case_city(ctx, i):
    again(ctx, city, "Cityscapes conversion")


def case_sbd(ctx, i):
    again(ctx, sbd, "SBD conversion")


def start(fn):
    """runs fn in a process group of its own"""
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            fn()
            os._exit(0)
        except BaseException:
            os._exit(1)
    return pid


def finish(pid, seconds):
    """-> (ended by itself, exit status); kills the whole group after that time"""
    end = time.time() + seconds
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            return True, st
        time.sleep(0.002)
    for _ in range(200):  # the group exists only after setsid
        try:
            os.killpg(pid, signal.SIGKILL)
            break
        except ProcessLookupError:
            if os.waitpid(pid, os.WNOHANG)[0]:
                return True, 0
            time.sleep(0.005)
    os.waitpid(pid, 0)
    return False, None


def settle(root):
    """until nobody writes any more"""
    last = None
    for _ in range(100):
        now = sorted((k, len(v)) for k, v in content(root).items())
        if now == last:
            return
        last = now
        time.sleep(0.05)


def case_killed(ctx, i):
    rng = ctx.rng
    make = sbd if i % 2 else city
    t0 = time.time()
    root, run, kw, inputs, fresh = fresh_run(ctx, make)
    took = time.time() - t0
    for rel in fresh:
        if rng.random() < 0.7:
            os.remove(f"{root}/{rel}")
    for _ in range(int(rng.integers(1, 3))):
        pid = start(lambda: run(root, dict(kw, nproc=int([1, 2, 3][i % 3]))))
        done, _ = finish(pid, float(rng.uniform(0.02, max(0.05, 0.8 * took))))
        ctx.see("runs killed midway", int(not done))
        settle(root)
    run(root, kw)
    compare(ctx, fresh, root, "conversion after a killed one", options=kw)
    compare(ctx, inputs, root, "inputs of a killed conversion", options=kw)
    ctx.sig("killed", repr(kw), tuple(sorted(fresh)))


def case_broken(ctx, i):
    """a damaged input is reported; once it is repaired everything is as after a fresh run"""
    rng = ctx.rng
    make = sbd if i % 2 else city
    root, run, kw, inputs, fresh = fresh_run(ctx, make)
    for rel in fresh:
        if rng.random() < 0.5:
            os.remove(f"{root}/{rel}")
    if make is sbd:
        pick = [k for k in inputs if k.endswith(".mat")]
    else:
        pick = [k for k in inputs if ("_labelIds.png" in k or (kw["inst_sensitive"] and "_instanceIds.png" in k)) and "/test/" not in k
                and k.endswith(".png")]
        pick = [k for k in pick if k.split("/")[1] in ("train", "val")]
    rel = pick[int(rng.integers(0, len(pick)))]
    p = f"{root}/{rel}"
    raw = open(p, "rb").read()
    how = int(rng.integers(0, 3))
    if how == 0:
        open(p, "wb").write(raw[: 40])
    elif how == 1:
        open(p, "wb").close()
    else:
        os.remove(p)
    missing_label = how == 2 and rel.endswith("_labelIds.png")  # found by listing: then there is nothing to convert
    if not missing_label:
        ctx.raises(Exception, lambda: run(root, kw), f"conversion with the damaged input {rel}", options=kw)
        ctx.see("broken inputs reported")
    open(p, "wb").write(raw)
    run(root, kw)
    compare(ctx, fresh, root, "conversion after repairing an input", options=kw)
    ctx.sig("broken", rel, how)


def case_together(ctx, i):
    """instance-sensitive and instance-insensitive conversion at the same time"""
    rng = ctx.rng
    root, run, kw, inputs, first = fresh_run(ctx, city)
    other = dict(kw, inst_sensitive=not kw["inst_sensitive"])
    run(root, other)
    both = {k: v for k, v in content(root).items() if k not in inputs}
    if rng.random() < 0.5:
        shutil.rmtree(f"{root}/gtEval")
        shutil.rmtree(f"{root}/splits")
    pids = [start(lambda o=o: run(root, o)) for o in (kw, other)]
    for pid in pids:
        ok, st = finish(pid, 200)
        ctx.require(ok and st == 0, "a conversion fails while the other mode is converted", options=kw, status=st)
    compare(ctx, both, root, "conversions at the same time", options=kw)
    ctx.see("conversions at the same time")
    ctx.sig("together", repr(kw), tuple(sorted(both)))


def scored(ctx, d):
    rng = ctx.rng
    kind = ["sbd", "city", "half", "reanno", "bsds"][ctx.index % 5]
    cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)]
    kw = dict(max_dist=0.08, scale=1.0)
    if kind == "bsds":
        t = trees.bsds(rng, d + "/gt", d + "/pred", n=int(rng.integers(1, 5)))
        use = None
    else:
        use = {"reanno": "reanno_", "half": "half_"}.get(kind, "") + "raw_isedge"
        t = (trees.sbd if kind in ("sbd", "reanno") else trees.city)(rng, d + "/gt", d + "/pred", cats, [use], n=int(rng.integers(1, 5)))
    ev = build(kind, d + "/gt", d + "/pred")
    ev.set_eval_params(**kw)
    if kind == "bsds":
        t.names = ev.sample_names
    return kind, cats, t, ev, use, expected(kind, kw)[0]


def run_eval(kind, ev, cats, spec, nproc, out):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "bsds":
            ev.evaluate(thresholds=spec, nproc=nproc, save_dir=out)
        else:
            ev.evaluate(categories=list(cats), thresholds=spec, nproc=nproc, save_dir=out)


def check_eval(ctx, kind, cats, t, use, want, thr, out, what):
    if kind == "bsds":
        cnts = trees.bsds_counts(t, thr, want["max_dist"], want["apply_thinning"])
        if cnts is None:
            return ctx.see("undecided")
        trees.check_files(ctx, out, t.names, thr, cnts, what)
        ctx.see("outputs compared", 3)
        return ctx.sig(what, kind, repr(cnts))
    for c in cats:
        cnts = trees.counts(t, c, thr, use, scale=want["scale"], max_dist=want["max_dist"], border=kind in ("sbd", "reanno"))
        if cnts is None:
            ctx.see("undecided")
            continue
        trees.check_files(ctx, f"{out}/class_{c:03d}", t.names, thr, cnts, what, category=c)
        ctx.see("outputs compared", 3)
        ctx.sig(what, kind, c, repr(cnts))
    p = f"{out}/overall_eval_bdry.txt"
    ctx.require(len(open(p).read().split()) == 9, f"{what}: the overall file holds {open(p).read()!r}")


def case_evaluation(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind, cats, t, ev, use, want = scored(ctx, d)
    out = d + "/out"
    if rng.random() < 0.5:
        run_eval(kind, ev, cats, [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8], 1, out)
        outputs = sorted(k for k in content(out))
    else:
        outputs = ["eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"]
        if kind != "bsds":
            outputs = [f"class_{c:03d}/{f}" for c in cats for f in outputs] + ["overall_eval_bdry.txt"]
        for rel in outputs:
            os.makedirs(os.path.dirname(f"{out}/{rel}"), exist_ok=True)
            open(f"{out}/{rel}", "w").write("0.5 0.5 0.5 0.5\n" * int(rng.integers(1, 300)))
    if rng.random() < 0.8:
        tamper(ctx, out, outputs)
    spec = trees.thresholds(rng)
    run_eval(kind, ev, cats, spec, int(rng.choice([1, 1, 2])), out)
    ctx.see("evaluations over old results")
    check_eval(ctx, kind, cats, t, use, want, refs.thresholds_ref(spec), out, "evaluation over old results")


def case_stopped(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind, cats, t, ev, use, want = scored(ctx, d)
    out = d + "/out"
    t0 = time.time()
    run_eval(kind, ev, cats, 5, 2, out)
    took = time.time() - t0
    if rng.random() < 0.5:
        shutil.rmtree(out)
    for _ in range(2):
        pid = start(lambda: run_eval(kind, ev, cats, 3, 1 + i % 3, out))
        done, _ = finish(pid, float(rng.uniform(0.005, max(0.02, took))))
        ctx.see("evaluations killed midway", int(not done))
    spec = [0.2, 0.4, 0.6]
    run_eval(kind, ev, cats, spec, 1, out)
    check_eval(ctx, kind, cats, t, use, want, spec, out, "evaluation after a killed one")
