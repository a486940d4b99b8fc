"""C33: calls leave nothing behind."""
import gc
import io
import os
import shutil
import signal
import threading
import time
import warnings

import numpy as np

from vf import gens, state, trees
from vf.checks import c18, c24
from vf.checks.c10 import scene
from vf.checks.c21 import build

ID = "C33"
RULE = "a distinct non-trivial evaluation is one distinct call (function, outcome, processes, input) whose leftovers were looked for"
PLAN = {"quick": [("tracked", 120), ("interrupted", 24), ("edges", 60), ("evaluated", 120), ("converted", 40), ("plain", 120), ("memory", 24)],
        "thorough": [("tracked", 1200), ("interrupted", 240), ("edges", 500), ("evaluated", 1200), ("converted", 300), ("plain", 1000),
                     ("memory", 96)]}
MUST_SEE = ["calls whose processes were counted", "calls whose open files were compared", "calls whose settings were compared", "failing calls",
            "interrupted calls", "parallel runs", "parallel evaluations", "parallel conversions", "failing evaluations", "failing conversions",
            "memory of repeated calls measured", "memory of calls on other inputs measured"]
ASSUMPTIONS = ["pipes of a finished pool may stay open until garbage collection", "logging set up on first use, figures of matplotlib and "
               "modules imported on first use are not leftovers"]
CASE_WALL_S = 200


def outcome(ctx, what, call, fails, held=True):
    """runs the call; processes are counted while the exception is still held"""
    with warnings.catch_warnings():
        w = state.Watch(ctx, what)
        with w:
            err = None
            try:
                call()
            except Exception as e:
                err = e
                w.check_processes()
            if fails is not None:
                ctx.require((err is not None) == bool(fails), f"{what}: {'raised ' + repr(err) if err else 'did not raise'}")
            failed, err = err is not None, None
    ctx.see("failing calls", int(failed))


WARM = set()


def warm(ctx, key, fn):
    """what a first call loads for good is not a leftover"""
    if key not in WARM:
        WARM.add(key)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = state.ambient()
            fn()
            after = state.ambient()
        # modules imported on first use may add warning filters, search paths and environment variables
        for k in set(before) - {"warning filters", "environment", "import path", "root logger"}:
            ctx.require(before[k] == after[k], f"first use of {key}: {k} changed")
        gc.collect()


def warm_pool(ctx):
    from pyEdgeEval.utils import track_parallel_progress
    warm(ctx, "pool", lambda: track_parallel_progress(abs, [1, 2], 2, file=io.StringIO()))


def case_tracked(ctx, i):
    from pyEdgeEval.utils import track_iter_progress, track_parallel_progress, track_progress
    rng = ctx.rng
    warm_pool(ctx)
    n = int(rng.integers(1, 12))
    bad = i % 2 == 0
    fail = [0] * n
    if bad:
        fail[int(rng.integers(0, n))] = int(rng.integers(1, 5))
    path, tasks = c18.make(ctx, n, fail=fail)
    if i % 6 == 5:
        call = lambda: track_progress(c18.work, tasks, file=io.StringIO())
        what = "track_progress"
    else:
        kw = c18.options(ctx, path, n)
        kw["keep_order"] = bool(rng.random() < 0.5)
        call = lambda: track_parallel_progress(c18.work, c18.given(ctx, tasks), **kw)
        what = f"track_parallel_progress with {kw['nproc']} processes{', a failing task' if bad else ''}"
        ctx.see("parallel runs")
    outcome(ctx, what, call, bad)
    if i % 10 == 0:
        outcome(ctx, "track_iter_progress", lambda: [next(iter(track_iter_progress(tasks, file=io.StringIO()))) for _ in range(2)], False)
    ctx.sig("tracked", what, n)


class Stop(BaseException):
    pass


def case_interrupted(ctx, i):
    """the caller is interrupted (as by Ctrl-C) while it waits for tasks"""
    from pyEdgeEval.utils import track_parallel_progress
    rng = ctx.rng
    warm_pool(ctx)
    n, nproc = int(rng.integers(3, 9)), int(rng.integers(1, 4))
    path, tasks = c18.make(ctx, n)
    for t in tasks[1:]:
        t["delay"] = 60.0
    tasks[0]["delay"] = 0.0 if i % 2 else 60.0
    kw = dict(nproc=nproc, keep_order=bool(rng.random() < 0.5), no_bar=bool(rng.random() < 0.5), file=io.StringIO())
    exc = KeyboardInterrupt if i % 3 else Stop

    def handler(*_):
        raise exc("interrupted")

    def bell():
        end = time.time() + 30
        while time.time() < end and len([e for e in c18.events(path) if e[0] == "start"]) < min(nproc + (i % 2), n):
            time.sleep(0.05)
        time.sleep(0.5)
        os.kill(os.getpid(), signal.SIGALRM)
    old = signal.signal(signal.SIGALRM, handler)
    th = threading.Thread(target=bell, daemon=True)
    w = state.Watch(ctx, f"interrupted track_parallel_progress with {nproc} processes")
    try:
        with w:
            th.start()
            t0 = time.time()
            try:
                track_parallel_progress(c18.work, tasks, **kw)
                got = None
            except BaseException as e:
                got = e
                if isinstance(e, exc):
                    w.check_processes()
            ctx.require(isinstance(got, exc), f"interrupting the caller gives {got!r}")
            ctx.require(time.time() - t0 < 50, f"the interrupted call took {time.time() - t0:.0f} s to end")
            got = None
            th.join(40)
    finally:
        signal.signal(signal.SIGALRM, old)
    ctx.see("interrupted calls")
    ctx.sig("interrupted", n, nproc, i % 6)


def case_edges(ctx, i):
    from pyEdgeEval.edge_tools import mp_instance_mask2edge, mp_mask2edge
    from pyEdgeEval.edge_tools.transforms import mask2edge
    rng = ctx.rng
    lab, inst, one, il, ign = scene(rng, True)
    nproc = int(rng.integers(1, 5))
    kw = dict(ignore_indices=ign, radius=int(rng.choice([1, 2])), nproc=nproc)
    bad = i % 5 == 4
    if bad:
        kw["radius"] = "two"
    calls = [lambda: mp_mask2edge(one, **kw), lambda: mp_instance_mask2edge(one, inst, list(il), **kw),
             lambda: mask2edge(run_type="mp", instance_sensitive=True, mask=one, inst_mask=inst, inst_labelIds=il, **kw)]
    ok = dict(kw, radius=1)
    warm(ctx, "edges", lambda: (mp_mask2edge(one, **ok), mp_instance_mask2edge(one, inst, list(il), **ok)))
    outcome(ctx, f"edges with {nproc} processes", calls[i % 3], None if bad else False)  # nothing may be computed with the radius
    ctx.see("parallel runs")
    ctx.sig("edges", lab.tobytes(), nproc, i % 3)


def case_evaluated(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "city", "half", "otf", "reanno", "bsds"][i % 6]
    n = int(rng.integers(2, 6))
    if kind == "bsds":
        t = trees.bsds(rng, d + "/gt", d + "/pred", n=n)
        ev = build("bsds", d + "/gt", d + "/pred", split="test")
    elif kind == "otf":
        t = trees.city_labels(rng, d + "/gt", d + "/pred", [3], n=n)
        ev = build(kind, d + "/gt", d + "/pred")
    else:
        kinds = {"sbd": ["raw_isedge"], "reanno": ["reanno_raw_isedge"], "city": ["raw_isedge"], "half": ["half_raw_isedge"]}[kind]
        t = (trees.sbd if kind in ("sbd", "reanno") else trees.city)(rng, d + "/gt", d + "/pred", [3], kinds, n=n)
        ev = build(kind, d + "/gt", d + "/pred")
    nproc = int(rng.choice([1, 2, 2, 3, 4]))
    bad = i % 12 >= 6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev.set_eval_params(max_dist=0.05)

    def run(save=True):
        out = d + "/out" if save else None
        if kind == "bsds":
            ev.evaluate(thresholds=[0.3, 0.6], nproc=nproc, save_dir=out)
        elif i % 4 < 2:
            ev.evaluate(categories=[3], thresholds=[0.3, 0.6], nproc=nproc, save_dir=out)
        else:
            ev.evaluate_category(category=3, thresholds=[0.3, 0.6], nproc=nproc, save_dir=out)
    warm(ctx, kind, run)
    if bad:
        victim = t.names[int(rng.integers(0, len(t.names)))]
        gone = 0
        for base, _, files in os.walk(d + "/gt"):
            for f in files:
                rel = os.path.relpath(os.path.join(base, f), d + "/gt")
                if victim.split("/")[-1] in rel and f.endswith((".png", ".mat")) and "labelTrainIds" not in f:
                    os.rename(os.path.join(base, f), os.path.join(base, f) + ".gone")
                    gone += 1
        ctx.require(gone > 0, "harness: nothing to remove")
        ctx.see("failing evaluations")
    outcome(ctx, f"{kind} evaluation with {nproc} processes{', one GT file missing' if bad else ''}", run, bad)
    ctx.see("parallel evaluations", int(nproc > 1))
    ctx.sig("evaluated", kind, nproc, bad, tuple(t.names))


def case_converted(ctx, i):
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    rng = ctx.rng
    root = ctx.tmp() + "/city"
    tree = c24.make(rng, root)
    nproc = int(rng.choice([1, 2, 3]))
    bad = i % 2 == 1
    kw = dict(inst_sensitive=bool(rng.random() < 0.5), ext=str(rng.choice(["png", "tif", "bin"])), save_half_val=bool(rng.random() < 0.5), nproc=nproc)
    warm(ctx, "convert", lambda: convert_cityscapes("first", root, **kw))
    if bad:
        split = ["train", "val"][int(rng.integers(0, 2))]
        names = list(tree[split])
        how = i % 8 // 2
        f = f"{root}/gtFine/{split}/{names[int(rng.integers(0, len(names)))]}_gtFine_"
        if how == 0:
            shutil.rmtree(f"{root}/gtFine/{['test', 'train', 'val'][i // 8 % 3]}")
        elif how == 1 and kw["inst_sensitive"]:
            os.remove(f + "instanceIds.png")
        else:
            with open(f + str(rng.choice(["labelIds.png", "polygons.json"])), "wb") as g:
                g.write(b"broken")
        ctx.see("failing conversions")
    outcome(ctx, f"conversion with {nproc} processes{', with a broken or missing file' if bad else ''}", lambda: convert_cityscapes("gtEval", root, **kw), bad)
    ctx.see("parallel conversions", int(nproc > 1))
    ctx.sig("converted", nproc, bad, repr(sorted(tree["val"])))


def plain_calls(ctx, hw):
    from pyEdgeEval._lib import correspond_pixels, nms
    from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, loop_mask2edge
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin, fast_nms
    from pyEdgeEval.utils import mask2bdry, mask2onehot
    rng = ctx.rng
    d = ctx.tmp()
    a, b = gens.strokes(rng, hw), gens.strokes(rng, hw)
    s = rng.random(hw) if rng.random() < 0.5 else gens.smooth_strength(rng, hw) * a
    lab = gens.label_map(rng, hw, [0, 1, 2, 3])
    one = np.stack([lab == k for k in range(4)]).astype(np.uint8)
    inst = lab.astype(np.int32) * 1000
    t = trees.bsds(rng, d + "/gt", d + "/pred", n=1)
    ev = build("bsds", d + "/gt", d + "/pred", split="test")
    ev.set_eval_params(max_dist=0.05)
    return {
        "correspond_pixels": lambda: correspond_pixels(a, b, 0.02),
        "nms": lambda: nms(s, s * 3, 1, 5, 1.01),
        "fast_nms": lambda: fast_nms(s),
        "binary_thin": lambda: binary_thin(a),
        "bwmorph_thin": lambda: bwmorph_thin(a),
        "evaluate_boundaries_threshold": lambda: evaluate_boundaries_threshold(np.array([0.5, 0.9]), s, a, max_dist=0.01),
        "loop_mask2edge": lambda: loop_mask2edge(one, ignore_indices=[], radius=2),
        "loop_instance_mask2edge": lambda: loop_instance_mask2edge(one, inst, [1, 2, 3], [], 2),
        "mask2bdry": lambda: mask2bdry(one[1], one[0], 2),
        "mask2onehot": lambda: mask2onehot(lab, [0, 1, 2, 3]),
        "BSDS evaluation": lambda: ev.evaluate(thresholds=[0.5], nproc=1, save_dir=None),
    }


def case_plain(ctx, i):
    calls = plain_calls(ctx, (int(ctx.rng.integers(12, 60)), int(ctx.rng.integers(12, 60))))
    names = sorted(calls)
    name = names[i % len(names)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warm(ctx, name, calls[name])
        with state.Watch(ctx, name):
            for _ in range(3):
                calls[name]()
    ctx.sig("plain", name)


def case_memory(ctx, i):
    """repeated calls, on the same and on other inputs, do not keep more and more memory"""
    from pyEdgeEval._lib import correspond_pixels, nms
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, loop_mask2edge
    from pyEdgeEval.preprocess import binary_thin, bwmorph_thin, fast_nms
    from pyEdgeEval.utils import mask2bdry, mask2onehot
    rng = ctx.rng
    d = ctx.tmp()
    hw = 300, 420
    a, b, v = gens.strokes(rng, hw), gens.strokes(rng, hw), rng.random(hw)
    lab = gens.label_map(rng, hw, [0, 1, 2, 3])
    one = np.stack([lab == k for k in range(4)]).astype(np.uint8)
    inst = lab.astype(np.int32) * 1000

    def evaluation(kind):
        empty = np.zeros(hw, np.uint8)
        for j in range(64):
            if kind == "bsds":
                trees.save(f"{d}/pred/test/{j}.png", empty)
                trees.save_mat(f"{d}/gt/groundTruth/test/{j}.mat", [empty, empty])
            elif kind == "sbd":
                trees.save(f"{d}/pred/class_001/{j}.png", empty)
                trees.save(f"{d}/gt/gtEval/{j}_raw_isedge.png", np.zeros(hw + (3,), np.uint8))
                trees.save(f"{d}/gt/gtEval/{j}_labelIds.png", empty)
            else:
                trees.save(f"{d}/pred/class_001/bonn/{j}_leftImg8bit.png", empty)
                trees.save_scene(d + "/gt", "val", f"bonn/{j}", empty, empty.astype(np.uint16))
                os.makedirs(d + "/gt/gtEval/val", exist_ok=True)
        ev = build(kind, d + "/gt", d + "/pred", **(dict(split="test") if kind == "bsds" else {}))
        ev.set_eval_params()

        def run(j):
            name = str(j % 64)
            ev.set_sample_names(sample_names=["test/" + name if kind == "bsds" else name if kind == "sbd" else "bonn/" + name])
            if kind == "bsds":
                ev.evaluate(thresholds=[0.5], nproc=1, save_dir=None)
            else:
                ev.evaluate_category(category=1, thresholds=[0.5], nproc=1, save_dir=None)
        return run

    def turn(x, j):
        return np.roll(x, j, axis=-1) if turning else x
    turning = bool(i // 8 % 2)
    what = ["correspond_pixels", "nms", "fast_nms", "binary_thin", "bwmorph_thin", "mask2bdry", "BSDS evaluation", "loop_mask2edge",
            "SBD evaluation", "evaluation on the fly", "loop_instance_mask2edge", "mask2onehot"]
    name = what[i % len(what)]
    calls = {
        "correspond_pixels": lambda j: correspond_pixels(turn(a, j), turn(b, j), 0.02),
        "nms": lambda j: nms(turn(v, j), turn(v, j) * 3, 1, 5, 1.01),
        "fast_nms": lambda j: fast_nms(turn(v, j)),
        "binary_thin": lambda j: binary_thin(turn(a, j)),
        "bwmorph_thin": lambda j: bwmorph_thin(turn(a, j)),
        "loop_mask2edge": lambda j: loop_mask2edge(turn(one, j), ignore_indices=[], radius=2),
        "loop_instance_mask2edge": lambda j: loop_instance_mask2edge(turn(one, j), turn(inst, j), [1, 2, 3], [], 2),
        "mask2bdry": lambda j: mask2bdry(turn(one[1], j), turn(one[0], j), 2),
        "mask2onehot": lambda j: mask2onehot(turn(lab, j), [0, 1, 2, 3]),
    }
    if "evaluation" in name:
        calls[name] = evaluation({"BSDS evaluation": "bsds", "SBD evaluation": "sbd", "evaluation on the fly": "otf"}[name])
        turning = True
    call = calls[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for j in range(4):
            call(j)
        gc.collect()
        before = state.rss()
        k = 60 if name not in ("correspond_pixels", "bwmorph_thin", "binary_thin") else 40
        for j in range(k):
            call(4 + j)
    gc.collect()
    grown = (state.rss() - before) / 2**20
    # one kept map of this size per call would be at least 120 kB (a byte per pixel)
    ctx.require(grown < 0.05 * k + 1, f"{k} calls of {name} keep {grown:.1f} MB", pixels=300 * 420)
    ctx.see("memory of repeated calls measured")
    ctx.see("memory of calls on other inputs measured", int(turning))
    ctx.see("kilobytes grown", int(max(0, grown) * 1024))
    ctx.sig("memory", name, turning)
