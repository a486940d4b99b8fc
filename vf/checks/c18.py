"""C18: parallel execution."""
import io
import json
import os
import threading
import time

import numpy as np

from vf import refs, trees
from vf.framework import Inconclusive, Violation

ID = "C18"
RULE = ("a distinct non-trivial evaluation is one run of at least two tasks whose start/end event log was checked offline; distinct "
        "completion orders are counted separately")
PLAN = {"quick": [("serial", 60), ("ordered", 90), ("unordered", 60), ("failing", 48), ("images", 40), ("metrics", 48), ("storm", 8), ("crowd", 10)],
        "thorough": [("serial", 600), ("ordered", 2500), ("unordered", 1500), ("failing", 800), ("images", 800), ("metrics", 800), ("storm", 200), ("crowd", 200)]}
MUST_SEE = ["tasks executed", "runs finishing out of task order", "runs with skip_first", "runs with a chunk size", "runs without a bar",
            "exceptions delivered", "initialised workers", "(iterable, int) tasks", "overlapping tasks", "per-image results checked",
            "empty task lists", "more processes than tasks", "data sets of hundreds of images", "runs of thousands of tasks"]
ASSUMPTIONS = ["a worker process killed from outside is not part of the property",
               "interleavings are produced by injected delays and the real scheduler, not enumerated"]
CASE_WALL_S = 200
HANG_S = 60


class Boom(Exception):
    pass


def log(path, *event):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(list(event) + [os.getpid(), time.monotonic_ns()]) + "\n").encode())
    os.close(fd)


def work(task):
    log(task["log"], "start", task["id"])
    if task["delay"]:
        time.sleep(task["delay"])
    if task.get("spin"):
        t = time.process_time() + task["spin"]
        while time.process_time() < t:
            pass
    log(task["log"], "end", task["id"])
    if task.get("fail"):
        raise Boom(f"task {task['id']}") if task["fail"] == 1 else (ValueError, KeyError, AssertionError)[task["fail"] - 2](f"task {task['id']}")
    return task["value"]


def init(path, tag):
    log(path, "init", tag)


def value(rng, k):
    return [k, None, False, 0, "", {"k": k}, [], (k, k), np.full(3, k), "same", "same"][int(rng.integers(0, 11))]


def make(ctx, n, delays="mixed", fail=()):
    rng = ctx.rng
    path = os.path.join(ctx.tmp(), "events")
    open(path, "w").close()
    style = rng.integers(0, 4)
    tasks = []
    for k in range(n):
        d = [0.0, float(rng.uniform(0, 0.01)), float((n - k) * 0.003), 0.02 if k == 0 else 0.0][style]
        tasks.append(dict(id=k, log=path, delay=d, value=value(rng, k), fail=fail[k] if k < len(fail) else 0))
    return path, tasks


def events(path):
    return [json.loads(l) for l in open(path)]


def same_value(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)


def monitored(ctx, call, path, n, what):
    """runs the call in a thread; a call that does not return although every task has ended hangs"""
    box = {}

    def target():
        try:
            box["result"] = call()
        except BaseException as e:
            box["error"] = e
    th = threading.Thread(target=target, daemon=True)
    th.start()
    t0 = time.time()
    while th.is_alive():
        th.join(0.02 if time.time() - t0 < 2 else 0.3)
        if time.time() - t0 > HANG_S and th.is_alive():
            done = {e[1] for e in events(path) if e[0] == "end"}
            if len(done) == n:
                time.sleep(HANG_S / 2)
                if th.is_alive():
                    raise Violation(f"{what}: all {n} tasks have ended, but the call has not returned for {1.5 * HANG_S:.0f} s")
            elif time.time() - t0 > 1.5 * HANG_S:
                started = [e for e in events(path) if e[0] == "start"]
                idle = (time.monotonic_ns() - max([e[-1] for e in events(path)] or [0])) / 1e9
                if idle > HANG_S:
                    raise Violation(f"{what}: no task event for {idle:.0f} s with {len(done)} of {n} tasks ended, {len(started)} started")
                raise Inconclusive(f"{what}: too slow")
    return box


def exactly_once(ctx, path, n, what, partial=False):
    ev = events(path)
    starts = [e[1] for e in ev if e[0] == "start"]
    ends = [e[1] for e in ev if e[0] == "end"]
    ctx.require(len(starts) == len(set(starts)), f"{what}: a task ran more than once", starts=starts)
    if not partial:
        ctx.require(sorted(starts) == list(range(n)) and sorted(ends) == list(range(n)), f"{what}: executed tasks {sorted(starts)} of {n}")
    ctx.see("tasks executed", len(ends))
    ctx.see("worker processes", len({e[2] for e in ev if e[0] == "start"}))
    if ends != sorted(ends):
        ctx.see("runs finishing out of task order")
    live = worst = 0
    for e in ev:
        live += e[0] == "start"
        live -= e[0] == "end"
        worst = max(worst, live)
    if worst > 1:
        ctx.see("overlapping tasks")
    if n > 1:
        ctx.sig(tuple(ends), tuple(starts))
    return ev


def options(ctx, path, n):
    rng = ctx.rng
    kw = dict(nproc=int(rng.choice([1, 2, 3, 4, 7])), file=io.StringIO())
    if rng.random() < 0.5:
        kw["chunksize"] = int(rng.choice([1, 2, 3, 5, 40]))
        if kw["chunksize"] > 1:
            ctx.see("runs with a chunk size")
    if rng.random() < 0.35:
        kw["skip_first"] = True
        ctx.see("runs with skip_first")
    if rng.random() < 0.35:
        kw["no_bar"] = True
        ctx.see("runs without a bar")
    if rng.random() < 0.2:
        kw["bar_width"] = int(rng.choice([1, 10, 100]))
    if rng.random() < 0.25:
        kw["initializer"], kw["initargs"] = init, (path, "t")
    if kw["nproc"] > n:
        ctx.see("more processes than tasks")
    return kw


def number(rng):
    return int(rng.choice([0, 1, 2, 3])) if rng.random() < 0.3 else int(rng.integers(2, 24))


def given(ctx, tasks):
    """tasks as a list, or as an iterator with its length"""
    if ctx.rng.random() < 0.3:
        ctx.see("(iterable, int) tasks")
        return (iter(tasks), len(tasks)) if ctx.rng.random() < 0.5 else (tasks, len(tasks))
    return tasks


def case_serial(ctx, i):
    from pyEdgeEval.utils import track_iter_progress, track_progress
    rng = ctx.rng
    n = number(rng)
    path, tasks = make(ctx, n)
    for t in tasks:
        t["delay"] = 0
    kw = dict(file=io.StringIO())
    if rng.random() < 0.5:
        kw["no_bar"] = True
    got = track_progress(work, given(ctx, tasks), **kw)
    ev = exactly_once(ctx, path, n, "serial")
    ctx.require([e[1] for e in ev if e[0] == "start"] == list(range(n)), "the serial loop leaves the order")
    ctx.require(len(got) == n and all(same_value(a, t["value"]) for a, t in zip(got, tasks)), "serial results", got=got)
    got = list(track_iter_progress(given(ctx, tasks), file=io.StringIO()))
    ctx.require([t["id"] for t in got] == list(range(n)), "iterating with a bar")


def case_ordered(ctx, i):
    from pyEdgeEval.utils import track_parallel_progress
    n = number(ctx.rng)
    path, tasks = make(ctx, n)
    kw = options(ctx, path, n)
    if ctx.rng.random() < 0.3:
        kw["keep_order"] = True
    box = monitored(ctx, lambda: track_parallel_progress(work, given(ctx, tasks), **kw), path, n, f"parallel run {kw}")
    if "error" in box:
        raise box["error"]
    ev = exactly_once(ctx, path, n, f"parallel run {kw}")
    if n == 0:
        ctx.see("empty task lists")
    if "initializer" in kw and n:
        inits = {e[2] for e in ev if e[0] == "init"}
        ctx.require({e[2] for e in ev if e[0] == "start"} <= inits, "a worker ran tasks without being initialised")
        ctx.see("initialised workers", len(inits))
    got = box["result"]
    ctx.require(isinstance(got, list) and len(got) == n, f"{len(got)} results of {n} tasks with {kw}")
    ctx.require(all(same_value(a, t["value"]) for a, t in zip(got, tasks)), f"results are not in task order with {kw}",
                got=got, want=[t["value"] for t in tasks])
    ctx.sample(tasks=n, options={k: v for k, v in kw.items() if k not in ("file", "initializer")},
               order_of_ends=[e[1] for e in ev if e[0] == "end"])


def case_unordered(ctx, i):
    from pyEdgeEval.utils import track_parallel_progress
    n = number(ctx.rng)
    path, tasks = make(ctx, n)
    for k, t in enumerate(tasks):
        t["value"] = (k, t["value"]) if not isinstance(t["value"], np.ndarray) else (k, 7)
    kw = options(ctx, path, n)
    box = monitored(ctx, lambda: track_parallel_progress(work, given(ctx, tasks), keep_order=False, **kw), path, n, f"unordered run {kw}")
    if "error" in box:
        raise box["error"]
    exactly_once(ctx, path, n, f"unordered run {kw}")
    got = box["result"]
    ctx.require(sorted(map(repr, got)) == sorted(repr(t["value"]) for t in tasks), f"results are not those of the tasks with {kw}",
                got=got)


def case_failing(ctx, i):
    """an exception of a task reaches the caller"""
    from pyEdgeEval.utils import track_parallel_progress, track_progress
    rng = ctx.rng
    n = int(rng.integers(1, 14))
    bad = set(int(v) for v in rng.choice(n, int(rng.integers(1, min(3, n) + 1)), replace=False))
    path, tasks = make(ctx, n, fail=[int(rng.integers(1, 5)) if k in bad else 0 for k in range(n)])
    mode = i % 3
    if mode == 2:
        call = lambda: track_progress(work, tasks, file=io.StringIO())
        what = "serial run"
    else:
        kw = options(ctx, path, n)
        call = lambda: track_parallel_progress(work, tasks, keep_order=mode == 0, **kw)
        what = f"parallel run {kw}"
    # a call that gets stuck after the exception would wait for ever: all tasks need not have run
    box = {}

    def target():
        try:
            box["result"] = call()
        except BaseException as e:
            box["error"] = e
    th = threading.Thread(target=target, daemon=True)
    th.start()
    th.join(3 * HANG_S)
    if th.is_alive():
        raise Violation(f"{what}: the exception of task {sorted(bad)} has not reached the caller for {3 * HANG_S} s")
    ctx.require("error" in box, f"{what}: the exception of task {sorted(bad)} was dropped", got=box.get("result"))
    e = box["error"]
    ctx.require(isinstance(e, (Boom, ValueError, KeyError, AssertionError)) and any(f"task {k}" in str(e) for k in bad),
                f"{what}: raised {e!r} instead of the exception of task {sorted(bad)}")
    exactly_once(ctx, path, n, what, partial=True)
    ctx.see("exceptions delivered")


def case_images(ctx, i):
    """per-image results stay attached to their image"""
    from pyEdgeEval.evaluators import CityscapesEvaluator, SBDEvaluator
    rng = ctx.rng
    d = ctx.tmp()
    cat = int(rng.integers(1, 20))
    n = int(rng.integers(2, 7))
    if i % 2:
        t = trees.sbd(rng, d + "/gt", d + "/pred", [cat], ["raw_isedge"], n=n)
        ev = SBDEvaluator(d + "/gt", d + "/pred")
    else:
        t = trees.city(rng, d + "/gt", d + "/pred", [cat], ["raw_isedge"], n=n)
        ev = CityscapesEvaluator(d + "/gt", d + "/pred")
    ev.set_eval_params(scale=1.0, max_dist=0.1)
    thr = [0.2, 0.4, 0.6]
    cnts = trees.counts(t, cat, thr, "raw_isedge", max_dist=0.1, border=bool(i % 2))
    if cnts is None:
        ctx.see("undecided")
        return
    for nproc in [1] + [int(v) for v in rng.choice([2, 3, 4, 8], 2, replace=False)]:
        out = f"{d}/out{nproc}"
        res = ev.evaluate_category(category=cat, thresholds=thr, nproc=nproc, save_dir=out)
        trees.check_files(ctx, f"{out}/class_{cat:03d}", t.names, thr, cnts, f"{nproc} processes")
        trees.check_overall(ctx, [res[k] for k in trees.KEYS], thr, cnts, f"{nproc} processes")
        ctx.see("per-image results checked", len(t.names))
    ctx.sig(tuple(t.names), cat)


def _counted(sample):
    time.sleep(sample["delay"])
    return tuple(np.array(v, float) for v in sample["counts"])


def case_metrics(ctx, i):
    """per-image results of calculate_metrics: every image its own, also when names repeat"""
    from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as b
    from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as m
    from vf.checks.c16 import compare, random_counts
    rng = ctx.rng
    n, images = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3, 7, 12, 30]))
    thr = [k / (n + 1) for k in range(1, n + 1)]
    cnts = random_counts(rng, n, images)
    kinds = int(rng.integers(1, images + 1))
    names = [f"im{int(rng.integers(kinds))}" for _ in range(images)]
    samples = [dict(name=a, counts=c, delay=float(rng.choice([0, 0, 0.01, 0.03]))) for a, c in zip(names, cnts)]
    for nproc in (1, int(rng.integers(2, 12))):
        for f in (b, m):
            compare(ctx, f(_counted, list(thr), samples, nproc=nproc), thr, cnts, names, f"{nproc} processes")
    ctx.see("per-image results checked", 4 * images)
    ctx.see("images that share their name", images - len(set(names)))


def _uneven(k):
    if k % 37 == 0:
        time.sleep(0.004)
    return -k


def case_crowd(ctx, i):
    """as many images as a validation split has; thousands of tasks"""
    from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as b
    from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as m
    from pyEdgeEval.utils import track_parallel_progress
    from vf.checks.c16 import compare, random_counts
    rng = ctx.rng
    if i % 5 == 4:
        n = int(rng.integers(500, 4000))
        for chunk in (1, int(rng.choice([2, 16, 100]))):
            got = track_parallel_progress(_uneven, list(range(n)), nproc=int(rng.integers(4, 9)), chunksize=chunk, file=io.StringIO())
            ctx.require(got == [-k for k in range(n)], f"{n} tasks with chunks of {chunk}: results not in task order",
                        first=next((k for k, v in enumerate(got) if v != -k), None), length=len(got))
        again = [int(v) for v in rng.integers(0, 50, n)]       # tasks that look alike are tasks of their own
        got = track_parallel_progress(_uneven, again, nproc=int(rng.integers(2, 9)), chunksize=int(rng.choice([1, 7])), keep_order=False, file=io.StringIO())
        ctx.require(sorted(got) == sorted(-k for k in again), f"{n} tasks of equal values, out of order: other results", length=len(got))
        ctx.see("runs of thousands of tasks", 3)
        return ctx.sig("thousands", n)
    n, images = int(rng.integers(1, 3)), int(rng.integers(33, 600))
    thr = [k / (n + 1) for k in range(1, n + 1)]
    cnts = random_counts(rng, n, images)
    names = [f"im{k}" for k in range(images)]
    samples = [dict(name=a, counts=c, delay=0.01 if rng.random() < 0.05 else 0.0) for a, c in zip(names, cnts)]
    nproc = int(rng.integers(3, 9))
    compare(ctx, [b, m][i % 2](_counted, list(thr), samples, nproc=nproc), thr, cnts, names, f"{images} images, {nproc} processes")
    ctx.see("per-image results checked", images)
    ctx.see("data sets of hundreds of images", int(images > 100))
    ctx.sig("crowd", images, nproc)


def case_storm(ctx, i):
    """many short tasks, more processes than cores"""
    from pyEdgeEval.utils import track_parallel_progress
    rng = ctx.rng
    n = int(rng.integers(150, 400))
    path, tasks = make(ctx, n)
    for t in tasks:
        t["delay"] = float(rng.choice([0, 0, 0, 0.002]))
        t["spin"] = float(rng.choice([0, 0, 0.001]))
        t["value"] = t["id"]
    nproc = int(rng.choice([8, 16, 24]))
    kw = dict(nproc=nproc, chunksize=int(rng.choice([1, 2, 7])), skip_first=bool(rng.random() < 0.5), file=io.StringIO())
    order = bool(rng.random() < 0.6)
    box = monitored(ctx, lambda: track_parallel_progress(work, tasks, keep_order=order, **kw), path, n, f"storm {kw}")
    if "error" in box:
        raise box["error"]
    exactly_once(ctx, path, n, f"storm {kw}")
    got = box["result"]
    ctx.require((got if order else sorted(got)) == list(range(n)), f"storm: wrong results with {kw}")
