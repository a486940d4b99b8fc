"""C34: calls made at the same time in one process do not influence each other."""
import contextlib
import importlib
import io
import os
import random
import sys
import threading
import time
import warnings

import numpy as np

from vf import gens, refs, trees
from vf.checks import c01, c02, c16, c23, c24
from vf.checks.c19 import compare as compare_files
from vf.checks.c19 import results
from vf.checks.c30 import KINDS, Held, calls, same, turned

ID = "C34"
RULE = "a distinct non-trivial evaluation is one distinct set of jobs that ran in several threads at the same time, every result compared"
PLAN = {"quick": [("matching", 60), ("functions", 160), ("transforms", 60), ("metrics", 120), ("large", 60), ("evaluators", 90), ("categories", 60), ("saved", 60), ("converted", 40), ("bars", 24)],
        "thorough": [("matching", 600), ("functions", 1500), ("transforms", 600), ("metrics", 1200), ("large", 600), ("evaluators", 900), ("categories", 600), ("saved", 500), ("converted", 300),
                     ("bars", 200)]}
MUST_SEE = ["pauses inside the library", "distinct lines paused at (per worker)", "matchings checked", "function results compared", "calls that overlapped calls of other threads", "shared transforms", "metrics recomputed", "large images", "evaluations recomputed",
            "categories evaluated at the same time", "result files written at the same time", "conversions at the same time", "bars at the same time"]
ASSUMPTIONS = ["threads of one process; calls that start worker processes are left out (fork in threads)", "results of different calls go to different files",
               "scores are recomputed on trees with at most six edge pixels per class"]
CASE_WALL_S = 240
HOME = os.path.join(os.environ.get("VF_REPO", "/repo"), "pyEdgeEval")
PLACES, SEEN = set(), set()


def together(ctx, jobs, threads=4, rounds=2):
    """{job index: [results]}: every thread runs all its jobs in its own order; jobs: list of callables"""
    rng = ctx.rng
    orders = [[int(j) for _ in range(rounds) for j in rng.permutation(len(jobs))] for _ in range(threads)]
    return run_threads(ctx, [[(j, jobs[j]) for j in o] for o in orders])


class Pauses:
    """schedule noise: at random lines of the library's own code the thread steps aside, for a longer moment now and then"""

    def __init__(self, rng, places, limit=400):
        self.r, self.p, self.left = random.Random(int(rng.integers(1 << 30))), float(rng.choice([0.005, 0.02, 0.1])), limit
        self.places = places

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(HOME) else None

    def line(self, frame, event, arg):
        if event == "line" and self.left > 0 and self.r.random() < self.p:
            self.left -= 1
            self.places.add((frame.f_code.co_filename, frame.f_lineno))
            time.sleep(0 if self.r.random() < 0.3 else 0.0003)
        return self.line


def run_threads(ctx, plans):
    """plans: per thread a list of (key, callable) -> [(key, result or exception)]"""
    out, spans = [[] for _ in plans], [[] for _ in plans]
    gate = threading.Barrier(len(plans))

    noise = [Pauses(ctx.rng, PLACES) for _ in plans] if ctx.rng.random() < 0.6 else None

    def work(k):
        gate.wait()
        if noise:
            sys.settrace(noise[k])
        for key, fn in plans[k]:
            t0 = time.perf_counter()
            try:
                r = fn()
            except Exception as e:
                out[k].append((key, None, e))
                return
            spans[k].append((t0, time.perf_counter()))
            out[k].append((key, r, None))
    old, cwd = sys.getswitchinterval(), os.getcwd()
    os.chdir(ctx.tmp())  # a call that gets the directories mixed up writes there
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(plans))]
        for t in ths:
            t.start()
        for t in ths:
            t.join(CASE_WALL_S)
    finally:
        sys.setswitchinterval(old)
        os.chdir(cwd)
    ctx.require(not any(t.is_alive() for t in ths), "calls in several threads do not end")
    ctx.see("pauses inside the library", sum(400 - n.left for n in noise or ()))
    for f, l in {p for p in PLACES if p not in SEEN}:
        SEEN.add((f, l))
        ctx.see("distinct lines paused at (per worker)")
    for k, mine in enumerate(spans):
        rest = [s for j, o in enumerate(spans) if j != k for s in o]
        ctx.see("calls that overlapped calls of other threads", sum(any(a < d and c < b for c, d in rest) for a, b in mine))
    res = []
    for o in out:
        for key, r, e in o:
            ctx.require(e is None, f"{key}: raised {e!r} while other threads were at work")
            res.append((key, r))
    return res


def case_matching(ctx, i):
    from pyEdgeEval._lib import correspond_pixels
    rng = ctx.rng
    jobs, args = [], []
    for k in range(6):
        hw = gens.shape(rng, 4, 40, 0.1)
        d = float(rng.choice([0.04, 0.08, 0.15]))
        a = rng.random(hw) < d
        b = np.roll(a, (int(rng.integers(-1, 2)), int(rng.integers(-1, 2))), (0, 1)) & (rng.random(hw) < 0.9) | (rng.random(hw) < 0.02)
        r = float(rng.choice([1, 1.5, 2, 3])) / float(np.hypot(*hw))
        oc = float(rng.choice([20, 100, 300]))
        args.append((a, b, r, oc))
        jobs.append(lambda a=a, b=b, r=r, oc=oc: correspond_pixels(a, b, max_dist=r, outlier_cost=oc))
    for j, got in together(ctx, jobs, 4):
        a, b, r, oc = args[j]
        c01.monitor(ctx, a, b, r, got[0], got[1])
        c02.check(ctx, a, b, r, oc, got)
        ctx.see("matchings checked")
    ctx.sig("matching", repr([(x[0].tobytes(), x[1].tobytes()) for x in args]))


def case_functions(ctx, i):
    rng = ctx.rng
    sets = [calls(rng)]
    sets.append({n: (m, f, turned(rng, a), b) for n, (m, f, a, b) in sets[0].items()})
    sets.append(calls(rng))
    jobs, names = [], []
    only = sorted(set(sets[0]) - {"mp_mask2edge"})
    chosen = [str(n) for n in rng.choice(only, int(rng.integers(1, 5)), replace=False)]
    for s in sets:
        for n in chosen:
            mod, f, args, _ = s[n]
            jobs.append(lambda fn=getattr(importlib.import_module(mod), f), a=args: fn(*a))
            names.append(n)
    alone = [j() for j in jobs]
    for j, r in together(ctx, jobs, int(rng.integers(3, 7))):
        ctx.require(same(r, alone[j]), f"{names[j]} gives another result while other threads run {sorted(set(names))}", got=r, want=alone[j])
        ctx.see("function results compared")
    ctx.sig("functions", tuple(chosen), repr([np.asarray(x).sum() if not isinstance(x, tuple) else 0 for x in alone]))


def case_transforms(ctx, i):
    """one transform object used by all threads"""
    from pyEdgeEval.edge_tools.transforms import InstanceMask2Edge, Mask2Edge
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    l2t = {int(l): t for t, l in enumerate(rng.permutation(n)[:int(rng.integers(1, n + 1))])} if i % 2 else None
    kw = dict(labelIds=list(range(n)), ignore_indices=[0] if rng.random() < 0.3 else [], label2trainId=l2t, radius=int(rng.integers(1, 4)))
    sem, ins = Mask2Edge(**kw), InstanceMask2Edge(inst_labelIds=[1], **kw)
    jobs = []
    hw = gens.shape(rng, 6, 24, 0.1)
    for k in range(6):
        lab = gens.label_map(rng, hw if rng.random() < 0.7 else gens.shape(rng, 6, 24, 0.1), list(range(n))).astype(np.uint8)
        inst = (lab.astype(np.int32) * 1000 + rng.integers(0, 2, lab.shape)).astype(np.int32)
        jobs.append((lambda a=lab, b=inst: ins(a, b)) if k % 2 else (lambda a=lab: sem(a)))
    alone = [j() for j in jobs]
    for j, r in together(ctx, jobs):
        ctx.require(set(r) == set(alone[j]) and all(same(r[k], alone[j][k]) for k in r), "a transform shared by threads gives another result", **kw)
        ctx.see("shared transforms")
    ctx.sig("transforms", repr([int(a["edge"].sum()) for a in alone]), hw)


def case_metrics(ctx, i):
    """aggregation of given counts, the threads using equally many thresholds and images"""
    mod = importlib.import_module(f"pyEdgeEval.common.{'multi' if i % 2 else 'binary'}_label.calculate_metrics")
    rng = ctx.rng
    n, images = int(rng.integers(1, 12)), int(rng.integers(1, 30))
    jobs, meta = [], []
    for k in range(int(rng.integers(3, 6))):
        cnts = c16.random_counts(rng, n, images)
        thr = np.sort(rng.uniform(0.01, 0.99, n))
        names = [f"{k}_{j}" for j in range(images)]
        smp = [dict(name=m, stored=c) for m, c in zip(names, cnts)]
        meta.append((thr, cnts, names))
        jobs.append(lambda smp=smp, thr=thr: mod.calculate_metrics(c16.stored, thr.copy(), smp, 1))
    with contextlib.redirect_stdout(io.StringIO()):
        res = together(ctx, jobs, int(rng.integers(3, 6)), 3)
    for j, got in res:
        thr, cnts, names = meta[j]
        c16.compare(ctx, got, thr, cnts, names, "metrics computed while other threads compute theirs")
        ctx.see("metrics recomputed")
    ctx.sig("metrics", repr(meta))


def case_large(ctx, i):
    """arrays large enough for numpy and OpenCV to let other threads run inside one operation"""
    from pyEdgeEval.common.multi_label import rgb_multilabel_encoding
    from pyEdgeEval.preprocess.nms import fast_nms
    from pyEdgeEval.preprocess.thin import binary_thin, bwmorph_thin
    from pyEdgeEval.utils import mask2onehot, mask_label2trainId
    from pyEdgeEval.utils.distance_transforms import mask2bdry
    rng = ctx.rng
    hw = (int(rng.integers(40, 120)), int(rng.integers(40, 120)))
    radius, quality = int(rng.integers(1, 4)), int(rng.choice([0, 3, 5]))
    fns = dict(
        binary_thin=lambda a: binary_thin(a > 0.4), bwmorph_thin=lambda a: bwmorph_thin((a > 0.4).astype(np.uint8)),
        bdry=lambda a: mask2bdry((a > 0.5).astype(np.uint8), (a > 0.9).astype(np.uint8), radius, False, True, quality),
        scipy_bdry=lambda a: mask2bdry((a > 0.5).astype(np.uint8), (a > 0.9).astype(np.uint8), radius, False, False, 0),
        internal=lambda a: mask2bdry((a > 0.5).astype(np.uint8), (a > 0.9).astype(np.uint8), radius, True, True, quality),
        onehot=lambda a: mask2onehot((a * 5).astype(np.uint8), [0, 2, 4]), ids=lambda a: mask_label2trainId((a * 5).astype(np.uint8), {1: 0, 3: 7}),
        rgb=lambda a: rgb_multilabel_encoding((np.stack([a, a * a, 1 - a]) > 0.5).astype(np.uint8)), nms=lambda a: fast_nms(a.copy(), 1, 5, 1.01))
    names = [str(n) for n in rng.choice(sorted(fns), 2, replace=False)]
    maps = [rng.random(hw) for _ in range(2)]
    maps += [np.ascontiguousarray(maps[0][:, ::-1]), np.roll(maps[1], 5, 0)]
    jobs = [lambda n=n, m=m: fns[n](m) for n in names for m in maps]
    alone = [j() for j in jobs]
    for j, r in together(ctx, jobs, 6):
        ctx.require(same(r, alone[j]), f"{names[j // 4]} of a large image gives another result while other threads run {names}", got=r, want=alone[j])
        ctx.see("large images")
    ctx.sig("large", names, hw, maps[0].tobytes())


def check_one(ctx, h, cat, spec, got, out, what):
    thr = refs.thresholds_ref(spec)
    cnts = h.counts(thr, cat, {})
    if cnts is None:
        ctx.see("undecided")
        return False
    trees.check_overall(ctx, [got[k] for k in trees.KEYS], thr, cnts, what, category=cat, params=h.want)
    if out:
        trees.check_files(ctx, out if h.kind == "bsds" else f"{out}/class_{cat:03d}", h.names, thr, cnts, what, category=cat)
    ctx.see("evaluations recomputed")
    return True


def case_evaluators(ctx, i):
    """evaluators of different trees and parameters, also of the same class"""
    rng = ctx.rng
    d = ctx.tmp()
    kinds = [KINDS[i % 6], KINDS[i % 6], KINDS[int(rng.integers(0, 6))]][: int(rng.integers(2, 4))]
    hs = [Held(ctx, k, f"{d}/{j}") for j, k in enumerate(kinds)]
    plans, meta = [], {}
    for j, h in enumerate(hs):
        plan = []
        for k in range(int(rng.integers(2, 4))):
            spec, cat = trees.thresholds(rng), h.cats[int(rng.integers(0, 2))]
            out = f"{h.d}/out{k}" if rng.random() < 0.5 else None
            key = f"evaluation {k} of {h.kind} {j}"
            meta[key] = (h, cat, spec, out)
            if h.kind == "bsds":
                fn = lambda h=h, s=spec, o=out: h.ev.evaluate(thresholds=s, nproc=1, save_dir=o)
            else:
                fn = lambda h=h, s=spec, o=out, c=cat: h.ev.evaluate_category(category=c, thresholds=s, nproc=1, save_dir=o)
            plan.append((key, fn))
        plans.append(plan)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = run_threads(ctx, plans)
    for key, got in res:
        h, cat, spec, out = meta[key]
        if check_one(ctx, h, cat, spec, got, out, f"{key} while {len(plans) - 1} other evaluators are at work"):
            ctx.sig(key, h.kind, repr(h.kw), repr(sorted(got.values())))


def case_categories(ctx, i):
    """several categories of one evaluator, into one result directory"""
    rng = ctx.rng
    h = Held(ctx, KINDS[i % 5], ctx.tmp())
    out = h.out if rng.random() < 0.7 else None
    plans, meta = [], {}
    for c in h.cats:
        spec = trees.thresholds(rng)
        meta[c] = spec
        plans.append([(c, lambda c=c, s=spec: h.ev.evaluate_category(category=c, thresholds=s, nproc=1, save_dir=out)) for _ in range(2)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = run_threads(ctx, plans)
    for c, got in res:
        if check_one(ctx, h, c, meta[c], got, out, f"{h.kind}: category {c} while another one is evaluated"):
            ctx.see("categories evaluated at the same time")
            ctx.sig("categories", h.kind, c, repr(sorted(got.values())))


def case_saved(ctx, i):
    from pyEdgeEval.common.binary_label import save_results
    from pyEdgeEval.common.multi_label import save_category_results
    rng = ctx.rng
    root = ctx.tmp()
    plans, want = [], {}
    for k in range(int(rng.integers(3, 6))):
        plan = []
        for j in range(3):
            res = results(rng)
            if k % 2:
                c = 3 * k + j + 1
                d = f"{root}/all/class_{c:03d}"
                fn = lambda c=c, r=res: save_category_results(root + "/all", c, *r)
            else:
                d = f"{root}/one/{k}/{j}"
                fn = lambda d=d, r=res: save_results(d, *r)
            want[d] = res
            plan.append((d, fn))
        plans.append(plan)
    run_threads(ctx, plans)
    for d, res in want.items():
        compare_files(ctx, d, res, "saved at the same time")
        ctx.see("result files written at the same time")
    ctx.sig("saved", repr(sorted(want)), repr([r[2] for r in want.values()]))


def case_converted(ctx, i):
    from pyEdgeEval.helpers.convert_cityscapes import convert_label_to_semantic_edges
    from pyEdgeEval.helpers.convert_sbd import routine
    rng = ctx.rng
    root = ctx.tmp()
    out = root + "/out"
    os.makedirs(out)
    plans = [[] for _ in range(4)]
    later = []
    for k in range(8):
        if (i + k) % 2:
            name = f"s{k}"
            cls, inst, cats, present = c23.annotation(rng)
            c23.write(rng, f"{root}/cls_orig/{name}.mat", f"{root}/inst_orig/{name}.mat", cls, inst, cats, present)
            r, thin = int(rng.integers(1, 4)), bool(rng.random() < 0.4)
            fn = lambda name=name, r=r, thin=thin: routine(name, root, out, radius=r, thin=thin, save_segs=True)

            def check(name=name, cls=cls, inst=inst, cats=cats, present=present, r=r, thin=thin):
                f, ids, e, s, ie, isu = c23.expected(cls, inst, cats, present, 1 if thin else r, thin)
                c23.check_edges(ctx, f"{out}/{name}_edge.png", e, s, "class edges")
                c23.check_edges(ctx, f"{out}/{name}_isedge.png", ie, isu, "instance-sensitive edges")
                c23.check_segs(ctx, out, name, "_labelIds.png", "_trainIds.png", "_instanceIds.png", f, ids)
        else:
            name = f"bonn/bonn_{k:06d}_000019"
            lab, inst = c24.fancy_scene(rng, 3, 30)
            trees.save_scene(root, "val", name, lab, inst)
            IS, ext, thin = bool(rng.random() < 0.6), str(rng.choice(["png", "tif", "bin"])), bool(rng.random() < 0.4)
            radius = 1 if thin else int(rng.integers(1, 4))
            f = f"{root}/gtFine/val/{name}_gtFine_labelIds.png"
            fn = lambda f=f, IS=IS, ext=ext, thin=thin, radius=radius: convert_label_to_semantic_edges(
                f, inst_sensitive=IS, proc_dir="o", edge_suffix=f"_x.{ext}", radius=radius, thin=thin, scale=1.0, seal=False)

            def check(name=name, lab=lab, inst=inst, IS=IS, ext=ext, thin=thin, radius=radius):
                want, sure = c24.edges(lab, inst if IS else None, radius, thin)
                c24.check_file(ctx, f"{root}/o/val/{name}_x.{ext}", want, sure, "edges")
        plans[k % 4].append((f"conversion of {name}", fn))
        later.append(check)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run_threads(ctx, plans)
    for check in later:
        check()
        ctx.see("conversions at the same time")
    ctx.sig("converted", i, len(later))


def case_bars(ctx, i):
    """serial tracking in every thread, each with its own stream"""
    from pyEdgeEval.utils import track_iter_progress, track_progress
    rng = ctx.rng
    plans, meta = [], {}
    for k in range(4):
        plan = []
        for j in range(2):
            n = int(rng.integers(1, 30))
            s = io.StringIO()
            key = f"bar {k}.{j}"
            meta[key] = (n, s)
            if (k + j) % 2:
                fn = lambda n=n, s=s: track_progress(lambda v: v * v, list(range(n)), file=s)
            else:
                fn = lambda n=n, s=s: [v * v for v in track_iter_progress(list(range(n)), file=s)]
            plan.append((key, fn))
        plans.append(plan)
    for key, got in run_threads(ctx, plans):
        n, s = meta[key]
        ctx.require(got == [v * v for v in range(n)], f"{key}: {got}")
        text = s.getvalue()
        ctx.require(f"{n}/{n}" in text and all(f"{v}/{n}," in text for v in range(1, n + 1)), f"{key} of {n} tasks shows other counts", text=text[-2000:])
        ctx.see("bars at the same time")
    ctx.sig("bars", repr(sorted((k, n) for k, (n, _) in meta.items())))
