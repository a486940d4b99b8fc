"""C16: aggregate metrics."""
import functools

import numpy as np

from vf import gens, refs, trees

ID = "C16"
RULE = "a distinct non-trivial evaluation is one distinct set of per-image counts with matches, whose metrics were recomputed independently"
PLAN = {"quick": [("many", 48), ("counts", 2400), ("parallel", 160), ("evaluated", 240)],
        "thorough": [("many", 600), ("counts", 20000), ("parallel", 800), ("evaluated", 2500)]}
MUST_SEE = ["images", "images whose best F1 is tied", "empty images", "single thresholds", "best F1 between two thresholds",
            "AUC compared", "unsorted thresholds", "non-monotone recall", "evaluations of real predictions", "counts beyond 24 bits", "more than 100 images", "parallel evaluations",
            "equally good thresholds", "more than a hundred thresholds"]
ASSUMPTIONS = ["quantities that depend on floating-point rounding of an exact tie (a recall exactly on a sampling point, equal F1 "
               "of different counts) may come out either way"]


def random_counts(rng, n, images):
    """per image (count_r, sum_r, count_p, sum_p) over n thresholds"""
    out = []
    style = rng.integers(0, 4)
    if rng.random() < 0.06:  # perfect at some thresholds, nothing found at the others
        full = rng.random(n) < 0.7
        for _ in range(images):
            v = np.full(n, float(rng.choice([0, 1, 7, 300])))
            out.append((v * full, v.copy(), v * full, v * full))
        return out
    for _ in range(images):
        sr = int(rng.choice([0, 1, 2, 5, 10, 100, 1000]))
        k = rng.integers(0, 5)
        if k == 0:
            sp = np.zeros(n, int)
        elif k == 1:
            sp = np.full(n, int(rng.integers(1, 50)))
        else:
            sp = np.sort(rng.integers(0, 2 * sr + 8, n))[::-1]  # fewer pixels at higher thresholds
        cp = np.minimum(np.round(sp * rng.uniform(0, 1, n if style else 1)).astype(int), sp)
        if style == 3:
            cr = np.minimum(sr, np.round(sr * rng.uniform(0, 1, n)).astype(int))  # several annotators: not the same number
        else:
            cr = cp = np.minimum(cp, sr)
        if sr == 0:
            cp = cr = np.zeros(n, int)
        if rng.random() < 0.1:
            cr = np.zeros(n, int)
            sr_a, sp, cp = np.zeros(n, int), np.zeros(n, int), np.zeros(n, int)  # skipped image
        else:
            sr_a = np.full(n, sr)
        out.append(tuple(np.array(v, float) for v in (cr, sr_a, cp, sp)))
    return out


def smooth_counts(rng, n, images):
    """curves as detectors have them: recall falls, precision rises; the best F1 often lies between two thresholds"""
    out, swing = [], rng.random() < 0.5
    for _ in range(images):
        if swing:       # cautious and bold thresholds in turns: between them the F1 is better than at either
            bold = np.arange(n) % 2 == 0
            a, b = rng.uniform(0.05, 0.3, n), rng.uniform(0.7, 0.95, n)
            sr = int(rng.integers(200, 40000))
            c = np.round(np.where(bold, b, a) * sr)
            out.append((c, np.full(n, float(sr)), c.copy(), np.round(c / np.where(bold, a, b))))
            continue
        x = np.sort(rng.uniform(0, 1, n)) if rng.random() < 0.5 else np.linspace(0.01, 0.99, n)
        sr = int(rng.integers(200, 40000))
        rec = (1 - x ** rng.uniform(0.3, 3)) * rng.uniform(0.4, 1)
        prec = rng.uniform(0.1, 0.9) + (1 - rng.uniform(0.1, 0.9)) * x
        c = np.round(rec * sr)
        sp = np.maximum(c, np.round(c / np.clip(prec, 0.05, 1)))
        out.append((c, np.full(n, float(sr)), c.copy(), sp))
    return out


def stored(sample):
    return tuple(v.copy() for v in sample["stored"])


def slow(sample):
    import time
    time.sleep(sample["delay"])
    return stored(sample)


def compare(ctx, res, thr, cnts, names, what):
    samples, per_thr, overall = res
    cnts = [tuple([list(map(float, v)) for v in c]) for c in cnts]
    info = dict(thresholds=list(map(float, thr)), counts=cnts)
    m = trees.check_overall(ctx, [overall[k] for k in trees.KEYS], thr, cnts, what)
    ctx.close([[r["threshold"], r["recall"], r["precision"], r["f1"]] for r in per_thr],
              np.array([thr, m["rec"], m["prec"], m["f1"]], float).T, f"{what}: per-threshold results", tol=1e-12, **info)
    ctx.require([s["name"] for s in samples] == list(names), f"{what}: order or names of the per-image results", **info)
    for s, c in zip(samples, cnts):
        have = [float(s[k]) for k in ("threshold", "recall", "precision", "f1")]
        opts = [[thr[k], *refs.prf(*[c[j][k] for j in range(4)])] for k in refs.image_picks(c)]
        ctx.require(any(all(abs(a - b) <= 1e-12 for a, b in zip(have, o)) for o in opts),
                    f"{what}: image result {have} is not the first best one", expected=opts, image=c, **info)
        row = [prf for prf in (refs.prf(*[c[j][k] for j in range(4)]) for k in range(len(thr)))]
        if sum(r[2] == max(x[2] for x in row) for r in row) > 1:
            ctx.see("images whose best F1 is tied")
        if not any(map(any, c)):
            ctx.see("empty images")
        ctx.see("images")
    vals = np.array([overall[k] for k in trees.KEYS[1:]], float)
    ctx.require(np.isfinite(vals).all() and (vals >= 0).all() and (vals <= 1 + 1e-9).all(), f"{what}: not within [0, 1]",
                got=vals, **info)
    ctx.require(overall["ODS_f1"] >= max(m["f1"]) - 1e-12, f"{what}: ODS F1 below the F1 of a threshold", **info)
    if len(thr) == 1:
        ctx.see("single thresholds")
    if m["ods"][3] > max(m["f1"]) + 1e-9:
        ctx.see("best F1 between two thresholds")
    if not refs.auc_edge_sensitive(m["rec"]) and len(set(m["rec"])) > 1:
        ctx.see("AUC compared")
    if any(a < b for a, b in zip(m["rec"], m["rec"][1:])):
        ctx.see("non-monotone recall")
    if any(any(c[0]) for c in cnts):
        ctx.sig(repr(cnts), list(map(float, thr)))
    return m


def modules():
    from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as b
    from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as m
    return b, m


def case_counts(ctx, i):
    rng = ctx.rng
    for _ in range(4):
        n = int(rng.choice([1, 2, 3, 5, 9, 33]))
        thr = [i / (n + 1) for i in range(1, n + 1)] if rng.random() < 0.5 else list(np.sort(rng.uniform(0, 1, n)))
        if rng.random() < 0.25:
            thr = [thr[int(j)] for j in (rng.permutation(n) if rng.random() < 0.5 else np.arange(n)[::-1])]
            ctx.see("unsorted thresholds")
        cnts = (smooth_counts if rng.random() < 0.25 else random_counts)(rng, n, int(rng.integers(1, 6)))
        # images of different directories may share their name
        names = [f"im{j}/{rng.integers(0, 99)}" if rng.random() < 0.7 else "same" for j in range(len(cnts))]
        samples = [dict(name=m, stored=c, thresholds=thr) for m, c in zip(names, cnts)]
        outs = []
        for what, f in zip(("binary", "multi-label"), modules()):
            res = f(stored, n if thr == [i / (n + 1) for i in range(1, n + 1)] and rng.random() < 0.5 else list(thr), samples, nproc=1)
            compare(ctx, res, thr, cnts, names, what)
            outs.append(res[2])
        ctx.close([outs[0][k] for k in trees.KEYS], [outs[1][k] for k in trees.KEYS], "binary and multi-label metrics differ",
                  tol=1e-12, counts=cnts)
    ctx.sample(thresholds=thr, images=len(cnts), result={k: float(outs[0][k]) for k in trees.KEYS})


def case_many(ctx, i):
    """as many images as a benchmark has, as many thresholds as the papers use, and counts beyond 16, 24 and 32 bits"""
    rng = ctx.rng
    n = int(rng.choice([9, 33, 99, 99, 150, 256]))
    images = int(rng.choice([20, 60, 130, 260])) if n < 100 else int(rng.integers(1, 30))
    ctx.see("more than a hundred thresholds", int(n > 100))
    thr = [k / (n + 1) for k in range(1, n + 1)]
    cnts = (smooth_counts if rng.random() < 0.5 else random_counts)(rng, n, images)
    scale = int(rng.choice([1, 1, 100, 2 ** 14 + 1, 2 ** 20 + 7]))
    if scale > 1:
        cnts = [tuple(np.round(v * scale) - (v > 0) * int(rng.integers(0, 2)) for v in c) for c in cnts]
        cnts = [tuple(np.minimum(v, c[k | 1]) for k, v in enumerate(c)) for c in cnts]
        ctx.see("counts beyond 24 bits", sum(int((v > 2 ** 24).sum()) for c in cnts for v in c))
    names = [f"im{j}" for j in range(images)]
    samples = [dict(name=m, stored=c) for m, c in zip(names, cnts)]
    nproc = 1 if rng.random() < 0.7 else int(rng.integers(2, 5))
    for what, f in zip(("binary", "multi-label"), modules()):
        res = f(stored, n if rng.random() < 0.5 else list(thr), samples, nproc=nproc)
        compare(ctx, res, thr, cnts, names, what)
    ctx.see("more than 100 images", int(images > 100))


def case_parallel(ctx, i):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    thr = [k / (n + 1) for k in range(1, n + 1)]
    cnts = random_counts(rng, n, int(rng.integers(2, 12)))
    kinds = int(rng.integers(1, 12))
    names = [f"im{j % kinds}" for j in range(len(cnts))]
    samples = [dict(name=m, stored=c, delay=float(rng.uniform(0, 0.02))) for m, c in zip(names, cnts)]
    f = modules()[i % 2]
    res = f(slow, thr, samples, nproc=int(rng.integers(2, 7)))
    compare(ctx, res, thr, cnts, names, "parallel evaluation")
    ctx.see("parallel evaluations")


def case_evaluated(ctx, i):
    """counts computed from predictions"""
    rng = ctx.rng
    thr = np.sort(rng.choice([0.1, 0.3, 0.4, 0.5, 0.6, 0.8], 4, replace=False))
    samples = []
    d = ctx.tmp()
    for j in range(int(rng.integers(1, 4))):
        hw = int(rng.integers(6, 20)), int(rng.integers(6, 20))
        gt = gens.strokes(rng, hw, 1)
        pred = gens.shifted(rng, gt, 1) * rng.uniform(0.1, 1, hw)
        samples.append(dict(name=f"p{j}", pred=pred, gt=gt, thr=thr, log=f"{d}/{j}.npy"))
    res = modules()[i % 2](_evaluate, list(map(float, thr)), samples, nproc=1)
    # the native matching draws random numbers: the counts are the ones this evaluation has seen
    cnts = [tuple(np.load(s["log"])) for s in samples]
    compare(ctx, res, list(map(float, thr)), cnts, [s["name"] for s in samples], "evaluated predictions")
    ctx.see("evaluations of real predictions")


def _evaluate(s):
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as label
    out = label(s["thr"], s["pred"], s["gt"], max_dist=0.1)
    np.save(s["log"], np.array(out, float))
    return out
