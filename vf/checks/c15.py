"""C15: internal predictions."""
import numpy as np

from vf import gens, probe, refs, trees

ID = "C15"
RULE = ("a distinct non-trivial evaluation is one prediction from which at least one pixel was removed and at least one inside "
        "the segment was kept, decided pixel by pixel (directly, at the native call, or through the scores of an evaluator)")
PLAN = {"quick": [("direct", 1600), ("evaluation", 640), ("sbd", 480), ("city", 480), ("otf", 240)],
        "thorough": [("direct", 12000), ("evaluation", 4000), ("sbd", 2500), ("city", 2500), ("otf", 1500)]}
MUST_SEE = ["pixels removed", "pixels kept inside the segment", "pixels kept outside of the segment", "predictions observed at the native call",
            "dataset predictions observed", "GT without edges", "pixels exactly at the tolerance"]
ASSUMPTIONS = ["a pixel whose distance equals the tolerance up to rounding may go either way"]


# integer diagonals with a dyadic tolerance: whole distances are exactly at the tolerance
TIES = [((12, 16), 0.25), ((24, 32), 0.125), ((24, 32), 0.25), ((32, 24), 0.125), ((20, 48), 0.25), ((16, 12), 0.5), ((40, 30), 0.5)]


def split(ctx, p, gt, seg, md):
    keep, sure = refs.killed(p, gt, seg, md)
    removed = p & ~keep
    ctx.see("pixels removed", int(removed.sum()))
    ctx.see("pixels kept inside the segment", int((keep & (seg != 0)).sum()))
    ctx.see("pixels kept outside of the segment", int((keep & (seg == 0)).sum()))
    if removed.any() and (keep & (seg != 0)).any():
        ctx.sig(p.tobytes(), np.asarray(gt).tobytes(), seg.tobytes(), md)
    return keep, sure


def same(ctx, got, p, keep, sure, what, **info):
    got = np.asarray(got) != 0
    bad = (got != keep) & (sure | ~p)
    ctx.require(not bad.any(), f"{what}: {int((bad & ~got).sum())} pixels removed and {int((bad & got).sum())} kept wrongly",
                kept=got.astype(int), expected=keep.astype(int), **info)


def case_direct(ctx, i):
    from pyEdgeEval.common.multi_label.options import kill_internal_prediction
    rng = ctx.rng
    for _ in range(4):
        hw, tie = gens.shape(rng, 2, 26), None
        if rng.random() < 0.3:
            hw, tie = TIES[int(rng.integers(len(TIES)))]
        elif rng.random() < 0.02:
            hw = [(100, 150), (1, 700), (300, 40), (120, 260), (600, 2)][int(rng.integers(5))]
            ctx.see("large images")
        gt = gens.sparse(rng, hw, int(rng.integers(1, 8))) if rng.random() < 0.6 else gens.strokes(rng, hw, 1)
        if not gt.any():
            continue
        g = gt.astype(np.uint8)
        p = gens.binary(rng, hw)
        seg = gens.blobs(rng, hw)
        # integer diagonals make the tolerance an exact multiple
        md = float(rng.choice([0.02, 0.05, 0.1, 0.2, 0.5])) if rng.random() < 0.7 else float(rng.uniform(0.01, 0.6))
        if tie is not None:
            md = tie
            ctx.see("pixels exactly at the tolerance", int((refs.dist_to(gt) == refs.tolerance(hw, md)).sum()))
        keep, sure = split(ctx, p, gt, seg, md)
        args = [p, g if rng.random() < 0.7 else g.astype(float), seg]
        copies = [a.copy() for a in args]
        got = kill_internal_prediction(*args, max_dist=md)
        same(ctx, got, p, keep, sure, "kill_internal_prediction", pred=p.astype(int), gt=g, seg=seg.astype(int), max_dist=md)
        ctx.require(all(np.array_equal(a, b) for a, b in zip(args, copies)), "kill_internal_prediction changes its input")
    ctx.sample(shape=hw, max_dist=md, removed=int((p & ~keep).sum()))


def observe(ctx, calls, expected, md, what):
    """expected: list of (prediction before removal, gt, seg, kill); each must be seen at the native call, in whatever order"""
    left = [c for c in calls if (c["a"] != 0).any() and (c["b"] != 0).any()]
    for p, gt, seg, kill in expected:
        if not gt.any():
            ctx.see("GT without edges")
            continue
        keep, sure = split(ctx, p, gt, seg, md) if kill else (p, np.ones(p.shape, bool))
        if not (keep | (p & ~sure)).any():
            continue  # nothing left to match
        mine = [c for c in left if np.array_equal(c["b"] != 0, gt != 0)]
        fits = [c for c in mine if not (((c["a"] != 0) != keep) & (sure | ~p)).any()]
        if not fits:
            if not (keep & sure).any():
                continue
            ctx.require(not left or mine, f"{what}: matched against another GT than expected", want=gt.astype(int),
                        got=[(c["b"] != 0).astype(int) for c in left[:2]])
            if not mine:
                ctx.see("native calls not observed")
                continue
            same(ctx, mine[0]["a"], p, keep, sure, what, pred=p.astype(int), gt=gt.astype(int), seg=seg.astype(int), max_dist=md)
        c = fits[0]
        left = [q for q in left if q is not c]
        ctx.close(c["max_dist"], md, f"{what}: tolerance of the matching")
        ctx.see("predictions observed at the native call")


def case_evaluation(ctx, i):
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold
    rng = ctx.rng
    hw = int(rng.integers(10, 40)), int(rng.integers(10, 40))
    gt = gens.strokes(rng, hw, 1).astype(np.uint8) if rng.random() < 0.9 else np.zeros(hw, np.uint8)
    pred = gens.smooth_strength(rng, hw) if rng.random() < 0.5 else gens.binary(rng, hw) * rng.uniform(0.1, 1, hw)
    seg = gens.blobs(rng, hw)
    md = float(rng.choice([0.02, 0.05, 0.1]))
    if rng.random() < 0.3:
        hw, md = TIES[int(rng.integers(5))]
        gt = gens.strokes(rng, hw, 1).astype(np.uint8)
        pred = gens.binary(rng, hw) * rng.uniform(0.1, 1, hw)
        seg = gens.blobs(rng, hw)
    thr = np.sort(rng.uniform(0.05, 0.95, 3))
    thin = bool(rng.random() < 0.6)
    kill = bool(rng.random() < 0.8)
    with probe.correspondences() as calls:
        got = evaluate_boundaries_threshold(thr, pred, gt, gt_seg=seg, max_dist=md, apply_thinning=thin, kill_internal=kill)
    expected = [(refs.predicted(pred, t, thin), gt, seg, kill) for t in thr]
    observe(ctx, calls, expected, md, "evaluation")
    for t, (p, _, _, _) in enumerate(expected):
        keep, sure = refs.killed(p, gt, seg, md) if kill else (p, np.ones(hw, bool))
        lo, hi = int((keep & (sure | ~p)).sum()), int(keep.sum()) + int((p & ~keep & ~sure).sum())
        ctx.require(lo <= got[3][t] <= hi, f"sum_p is {got[3][t]} instead of {int(keep.sum())}", threshold=thr[t], kill=kill)
        ctx.require(got[1][t] == gt.sum(), "sum_r")


def drive(ctx, ev, t, cat, kind, scale, md, thin, border, save=None):
    thr = [float(v) for v in np.sort(ctx.rng.choice([0.05, 0.2, 0.4, 0.6, 0.9], 2, replace=False))]
    with probe.correspondences() as calls:
        ev.evaluate_category(category=cat, thresholds=thr, nproc=1, save_dir=None)
    expected = []
    for name in t.names:
        p, e, s = trees.inputs(t, name, cat, kind, scale, border)
        if not e.any():
            ctx.see("GT without edges")
            continue  # skipped or nothing to match: no removal
        for v in thr:
            expected.append((refs.predicted(p, v, thin), e, s, True))
    observe(ctx, calls, expected, md, f"category {cat}")
    ctx.see("dataset predictions observed", len(expected))


def dense(rng, t):
    """denser predictions and larger segments than the trees' defaults, so that removals happen everywhere"""
    for (c, name), p in t.preds.items():
        hw = p.shape
        q = np.where(gens.noise(rng, hw, 0.25), trees.LEVELS[rng.integers(0, len(trees.LEVELS), hw)], p).astype(np.uint8)
        t.preds[c, name] = q
        trees.save(f"{t.pred_root}/class_{c:03d}/{name}{t.pred_suffix}", q)


def params(rng):
    mode = rng.choice(["pre-seal", "post-seal", "custom"])
    md = float(rng.choice([0.03, 0.06, 0.1]))
    kw = dict(eval_mode=None if mode == "custom" else str(mode), instance_sensitive=False, max_dist=md,
              apply_thinning=bool(rng.random() < 0.5))
    if mode == "custom":
        kw["kill_internal"] = True
    return kw, 0.02 if mode == "pre-seal" else md


def case_sbd(ctx, i):
    from pyEdgeEval.evaluators import SBDEvaluator
    rng = ctx.rng
    d = ctx.tmp()
    cats = [int(c) for c in rng.choice(np.arange(1, 21), 2, replace=False)] if rng.random() < 0.7 else [1, 20]
    t = trees.sbd(rng, d + "/gt", d + "/pred", cats, ["raw_edge"], size=(16, 60))
    dense(rng, t)
    ev = SBDEvaluator(d + "/gt", d + "/pred")
    kw, md = params(rng)
    kw["scale"] = scale = float(rng.choice([1.0, 1.0, 0.5, 0.75]))
    ev.set_eval_params(**kw)
    for cat in cats:
        drive(ctx, ev, t, cat, "raw_edge", scale, md, kw["apply_thinning"], True)
    ctx.sample(categories=cats, params=kw, names=t.names)


def case_city(ctx, i):
    from pyEdgeEval.evaluators import CityscapesEvaluator, HalfCityscapesEvaluator
    rng = ctx.rng
    d = ctx.tmp()
    cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)] if rng.random() < 0.7 else [1, 19]
    half = bool(rng.random() < 0.4)
    kind = "half_raw_edge" if half else "raw_edge"
    t = trees.city(rng, d + "/gt", d + "/pred", cats, [kind], size=(16, 60))
    dense(rng, t)
    ev = (HalfCityscapesEvaluator if half else CityscapesEvaluator)(d + "/gt", d + "/pred")
    kw, md = params(rng)
    scale = 1.0 if half else float(rng.choice([1.0, 0.5, 0.75]))
    if not half:
        kw["scale"] = scale
    ev.set_eval_params(**kw)
    for cat in cats:
        drive(ctx, ev, t, cat, kind, scale, md, kw["apply_thinning"], False)


def case_otf(ctx, i):
    from pyEdgeEval.evaluators import OTFCityscapesEvaluator
    rng = ctx.rng
    d = ctx.tmp()
    cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)]
    t = trees.city_labels(rng, d + "/gt", d + "/pred", cats, size=(16, 50))
    dense(rng, t)
    ev = OTFCityscapesEvaluator(d + "/gt", d + "/pred")
    kw, md = params(rng)
    kw["scale"] = scale = float(rng.choice([1.0, 0.5, 0.75]))
    ev.set_eval_params(**kw)
    for cat in cats:
        if not trees.city_label_edges(t, cat, scale, 2, False):
            ctx.see("GT with a rounding-sensitive edge")
            continue
        drive(ctx, ev, t, cat, "otf", scale, md, kw["apply_thinning"], False)
