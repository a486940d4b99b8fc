"""C14: counts per threshold."""
import numpy as np

from vf import gens, probe, refs

ID = "C14"
RULE = ("a distinct non-trivial evaluation is one evaluated (prediction, ground truth, threshold) with at least one predicted and "
        "one GT pixel whose four counts were decided")
PLAN = {"quick": [("dense", 8), ("annotators", 60), ("single", 1200), ("multi", 800), ("larger", 320), ("nms", 320)],
        "thorough": [("dense", 60), ("annotators", 600), ("single", 8000), ("multi", 5000), ("larger", 1500), ("nms", 1500)]}
MUST_SEE = ["thresholds decided exactly", "thresholds with empty GT", "skipped as nonexistent", "strength equal to the threshold",
            "several annotators decided exactly", "thresholds decided by the observed matching", "thinned predictions", "counts beyond 16 bits",
            "more than eight annotators"]
ASSUMPTIONS = ["above six matchable pixels the counts are compared with the matching that was observed at the native call, and "
               "bounded by the maximum matching"]


def tiny(rng, h=None):
    """prediction, GT, segmentation, max_dist and threshold with few matchable pixels"""
    hw = gens.shape(rng, 2, 9, 0.1)
    md = float(rng.choice([0.1, 0.2, 0.3, 0.45]))
    levels = np.array([0.0, 0.1, 0.3, 0.5, 0.7, 0.9])
    on = gens.sparse(rng, hw, int(rng.integers(0, 9))) if rng.random() < 0.6 else gens.strokes(rng, hw, 1)
    pred = np.where(on, levels[rng.integers(1, 6, hw)], 0.0)
    gt = gens.sparse(rng, hw, int(rng.integers(0, 7))) if rng.random() < 0.6 else gens.shifted(rng, on, 1)
    seg = gens.blobs(rng, hw)
    thr = float(levels[rng.integers(1, 6)]) if rng.random() < 0.5 else float(rng.uniform(0.01, 0.99))
    return pred, gt, seg, md, thr


def funcs():
    from pyEdgeEval.common.binary_label.evaluate_boundaries import (evaluate_boundaries_threshold as single,
                                                                    evaluate_boundaries_threshold_multiple_gts as multi)
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as label
    return single, multi, label


def thresholds(rng, pred):
    vals = np.unique(pred[pred > 0])
    t = list(rng.uniform(0.01, 0.99, int(rng.integers(1, 4))))
    if len(vals) and rng.random() < 0.7:
        t += list(rng.choice(vals, 2))
    return np.array(sorted(t))


def decide(ctx, what, got, pred, gt, thrs, md, thin, seg=None, skip=False, must=True):
    """compare the four count arrays with the definition, threshold by threshold"""
    ctx.require(len(got) == 4 and all(np.asarray(g).shape == thrs.shape for g in got), f"{what}: wrong result shape")
    for t, thr in enumerate(thrs):
        have = tuple(float(g[t]) for g in got)
        want = refs.counts_ref(pred, gt, thr, md, thin, seg, skip)
        info = dict(pred=pred, gt=np.asarray(gt).astype(int), threshold=thr, max_dist=md, thin=thin, skip=skip,
                    seg=None if seg is None else np.asarray(seg).astype(int))
        p = refs.predicted(pred, thr, thin)
        if (pred == thr).any():
            ctx.see("strength equal to the threshold")
        if thin and (p != (pred >= thr)).any():
            ctx.see("thinned predictions")
        if not np.asarray(gt).any():
            ctx.see("skipped as nonexistent" if skip else "thresholds with empty GT")
        if want is None:
            ctx.see("thresholds not decided exactly")
            # the sums never depend on the matching
            if seg is None:
                ctx.require(have[1] == np.asarray(gt, bool).sum() and have[3] == p.sum(), f"{what}: sums are wrong", got=have, **info)
            ctx.require(have[0] == have[2], f"{what}: count_r and count_p differ with one GT", got=have, **info)
            _, _, near, sure, _ = refs.pair_graph(p, gt, md)
            ctx.require(have[0] <= refs.max_cardinality(near | ~sure), f"{what}: more matches than possible", got=have, **info)
            if seg is None:
                k = refs.max_cardinality(near & sure)
                ctx.require(have[0] >= k - 0.03 * k - 2, f"{what}: {have[0]} matches although {k} are possible", got=have, **info)
            continue
        ctx.require(have == tuple(map(float, want)),
                    f"{what}: (count_r, sum_r, count_p, sum_p) at threshold {thr} is {have} instead of {want}", **info)
        ctx.see("thresholds decided exactly")
        if want[1] and want[3]:
            ctx.sig(pred.tobytes(), np.asarray(gt).tobytes(), float(thr), md, thin, skip, None if seg is None else seg.tobytes())


def case_single(ctx, i):
    single, multi, label = funcs()
    rng = ctx.rng
    for _ in range(4):
        pred, gt, seg, md, _ = tiny(rng)
        if rng.random() < 0.15:
            gt[:] = False
        thrs = thresholds(rng, pred)
        if rng.random() < 0.05:
            # a strength that is no number is at or above no threshold
            pred[tuple(int(rng.integers(0, n)) for n in pred.shape)] = np.nan
            ctx.see("strengths that are no numbers")
        thin = bool(rng.random() < 0.5)
        skip = bool(rng.random() < 0.4)
        decide(ctx, "single label", single(thrs, pred, gt, max_dist=md, apply_thinning=thin), pred, gt, thrs, md, thin)
        decide(ctx, "multi label", label(thrs, pred, gt, max_dist=md, apply_thinning=thin, skip_if_nonexistent=skip),
               pred, gt, thrs, md, thin, skip=skip)
        decide(ctx, "multi label (internal predictions removed)",
               label(thrs, pred, gt, gt_seg=seg, max_dist=md, apply_thinning=thin, skip_if_nonexistent=skip, kill_internal=True),
               pred, gt, thrs, md, thin, seg=seg, skip=skip)
    ctx.sample(pred=pred, gt=gt.astype(int), thresholds=thrs, max_dist=md)


def case_multi(ctx, i):
    """several annotators"""
    single, multi, label = funcs()
    rng = ctx.rng
    for _ in range(3):
        pred, gt, _, md, _ = tiny(rng)
        gts = [gt] + [gens.shifted(rng, gt, 1) if rng.random() < 0.5 else gens.sparse(rng, gt.shape, int(rng.integers(0, 6)))
                      for _ in range(int(rng.integers(0, 4)))]
        if rng.random() < 0.1:
            gts = [np.zeros_like(gt)] * len(gts)
        thrs = thresholds(rng, pred)
        thin = bool(rng.random() < 0.5)
        if rng.random() < 0.05:
            pred = pred.astype(float)
            pred[tuple(int(rng.integers(0, n)) for n in pred.shape)] = np.nan
            ctx.see("strengths that are no numbers")
        got = multi(thrs, pred, gts if rng.random() < 0.7 else np.array(gts), max_dist=md, apply_thinning=thin)
        for t, thr in enumerate(thrs):
            p = refs.predicted(pred, thr, thin)
            cr, sr, cp, sp = (float(g[t]) for g in got)
            info = dict(pred=pred, gts=np.array(gts).astype(int), threshold=thr, max_dist=md, thin=thin, got=[cr, sr, cp, sp])
            ctx.require(sp == p.sum(), f"sum_p is {sp} instead of {p.sum()}", **info)
            ctx.require(sr == sum(int(g.sum()) for g in gts), f"sum_r is {sr} instead of the sum over the annotators", **info)
            ks = [refs.cardinality(p, g, md) for g in gts]
            if None in ks:
                ctx.see("several annotators undecided")
                ctx.require(cp <= sp and cr <= sr, "more pixels matched than there are", **info)
                continue
            ctx.require(cr == sum(ks), f"count_r is {cr} instead of {sum(ks)}", **info)
            # which equally good pixels were matched is open: all possible unions
            sets = []
            for g in gts:
                pa, pb, near, _, dist = refs.pair_graph(p, g, md)
                ss = refs.matched_sets(near, dist, 0.0101 * 6) if near.any() else {frozenset()}
                sets.append(ss)
            if np.prod([float(len(s)) for s in sets]) > 4000:
                ctx.see("several annotators undecided")
                lo, hi = max(ks), min(int(sp), sum(ks))
                ctx.require(lo <= cp <= hi, f"count_p is {cp}, not within {lo}..{hi}", **info)
                continue
            unions = {frozenset()}
            for ss in sets:
                unions = {u | s for u in unions for s in ss}
            ok = {len(u) for u in unions}
            ctx.require(int(cp) in ok and cp == int(cp), f"count_p is {cp}, possible are {sorted(ok)}", **info)
            ctx.see("several annotators decided exactly" if len(gts) > 1 else "one annotator decided exactly")
            if sp and sr:
                ctx.sig(pred.tobytes(), np.array(gts).tobytes(), float(thr), md, thin)


def case_larger(ctx, i):
    """the counts follow from the matchings observed at the native call"""
    single, multi, label = funcs()
    rng = ctx.rng
    hw = gens.shape(rng, 12, 40, 0.1)
    on = gens.strokes(rng, hw)
    pred = on * rng.uniform(0.1, 1, hw)
    gts = [gens.shifted(rng, on, 1) for _ in range(int(rng.integers(1, 4)))]
    md = float(rng.choice([0.0075, 0.02, 0.05]))
    thrs = thresholds(rng, pred)
    thin = bool(rng.random() < 0.7)
    decide(ctx, "single label", single(thrs, pred, gts[0], max_dist=md, apply_thinning=thin), pred, gts[0], thrs, md, thin)
    decide(ctx, "multi label", label(thrs, pred, gts[0], max_dist=md, apply_thinning=thin), pred, gts[0], thrs, md, thin)
    with probe.correspondences() as calls:
        got = multi(thrs, pred, gts, max_dist=md, apply_thinning=thin)
    for t, thr in enumerate(thrs):
        p = refs.predicted(pred, thr, thin)
        mine = []
        for g in gts:
            cs = [c for c in calls if np.array_equal(c["a"] != 0, p) and np.array_equal(c["b"] != 0, g) and abs(c["max_dist"] - md) < 1e-12]
            if cs and all(np.array_equal(cs[0][k] != 0, c[k] != 0) for c in cs for k in ("m1", "m2")):
                mine.append(cs[0])
            elif p.any() and g.any():
                break
            else:
                mine.append(dict(m1=np.zeros(hw), m2=np.zeros(hw)))
        if len(mine) < len(gts):
            ctx.see("matching not observed")
            continue
        union = np.zeros(hw, bool)
        cr = 0
        for c in mine:
            union |= c["m1"] != 0
            cr += int((c["m2"] != 0).sum())
        want = (cr, sum(int(g.sum()) for g in gts), int(union.sum()), int(p.sum()))
        have = tuple(float(g[t]) for g in got)
        ctx.require(have == tuple(map(float, want)), f"counts {have} instead of {want} of the observed matchings", threshold=thr, thin=thin)
        ctx.see("thresholds decided by the observed matching")
        ctx.sig(pred.tobytes(), np.array(gts).tobytes(), float(thr), md, thin)


def case_dense(ctx, i):
    """full-size maps with more predicted and annotated pixels than fit 16 bits"""
    single, multi, label = funcs()
    rng = ctx.rng
    hw = [(321, 481), (481, 321), (300, 400), (270, 500)][i % 4]
    pred = rng.random(hw) * 0.95 + 0.04
    gts = [rng.random(hw) < 0.13 for _ in range(int(rng.integers(3, 6)))]
    if i % 3 == 0:
        # every pixel annotated by one, few predicted
        gts[0] = rng.random(hw) < 0.9
        pred *= gens.noise(rng, hw, 0.05)
    md = 0.9 / float(np.hypot(*hw))     # only the same pixel is in range
    thrs = np.array([0.01, float(rng.uniform(0.1, 0.6)), 0.9])
    thin = i % 2 == 1
    outs = [("single label", single(thrs, pred, gts[0], max_dist=md, apply_thinning=thin), gts[:1]),
            ("multi label", label(thrs, pred, gts[0].astype(np.uint8), max_dist=md, apply_thinning=thin), gts[:1]),
            ("several annotators", multi(thrs, pred, gts, max_dist=md, apply_thinning=thin), gts)]
    for t, thr in enumerate(thrs):
        p = refs.predicted(pred, thr, thin)
        for what, got, gs in outs:
            cr, sr, cp, sp = (float(g[t]) for g in got)
            ctx.require(sp == p.sum(), f"{what}: sum_p is {sp} instead of {int(p.sum())}", threshold=thr, thin=thin)
            ctx.require(sr == sum(int(g.sum()) for g in gs), f"{what}: sum_r is {sr} instead of {sum(int(g.sum()) for g in gs)}", threshold=thr)
            full = sum(int((p & g).sum()) for g in gs)
            ctx.require(0.97 * full - 2 * len(gs) <= cr <= full, f"{what}: count_r is {cr} of possible {full}", threshold=thr, thin=thin)
            most = int((p & np.any(gs, 0)).sum())
            ctx.require(cp == cr if len(gs) == 1 else most - (full - cr) <= cp <= most, f"{what}: count_p is {cp} (possible {most}, count_r {cr})",
                        threshold=thr, thin=thin)
            ctx.see("counts beyond 16 bits", int(sp > 65535) + int(sr > 65535))
            ctx.sig(pred.tobytes(), float(thr), thin, what)


def case_annotators(ctx, i):
    """many annotators, many thresholds; only the same pixel is in range, so that the counts are the overlaps"""
    _, multi, _ = funcs()
    rng = ctx.rng
    hw = gens.shape(rng, 3, 14, 0.1)
    md = 0.9 / float(np.hypot(*hw))
    n = int(rng.integers(6, 16))
    pred = np.round(rng.random(hw) * gens.noise(rng, hw, 0.5), 2)
    gts = [gens.sparse(rng, hw, int(rng.integers(0, 6))) for _ in range(n)]
    thrs = np.linspace(0.01, 0.99, 99) if rng.random() < 0.5 else np.sort(rng.uniform(0.01, 0.99, 130))
    thin = bool(rng.random() < 0.5)
    got = multi(thrs, pred, gts, max_dist=md, apply_thinning=thin)
    for t, thr in enumerate(thrs):
        p = refs.predicted(pred, thr, thin)
        if max(int((p & g).sum()) for g in gts) > 6:
            continue
        want = (sum(int((p & g).sum()) for g in gts), sum(int(g.sum()) for g in gts), int((p & np.any(gts, 0)).sum()), int(p.sum()))
        have = tuple(float(g[t]) for g in got)
        ctx.require(have == tuple(map(float, want)), f"{n} annotators: counts {have} instead of {want} at threshold {thr}",
                    pred=pred, gts=np.array(gts).astype(int), thin=thin)
        ctx.see("more than eight annotators", int(n > 8))
    ctx.sig(pred.tobytes(), np.array(gts).tobytes(), thin)


def case_nms(ctx, i):
    """with NMS the counts are those of the suppressed prediction"""
    from pyEdgeEval.preprocess import fast_nms
    single, multi, label = funcs()
    rng = ctx.rng
    hw = int(rng.integers(6, 14)), int(rng.integers(6, 14))
    pred = gens.smooth_strength(rng, hw)
    if rng.random() < 0.3:
        pred = np.round(pred * 255).astype(np.uint8)
    kw = dict(r=int(rng.integers(1, 3)), s=int(rng.choice([0, 1, 2, 5])), m=float(rng.choice([1.0, 1.01, 1.2])), half_prec=False)
    use_default = rng.random() < 0.5
    sup = fast_nms(pred) if use_default else fast_nms(pred, **kw)
    gt = gens.sparse(rng, hw, int(rng.integers(1, 6)))
    md = float(rng.choice([0.05, 0.1]))
    thrs = thresholds(rng, sup)
    for thin in (True, False):
        for name, f in (("single label", single), ("multi label", label)):
            a = dict(max_dist=md, apply_thinning=thin, apply_nms=True)
            if not use_default:
                a["nms_kwargs"] = kw
            decide(ctx, name + " with NMS", f(thrs, pred, gt, **a), sup, gt, thrs, md, thin)
        a = dict(max_dist=md, apply_thinning=thin, apply_nms=True)
        if not use_default:
            a["nms_kwargs"] = kw
        decide(ctx, "one annotator with NMS", multi(thrs, pred, [gt], **a), sup, gt, thrs, md, thin)
    ctx.see("suppressed predictions evaluated")
