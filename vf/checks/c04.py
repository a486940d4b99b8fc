"""C04: the core functions are pure, layout independent and reject bad calls."""
import numpy as np

from vf import gens, refs

ID = "C04"
RULE = ("a distinct non-trivial evaluation is one function called on distinct non-constant arguments in the plain layout and in "
        "at least one other memory layout or dtype, with the arguments compared before and after")
PLAN = {"quick": [("native", 640), ("thin", 320), ("edges", 320), ("boundaries", 640), ("reject", 48)],
        "thorough": [("native", 3000), ("thin", 1500), ("edges", 1500), ("boundaries", 3000), ("reject", 300)]}
MUST_SEE = ["layouts compared", "dtypes compared", "arguments unchanged", "rejections"]
ASSUMPTIONS = ["correspond_pixels is compared across layouts on maps with at most six matchable pixels, where its result is "
               "unique up to ties, through its invariant parts (cardinality, matched distance)"]


class Pure:
    """argument monitor: bytes before and after the call"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, what, fn, *args, **kw):
        arrays = [a for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray)]
        for v in list(args) + list(kw.values()):
            if isinstance(v, (list, tuple)):
                arrays += [a for a in v if isinstance(a, np.ndarray)]
        before = [(a, a.copy(), a.dtype, a.shape, a.flags.writeable) for a in arrays]
        lists = [(v, list(v)) for v in list(args) + list(kw.values()) if isinstance(v, list) and not any(isinstance(a, np.ndarray) for a in v)]
        out = fn(*args, **kw)
        for a, old, dt, sh, wr in before:
            self.ctx.require(a.dtype == dt and a.shape == sh and a.flags.writeable == wr and np.array_equal(a, old),
                             f"{what} modified an array argument", before=old, after=a)
            self.ctx.see("arguments unchanged")
        for v, old in lists:
            self.ctx.require(v == old, f"{what} modified a list argument", before=old, after=v)
        return out


def summary(out, a):
    """the parts of a correspondence that do not depend on ties"""
    m1, m2, cost, oc = out
    return int((m1 != 0).sum()), int((m2 != 0).sum()), round(float(oc), 9)


DTYPES = [np.uint8, np.int32, np.int64, np.float32, np.float64]


def case_native(ctx, i):
    from pyEdgeEval._lib import correspond_pixels, nms
    from pyEdgeEval.preprocess import fast_nms
    from vf.checks.c02 import limit
    rng, pure = ctx.rng, Pure(ctx)
    hw = gens.shape(rng, 2, 12, 0.1)
    md = float(rng.choice([0.1, 0.2, 0.35]))
    if rng.random() < 0.08:
        hw = gens.sometimes_big(rng, hw, 1, 100, 400)
        md = 3.0 / float(np.hypot(*hw))
        a = gens.sparse(rng, hw, 40)
        a, b = limit(rng, a, gens.shifted(rng, a, 2), md)
        ctx.see("large images")
    else:
        a, b = limit(rng, gens.binary(rng, hw), gens.binary(rng, hw), md)
    base = pure("correspond_pixels", correspond_pixels, a, b, max_dist=md)
    la, lb = gens.layouts(rng, a), gens.layouts(rng, b)
    info = dict(a=a.astype(int), b=b.astype(int), max_dist=md)
    for k in la:
        got = pure("correspond_pixels", correspond_pixels, la[k], lb[k], max_dist=md)
        ctx.require(summary(got, a) == summary(base, a) and abs(got[2] - base[2]) <= 0.0101 * 14,
                    f"correspond_pixels gives another answer for the {k} layout",
                    got=summary(got, a), base=summary(base, a), **info)
        ctx.require(not (got[0][~a].any() or got[1][~b].any()), f"correspond_pixels matches non-edge pixels in the {k} layout", **info)
        ctx.see("layouts compared")
    for dt in DTYPES + ["f8F", "f8R", "u1F"]:
        if isinstance(dt, str):
            # the native code's own type and order, so that nothing needs converting on the way
            va, vb = (np.array(v, dt[:2], order="F" if dt[2] == "F" else "C") for v in (a, b))
            if rng.random() < 0.5:
                va, vb = va * 3, vb * 7
            ro = rng.random() < 0.7
            va.setflags(write=not ro)
            vb.setflags(write=not ro)
        else:
            va, vb = a.astype(dt), b.astype(dt)
        dt = dt if not isinstance(dt, str) else va.dtype
        got = pure("correspond_pixels", correspond_pixels, va, vb, max_dist=md)
        ctx.require(summary(got, a) == summary(base, a) and abs(got[2] - base[2]) <= 0.0101 * 14,
                    f"correspond_pixels gives another answer for {np.dtype(dt)} maps", got=summary(got, a), base=summary(base, a), **info)
        ctx.see("dtypes compared")
    # nms
    hw = gens.sometimes_big(rng, gens.shape(rng, 1, 20, 0.1), 0.08, 100, 300)
    e, o = gens.smooth_strength(rng, hw), rng.uniform(0, np.pi, hw)
    base = pure("nms", nms, e, o)
    le, lo = gens.layouts(rng, e), gens.layouts(rng, o)
    for k in le:
        ctx.equal(pure("nms", nms, le[k], lo[k]), base, f"nms of the {k} layout", edge=e)
        ctx.see("layouts compared")
    hw = gens.sometimes_big(rng, gens.shape(rng, 5, 24, 0), 0.08, 100, 300)
    e = gens.smooth_strength(rng, hw)
    base = pure("fast_nms", fast_nms, e)
    for k, v in gens.layouts(rng, e).items():
        ctx.close(pure("fast_nms", fast_nms, v), base, f"fast_nms of the {k} layout", edge=e)
        ctx.see("layouts compared")
    u = np.round(e * 255).astype(np.uint8)
    pure("fast_nms", fast_nms, u)
    pure("fast_nms", fast_nms, e.astype(np.float32), half_prec=True, return_as_uint8=True)
    if a.any() and b.any():
        ctx.sig(a.tobytes(), b.tobytes(), e.tobytes())


def case_thin(ctx, i):
    from pyEdgeEval.preprocess.thin import binary_thin, bwmorph_thin
    rng, pure = ctx.rng, Pure(ctx)
    hw = gens.sometimes_big(rng, gens.shape(rng, 1, 20), 0.06, 80, 200)
    a = gens.binary(rng, hw)
    for name, f in (("binary_thin", binary_thin), ("bwmorph_thin", bwmorph_thin)):
        base = pure(name, f, a)
        for k, v in gens.layouts(rng, a).items():
            ctx.equal(pure(name, f, v), base, f"{name} of the {k} layout", image=a.astype(int))
            ctx.see("layouts compared")
        for dt in DTYPES:
            v = a.astype(dt)
            v.setflags(write=False)
            ctx.equal(pure(name, f, v), base, f"{name} of a {np.dtype(dt)} image", image=a.astype(int))
            ctx.see("dtypes compared")
    if a.any():
        ctx.sig(a.tobytes(), hw)


def case_edges(ctx, i):
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, loop_mask2edge
    from pyEdgeEval.utils import mask2bdry, mask2onehot, mask_label2trainId, edge_label2trainId, edge_multilabel2binary
    rng, pure = ctx.rng, Pure(ctx)
    hw = gens.sometimes_big(rng, gens.shape(rng, 2, 20, 0.1), 0.05, 60, 160)
    n = int(rng.integers(2, 6))
    lab = gens.label_map(rng, hw, list(range(n))).astype(np.uint8)
    inst = (lab.astype(np.int32) * 1000 + rng.integers(0, 3, hw)).astype(np.int32)
    r = int(rng.choice([1, 2, 3]))
    one = pure("mask2onehot", mask2onehot, lab, list(range(n)))
    ign = [0] if rng.random() < 0.5 else []
    igm = one[0] if ign else np.zeros(hw, np.uint8)
    base_b = pure("mask2bdry", mask2bdry, one[1], igm, r)
    for k, v in gens.layouts(rng, one[1]).items():
        for cv in (True, False):
            ctx.equal(pure("mask2bdry", mask2bdry, v, igm, r, use_cv2=cv), pure("mask2bdry", mask2bdry, one[1], igm, r, use_cv2=cv),
                      f"mask2bdry of the {k} layout", mask=one[1])
            ctx.see("layouts compared")
    for dt in (bool, np.int32, np.int64, np.float64, np.float32):
        ctx.equal(pure("mask2bdry", mask2bdry, one[1].astype(dt), igm, r), base_b, f"mask2bdry of a {np.dtype(dt)} mask", mask=one[1])
        ctx.see("dtypes compared")
    kw = dict(ignore_indices=ign, radius=r, thin=bool(rng.random() < 0.5), use_cv2=bool(rng.random() < 0.7))
    base = pure("loop_mask2edge", loop_mask2edge, one, **kw)
    ikw = dict(kw, inst_labelIds=[n - 1, 1])
    ibase = pure("loop_instance_mask2edge", loop_instance_mask2edge, one, inst, **ikw)
    for v in (np.asfortranarray(one), one.transpose(1, 2, 0).copy().transpose(2, 0, 1), one[:, ::-1].copy()[:, ::-1]):
        v.setflags(write=False)
        ctx.equal(pure("loop_mask2edge", loop_mask2edge, v, **kw), base, "loop_mask2edge of another layout", labels=lab)
        ctx.equal(pure("loop_instance_mask2edge", loop_instance_mask2edge, v, np.asfortranarray(inst), **ikw), ibase,
                  "loop_instance_mask2edge of another layout", labels=lab)
        ctx.see("layouts compared", 2)
    l2t = {l: t for t, l in enumerate(rng.permutation(n)[:max(1, n - 1)].tolist())}
    pure("mask_label2trainId", mask_label2trainId, lab, l2t)
    pure("edge_label2trainId", edge_label2trainId, base, l2t)
    pure("edge_multilabel2binary", edge_multilabel2binary, base)
    if len(np.unique(lab)) > 1:
        ctx.sig(lab.tobytes(), hw, r)


def case_boundaries(ctx, i):
    """the boundary evaluation functions"""
    from pyEdgeEval.common.binary_label.evaluate_boundaries import (evaluate_boundaries_threshold as single,
                                                                    evaluate_boundaries_threshold_multiple_gts as multi)
    from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as label
    from vf.checks.c14 import tiny
    rng, pure = ctx.rng, Pure(ctx)
    pred, gt, seg, md, thr = tiny(rng)
    thrs = np.array([thr, min(1.0, thr + 0.2), 0.9])
    gts = [gt, gens.sparse(rng, gt.shape, 2)]
    calls = [("single-label evaluation", single, (thrs, pred, gt), dict(max_dist=md)),
             ("several-annotator evaluation", multi, (thrs, pred, gts), dict(max_dist=md)),
             ("multi-label evaluation", label, (thrs, pred, gt), dict(max_dist=md, kill_internal=True, gt_seg=seg)),
             ("multi-label evaluation", label, (thrs, pred, gt), dict(max_dist=md, skip_if_nonexistent=True))]
    for name, f, args, kw in calls:
        kw["apply_thinning"] = bool(rng.random() < 0.5)
        base = pure(name, f, *args, **kw)
        lp = gens.layouts(rng, pred)
        k = list(lp)[int(rng.integers(len(lp)))]
        g = args[2]
        g2 = [gens.layouts(rng, v)[k] for v in g] if isinstance(g, list) else gens.layouts(rng, g)[k]
        kw2 = dict(kw)
        if "gt_seg" in kw2:
            kw2["gt_seg"] = gens.layouts(rng, seg)[k]
        got = pure(name, f, args[0], lp[k], g2, **kw2)
        small = all(refs.cardinality(refs.predicted(pred, t, kw["apply_thinning"]), v, md) is not None
                    for t in thrs for v in (g if isinstance(g, list) else [g]))
        if not small:
            ctx.see("too large to be unique")
            continue
        for j, what in enumerate(("count_r", "sum_r", "count_p", "sum_p")):
            if what == "count_p" and isinstance(g, list):
                continue  # several annotators: depends on which equally good pixels were matched
            ctx.equal(got[j], base[j], f"{name}: {what} depends on the {k} layout", pred=pred, gt=np.asarray(g).astype(int), **{k_: v for k_, v in kw.items() if k_ != "gt_seg"})
        ctx.see("layouts compared")
        # GT of another dtype
        g3 = [v.astype(np.uint8) for v in g] if isinstance(g, list) else g.astype([np.uint8, np.float64, np.int64][int(rng.integers(3))])
        got = pure(name, f, args[0], pred, g3, **kw)
        for j, what in enumerate(("count_r", "sum_r", "count_p", "sum_p")):
            if what == "count_p" and isinstance(g, list):
                continue
            ctx.equal(got[j], base[j], f"{name}: {what} depends on the GT's dtype", pred=pred, gt=np.asarray(g).astype(int))
        ctx.see("dtypes compared")
    if gt.any() and (pred > 0).any():
        ctx.sig(pred.tobytes(), gt.tobytes())


def case_reject(ctx, i):
    from pyEdgeEval._lib import correspond_pixels, nms
    rng = ctx.rng
    hw = gens.shape(rng, 1, 12)
    a = gens.binary(rng, hw)
    other = [(hw[0] + 1, hw[1]), (hw[0], hw[1] + 1), (hw[0] + 2, hw[1] + 3), (max(1, hw[0] - 1), hw[1] + 1)] + ([hw[::-1]] if hw[0] != hw[1] else [])
    for s in other:
        b = gens.binary(rng, s)
        ctx.raises(ValueError, lambda: correspond_pixels(a, b), f"correspond_pixels of {hw} and {s} maps")
        ctx.raises(ValueError, lambda: correspond_pixels(b, a), f"correspond_pixels of {s} and {hw} maps")
        ctx.raises(ValueError, lambda: nms(a.astype(float), b.astype(float)), f"nms of {hw} and {s} maps")
        ctx.see("rejections", 3)
    b = gens.binary(rng, hw)
    for md in (0, 0.0, -1e-9, -0.01, -5):
        ctx.raises(ValueError, lambda: correspond_pixels(a, b, max_dist=md), f"correspond_pixels with max_dist {md}")
        ctx.see("rejections")
    for oc in (1, 1.0, 0.5, 0, -3):
        ctx.raises(ValueError, lambda: correspond_pixels(a, b, outlier_cost=oc), f"correspond_pixels with outlier_cost {oc}")
        ctx.see("rejections")
    # just inside of the limits
    correspond_pixels(a, b, max_dist=1e-6, outlier_cost=1.01)
    ctx.see("accepted at the limit")
    ctx.sig(a.tobytes(), b.tobytes())
