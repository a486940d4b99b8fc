"""C22: the right prediction against the right ground truth."""
import os
import warnings

import numpy as np

from vf import gens, probe, refs, trees
from vf.checks.c15 import dense
from vf.checks.c21 import build, expected, setting

ID = "C22"
RULE = "a distinct non-trivial evaluation is one distinct (tree, evaluator, category, parameters) whose saved and returned scores were recomputed"
PLAN = {"quick": [("sbd", 480), ("city", 480), ("otf", 240), ("observed", 480), ("reported", 48)],
        "thorough": [("sbd", 4000), ("city", 4000), ("otf", 2000), ("observed", 4000), ("reported", 600)]}
MUST_SEE = ["categories evaluated", "images compared", "matched pixels", "raw", "thin", "instance-sensitive", "instance-insensitive", "half",
            "re-annotated", "scaled", "other prediction suffix", "other GT directory", "test split", "missing GT reported",
            "categories out of range reported", "inputs observed at the native call", "predictions of another resolution", "NMS",
            "trees of many images", "images evaluated in parallel", "larger images"]
ASSUMPTIONS = ["scores are recomputed on trees with at most six edge pixels per class, where counts are determined; NMS is taken from "
               "the code (decided by C05)"]


def note(ctx, thin, inst, kw):
    ctx.see("thin" if thin else "raw")
    ctx.see("instance-sensitive" if inst else "instance-insensitive")
    if kw.get("apply_nms"):
        ctx.see("NMS")


def params(rng, kind):
    kw = setting(rng, kind)
    if "scale" in kw or kind == "otf":
        kw["scale"] = float(rng.choice([1.0, 1.0, 0.5, 0.7]))
    elif kind in ("city", "otf") and rng.random() < 0.7:
        kw["scale"] = 1.0
    if kw.get("eval_mode") == "pre-seal":
        kw["instance_sensitive"] = False
    elif rng.random() < 0.7:
        kw["max_dist"] = float(rng.choice([0.04, 0.08, 0.1]))
    return kw


def evaluate(ctx, ev, t, kind, cats, gt_kind, want, border, what):
    rng = ctx.rng
    spec = trees.thresholds(rng)
    thr = refs.thresholds_ref(spec)
    out = ctx.tmp() + "/out"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nproc = (1 if rng.random() < 0.85 else 3) if len(t.names) < 8 else int(rng.integers(2, 7))
        ctx.see("images evaluated in parallel", len(t.names) * (nproc > 1))
        results = {c: ev.evaluate_category(category=c, thresholds=spec, nproc=nproc, save_dir=out) for c in cats}
    for c in cats:
        stats = {}
        if kind == "otf" and not trees.city_label_edges(t, c, want["scale"], t.radius, t.inst):
            ctx.see("GT with a rounding-sensitive edge")
            continue
        cnts = trees.counts(t, c, thr, gt_kind, scale=want["scale"], max_dist=want["max_dist"], thin=want["apply_thinning"],
                            nms=want["apply_nms"], kill=want["kill_internal"], skip=want["skip_if_nonexistent"], border=border, stats=stats)
        if cnts is None:
            ctx.see("undecided")
            continue
        info = dict(category=c, gt=gt_kind, params=want, images=t.names)
        trees.check_overall(ctx, [results[c][k] for k in trees.KEYS], thr, cnts, what, **info)
        trees.check_files(ctx, f"{out}/class_{c:03d}", t.names, thr, cnts, what, **info)
        ctx.see("predictions of another resolution", t.other)
        ctx.see("categories evaluated")
        ctx.see("images compared", len(t.names))
        ctx.see("matched pixels", stats.get("matched", 0))
        ctx.see("thresholds changed by the removal of internal predictions", stats.get("killed", 0))
        if stats.get("gt") and stats.get("pred"):
            ctx.sig(kind, gt_kind, c, repr(want), tuple(t.names), repr(cnts))


def many(ctx):
    """None (a few images) or, now and then, more images than processes"""
    if ctx.rng.random() > 0.06:
        return None
    ctx.see("trees of many images")
    return int(ctx.rng.integers(8, 25))


def case_sbd(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind = "reanno" if i % 3 == 2 else "sbd"
    thin = bool(rng.random() < 0.5)
    cats = [int(c) for c in rng.choice(np.arange(1, 21), 2, replace=False)]
    if rng.random() < 0.15:
        cats = [1, 20]
    kw = params(rng, kind)
    want, inst = expected(kind, kw)
    pre = "reanno_" if kind == "reanno" else ""
    ini = dict(thin=thin)
    suffix, gtdir, split = ".png", "gtEval", "val"
    if rng.random() < 0.3:
        ini["pred_suffix"] = suffix = str(rng.choice(["_pred.png", ".bmp"]))
        ctx.see("other prediction suffix")
    if rng.random() < 0.25:
        ini["split"] = split = "test"
        ctx.see("test split")
    kinds = [f"{pre}{m}_{e}" for m in ("raw", "thin") for e in ("edge", "isedge")]
    # decoys: the other protocol's files hold other edges
    both = kinds + [k for k in trees.SBD_SUFFIX if k not in kinds]
    t = trees.sbd(rng, d + "/gt", d + "/pred", cats, both, pred_suffix=suffix, split=split, n=many(ctx))
    if rng.random() < 0.25:
        ini["gt_dir"] = gtdir = "other"
        os.rename(d + "/gt/gtEval", d + "/gt/other")
        os.makedirs(d + "/gt/gtEval")
        ctx.see("other GT directory")
    ev = build(kind, d + "/gt", d + "/pred", **ini)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev.set_eval_params(**kw)
    use = f"{pre}{'thin' if thin else 'raw'}_{'isedge' if inst else 'edge'}"
    note(ctx, thin, inst, kw)
    if kind == "reanno":
        ctx.see("re-annotated")
    if want["scale"] != 1:
        ctx.see("scaled")
    evaluate(ctx, ev, t, kind, cats, use, want, True, f"{kind} {ini}")
    ctx.sample(evaluator=kind, options=ini, params=want, categories=cats, gt=use)


def case_city(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind = "half" if i % 2 else "city"
    thin = bool(rng.random() < 0.5)
    cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)]
    if rng.random() < 0.15:
        cats = [1, 19]
    kw = params(rng, kind)
    want, inst = expected(kind, kw)
    if want is None:
        kw["instance_sensitive"] = False
        want, inst = expected(kind, kw)
    ini = dict(thin=thin)
    suffix, split = "_leftImg8bit.png", "val"
    later = False
    if rng.random() < 0.3:
        suffix = str(rng.choice(["_pred.png", ".bmp"]))
        later = bool(rng.random() < 0.4)
        if not later:
            ini["pred_suffix"] = suffix
        ctx.see("other prediction suffix")
    if rng.random() < 0.25:
        ini["split"] = split = "test"
        ctx.see("test split")
    t = trees.city(rng, d + "/gt", d + "/pred", cats, list(trees.CITY_SUFFIX), pred_suffix=suffix, split=split, n=many(ctx))
    if rng.random() < 0.25:
        ini["gt_dir"] = "other"
        os.rename(d + "/gt/gtEval", d + "/gt/other")
        os.makedirs(d + f"/gt/gtEval/{split}")
        ctx.see("other GT directory")
    if kind == "half":
        ctx.see("half")
    ev = build(kind, d + "/gt", d + "/pred", **ini)
    if later:
        ev.set_pred_suffix(suffix)
    ev.set_eval_params(**kw)
    use = f"{'half_' if kind == 'half' else ''}{'thin' if thin else 'raw'}_{'isedge' if inst else 'edge'}"
    note(ctx, thin, inst, kw)
    if want["scale"] != 1:
        ctx.see("scaled")
    evaluate(ctx, ev, t, kind, cats, use, want, False, f"{kind} {ini}")


def case_otf(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    thin = bool(rng.random() < 0.4)
    cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)]
    kw = params(rng, "otf")
    want, inst = expected("otf", kw)
    if want is None:
        kw["instance_sensitive"] = False
        want, inst = expected("otf", kw)
    t = trees.city_labels(rng, d + "/gt", d + "/pred", cats, size=(4, 12))
    t.radius, t.inst = (1 if thin else 2), inst
    ev = build("otf", d + "/gt", d + "/pred", thin=thin)
    ev.set_eval_params(**kw)
    note(ctx, thin, inst, kw)
    evaluate(ctx, ev, t, "otf", cats, "otf", want, False, f"on the fly thin={thin}")


def case_observed(ctx, i):
    """dense maps: what reaches the native matching is exactly this image's prediction and this category's GT"""
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "city", "half", "otf"][i % 4]
    cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)]
    inst = bool(rng.random() < 0.5)
    thin_gt = bool(rng.random() < 0.5)
    size = (14, 40) if rng.random() > 0.08 else (90, 220)
    ctx.see("larger images", int(size[0] > 14))
    if kind == "otf":
        t = trees.city_labels(rng, d + "/gt", d + "/pred", cats, size=size, n=2)
        use = "otf"
    else:
        use = f"{'half_' if kind == 'half' else ''}{'thin' if thin_gt else 'raw'}_{'isedge' if inst else 'edge'}"
        t = (trees.sbd if kind == "sbd" else trees.city)(rng, d + "/gt", d + "/pred", cats, [use], size=size, n=2)
        for (k, name), e in t.edges.items():
            e[:] = gens.noise(rng, e.shape, 0.12)
            path = f"{t.root}/gtEval/{name}{trees.SBD_SUFFIX[k]}" if kind == "sbd" else f"{t.root}/gtEval/val/{name}{trees.CITY_SUFFIX[k]}"
            trees.save(path, refs.rgb_ref(e))
    dense(rng, t)
    scale = 1.0 if kind == "half" else float(rng.choice([1.0, 0.5, 0.3, 0.75]))
    kw = dict(scale=scale, max_dist=float(rng.choice([0.01, 0.03])), instance_sensitive=inst, apply_thinning=bool(rng.random() < 0.5),
              apply_nms=bool(rng.random() < 0.25))
    ev = build(kind, d + "/gt", d + "/pred", thin=thin_gt)
    ev.set_eval_params(**kw)
    thr = [0.15, 0.4, 0.75]
    for c in cats:
        if kind == "otf" and not trees.city_label_edges(t, c, scale, 1 if thin_gt else 2, inst):
            ctx.see("GT with a rounding-sensitive edge")
            continue
        with probe.correspondences() as calls:
            ev.evaluate_category(category=c, thresholds=thr, nproc=1, save_dir=None)
        want, unsure = [], False
        for name in t.names:
            p, e, _ = trees.inputs(t, name, c, use, scale, kind == "sbd")
            if kw["apply_nms"]:
                from pyEdgeEval.preprocess import fast_nms
                p = fast_nms(img=p, r=1, s=5, m=1.01, half_prec=False)
                unsure |= trees.rounding_decides(thr, p)
            if e.any():
                want += [(name, v, refs.predicted(p, v, kw["apply_thinning"]), e) for v in thr]
        if unsure:
            ctx.see("undecided")
            continue
        # calls without anything to match may be left out, and the order does not matter
        want = [w for w in want if w[2].any()]
        left = [q for q in calls if (q["a"] != 0).any() and (q["b"] != 0).any()]
        ctx.require(len(left) == len(want), f"{kind}: {len(left)} matchings of {len(want)} expected ones", params=kw, category=c)
        for name, v, p, e in want:
            fits = [q for q in left if np.array_equal(q["b"] != 0, e != 0) and np.array_equal(q["a"] != 0, p)]
            q = (fits or left)[0]
            left = [x for x in left if x is not q]
            info = dict(params=kw, category=c, image=name, threshold=v)
            ctx.equal(q["b"] != 0, e != 0, f"{kind}: GT edges matched", **info)
            ctx.equal(q["a"] != 0, p, f"{kind}: prediction matched", **info)
            ctx.close(q["max_dist"], kw["max_dist"], f"{kind}: tolerance", **info)
            ctx.see("inputs observed at the native call")
            ctx.sig(p.tobytes(), e.tobytes())
    if scale != 1:
        ctx.see("scaled")


def case_reported(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "city", "half", "otf", "reanno"][i % 5]
    if kind == "otf":
        t = trees.city_labels(rng, d + "/gt", d + "/pred", [3], n=3)
    else:
        kinds = {"sbd": ["raw_isedge"], "reanno": ["reanno_raw_isedge"], "city": ["raw_isedge"], "half": ["half_raw_isedge"]}[kind]
        t = (trees.sbd if kind in ("sbd", "reanno") else trees.city)(rng, d + "/gt", d + "/pred", [3], kinds, n=3)
    ev = build(kind, d + "/gt", d + "/pred")
    ev.set_eval_params(max_dist=0.1)
    run = lambda c: ev.evaluate_category(category=c, thresholds=[0.4], nproc=1, save_dir=None)
    run(3)
    top = 20 if kind in ("sbd", "reanno") else 19
    for c in (0, -1, top + 1, 255):
        ctx.raises((AssertionError, ValueError, IndexError, KeyError), lambda: run(c), f"{kind}: category {c}")
        ctx.see("categories out of range reported")
    victim = t.names[int(rng.integers(0, len(t.names)))]
    if kind == "otf":
        p = f"{d}/gt/gtFine/val/{victim}_gtFine_{['labelIds', 'instanceIds'][i % 2]}.png"
    elif kind in ("sbd", "reanno"):
        p = f"{d}/gt/gtEval/{victim}{trees.SBD_SUFFIX[kinds[0]]}"
    else:
        p = f"{d}/gt/gtEval/val/{victim}{trees.CITY_SUFFIX[kinds[0]]}"
    os.rename(p, p + ".gone")
    ctx.raises((AssertionError, OSError, ValueError), lambda: run(3), f"{kind}: GT file of one image is missing")
    ctx.see("missing GT reported")
    ctx.sig(kind, victim)
