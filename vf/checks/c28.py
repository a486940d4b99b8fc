"""C28: BSDS500 evaluation."""
import collections
import os
import warnings

import numpy as np

from vf import gens, probe, refs, trees
from vf.framework import REPO

ID = "C28"
RULE = ("a distinct non-trivial evaluation is one distinct (tree or image, parameters) whose returned and saved scores were recomputed "
        "from the definition or from the matchings observed at the native call")
PLAN = {"quick": [("tree", 480), ("observed", 300), ("loaders", 360), ("reported", 40), ("bundled", 10)],
        "thorough": [("tree", 5000), ("observed", 3000), ("loaders", 2000), ("reported", 500), ("bundled", 60)]}
MUST_SEE = ["images compared", "one annotator", "several annotators", "annotators without edges", "no split directory", "val split",
            "several processes", "raw", "thin", "NMS", "matchings observed", "missing prediction reported", "missing GT reported",
            "predictions that are not 8 bit rejected", "annotations loaded", "bundled images", "given sample names",
            "trees of many images", "nine or more annotators", "larger images"]
ASSUMPTIONS = ["NMS is taken from the code (decided by C05); the optimality of the observed matchings is decided by C02"]


def options(rng):
    kw = {}
    if rng.random() < 0.8:
        kw["apply_thinning"] = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        kw["apply_nms"] = bool(rng.random() < 0.6)
    kw["max_dist"] = float(rng.choice([0.04, 0.08, 0.1]))
    return kw


def start(ctx, rng, t, split, d, kw):
    from pyEdgeEval.evaluators import BSDS500Evaluator
    ev = BSDS500Evaluator(d + "/gt", d + "/pred", **(dict(split=split) if split == "val" or rng.random() < 0.5 else {}))
    ev.set_eval_params(**kw)
    if rng.random() < 0.3:
        t.names = [t.names[k] for k in rng.permutation(len(t.names))][:int(rng.integers(1, len(t.names) + 1))]
        ev.set_sample_names(sample_names=list(t.names))
        ctx.see("given sample names")
    else:
        ctx.require(sorted(ev.sample_names) == sorted(t.names), "not the images of the split", got=ev.sample_names, want=t.names)
        t.names = ev.sample_names
    thin, nms = kw.get("apply_thinning", True), kw.get("apply_nms", False)
    ctx.see("thin" if thin else "raw")
    ctx.see("NMS", int(nms))
    ctx.see("val split", int(split == "val"))
    return ev, thin, nms


def compare(ctx, got, out, t, thr, cnts, what, **info):
    trees.check_overall(ctx, [got[k] for k in trees.KEYS], thr, cnts, what, **info)
    if out:
        trees.check_files(ctx, out, t.names, thr, cnts, what, **info)
    ctx.see("images compared", len(t.names))


def annotators(ctx, t):
    for n in t.names:
        ctx.see("one annotator" if len(t.gts[n]) == 1 else "several annotators")
        ctx.see("annotators without edges", sum(not g.any() for g in t.gts[n]))


def case_tree(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    split = str(rng.choice(["test", "val"]))
    flat = bool(rng.random() < 0.35)
    size = {}
    if rng.random() < 0.06:
        size = dict(n=int(rng.integers(8, 20)))
        ctx.see("trees of many images")
    elif rng.random() < 0.05:
        size = dict(annotators=int(rng.integers(9, 14)), n=1)
        ctx.see("nine or more annotators")
    t = trees.bsds(rng, d + "/gt", d + "/pred", split=split, flat=flat, most=int(rng.choice([1, 5, 6] if "annotators" not in size else [1, 3])) + 1, **size)
    trees.bsds(rng, d + "/gt", d + "/pred", n=1, split="val" if split == "test" else "test", flat=flat)
    kw = options(rng)
    ev, thin, nms = start(ctx, rng, t, split, d, kw)
    spec = trees.thresholds(rng)
    thr = refs.thresholds_ref(spec)
    nproc = int(rng.choice([1, 1, 1, 2, 3] if len(t.names) < 8 else [2, 4, 8]))
    out = d + "/out" if rng.random() < 0.8 else None
    if flat:
        ctx.see("no split directory")
    ctx.see("several processes", int(nproc > 1))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = ev.evaluate(thresholds=spec, nproc=nproc, save_dir=out, **(dict(no_split_dir=flat) if flat or rng.random() < 0.5 else {}))
    annotators(ctx, t)
    cnts = trees.bsds_counts(t, thr, kw["max_dist"], thin, nms)
    if cnts is None:
        return ctx.see("undecided")
    compare(ctx, got, out, t, thr, cnts, "BSDS", params=kw, flat=flat)
    ctx.sig(repr(kw), tuple(t.names), repr(cnts))
    ctx.sample(params=kw, names=t.names, counts=cnts, thresholds=list(map(float, thr)), annotators=[len(t.gts[n]) for n in t.names])


def observed_counts(ctx, calls, images, thr, md, thin, what):
    """images: [(name, strength, [gt])]; counts from the matchings seen at the native call, or None"""
    seen = collections.defaultdict(list)
    for c in calls:
        if (c["a"] != 0).any() and (c["b"] != 0).any():
            seen[(c["a"] != 0).tobytes(), (c["b"] != 0).tobytes(), c["a"].shape].append(c)
    used = collections.Counter()
    cnts, ok = [], True
    for name, pred, gts in images:
        rows = []
        for v in thr:
            p = refs.predicted(pred, v, thin)
            union, cr = np.zeros(p.shape, bool), 0
            for g in gts:
                g = np.asarray(g) != 0
                if not p.any() or not g.any():
                    continue
                key = p.tobytes(), g.tobytes(), p.shape
                ctx.require(key in seen, f"{what}: image {name} at threshold {v}: prediction and annotation were never matched",
                            predicted=int(p.sum()), gt=int(g.sum()), calls=len(calls))
                cs = seen[key]
                used[key] += 1
                for c in cs:
                    ctx.close(c["max_dist"], md, f"{what}: tolerance")
                if any(not np.array_equal(cs[0]["m1"] != 0, c["m1"] != 0) for c in cs):
                    ok = False
                union |= cs[0]["m1"] != 0
                cr += int((cs[0]["m2"] != 0).sum())
                ctx.see("matchings observed")
            rows.append((cr, sum(int((np.asarray(g) != 0).sum()) for g in gts), int(union.sum()), int(p.sum())))
        cnts.append(tuple(list(x) for x in zip(*rows)))
    ctx.require(set(seen) == set(used), f"{what}: something else was matched", unexpected=len(set(seen) - set(used)))
    return cnts if ok else None


def case_observed(ctx, i):
    from pyEdgeEval.preprocess import fast_nms
    rng = ctx.rng
    d = ctx.tmp()
    split = str(rng.choice(["test", "val"]))
    t = trees.bsds(rng, d + "/gt", d + "/pred", split=split, size=(6, 48) if rng.random() > 0.05 else (100, 200), n=int(rng.integers(1, 4)))
    spec = trees.thresholds(rng)
    thr = refs.thresholds_ref(spec)
    # k/255 may equal i/(n+1) up to rounding: these strengths are not used
    tied = [int(round(v * 255)) for v in thr if abs(v * 255 - round(v * 255)) < 1e-9 and v < 0.999]
    for name in t.names:
        hw = t.preds[name].shape
        on = gens.strokes(rng, hw)
        t.gts[name] = [gens.shifted(rng, on, 1) for _ in range(int(rng.integers(1, 6)) if rng.random() > 0.06 else int(rng.integers(10, 16)))]
        ctx.see("larger images", int(min(hw) >= 100))
        if rng.random() < 0.15:
            t.gts[name][-1] = np.zeros(hw, bool)
        trees.save_mat(f"{d}/gt/groundTruth/{name}.mat", t.gts[name])
        p = np.where(on | gens.noise(rng, hw, 0.1), rng.integers(1, 256, hw), 0).astype(np.uint8)
        if rng.random() < 0.3:
            p = np.round(gens.smooth_strength(rng, hw) * 255).astype(np.uint8)
        p[np.isin(p, tied)] += 1
        t.preds[name] = p
        trees.save(f"{d}/pred/{name}.png", p)
    kw = options(rng)
    if rng.random() < 0.4:
        kw.pop("max_dist")
    ev, thin, nms = start(ctx, rng, t, split, d, kw)
    out = d + "/out"
    with warnings.catch_warnings(), probe.correspondences() as calls:
        warnings.simplefilter("ignore")
        got = ev.evaluate(thresholds=spec, nproc=1, save_dir=out)
    annotators(ctx, t)
    strength = lambda n, x: fast_nms(img=x, r=1, s=5, m=1.01, half_prec=False) if nms else x
    images = [(n, strength(n, t.preds[n] / 255), t.gts[n]) for n in t.names]
    # rounding of value/255 must not decide
    if nms and any(trees.rounding_decides(thr, p, strength(n, t.preds[n] * (1 / 255))) for n, p, _ in images):
        return ctx.see("undecided")
    cnts = observed_counts(ctx, calls, images, thr, kw.get("max_dist", 0.0075), thin, "BSDS")
    if cnts is None:
        return ctx.see("undecided")
    compare(ctx, got, out, t, thr, cnts, "BSDS", params=kw)
    ctx.sig("observed", repr(kw), tuple(t.names), repr(cnts))


def case_loaders(ctx, i):
    from pyEdgeEval.datasets.bsds import load_bsds_gt_boundaries, load_predictions
    rng = ctx.rng
    d = ctx.tmp()
    for k in range(4):
        hw = gens.shape(rng, 1, 30, 0.1)
        gts = [gens.binary(rng, hw) for _ in range(int(rng.integers(1, 9)))]
        path = f"{d}/{k}.mat"
        trees.save_mat(path, gts)
        for new in (False, True) if len(gts) > 1 else (False,):
            got = load_bsds_gt_boundaries(path, new_loader=new) if new or rng.random() < 0.5 else load_bsds_gt_boundaries(path)
            ctx.require(len(got) == len(gts), f"{len(got)} annotations instead of {len(gts)}", new_loader=new)
            for a, (g, w) in enumerate(zip(got, gts)):
                g = np.asarray(g)
                if new:
                    g = g.reshape(hw) if g.size == w.size else g
                ctx.equal(g, w.astype(np.uint8), f"annotation {a}", new_loader=new)
                ctx.see("annotations loaded")
        p = rng.integers(0, 256, hw).astype(np.uint8) if rng.random() < 0.6 else np.resize(np.arange(256, dtype=np.uint8), hw)
        trees.save(f"{d}/{k}.png", p)
        ctx.close(load_predictions(f"{d}/{k}.png"), p / 255, "strength of a prediction", tol=1e-15)
        ctx.sig(hw, p.tobytes())


def case_reported(ctx, i):
    from PIL import Image
    rng = ctx.rng
    d = ctx.tmp()
    flat = bool(rng.random() < 0.3)
    t = trees.bsds(rng, d + "/gt", d + "/pred", n=3, flat=flat)
    from pyEdgeEval.evaluators import BSDS500Evaluator
    ev = BSDS500Evaluator(d + "/gt", d + "/pred")
    ev.set_eval_params()
    run = lambda: ev.evaluate(thresholds=[0.4], nproc=int(rng.choice([1, 1, 2])), save_dir=d + "/out", no_split_dir=flat)
    run()
    os.rename(d + "/out", d + "/done")
    victim = t.names[int(rng.integers(0, len(t.names)))]
    pred = f"{d}/pred/{victim.split('/')[1] if flat else victim}.png"
    if i % 3 == 0:
        os.rename(pred, pred + ".gone")
        what = "missing prediction"
    elif i % 3 == 1:
        p = f"{d}/gt/groundTruth/{victim}.mat"
        os.rename(p, p + ".gone")
        what = "missing GT"
    else:
        h, w = t.preds[victim].shape
        a = rng.integers(0, 2 ** 16, (h, w)).astype(np.uint16)
        (Image.fromarray(a) if rng.random() < 0.6 else Image.fromarray(a > 2 ** 15)).save(pred)
        what = "predictions that are not 8 bit"
    ctx.raises((AssertionError, OSError, ValueError, TypeError), run, f"BSDS: {what}", image=victim)
    ctx.require(not os.path.exists(d + "/out/eval_bdry.txt"), f"BSDS: {what}, yet results were written")
    ctx.see(what + (" rejected" if i % 3 == 2 else " reported"))
    ctx.sig(what, victim)


def case_bundled(ctx, i):
    """the benchmark images that come with the repository"""
    from scipy.io import loadmat
    from skimage.io import imread
    from pyEdgeEval.evaluators import BSDS500Evaluator
    rng = ctx.rng
    root = f"{REPO}/data/BSDS500_bench"
    if not os.path.isdir(root):
        return ctx.see("bundled images missing")
    names = sorted(f[:-4] for f in os.listdir(root + "/groundTruth") if f.endswith(".mat"))
    name = names[i % len(names)]
    gt = loadmat(f"{root}/groundTruth/{name}.mat")["groundTruth"]
    gts = [gt[0, k]["Boundaries"][0, 0] for k in range(gt.shape[1])]
    pred = imread(f"{root}/png/{name}.png")
    ev = BSDS500Evaluator(root, root + "/png")
    ev.set_sample_names([name])
    thin = bool(rng.random() < 0.7)
    ev.set_eval_params(apply_thinning=thin)
    thr = [float(np.round(rng.uniform(0.15, 0.8), 3))]
    out = ctx.tmp() + "/out"
    with probe.correspondences() as calls:
        got = ev.evaluate(thresholds=thr, nproc=1, save_dir=out)
    cnts = observed_counts(ctx, calls, [(name, pred / 255, gts)], thr, 0.0075, thin, f"bundled {name}")
    ctx.see("bundled images")
    if cnts is None:
        return ctx.see("undecided")
    t = trees.Tree(root, None, 1)
    t.names = [name]
    compare(ctx, got, out, t, thr, cnts, f"bundled {name}")
    ctx.sig("bundled", name, thr, thin)
