"""C25: on-the-fly Cityscapes evaluation equals the evaluation of converted ground truth."""
import json
import os
import warnings

import numpy as np

from vf import gens, probe, refs, trees
from vf.checks.c21 import build

ID = "C25"
RULE = "a distinct non-trivial evaluation is one distinct (tree, category, options) with GT edges, evaluated both ways or against the scaled oracle"
PLAN = {"quick": [("same", 192), ("scaled", 256), ("functions", 480)], "thorough": [("same", 800), ("scaled", 1200), ("functions", 2500)]}
MUST_SEE = ["categories compared", "equal scores", "matchings compared", "GT edge pixels", "instance-only edge pixels", "instance-sensitive",
            "instance-insensitive", "scaled", "removal of internal predictions", "absent categories", "ignored labels", "group ids", "larger images",
            "trees of many images", "predictions of another resolution"]
ASSUMPTIONS = ["the label maps are those of the polygons the labelTrainIds files are made from", "label ids 0..33"]
KEYS = trees.KEYS


def scene(rng, path, hw):
    """a label map and the polygons it is drawn from"""
    from cityscapesscripts.helpers.labels import id2label
    lab = np.zeros(hw, np.uint8)
    objs = []
    pool = [int(rng.choice(list(trees.LABEL2TRAIN))) for _ in range(3)] + [int(v) for v in rng.choice([2, 3, 4, 9, 24, 26, 33], 3)]
    for _ in range(int(rng.integers(3, 10))):
        l = int(rng.choice(pool))
        y0, x0 = int(rng.integers(0, hw[0] - 2)), int(rng.integers(0, hw[1] - 2))
        y1, x1 = int(rng.integers(y0 + 1, hw[0])), int(rng.integers(x0 + 1, hw[1]))
        objs.append(dict(label=id2label[l].name, polygon=[[x0, y0], [x1, y0], [x1, y1], [x0, y1]]))
        lab[y0:y1 + 1, x0:x1 + 1] = l
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump(dict(imgHeight=hw[0], imgWidth=hw[1], objects=objs), open(path, "w"))
    return lab


def make(rng, root, pred_root, n, size, suffix="_leftImg8bit.png"):
    t = trees.Tree(root, pred_root, 19)
    t.margin, t.seg_base, t.labs, t.insts = 0, 0, {}, {}
    for s in ("train", "test"):
        os.makedirs(f"{root}/gtFine/{s}")
    for i in range(n):
        name = f"ulm/ulm_{i:06d}_{rng.integers(0, 10**6):06d}"
        hw = (int(rng.integers(*size)), int(rng.integers(*size))) if size[0] < 500 else size
        lab = scene(rng, f"{root}/gtFine/val/{name}_gtFine_polygons.json", hw)
        inst = trees.instances(rng, lab)
        trees.save_scene(root, "val", name, lab, inst)
        t.names.append(name)
        t.labs[name], t.insts[name] = lab, inst
    return t


def predict(rng, t, cats, suffix="_leftImg8bit.png"):
    for c in cats:
        for name in t.names:
            e, _ = trees.label_edge(t.labs[name], t.insts[name], c, 1)
            p = np.zeros(e.shape, np.uint8)
            on = gens.shifted(rng, e != 0, 1, 0.3, 0.03)
            p[on] = rng.integers(1, 256, int(on.sum()))
            if rng.random() < 0.15:
                other = [max(2, int(v * f + 0.5)) for v, f in zip(p.shape, rng.choice([0.5, 0.6, 1.0, 1.5, 2.0], 2))]
                p, t.other = trees.nearest(p, other), t.other + (tuple(other) != p.shape)
            t.preds[c, name] = p
            trees.save(f"{t.pred_root}/class_{c:03d}/{name}{suffix}", p)


def some_cats(rng, t, extra=2):
    present = sorted({int(trees.LABEL2TRAIN[v]) + 1 for l in t.labs.values() for v in np.unique(l) if int(v) in trees.LABEL2TRAIN})
    cats = [int(v) for v in rng.permutation(present)[:3]] + [int(v) for v in rng.integers(1, 20, extra)]
    return sorted(set(cats)), present


def run(ev, c, thr):
    with warnings.catch_warnings(), probe.correspondences() as calls:
        warnings.simplefilter("ignore")
        r = ev.evaluate_category(category=c, thresholds=thr, nproc=1, save_dir=None)
    return r, [q for q in calls if (q["a"] != 0).any() and (q["b"] != 0).any()]


def case_same(ctx, i):
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    rng = ctx.rng
    d = ctx.tmp()
    big, many = rng.random() < 0.06, rng.random() < 0.06
    t = make(rng, d + "/gt", d + "/pred", int(rng.integers(1, 4)) if not many else int(rng.integers(6, 12)), (12, 40) if not big else (100, 180))
    ctx.see("larger images", int(big))
    ctx.see("trees of many images", int(many))
    cats, present = some_cats(rng, t)
    predict(rng, t, cats)
    ctx.see("predictions of another resolution", t.other)
    both = {}
    for IS in (True, False):
        convert_cityscapes("gtEval", d + "/gt", inst_sensitive=IS, save_half_val=False, nproc=1)
        kw = dict(scale=1.0, max_dist=float(rng.choice([0.01, 0.02, 0.05])), instance_sensitive=IS, apply_thinning=bool(rng.random() < 0.5),
                  apply_nms=bool(rng.random() < 0.2), kill_internal=bool(not IS and rng.random() < 0.6),
                  skip_if_nonexistent=bool(rng.random() < 0.3))
        thr = trees.thresholds(rng)
        ctx.see("instance-sensitive" if IS else "instance-insensitive")
        ctx.see("removal of internal predictions", int(kw["kill_internal"]))
        evs = []
        for kind in ("city", "otf"):
            ev = build(kind, d + "/gt", d + "/pred", thin=False)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ev.set_eval_params(**kw)
            evs.append(ev)
        for c in cats:
            (r1, q1), (r2, q2) = run(evs[0], c, thr), run(evs[1], c, thr)
            info = dict(category=c, params=kw, thresholds=thr, labels=[t.labs[n] for n in t.names][:1])
            ctx.require(len(q1) == len(q2), f"{len(q2)} matchings on the fly, {len(q1)} with converted GT", **info)
            for a, b in zip(q1, q2):
                ctx.equal(b["b"] != 0, a["b"] != 0, "GT edges on the fly and converted", **info)
                ctx.equal(b["a"] != 0, a["a"] != 0, "predictions on the fly and converted", **info)
                ctx.see("matchings compared")
            # the native matching draws random outlier edges: where it happened to pick other pairs, only its inputs are compared
            if not all(np.array_equal(a[k] != 0, b[k] != 0) for a, b in zip(q1, q2) for k in ("m1", "m2")):
                ctx.see("equal inputs matched differently")
                continue
            for k in KEYS:
                ctx.require(r1[k] == r2[k] or (r1[k] != r1[k] and r2[k] != r2[k]), f"{k}: {r2[k]} on the fly, {r1[k]} with converted GT", **info)
            ctx.see("equal scores")
            ctx.see("categories compared")
            ctx.see("absent categories", int(c not in present))
            n = sum(int(q["b"].any()) for q in q1)
            ctx.see("GT edge pixels", sum(int(np.count_nonzero(q["b"])) for q in q1))
            if n:
                ctx.sig(tuple(t.names), c, repr(kw))
                both[c, IS] = q1[0]["b"] != 0
    for c in cats:
        if (c, True) in both and (c, False) in both and both[c, True].shape == both[c, False].shape:
            ctx.see("instance-only edge pixels", int((both[c, True] & ~both[c, False]).sum()))
    ctx.see("group ids", sum(int(((l == k) & (t.insts[n] == k)).any()) for n, l in t.labs.items() for k in trees.INST_LABELS))
    ctx.sample(categories=cats, params=kw, images=len(t.names))


def case_scaled(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    t = make(rng, d + "/gt", d + "/pred", int(rng.integers(1, 3)), (16, 44) if rng.random() > 0.06 else (100, 180))
    os.makedirs(d + "/gt/gtEval/val", exist_ok=True)
    os.makedirs(d + "/gt/splits", exist_ok=True)
    with open(d + "/gt/splits/val.txt", "w") as f:
        f.write("".join(n + "\n" for n in t.names))
    cats, present = some_cats(rng, t, 1)
    predict(rng, t, cats)
    thin = bool(rng.random() < 0.5)
    inst = bool(rng.random() < 0.6)
    scale = float(rng.choice([0.5, 0.5, 0.25, 0.75, 0.6, 1.0]))
    ev = build("otf", d + "/gt", d + "/pred", thin=thin)
    ev.set_eval_params(scale=scale, max_dist=0.02, instance_sensitive=inst, apply_thinning=False, apply_nms=False)
    for c in cats:
        want = []
        sure = True
        for name in t.names:
            lab = trees.scaled(t.labs[name], scale)
            e, s = trees.label_edge(lab, trees.scaled(t.insts[name], scale) if inst else None, c, 1 if thin else 2)
            p = trees.nearest(t.preds[c, name], lab.shape)
            sure &= bool(s.all())
            if e.any():
                want += [(e != 0, p / 255 >= v) for v in (0.3, 0.7) if (p / 255 >= v).any()]
        if not sure:
            ctx.see("GT with a rounding-sensitive edge")
            continue
        r, q = run(ev, c, [0.3, 0.7])
        q = [x for x in q if x["b"].any()]
        info = dict(category=c, scale=scale, thin=thin, instance_sensitive=inst, labels=[t.labs[n] for n in t.names][:1])
        ctx.require(len(q) == len(want), f"{len(q)} matchings instead of {len(want)}", **info)
        for x, (e, p) in zip(q, want):
            ctx.equal(x["b"] != 0, e, "GT edges of the downscaled maps", **info)
            ctx.equal(x["a"] != 0, p, "predictions of the downscaled maps", **info)
            ctx.see("matchings compared")
            ctx.see("GT edge pixels", int(e.sum()))
        if want:
            ctx.sig(tuple(t.names), c, scale, thin, inst)
        ctx.see("categories compared")
        ctx.see("scaled", int(scale != 1))


def case_functions(ctx, i):
    """the two single-label functions against the loops over all labels and the oracle"""
    from pyEdgeEval.datasets.otf_cityscapes import one_label_instance_mask2edge, one_label_mask2edge
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, loop_mask2edge
    rng = ctx.rng
    hw = gens.sometimes_big(rng, (int(rng.integers(2, 26)), int(rng.integers(2, 26))), 0.03, 80, 140)
    lab, inst = trees.city_scene(rng, hw, [int(v) for v in rng.choice([2, 3, 7, 11, 24, 24, 26, 26, 33, 28], int(rng.integers(1, 6)))])
    one = np.stack([lab == k for k in range(34)]).astype(np.uint8)
    r = int(rng.integers(1, 5))
    ign = [[2, 3], [2, 3], [2], [], [24]][int(rng.integers(5))]
    a = loop_mask2edge(one, ignore_indices=ign, radius=r)
    b = loop_instance_mask2edge(one, inst, inst_labelIds=list(trees.INST_LABELS), ignore_indices=ign, radius=r)
    wa, sa = refs.edges_ref(one, ign, r)
    wb, sb = refs.edges_ref(one, ign, r, inst, trees.INST_LABELS)
    for l in sorted({int(v) for v in np.unique(lab)} | {2, 7, 33}):
        info = dict(label=l, labels=lab, instances=inst, radius=r, ignore=ign)
        x = one_label_mask2edge(l, one, ign, r)
        y = one_label_instance_mask2edge(l, one, inst, trees.INST_LABELS, ign, r)
        ctx.equal(np.asarray(x) != 0, a[l] != 0, "one label's edges and those of the loop", **info)
        ctx.equal(np.asarray(y) != 0, b[l] != 0, "one label's instance edges and those of the loop", **info)
        for got, w, s in ((x, wa[l], sa[l]), (y, wb[l], sb[l])):
            ctx.require(not (s & ((np.asarray(got) != 0) != (w != 0))).any(), "one label's edges", **info)
        ctx.see("ignored labels", int(l in ign))
        ctx.see("instance-only edge pixels", int(((np.asarray(y) != 0) & (np.asarray(x) == 0)).sum()))
        if np.any(x):
            ctx.sig(lab.tobytes(), inst.tobytes(), l, r)
