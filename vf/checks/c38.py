"""C38: class numbers and names are the datasets' own, from the annotation to the table of scores."""
import contextlib
import io
import json
import os
import runpy
import warnings

import numpy as np

from vf import refs, trees
from vf.checks import c19, c23
from vf.checks.c21 import build

ID = "C38"
RULE = "a distinct non-trivial evaluation is one scene with named objects whose edges and scores were followed to the named row, one table compared, or one colour map"
PLAN = {"quick": [("city", 96), ("sbd", 96), ("tables", 2), ("palette", 48)], "thorough": [("city", 800), ("sbd", 800), ("tables", 4), ("palette", 300)]}
MUST_SEE = ["named rows", "named rows on the fly", "rows of other classes", "classes without edges", "objects of unevaluated classes", "borders between instances",
            "borders between parts of classes without instances", "groups", "table entries", "colours", "normalized colour maps"]
ASSUMPTIONS = ["cityscapesscripts' label table is the dataset's; the classes of the SBD are those of PASCAL VOC in alphabetical order"]
CASE_WALL_S = 300
CLOSE = 90.0


def labels():
    from cityscapesscripts.helpers.labels import labels as official
    return official


def evaluated():
    return sorted((l for l in labels() if 0 <= l.trainId < 255), key=lambda l: l.trainId)


def cells(rng, n):
    """n boxes of different shapes on a grid, far enough from each other"""
    step, cols = 26, 3
    out = []
    for k in range(n):
        y, x = (k // cols) * step + 7, (k % cols) * step + 7
        out.append((y + int(rng.integers(0, 4)), x + int(rng.integers(0, 4)), int(rng.integers(7, 13)), int(rng.integers(7, 13))))
    return out, ((n - 1) // cols * step + step + 6, cols * step + 8)


def bits(path, n):
    from PIL import Image
    a = np.array(Image.open(path)).astype(np.int64)
    v = a[..., 2] | (a[..., 1] << 8) | (a[..., 0] << 16)
    return np.stack([(v >> k) & 1 for k in range(n)]).astype(np.uint8), int(v.max()) >> n


def table(ctx, path):
    tabs = c19.tables(path)
    ctx.require(len(tabs) == 2, "results.txt has a table per class and a summary", tables=tabs)
    head, body = tabs[0]
    return {r[head.index("Class")]: {k: float(v) for k, v in zip(head, r) if k != "Class"} for r in body}


def expected_edges(lab, value, parts, radius, inst):
    zero = np.zeros(lab.shape, bool)
    e, sure = refs.bdry_ref(lab == value, zero, radius)
    for p in parts if inst else []:
        e2, s2 = refs.bdry_ref(p, zero, radius)
        e, sure = e | e2, sure & s2
    return e != 0, sure


def rows(ctx, ev, out, cats, names, drawn, absent, what, **info):
    """scores by name: the drawn ones are predicted as they are"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev.evaluate(categories=list(cats), thresholds=[0.5], nproc=1, save_dir=out)
    got = table(ctx, f"{out}/results.txt")
    ctx.equal(sorted(got), sorted(names[c - 1] for c in cats), f"{what}: classes of the table", **info)
    for n, v in got.items():
        if n in drawn:
            ctx.require(min(v["ODS_f1"], v["ODS_recall"], v["ODS_precision"]) >= CLOSE, f"{what}: a prediction that is the edges of the {n} gets {v}", table=got, **info)
            ctx.see("named rows on the fly" if "fly" in what else "named rows")
        elif n in absent:
            # somewhere else: where another class is
            ctx.require(v["ODS_f1"] <= 100 - CLOSE, f"{what}: {n} is not in the image and its prediction gets {v}", table=got, **info)
            ctx.see("rows of other classes")


def case_city(ctx, i):
    from PIL import Image
    from cityscapesscripts.helpers.annotation import Annotation
    from cityscapesscripts.preparation.json2instanceImg import createInstanceImage
    from cityscapesscripts.preparation.json2labelImg import createLabelImage
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    rng = ctx.rng
    d = ctx.tmp()
    root, name = d + "/gt", "ulm/ulm_000000_000019"
    known = evaluated()
    other = [l for l in labels() if not 0 <= l.trainId < 255 and l.name not in ("ego vehicle", "rectification border", "out of roi", "unlabeled")]
    pick = [known[k] for k in rng.permutation(len(known))[:4]]
    if not any(l.hasInstances for l in pick):
        pick[0] = [l for l in known if l.hasInstances][int(rng.integers(0, 8))]
    strange = other[int(rng.integers(0, len(other)))]
    boxes, hw = cells(rng, 6)
    objs, masks, group = [], {}, None

    def draw(label, y, x, h, w):
        objs.append(dict(label=label, polygon=[[x, y], [x + w - 1, y], [x + w - 1, y + h - 1], [x, y + h - 1]]))
        m = np.zeros(hw, bool)
        m[y:y + h, x:x + w] = True
        return m
    for l, (y, x, h, w) in zip(pick, boxes):
        half = w // 2
        if l.hasInstances and group is None and rng.random() < 0.4:
            group = l.name
            masks[l.name] = l, [draw(l.name + "group", y, x, h, w)]
            ctx.see("groups")
        else:
            masks[l.name] = l, [draw(l.name, y, x, h, half), draw(l.name, y, x + half, h, w - half)]
            ctx.see("borders between instances" if l.hasInstances else "borders between parts of classes without instances")
    draw(strange.name, *boxes[4])
    ctx.see("objects of unevaluated classes")
    os.makedirs(f"{root}/gtFine/val/ulm")
    for s in ("train", "test"):
        os.makedirs(f"{root}/gtFine/{s}")
    path = f"{root}/gtFine/val/{name}_gtFine_"
    json.dump(dict(imgHeight=hw[0], imgWidth=hw[1], objects=objs), open(path + "polygons.json", "w"))
    ann = Annotation()
    ann.fromJsonFile(path + "polygons.json")
    createLabelImage(ann, "ids").save(path + "labelIds.png")
    Image.fromarray(np.array(createInstanceImage(ann, "ids")).astype(np.uint16)).save(path + "instanceIds.png")
    lab = np.array(Image.open(path + "labelIds.png"))
    info = dict(objects=[(o["label"], o["polygon"][0]) for o in objs], size=hw)
    absent = [l for l in known if l.name not in masks]
    extra = [absent[k] for k in rng.permutation(len(absent))[:2]]
    cats = [l.trainId + 1 for l, _ in masks.values()] + [l.trainId + 1 for l in extra]
    cats = [int(v) for v in rng.permutation(cats)]
    names = [l.name for l in known]
    for IS in (True, False):
        convert_cityscapes("gtEval", root, inst_sensitive=IS, save_half_val=False, nproc=1)
        got, rest = bits(f"{root}/gtEval/val/{name}_gtProc_raw_{'isedge' if IS else 'edge'}.png", 19)
        ctx.equal(rest, 0, "bits beyond the classes", **info)
        seg = np.array(Image.open(f"{root}/gtEval/val/{name}_gtFine_labelTrainIds.png"))
        want_seg = np.full(hw, 255)
        for l, parts in masks.values():
            for m in parts:
                want_seg[m] = l.trainId
        ctx.equal(seg.astype(int) % 256, want_seg, "train ids", **info)
        for l in known:
            if l.name not in masks:
                ctx.require(not got[l.trainId].any(), f"edges of the {l.name}, of which there is none", instance_sensitive=IS, **info)
                ctx.see("classes without edges")
                continue
            parts = masks[l.name][1]
            e, sure = expected_edges(lab, l.id, parts, 2, IS and l.hasInstances and l.name != group)
            bad = sure & ((got[l.trainId] != 0) != e)
            ctx.require(not bad.any(), f"edges of the {l.name} (instance-sensitive: {IS}): {int(bad.sum())} pixels differ", **info)
            pred = e
            trees.save(f"{d}/pred/class_{l.trainId + 1:03d}/{name}_leftImg8bit.png", np.where(pred, 255, 0).astype(np.uint8))
        for l in extra:  # predicted where there is another class
            k = list(masks.values())[int(rng.integers(0, len(masks)))][0].trainId
            trees.save(f"{d}/pred/class_{l.trainId + 1:03d}/{name}_leftImg8bit.png", (got[k] * 255).astype(np.uint8))
        kinds = ["city", "otf"]
        for kind in kinds:
            ev = build(kind, root, d + "/pred", thin=False)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ev.set_eval_params(scale=1.0, max_dist=0.02, instance_sensitive=IS, apply_thinning=False, apply_nms=False)
            rows(ctx, ev, f"{d}/out_{kind}_{IS}", cats, names, set(masks), {l.name for l in extra}, "on the fly" if kind == "otf" else "converted", **info)
        ctx.sig(repr(info), IS)
    ctx.sample(**info)


VOC = ("aeroplane", "bicycle", "bird", "boat", "bottle", "bus", "car", "cat", "chair", "cow", "diningtable", "dog", "horse", "motorbike", "person", "pottedplant",
       "sheep", "sofa", "train", "tvmonitor")


def plain(name):
    return "".join(c for c in name.lower() if c.isalnum())


def case_sbd(ctx, i):
    from pyEdgeEval.helpers.convert_sbd import routine
    rng = ctx.rng
    d = ctx.tmp()
    root, name = d + "/sbd", "2008_000019"
    names = [str(v) for v in build("sbd", root, d + "/pred").CLASSES]
    ctx.equal([plain(n) for n in names], list(VOC), "class names of the evaluator")
    pick = [int(v) for v in rng.permutation(20)[:5]]
    boxes, hw = cells(rng, 5)
    cls, inst, cats, masks = np.zeros(hw, np.uint8), np.zeros(hw, np.uint8), [], {}
    for k, (y, x, h, w) in zip(pick, boxes):
        parts = []
        for x0, x1 in ((x, x + w // 2), (x + w // 2, x + w)):
            cats.append(k + 1)
            m = np.zeros(hw, bool)
            m[y:y + h, x0:x1] = True
            inst[m], cls[m] = len(cats), k + 1
            parts.append(m)
        masks[k] = parts
        ctx.see("borders between instances")
    c23.write(rng, f"{root}/cls_orig/{name}.mat", f"{root}/inst_orig/{name}.mat", cls, inst, cats, sorted(set(cats)))
    os.makedirs(root + "/gtEval")
    with open(root + "/val.txt", "w") as f:
        f.write(name + "\n")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        routine(name, root, root + "/gtEval", radius=2, save_segs=True, edge_suffix="_raw_edge.png", isedge_suffix="_raw_isedge.png")
    from PIL import Image
    lab = np.array(Image.open(f"{root}/gtEval/{name}_labelIds.png"))
    extra = [int(v) for v in rng.permutation([k for k in range(20) if k not in masks])[:2]]
    info = dict(classes=[VOC[k] for k in pick], size=hw)
    order = [int(v) + 1 for v in rng.permutation(pick + extra)]
    for IS in (True, False):
        got, rest = bits(f"{root}/gtEval/{name}_raw_{'isedge' if IS else 'edge'}.png", 20)
        ctx.equal(rest, 0, "bits beyond the classes", **info)
        for k in range(20):
            if k not in masks:
                ctx.require(not got[k].any(), f"edges of the {VOC[k]}, of which there is none", instance_sensitive=IS, **info)
                ctx.see("classes without edges")
                continue
            e, sure = expected_edges(cls, k + 1, masks[k], 2, IS)
            bad = sure & ((got[k] != 0) != e)
            ctx.require(not bad.any(), f"edges of the {VOC[k]} (instance-sensitive: {IS}): {int(bad.sum())} pixels differ", **info)
            ctx.require((lab[masks[k][0]] == k + 1).all(), f"label ids of the {VOC[k]}", **info)
            trees.save(f"{d}/pred/class_{k + 1:03d}/{name}.png", np.where(e, 255, 0).astype(np.uint8))
        for k in extra:
            trees.save(f"{d}/pred/class_{k + 1:03d}/{name}.png", (got[pick[int(rng.integers(0, 5))]] * 255).astype(np.uint8))
        ev = build("sbd", root, d + "/pred", thin=False)
        ev.set_eval_params(scale=1.0, max_dist=0.02, instance_sensitive=IS, apply_thinning=False, apply_nms=False)
        rows(ctx, ev, f"{d}/out_{IS}", order, names, {names[k] for k in pick}, {names[k] for k in extra}, "sbd", **info)
        ctx.sig(repr(info), IS)
    ctx.sample(**info)


def case_tables(ctx, i):
    from pyEdgeEval.datasets import cityscapes_attributes as ca, sbd_attributes as sa
    off = labels()
    ctx.equal(sorted(ca.CITYSCAPES_labelIds), sorted(l.id for l in off if l.id >= 0), "Cityscapes label ids")
    ctx.equal(dict(ca.CITYSCAPES_label2trainId), {l.id: l.trainId for l in evaluated()}, "Cityscapes label and train ids")
    ctx.equal(dict(ca.CITYSCAPES_trainId2name), {l.trainId: l.name for l in evaluated()}, "Cityscapes names of the train ids")
    ctx.equal(sorted(ca.CITYSCAPES_inst_labelIds), sorted(l.id for l in evaluated() if l.hasInstances), "Cityscapes labels with instances")
    for kind in ("city", "half", "otf"):
        ctx.equal(list(build(kind, "/nonexistent", "/nonexistent", thin=False).CLASSES), [l.name for l in evaluated()], f"class names of the evaluator {kind}")
    ctx.equal(sorted(sa.SBD_labelIds), list(range(22)), "SBD label ids")
    ctx.equal(dict(sa.SBD_label2trainId), {k + 1: k for k in range(20)}, "SBD label and train ids")
    ctx.equal({k: plain(v) for k, v in sa.SBD_trainId2name.items()}, dict(enumerate(VOC)), "SBD names of the train ids")
    ctx.equal(sorted(sa.SBD_inst_labelIds), list(range(1, 21)), "SBD labels with instances")
    for kind in ("sbd", "reanno"):
        ctx.equal([plain(v) for v in build(kind, "/nonexistent", "/nonexistent", thin=False).CLASSES], list(VOC), f"class names of the evaluator {kind}")
    ctx.see("table entries", 200)
    ctx.sig("tables")


def case_palette(ctx, i):
    """the VOC devkit's colours: bit 3k+c of the number is bit 7-k of channel c"""
    from vf.framework import REPO
    rng = ctx.rng
    ns = runpy.run_path(f"{REPO}/scripts/other/pascal_voc_colormap.py")
    said = io.StringIO()
    n = int([256, 22, 1, 0, 21][i] if i < 5 else rng.integers(0, 600))
    want = np.zeros((n, 3), int)
    for c in range(3):
        for k in range(3):
            want[:, c] |= ((np.arange(n) >> (3 * k + c)) & 1) << (7 - k)
    # numbers beyond a byte go on in the same way
    for c in range(3):
        for k in range(3, 8):
            want[:, c] |= ((np.arange(n) >> (3 * k + c)) & 1) << (7 - k)
    got = ns["color_map"](n) if n != 256 or rng.random() < 0.5 else ns["color_map"]()
    ctx.require(got.dtype == np.uint8, "colours are bytes", dtype=str(got.dtype))
    ctx.equal(got, want, f"colour map of {n}")
    norm = ns["color_map"](N=n, normalized=True)
    ctx.require(norm.dtype.kind == "f" and norm.shape == (n, 3), "normalized colours", dtype=str(norm.dtype), shape=norm.shape)
    ctx.close(norm, want / 255, f"normalized colour map of {n}", tol=1e-6)
    ctx.see("normalized colour maps")
    ctx.see("colours", n)
    if i == 0:
        with contextlib.redirect_stdout(said):
            runpy.run_path(f"{REPO}/scripts/other/pascal_voc_colormap.py", run_name="__main__")
        v = [int(x) for x in said.getvalue().replace("[", " ").replace("]", " ").split()]
        ctx.equal(v, [int(x) for x in np.array([[((k >> (3 * j + c)) & 1) << (7 - j) for j in range(3)] for k in range(22) for c in range(3)]).sum(1)], "printed colours")
    ctx.sig(n)
