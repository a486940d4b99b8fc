"""C24: the Cityscapes conversion."""
import hashlib
import json
import os

import numpy as np
from PIL import Image

from vf import gens, refs, trees
from vf.checks.c23 import run_script

ID = "C24"
RULE = "a distinct non-trivial evaluation is one distinct label and instance map whose written edge files were decoded and compared pixel by pixel"
PLAN = {"quick": [("tree", 120), ("direct", 360), ("script", 48)], "thorough": [("tree", 600), ("direct", 2500), ("script", 200)]}
MUST_SEE = ["edge pixels", "instance-only edge pixels", "train files", "raw files", "thin files", "half raw files", "half thin files",
            "png files", "tif files", "bin files", "train id maps", "split lists", "parallel conversions", "script runs", "odd sizes",
            "downscaled before", "rejections", "unchanged input files", "splits of many images"]
ASSUMPTIONS = ["label maps with ids 0..33, instance maps with ids label*1000+k or plain labels", "town directories are not called gtFine"]
CASE_WALL_S = 300
TRAIN = list(trees.TRAIN2LABEL.values())
NAMES = {"road": 0, "car": 13, "person": 11, "bicycle": 18, "sky": 10, "unlabeled": 255, "static": 255, "cargroup": 13, "persongroup": 11,
         "license plate": None, "pole": 5, "parking": 255, "train": 16, "sidewalk": 1}


def fancy_scene(rng, lo=6, hi=30):
    hw = gens.sometimes_big(rng, (int(rng.integers(lo, hi)), int(rng.integers(lo, hi))), 0.03, 80, 150)
    labels = [int(v) for v in rng.choice(TRAIN, int(rng.integers(1, 5)))] + [int(v) for v in rng.choice([2, 3, 0, 4, 24, 26], int(rng.integers(0, 3)))]
    if rng.random() < 0.6:
        labels += [int(rng.choice(trees.INST_LABELS))] * 3
    labels = [int(v) for v in rng.permutation(labels)]
    return trees.city_scene(rng, hw, labels)


def edges(lab, inst, radius, thin):
    one = np.stack([lab == k for k in range(34)]).astype(np.uint8)
    e, s = refs.edges_ref(one, [2, 3], radius, inst, trees.INST_LABELS if inst is not None else (), thin)
    return e[TRAIN], s[TRAIN]


def half(a, scale=0.5):
    """nearest neighbour of the edge maps: the pixel at the scaled coordinates, rounded down"""
    h, w = a.shape[-2:]
    oh, ow = int(h * scale + 0.5), int(w * scale + 0.5)
    ys = np.minimum((np.arange(oh) * (h / oh)).astype(int), h - 1)
    xs = np.minimum((np.arange(ow) * (w / ow)).astype(int), w - 1)
    return a[:, ys][:, :, xs]


def half_sure(sure, scale=0.5):
    """where rounding cannot move the sampled pixel (the ratio times the index is an exact integer or far from one)"""
    h, w = sure.shape[-2:]
    out = half(sure, scale).copy()
    for axis, (n, o) in enumerate(((h, out.shape[1]), (w, out.shape[2]))):
        for k in range(1, o):
            if k * n % o == 0 and float(k * (n / o)) != k * n // o:
                out[(slice(None),) * (axis + 1) + (k,)] = False
            if k * n % o == 0 and n % o:  # an integer reached by a rounded ratio: the library may round the other way
                out[(slice(None),) * (axis + 1) + (k,)] = False
    return out


def read(path, hw):
    if path.endswith(".png"):
        a = np.array(Image.open(path)).astype(np.int64)
        bits = a[..., 2] | (a[..., 1] << 8) | (a[..., 0] << 16)
    elif path.endswith(".tif"):
        bits = np.array(Image.open(path)).astype(np.int64) & 0xffffffff
    else:
        bits = np.fromfile(path, np.uint32).astype(np.int64)
        if bits.size != hw[0] * hw[1]:
            return None, f"{bits.size} values"
        bits = bits.reshape(hw)
    return np.stack([(bits >> k) & 1 for k in range(19)]).astype(np.uint8), int(bits.max()) >> 19


def check_file(ctx, path, want, sure, what, **info):
    ctx.require(os.path.exists(path), f"{what}: {path} was not written", **info)
    got, rest = read(path, want.shape[1:])
    ctx.require(rest == 0, f"{what}: pixels beyond the 19 classes or of another size ({rest})", **info)
    ctx.require(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}", **info)
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{what}: {int(bad.sum())} pixels differ, first at (train id, y, x) "
                f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", path=path, **info)
    ctx.see("edge pixels", int(got.sum()))
    ctx.see(path.rsplit(".", 1)[1] + " files")


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


def polygons(rng, path, hw):
    """rectangles -> the expected train ids"""
    out = np.full(hw, 255, np.uint8)
    objs = []
    for _ in range(int(rng.integers(0, 5))):
        name = list(NAMES)[rng.integers(0, len(NAMES))]
        y0, y1 = sorted(int(v) for v in rng.integers(0, hw[0], 2))
        x0, x1 = sorted(int(v) for v in rng.integers(0, hw[1], 2))
        y1, x1 = min(hw[0] - 1, y1 + 1), min(hw[1] - 1, x1 + 1)
        objs.append(dict(label=name, polygon=[[x0, y0], [x1, y0], [x1, y1], [x0, y1]]))
        if NAMES[name] is not None:
            out[y0:y1 + 1, x0:x1 + 1] = NAMES[name]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump(dict(imgHeight=hw[0], imgWidth=hw[1], objects=objs), open(path, "w"))
    return out


def make(rng, root):
    """-> {split: {name: (lab, inst, train ids)}}"""
    tree = {}
    many = str(rng.choice(["train", "val", "test"])) if rng.random() < 0.08 else ""
    for split in ("train", "val", "test"):
        os.makedirs(f"{root}/gtFine/{split}")
        tree[split] = {}
        for i in range(int(rng.integers(0 if split == "test" else 1, 4)) if split != many else int(rng.integers(8, 20))):
            town = str(rng.choice(["aachen", "bonn", "ulm", "st_gtEval"]))
            name = f"{town}/{town}_{i:06d}_{rng.integers(0, 10**6):06d}"
            if rng.random() < 0.2:
                name += str(rng.choice(["_gtFine_b", ".v2", "_labelIds", "_gtProc", "_polygons", "_gtFine"]))
            lab, inst = fancy_scene(rng)
            tid = polygons(rng, f"{root}/gtFine/{split}/{name}_gtFine_polygons.json", lab.shape)
            trees.save_scene(root, split, name, lab, inst)
            trees.save(f"{root}/gtFine/{split}/{name}_gtFine_color.png", lab)
            tree[split][name] = lab, inst, tid
    return tree


def verify(ctx, root, out, before, tree, IS, ext, save_half, radii=(2, 2, 1), **info):
    k = "isedge" if IS else "edge"
    want = set()
    info = dict(info, instance_sensitive=IS, ext=ext, half=save_half, root=root)
    r_train, r_raw, r_thin = radii
    for split in ("train", "val"):
        for name, (lab, inst, tid) in tree[split].items():
            ins = inst if IS else None
            base = f"{root}/{out}/{split}/{name}"
            small = lab, ins
            e = {}
            if split == "train":
                e[f"_gtProc_{k}"] = edges(lab, ins, r_train, False)
                ctx.see("train files")
            else:
                full = edges(lab, ins, r_raw, False)
                e[f"_gtProc_raw_{k}"] = full
                e[f"_gtProc_thin_{k}"] = edges(lab, ins, r_thin, True)
                ctx.see("raw files")
                ctx.see("thin files")
                if save_half:
                    e[f"_gtProc_half_raw_{k}"] = half(full[0]), half_sure(full[1])
                    e[f"_gtProc_half_thin_{k}"] = edges(trees.scaled(lab, 0.5), None if ins is None else trees.scaled(ins, 0.5), r_thin, True)
                    ctx.see("half raw files")
                    ctx.see("half thin files")
                    ctx.see("odd sizes", int(lab.shape[0] % 2 or lab.shape[1] % 2))
                if IS:
                    ctx.see("instance-only edge pixels", int((full[0] & ~edges(lab, None, r_raw, False)[0] & 1).sum()))
            for suffix, (w, s) in e.items():
                check_file(ctx, base + suffix + "." + ext, w, s, f"{split} {suffix} of {name}", labels=lab, instances=ins, **info)
                want.add(f"{out}/{split}/{name}{suffix}.{ext}")
                if w.any():
                    ctx.sig(lab.tobytes(), inst.tobytes(), suffix, ext)
            p = base + "_gtFine_labelTrainIds.png"
            ctx.require(os.path.exists(p), f"{p} was not written", **info)
            ctx.equal(np.array(Image.open(p)), tid, f"train ids of {name}", **info)
            ctx.see("train id maps")
            want.add(f"{out}/{split}/{name}_gtFine_labelTrainIds.png")
    for split in ("train", "val", "test"):
        got = open(f"{root}/splits/{split}.txt").read().split("\n")
        ctx.require(sorted(got) == sorted([""] + list(tree[split])), f"splits/{split}.txt does not list every image exactly once",
                    got=got, want=sorted(tree[split]), **info)
        ctx.see("split lists")
        want.add(f"splits/{split}.txt")
    after = snapshot(root)
    for p, h in before.items():
        ctx.require(after.get(p) == h, f"the conversion changed or removed {p}", **info)
    ctx.see("unchanged input files", len(before))
    extra = set(after) - set(before)
    ctx.require(extra == want, "other files were written", got=sorted(extra ^ want), **info)


def roots(ctx):
    return os.path.join(ctx.tmp(), str(ctx.rng.choice(["cityscapes", "gtFine", "a/gtFine_v1", "x.gtFine"])))


def case_tree(ctx, i):
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
    rng = ctx.rng
    root = roots(ctx)
    tree = make(rng, root)
    IS, ext, h = bool(rng.random() < 0.6), str(rng.choice(["png", "tif", "bin"])), bool(rng.random() < 0.7)
    out = str(rng.choice(["gtEval", "gtOut", "edges.v2"]))
    nproc = int(rng.choice([1, 1, 2, 3, 4]))
    radii = (2, 2, 1) if rng.random() < 0.6 else (int(rng.integers(1, 4)), int(rng.integers(1, 4)), 1)
    before = snapshot(root)
    kw = dict(inst_sensitive=IS, ext=ext, save_half_val=h, nproc=nproc)
    if radii != (2, 2, 1):
        kw.update(train_radius=radii[0], raw_val_radius=radii[1], thin_val_radius=1)
    convert_cityscapes(out, root, **kw)
    verify(ctx, root, out, before, tree, IS, ext, h, radii, nproc=nproc)
    ctx.see("parallel conversions", int(nproc > 1))
    ctx.see("splits of many images", int(max(map(len, tree.values())) >= 8))
    ctx.sample(instance_sensitive=IS, ext=ext, half=h, nproc=nproc, images={k: len(v) for k, v in tree.items()})


def case_script(ctx, i):
    from vf.framework import REPO
    rng = ctx.rng
    root = roots(ctx)
    tree = make(rng, root)
    IS, ext, h = bool(rng.random() < 0.5), str(rng.choice(["png", "tif", "bin"])), bool(rng.random() < 0.5)
    out = str(rng.choice(["gtEval", "o"]))
    nproc = int(rng.choice([1, 2, 3]))
    before = snapshot(root)
    argv = ["--root", root, "--nproc", str(nproc)]
    if out != "gtEval" or rng.random() < 0.5:
        argv += ["-o", out]
    if ext != "png" or rng.random() < 0.5:
        argv += ["--ext", ext]
    argv += [] if IS else ["--nonIS"]
    argv += [] if h else ["--only-full-scale"]
    run_script(f"{REPO}/scripts/convert_datasets/cityscapes.py", argv)
    verify(ctx, root, out, before, tree, IS, ext, h, argv=argv)
    ctx.see("script runs")
    ctx.see("parallel conversions", int(nproc > 1))


def case_direct(ctx, i):
    """one file, every option"""
    from pyEdgeEval.helpers.convert_cityscapes import convert_label_to_semantic_edges
    rng = ctx.rng
    root = ctx.tmp()
    lab, inst = fancy_scene(rng, 3, 36)
    name = "bonn/bonn_000001_000019"
    trees.save_scene(root, "val", name, lab, inst)
    IS, ext = bool(rng.random() < 0.6), str(rng.choice(["png", "tif", "bin"]))
    thin = bool(rng.random() < 0.4)
    radius = 1 if thin else int(rng.integers(1, 5))
    scale = float(rng.choice([1.0, 0.5, 0.5, 0.25, 0.75]))
    seal = bool(rng.random() < 0.5)
    info = dict(labels=lab, instances=inst if IS else None, radius=radius, thin=thin, scale=scale, seal=seal, ext=ext)
    f = f"{root}/gtFine/val/{name}_gtFine_labelIds.png"
    convert_label_to_semantic_edges(f, inst_sensitive=IS, proc_dir="o", edge_suffix=f"_x.{ext}", radius=radius, thin=thin, scale=scale, seal=seal)
    ins = inst if IS else None
    if scale < 1 and (thin or not seal):
        want, sure = edges(trees.scaled(lab, scale), None if ins is None else trees.scaled(ins, scale), radius, thin)
        ctx.see("downscaled before")
    else:
        want, sure = edges(lab, ins, radius, thin)
        if scale < 1:
            want, sure = half(want, scale), half_sure(sure, scale)
    check_file(ctx, f"{root}/o/val/{name}_x.{ext}", want, sure, "edges", **info)
    ctx.see("odd sizes", int(lab.shape[0] % 2 or lab.shape[1] % 2))
    if want.any():
        ctx.sig(lab.tobytes(), lab.shape, IS, radius, thin, scale, seal)
    if rng.random() < 0.2:
        ctx.raises(Exception, lambda: convert_label_to_semantic_edges(f, proc_dir="o", thin=True, radius=2), "thinned edges with radius 2")
        ctx.raises(Exception, lambda: convert_label_to_semantic_edges(f, proc_dir="o", edge_suffix="_x.jpg"), "a format that is not supported")
        ctx.raises(Exception, lambda: convert_label_to_semantic_edges(f.replace("bonn_", "none_"), proc_dir="o"), "a missing label file")
        ctx.see("rejections", 3)
