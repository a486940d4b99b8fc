"""Small dataset trees with known contents, and the scores the protocols must give on them."""
import os

import numpy as np
from PIL import Image

from vf import refs

LEVELS = np.array([26, 77, 128, 204, 255], np.uint8)
SBD_SUFFIX = {k: f"_{k}.png" for k in ("raw_edge", "raw_isedge", "thin_edge", "thin_isedge", "reanno_raw_edge",
                                       "reanno_raw_isedge", "reanno_thin_edge", "reanno_thin_isedge")}
CITY_SUFFIX = {k: f"_gtProc_{k}.png" for k in ("raw_edge", "raw_isedge", "thin_edge", "thin_isedge", "half_raw_edge",
                                               "half_raw_isedge", "half_thin_edge", "half_thin_isedge")}


def save(path, arr):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(arr).save(path)


def spots(rng, hw, n, margin=0):
    m = np.zeros(hw, bool)
    h, w = hw
    for _ in range(n):
        m[rng.integers(margin, max(margin + 1, h - margin)) % h, rng.integers(margin, max(margin + 1, w - margin)) % w] = True
    return m


def prediction(rng, hw, gt, margin=0, reach=1, blocks=True):
    """uint8 strengths near (and far from) the given edge pixels"""
    h, w = hw
    out = np.zeros(hw, np.uint8)
    pts = [tuple(p) for p in np.argwhere(gt)]
    for y, x in pts:
        if rng.random() < 0.8:
            if rng.random() < 0.5:
                y, x = y + rng.integers(-reach, reach + 1), x + rng.integers(-reach, reach + 1)
            if 0 <= y < h and 0 <= x < w:
                out[y, x] = LEVELS[rng.integers(0, len(LEVELS))]
    for y, x in np.argwhere(spots(rng, hw, int(rng.integers(0, 5)), margin)):
        out[y, x] = LEVELS[rng.integers(0, len(LEVELS))]
    if blocks and rng.random() < 0.4:
        y, x = rng.integers(margin, h), rng.integers(margin, w)
        out[y:y + 2, x:x + 2] = LEVELS[rng.integers(0, len(LEVELS))]
    return out


class Tree:
    """edges[(kind, name)]: (K, h, w); segs[name]; preds[(category, name)]"""

    def __init__(self, root, pred_root, classes):
        self.root, self.pred_root, self.classes = root, pred_root, classes
        self.names, self.edges, self.segs, self.preds = [], {}, {}, {}
        self.pred_suffix = None
        self.other = 0


def thresholds(rng):
    k = rng.integers(0, 5)
    if k == 0:
        return int(rng.choice([1, 2, 3, 5]))  # 4/5 would tie with a level up to rounding
    if k == 1:
        return float(rng.choice([0.25, 0.4, 128 / 255]))
    v = sorted(float(t) for t in rng.choice([0.05, 26 / 255, 0.2, 77 / 255, 0.4, 128 / 255, 0.6, 0.8, 0.9, 1.0],
                                            int(rng.integers(1, 5)), replace=False))
    return np.array(v) if k == 2 else v


def edge_stack(rng, hw, classes, populated, margin, most=6):
    e = np.zeros((classes,) + hw, np.uint8)
    for c in populated:
        if rng.random() < 0.85:
            e[c] = spots(rng, hw, int(rng.integers(1, most)), margin)
    return e


def sbd(rng, root, pred_root, cats, kinds, n=None, size=(16, 30), pred_suffix=".png", split="val", list_file=True, most=6):
    t = Tree(root, pred_root, 20)
    t.pred_suffix, t.margin, t.seg_base = pred_suffix, 4, 1
    n = int(rng.integers(1, 4)) if n is None else n
    for i in range(n):
        name = f"2008_{rng.integers(0, 10**6):06d}" + str(rng.choice([""] * 8 + [".v2", ".png", "_b", " c"]))
        if name in t.names:
            continue
        t.names.append(name)
        hw = int(rng.integers(*size)), int(rng.integers(*size))
        for kind in kinds:
            e = edge_stack(rng, hw, 20, [c - 1 for c in cats] + [int(c) for c in rng.integers(0, 20, 2)], t.margin, most)
            t.edges[kind, name] = e
            save(f"{root}/gtEval/{name}{SBD_SUFFIX[kind]}", refs.rgb_ref(e))
        seg = segmentation(rng, hw, [0, 21, 255] + list(range(max(0, min(cats) - 1), min(21, max(cats) + 2))))
        t.segs[name] = seg
        save(f"{root}/gtEval/{name}_labelIds.png", seg)
        make_preds(rng, t, name, cats, kinds, hw)
    if list_file:
        with open(f"{root}/{split}.txt", "w") as f:
            f.write("\n".join(t.names) + "\n")
    return t


def segmentation(rng, hw, values):
    seg = np.zeros(hw, np.uint8)
    for _ in range(int(rng.integers(2, 9))):
        y, x = rng.integers(0, hw[0]), rng.integers(0, hw[1])
        seg[y:y + int(rng.integers(2, hw[0] + 1)), x:x + int(rng.integers(2, hw[1] + 1))] = values[rng.integers(0, len(values))]
    return seg


def make_preds(rng, t, name, cats, kinds, hw):
    for c in cats:
        k = kinds[rng.integers(0, len(kinds))]
        g = t.edges[k, name][c - 1]
        if g.shape != hw:
            g = np.kron(g, np.ones((2, 2), np.uint8))[:hw[0], :hw[1]] * spots(rng, hw, 6 * hw[0])
            g = np.pad(g, ((0, hw[0] - g.shape[0]), (0, hw[1] - g.shape[1])))
        p = prediction(rng, hw, g, t.margin, 1)
        if rng.random() < 0.15:  # predicted at another resolution
            other = [max(2, int(v * f + 0.5)) for v, f in zip(hw, rng.choice([0.5, 0.6, 1.0, 1.5, 2.0], 2))]
            p, t.other = nearest(p, other), t.other + (tuple(other) != hw)
        t.preds[c, name] = p
        save(f"{t.pred_root}/class_{c:03d}/{name}{t.pred_suffix}", p)


def city(rng, root, pred_root, cats, kinds, n=None, size=(10, 26), pred_suffix="_leftImg8bit.png", split="val", list_file=True,
         most=6):
    t = Tree(root, pred_root, 19)
    t.pred_suffix, t.margin, t.seg_base = pred_suffix, 0, 0
    n = int(rng.integers(1, 4)) if n is None else n
    os.makedirs(f"{root}/gtFine/{split}", exist_ok=True)
    towns = ["bonn", "gtFine", "lindau"]
    for i in range(n):
        town = towns[rng.integers(0, 3)]
        name = f"{town}/{town}_{i:06d}_{rng.integers(0, 10**6):06d}"
        t.names.append(name)
        hw = int(rng.integers(*size)), int(rng.integers(*size))
        half = int(hw[0] * 0.5 + 0.5), int(hw[1] * 0.5 + 0.5)
        for kind in kinds:
            e = edge_stack(rng, half if kind.startswith("half") else hw, 19, [c - 1 for c in cats] + [int(c) for c in rng.integers(0, 19, 2)],
                           0, most)
            t.edges[kind, name] = e
            save(f"{root}/gtEval/{split}/{name}{CITY_SUFFIX[kind]}", refs.rgb_ref(e))
        seg = segmentation(rng, hw, [255] + list(range(max(0, min(cats) - 2), min(19, max(cats) + 1))))
        t.segs[name] = seg
        save(f"{root}/gtEval/{split}/{name}_gtFine_labelTrainIds.png", seg)
        make_preds(rng, t, name, cats, kinds, hw)
    if list_file:
        os.makedirs(f"{root}/splits", exist_ok=True)
        with open(f"{root}/splits/{split}.txt", "w") as f:
            f.write("\n".join(t.names) + "\n")
    return t


def nearest(a, size_hw):
    return np.array(Image.fromarray(np.ascontiguousarray(a)).resize((size_hw[1], size_hw[0]), Image.Resampling.NEAREST))


def scaled(a, scale):
    h, w = a.shape
    return nearest(a, (int(h * scale + 0.5), int(w * scale + 0.5)))


def inputs(t, name, cat, kind, scale, border):
    """(strength, gt, seg of the category) the protocol evaluates"""
    if kind == "otf":
        e = t.scaled_edges[cat, name]  # made at the evaluated scale
    else:
        e = scaled(t.edges[kind, name][cat - 1], scale)
    p = nearest(t.preds[cat, name], e.shape) / 255
    if border:
        b = np.zeros_like(p)
        b[5:-5, 5:-5] = p[5:-5, 5:-5]
        p = b
    s = nearest(t.segs[name], e.shape) == cat - (1 - t.seg_base)
    return p, e, s


def rounding_decides(thr, pred, other=None):
    """does the last digit of a suppressed strength (or of a threshold) decide about a pixel?"""
    return any((np.abs(pred - v) < 1e-9).any() or (other is not None and ((other >= v) != (pred >= v)).any()) for v in thr)


def counts(t, cat, thr, kind, scale=1.0, max_dist=0.02, thin=False, nms=False, kill=False, skip=False, border=False, names=None,
           stats=None):
    """per image (count_r, sum_r, count_p, sum_p) lists, or None if one of them is not decided by the definition"""
    out = []
    for name in names or t.names:
        p, e, s = inputs(t, name, cat, kind, scale, border)
        if nms:
            from pyEdgeEval.preprocess import fast_nms
            p = fast_nms(img=p, r=1, s=5, m=1.01, half_prec=False)
            if rounding_decides(thr, p):
                return None
        rows = [refs.counts_ref(p, e, v, max_dist, thin, s if kill else None, skip) for v in thr]
        if any(r is None for r in rows):
            return None
        if stats is not None:
            stats["gt"] = stats.get("gt", 0) + int(e.sum())
            stats["pred"] = stats.get("pred", 0) + int((p > 0).sum())
            stats["matched"] = stats.get("matched", 0) + sum(r[0] for r in rows)
            if kill:
                no = [refs.counts_ref(p, e, v, max_dist, thin, None, skip) for v in thr]
                stats["killed"] = stats.get("killed", 0) + sum(a != b for a, b in zip(no, rows))
        out.append(tuple(list(x) for x in zip(*rows)))
    return out


# --- comparing evaluation results ------------------------------------------

KEYS = ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP")


def check_overall(ctx, got, thr, cnts, what, tol=1e-9, **info):
    """the nine overall numbers against those of the counts"""
    m = refs.metrics_ref(thr, cnts)
    info = dict(info, thresholds=list(map(float, thr)), counts=cnts, got=[float(v) for v in got])
    ctx.require(len(got) == 9, f"{what}: {len(got)} overall numbers", **info)
    got = [float(v) for v in got]
    # several thresholds may be equally good up to rounding: the F1 is decided, and the triple must be on the curve
    ctx.close(got[3], m["ods"][3], f"{what}: ODS F1", tol=tol, **info)
    ctx.require(any(abs(got[0] - t) <= tol and abs(got[1] - r) <= tol and abs(got[2] - p) <= tol for t, r, p in
                    refs.ods_candidates(thr, m["rec"], m["prec"], m["ods"][3])),
                f"{what}: ODS threshold, recall and precision are not those of the best F1 {m['ods'][3]}", **info)
    sure = [all(v in (0.0, 1.0) for v in (m["rec"][i], m["prec"][i])) for i in range(len(thr))]
    best = [i for i in range(len(thr)) if m["f1"][i] == m["ods"][3]]
    if best and all(sure) or (best and sure[best[0]] and m["ods"][3] == 1.0):
        # no rounding involved: of equally good thresholds the first one
        ctx.see("equally good thresholds", int(len(best) > 1))
        ctx.require(abs(got[0] - thr[best[0]]) <= tol, f"{what}: ODS threshold {got[0]} is not the first best one", **info)
    ois = refs.ois_options(cnts)
    if ois is not None:
        ctx.require(any(all(abs(a - b) <= tol for a, b in zip(got[4:7], o)) for o in ois),
                    f"{what}: OIS recall, precision, F1 are {got[4:7]}", expected=ois[:4], **info)
    if not refs.auc_edge_sensitive(m["rec"]):
        ctx.close(got[7], m["auc"], f"{what}: AUC", tol=max(tol, 1e-9), **info)
    ctx.require(m["ap_lo"] - tol <= got[8] <= m["ap_hi"] + tol, f"{what}: AP {got[8]}, expected {m['ap_lo']}..{m['ap_hi']}", **info)
    return m


def rows(path):
    return [l.split() for l in open(path).read().splitlines()]


def check_files(ctx, d, names, thr, cnts, what, tol=5.1e-7, overall=True, **info):
    """the result files of one category (or of a binary evaluation)"""
    img = [[w.strip() for w in l.rsplit(None, 4)] for l in open(f"{d}/eval_bdry_img.txt").read().splitlines()]
    ctx.require([r[0] for r in img] == list(names), f"{what}: names in the per-image file", got=[r[0] for r in img], want=list(names), **info)
    for r, name, c in zip(img, names, cnts):
        ctx.require(len(r) == 5, f"{what}: per-image line {r}", **info)
        have = [float(v) for v in r[1:]]
        opts = [[thr[k], *refs.prf(*[c[j][k] for j in range(4)])] for k in refs.image_picks(c)]
        ctx.require(any(all(abs(a - b) <= tol for a, b in zip(have, o)) for o in opts),
                    f"{what}: per-image line of {name} is {have}", expected=opts, counts=c, thresholds=list(map(float, thr)), **info)
    m = refs.metrics_ref(thr, cnts)
    tr = rows(f"{d}/eval_bdry_thr.txt")
    want = np.array([thr, m["rec"], m["prec"], m["f1"]], float).T
    ctx.close(np.array(tr, float), want, f"{what}: per-threshold file", tol=tol, counts=cnts, **info)
    if overall:
        o = rows(f"{d}/eval_bdry.txt")
        ctx.require(len(o) == 1, f"{what}: {len(o)} lines in the overall file", **info)
        check_overall(ctx, [float(v) for v in o[0]], thr, cnts, what + ": overall file", tol=tol, **info)
    return m


# --- Cityscapes label and instance maps --------------------------------------

TRAIN2LABEL = {0: 7, 1: 8, 2: 11, 3: 12, 4: 13, 5: 17, 6: 19, 7: 20, 8: 21, 9: 22, 10: 23, 11: 24, 12: 25, 13: 26, 14: 27,
               15: 28, 16: 31, 17: 32, 18: 33}
LABEL2TRAIN = {v: k for k, v in TRAIN2LABEL.items()}
INST_LABELS = [24, 25, 26, 27, 28, 31, 32, 33]


def city_scene(rng, hw, labels):
    """label ids and instance ids of a small street scene"""
    lab = np.full(hw, int(labels[0]), np.uint8)
    for _ in range(int(rng.integers(2, 9))):
        y, x = rng.integers(0, hw[0]), rng.integers(0, hw[1])
        lab[y:y + int(rng.integers(2, hw[0] + 1)), x:x + int(rng.integers(2, hw[1] + 1))] = labels[rng.integers(0, len(labels))]
    return lab, instances(rng, lab)


def instances(rng, lab):
    hw = lab.shape
    inst = lab.astype(np.uint16)
    ys, xs = np.mgrid[0:hw[0], 0:hw[1]]
    for l in INST_LABELS:
        px = lab == l
        if px.any() and rng.random() < 0.85:
            k = (xs // int(rng.integers(3, 9)) + (ys // int(rng.integers(3, 9)) if rng.random() < 0.5 else 0)) % int(rng.integers(1, 5))
            inst[px] = l * 1000 + k[px] + int(rng.choice([0, 0, 9, 98, 252, 900]))
            if rng.random() < 0.25:
                inst[:, : hw[1] // 3][px[:, : hw[1] // 3]] = l  # a group without instances
    return inst


def save_scene(root, split, name, lab, inst):
    save(f"{root}/gtFine/{split}/{name}_gtFine_labelIds.png", lab)
    save(f"{root}/gtFine/{split}/{name}_gtFine_instanceIds.png", inst)


def city_labels(rng, root, pred_root, cats, n=None, size=(10, 26), split="val", pred_suffix="_leftImg8bit.png", list_file=True):
    t = Tree(root, pred_root, 19)
    t.pred_suffix, t.margin, t.seg_base, t.insts, t.labs = pred_suffix, 0, 0, {}, {}
    n = int(rng.integers(1, 3)) if n is None else n
    os.makedirs(f"{root}/gtEval/{split}", exist_ok=True)
    labels = np.array([TRAIN2LABEL[c - 1] for c in cats] * 2 + [0, 2, 3, 4] + [int(v) for v in rng.integers(0, 34, 2)])
    for i in range(n):
        name = f"bonn/bonn_{i:06d}_{rng.integers(0, 10**6):06d}"
        t.names.append(name)
        hw = int(rng.integers(*size)), int(rng.integers(*size))
        lab, inst = city_scene(rng, hw, rng.permutation(labels))
        t.labs[name], t.insts[name] = lab, inst
        save_scene(root, split, name, lab, inst)
        seg = np.full(hw, 255, np.uint8)
        for l, k in LABEL2TRAIN.items():
            seg[lab == l] = k
        t.segs[name] = seg
        for c in cats:
            g = np.zeros(hw, bool)
            t.preds[c, name] = p = prediction(rng, hw, g, 0, 1)
            save(f"{pred_root}/class_{c:03d}/{name}{pred_suffix}", p)
    if list_file:
        os.makedirs(f"{root}/splits", exist_ok=True)
        with open(f"{root}/splits/{split}.txt", "w") as f:
            f.write("\n".join(t.names) + "\n")
    return t


def label_edge(lab, inst, cat, radius):
    """(edge, sure) of the category; inst is None for the instance-insensitive one"""
    l = TRAIN2LABEL[cat - 1]
    ign = (lab == 2) | (lab == 3)
    if not (lab == l).any():
        return np.zeros(lab.shape, np.uint8), np.ones(lab.shape, bool)
    e, sure = refs.bdry_ref(lab == l, ign, radius)
    if inst is not None:
        for iid in np.unique(inst):
            if iid >= 1000 and iid // 1000 == l and l in INST_LABELS:
                e2, s2 = refs.bdry_ref(inst == iid, ign, radius)
                e, sure = e | e2, sure & s2
    return e, sure


def city_label_edges(t, cat, scale, radius, instance_sensitive):
    """fills t.edges/t.segs with the GT at the evaluated scale under the kind "otf"; -> all pixels sure"""
    ok = True
    for name in t.names:
        lab = scaled(t.labs[name], scale)
        inst = scaled(t.insts[name], scale) if instance_sensitive else None
        e, sure = label_edge(lab, inst, cat, radius)
        ok &= bool(sure.all())
        t.scaled_edges = getattr(t, "scaled_edges", {})
        t.scaled_edges[cat, name] = e
    return ok


# --- BSDS --------------------------------------------------------------------

def save_mat(path, bdrys):
    """groundTruth: (1, N) cell of structs, as in BSDS500"""
    from scipy.io import savemat
    cell = np.empty((1, len(bdrys)), object)
    for i, b in enumerate(bdrys):
        cell[0, i] = dict(Boundaries=b.astype(np.uint8), Segmentation=np.ones(b.shape, np.uint16))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    savemat(path, dict(groundTruth=cell))


def bsds(rng, root, pred_root, n=None, annotators=None, size=(8, 26), split="test", flat=False, most=6):
    t = Tree(root, pred_root, 1)
    t.gts = {}
    n = int(rng.integers(1, 4)) if n is None else n
    for i in range(n):
        name = f"{split}/" + str(rng.choice(["", "", "", "set", "tall", "e", "val"])) + f"{rng.integers(10, 10**6):0{rng.choice([1, 1, 7])}d}" + str(rng.choice(["", "", "", "", ".v2", "_test", " b", "test"]))
        if name in t.names:
            continue
        t.names.append(name)
        hw = int(rng.integers(*size)), int(rng.integers(*size))
        gts = [spots(rng, hw, int(rng.integers(0, most)))]
        for _ in range((int(rng.integers(1, 5)) if annotators is None else annotators) - 1):
            g = np.zeros(hw, bool)
            for y, x in np.argwhere(gts[0]):
                y, x = y + rng.integers(-1, 2), x + rng.integers(-1, 2)
                if rng.random() < 0.8 and 0 <= y < hw[0] and 0 <= x < hw[1]:
                    g[y, x] = True
            gts.append(g | spots(rng, hw, int(rng.integers(0, 2))))
        t.gts[name] = gts
        save_mat(f"{root}/groundTruth/{name}.mat", gts)
        p = prediction(rng, hw, gts[0])
        t.preds[name] = p
        save(f"{pred_root}/{name if not flat else name.split('/', 1)[1]}.png", p)
    return t


def bsds_counts(t, thr, max_dist, thin, nms=False):
    """counts, or None if undecided (several annotators: only when the matched pixels cannot depend on the choice of the matching)"""
    out = []
    for name in t.names:
        pred = t.preds[name] / 255
        if nms:
            from pyEdgeEval.preprocess import fast_nms
            pred = fast_nms(img=pred, r=1, s=5, m=1.01, half_prec=False)
            near = fast_nms(img=t.preds[name] * (1 / 255), r=1, s=5, m=1.01, half_prec=False)
            if rounding_decides(thr, pred, near):
                return None
        rows = []
        for v in thr:
            p = refs.predicted(pred, v, thin)
            cr = sr = 0
            union = {frozenset()}
            for g in t.gts[name]:
                k = refs.cardinality(p, g, max_dist)
                if k is None:
                    return None
                cr, sr = cr + k, sr + int(g.sum())
                _, _, near, _, dist = refs.pair_graph(p, g, max_dist)
                ss = refs.matched_sets(near, dist, 0.0101 * 6) if near.any() else {frozenset()}
                if len(ss) > 40 or len(union) > 200:
                    return None
                union = {u | s for u in union for s in ss}
            if len({len(u) for u in union}) != 1:
                return None
            rows.append((cr, sr, len(next(iter(union))), int(p.sum())))
        out.append(tuple(list(x) for x in zip(*rows)))
    return out
