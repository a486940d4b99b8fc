"""C35: scores of perfect, partial, enriched, shifted and empty predictions of converted datasets at realistic sizes."""
import os
import warnings

import numpy as np

from vf import gens, probe, refs, trees
from vf.checks import c23, c25
from vf.checks.c21 import build

ID = "C35"
RULE = "a distinct non-trivial evaluation is one distinct (dataset, category, predictions) with GT edges, every score bounded and recomputed"
PLAN = {"quick": [("full", 32), ("sbd", 200), ("city", 240), ("otf", 200), ("reanno", 100), ("bsds", 400)],
        "thorough": [("full", 300), ("sbd", 1500), ("city", 2000), ("otf", 1500), ("reanno", 600), ("bsds", 3000)]}
MUST_SEE = ["perfect predictions", "partial predictions", "graded predictions", "enriched predictions", "shifted predictions", "empty predictions",
            "mixed predictions", "GT edge pixels", "expected matches", "thresholds bounded", "scores recomputed", "false positives", "removed internal predictions",
            "half resolution", "on the fly", "re-annotated", "thinned predictions", "parallel evaluations", "images without the category", "bsds", "full-size images"]
ASSUMPTIONS = ["the native matching may miss 3% and two pixels per image and threshold", "predictions lie within the frame the SBD evaluators cut off",
               "GT edges are read from the converted files (judged by C23 and C24) or computed by the oracle (on the fly)"]
CASE_WALL_S = 600
CASE_CPU_S = 400
LEVELS = np.array([25, 40, 100, 127, 160, 220, 229, 255], np.uint8)  # some just below a threshold


def shapes(rng, hw, values, n):
    lab = np.full(hw, int(values[0]), np.uint8)
    yy, xx = np.mgrid[:hw[0], :hw[1]]
    for _ in range(n):
        y, x = rng.integers(0, hw[0]), rng.integers(0, hw[1])
        a, b = rng.integers(6, max(8, hw[0] // 2)), rng.integers(6, max(8, hw[1] // 2))
        reg = ((yy - y) / a) ** 2 + ((xx - x) / b) ** 2 < 1 if rng.random() < 0.5 else (abs(yy - y) < a) & (abs(xx - x) < b)
        lab[reg] = values[rng.integers(0, len(values))]
    return lab


def predict(rng, e, tol, how, lo):
    """(uint8 strengths, mask of the pixels that can be matched, all at once) for the GT edges e; others lie out of reach"""
    p = np.zeros(e.shape, np.uint8)
    ok = e.copy()
    if how == "empty":
        return p, ok
    if how == "shifted":
        dy, dx = [(0, 1), (1, 0), (0, -1), (-1, 0)][int(rng.integers(0, 4))]
        m = np.zeros_like(e)
        h, w = e.shape
        m[max(dy, 0):h + min(dy, 0), max(dx, 0):w + min(dx, 0)] = e[max(-dy, 0):h + min(-dy, 0), max(-dx, 0):w + min(-dx, 0)]
        p[m] = 255
        return p, m
    if how == "perfect":
        p[e] = 255
    elif how == "partial":
        p[e & (rng.random(e.shape) < rng.choice([0.1, 0.5, 0.9]))] = 255
    else:
        p[e] = LEVELS[rng.integers(0, 8, int(e.sum()))]
    if how in ("enriched", "mixed"):
        far = refs.dist_to(e) > tol + 1.5 if e.any() else np.ones(e.shape, bool)
        far &= rng.random(e.shape) < rng.choice([0.02, 0.2] if e.size < 10**5 else [0.001, 0.01])
        p[far] = LEVELS[rng.integers(0, 8, int(far.sum()))]
    return p, ok


def judge(ctx, what, thr, images, md, thin, kill, skip, got, out, calls, names):
    """images: [(strengths as evaluated, [gt edges], segment or None, matchable mask)]"""
    info = dict(max_dist=md, thinning=thin, kill_internal=kill, skip_if_nonexistent=skip, all_thresholds=list(map(float, thr)))
    rows, want_calls = [], []
    for p, gts, s, ok in images:
        e = gts[0] != 0
        r = []
        for v in thr:
            q = refs.predicted(p, v, thin)
            ctx.see("thinned predictions", int(thin and q.sum() < (p >= v).sum()))
            if not e.any():
                r.append((0, 0, 0, 0 if skip else int(q.sum())))
                continue
            if kill:
                k, sure = refs.killed(q, e, s, md)
                if not sure[q & (s != 0)].all():
                    return ctx.see("undecided")
                ctx.see("removed internal predictions", int((q & ~k).sum()))
                q = k
            n = int((q & ok).sum())
            ctx.see("false positives", int((q & ~ok).sum()))
            ctx.see("expected matches", n)
            r.append((n * len(gts), int(e.sum()) * len(gts), n, int(q.sum())))
            for g in gts:
                if q.any():
                    want_calls.append((q, g != 0))
        rows.append(r)
    ctx.see("GT edge pixels", sum(int((g[0] != 0).sum()) for _, g, _, _ in images))
    # what must have been found, up to what the native matching may miss
    miss = [[0.03 * c[2] + 2 if c[2] else 0 for c in r] for r in rows]
    d = out
    tr = np.array(trees.rows(f"{d}/eval_bdry_thr.txt"), float)
    ctx.require(tr.shape == (len(thr), 4), f"{what}: per-threshold file of shape {tr.shape}", **info)
    for k, v in enumerate(thr):
        cr, sr, cp, sp = (sum(r[k][j] for r in rows) for j in range(4))
        loss = sum(m[k] for m in miss)
        n_ann = max(1, len(images[0][1]))
        rec, prec = (cr / sr if sr else 0), (cp / sp if sp else 0)
        lo_r, lo_p = (max(0, cr - loss * n_ann) / sr if sr else 0), (max(0, cp - loss) / sp if sp else 0)
        have = tr[k]
        ctx.require(lo_r - 1e-6 <= have[1] <= rec + 1e-6, f"{what}: recall {have[1]} at {v}, expected {rec} (at least {lo_r})", **info)
        ctx.require(lo_p - 1e-6 <= have[2] <= prec + 1e-6, f"{what}: precision {have[2]} at {v}, expected {prec} (at least {lo_p})", **info)
        ctx.see("thresholds bounded")
    o = np.array(trees.rows(f"{d}/eval_bdry.txt")[0], float)
    ctx.close(o, [got[k] for k in trees.KEYS], f"{what}: returned and saved scores", tol=1e-6, **info)
    if calls is None:
        return
    # with the matchings seen at the native call, every number is determined
    used = set()
    cnts = []
    it = [c for c in calls if (c["a"] != 0).any() and (c["b"] != 0).any()]
    keyed = {}
    for c in it:
        keyed.setdefault(((c["a"] != 0).tobytes(), (c["b"] != 0).tobytes(), c["a"].shape), []).append(c)
    for (p, gts, s, ok), r in zip(images, rows):
        cols = []
        for k, v in enumerate(thr):
            q = refs.predicted(p, v, thin)
            if kill and (gts[0] != 0).any():
                q, _ = refs.killed(q, gts[0] != 0, s, md)
            cr = cp = 0
            if q.any() and (gts[0] != 0).any():
                union = np.zeros(q.shape, bool)
                for g in gts:
                    key = q.tobytes(), (g != 0).tobytes(), q.shape
                    ctx.require(key in keyed, f"{what}: a prediction was not matched with its GT at threshold {v}", predicted=int(q.sum()), **info)
                    used.add(key)
                    cs = keyed[key]
                    ctx.close(cs[0]["max_dist"], md, f"{what}: tolerance", **info)
                    if any(not np.array_equal(c["m1"] != 0, cs[0]["m1"] != 0) for c in cs[1:]):
                        return ctx.see("equal inputs matched differently")
                    union |= cs[0]["m1"] != 0
                    cr += int((cs[0]["m2"] != 0).sum())
                cp = int(union.sum())
            cols.append((cr, r[k][1], cp, r[k][3]))
        cnts.append(tuple(list(x) for x in zip(*cols)))
    ctx.require(set(keyed) == used, f"{what}: something else was matched", **info)
    trees.check_overall(ctx, [got[k] for k in trees.KEYS], thr, cnts, what, **info)
    trees.check_files(ctx, d, names, thr, cnts, what, **info)
    ctx.see("scores recomputed")


HOW = ["perfect", "perfect", "partial", "graded", "enriched", "shifted", "empty", "mixed"]


def thresholds(rng):
    return [[0.5], [0.1, 0.5, 0.9], 3, 5, [0.99], 9][int(rng.integers(0, 6))]


def judged(ctx, ev, what, names, cat, edges, segs, root, d, kw, border, suffix):
    """writes predictions for the GT edges {name: map at the evaluated resolution}, evaluates the category and judges the result"""
    rng = ctx.rng
    how = HOW[int(rng.integers(0, len(HOW)))]
    thr_spec = thresholds(rng) if all(edges[n].size < 10**5 for n in names) else [0.3, 0.7]
    thr = refs.thresholds_ref(thr_spec)
    images = []
    for n in names:
        e = edges[n] != 0
        tol = refs.tolerance(e.shape, kw["max_dist"])
        mine = how if how != "mixed" else ["graded", "enriched", "empty", "perfect"][int(rng.integers(0, 4))]
        if mine == "shifted" and tol < 1.05:
            mine = "perfect"
        p, ok = predict(rng, e, tol, mine, 0)
        ctx.see("images without the category", int(not e.any()))
        trees.save(f"{d}/pred/class_{cat:03d}/{n}{suffix}", p)
        x = p / 255
        if border:
            b = np.zeros_like(x)
            b[5:-5, 5:-5] = x[5:-5, 5:-5]
            x = b
        images.append((x, [e], segs[n] if segs else None, ok))
    nproc = 2 if rng.random() < 0.15 else 1
    out = f"{d}/out"
    with warnings.catch_warnings(), probe.correspondences() as calls:
        warnings.simplefilter("ignore")
        got = ev.evaluate_category(category=cat, thresholds=thr_spec, nproc=nproc, save_dir=out)
    ctx.see(f"{how} predictions")
    ctx.see("parallel evaluations", int(nproc > 1))
    judge(ctx, f"{what}, category {cat}, {how} predictions", thr, images, kw["max_dist"], kw["apply_thinning"], kw["kill_internal"], kw["skip_if_nonexistent"],
          got, f"{out}/class_{cat:03d}", calls if nproc == 1 else None, names)
    if any((e != 0).any() for e in edges.values()):
        ctx.sig(what, cat, how, repr(kw), [int((e != 0).sum()) for e in edges.values()])
        ctx.sample(dataset=what, category=cat, predictions=how, ods=float(got["ODS_f1"]), pixels=sum(int((e != 0).sum()) for e in edges.values()))


def params(rng, IS, scale=1.0, size=None):
    return dict(scale=scale, max_dist=float(rng.choice([0.0075, 0.02, 0.03])) if size is None or size[1] < 1000 else 0.0035, instance_sensitive=IS, apply_thinning=bool(rng.random() < 0.35),
                apply_nms=False, kill_internal=bool(rng.random() < 0.4), skip_if_nonexistent=bool(rng.random() < 0.3))


def configure(ev, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev.set_eval_params(eval_mode=None, **kw)


def sbd_annotation(rng, cats, hw=None):
    if hw is None:
        hw = int(rng.integers(30, 110)), int(rng.integers(30, 110))
    cls = shapes(rng, hw, [0] + list(cats), int(rng.integers(1, 7)) if hw[0] < 300 else int(rng.integers(6, 20)))
    inst = np.zeros(hw, np.uint8)
    mine = []
    for c in sorted(set(np.unique(cls)) - {0}):
        xs = np.arange(hw[1])[None].repeat(hw[0], 0) // int(rng.integers(8, 40))
        for k in np.unique(xs[cls == c])[:5]:
            mine.append(int(c))
            inst[(cls == c) & (xs == k)] = len(mine)
    return cls, inst, mine, sorted(set(mine))


def case_full(ctx, i):
    """images of the datasets' own sizes (Cityscapes: at half of it)"""
    ctx.see("full-size images")
    which = [0, 1, 2, 0, 3, 2, 0, 2][i % 8]
    if which == 0:
        case_sbd(ctx, i, [(375, 500), (500, 333)][i // 3 % 2])
    elif which == 1:
        case_city(ctx, i, [(512, 1024), (384, 1000)][i // 3 % 2])
    elif which == 2:
        case_bsds(ctx, i, [(321, 481), (481, 321)][i // 3 % 2])
    else:
        case_city(ctx, i, (512, 1024))


def case_sbd(ctx, i, size=None):
    from vf.framework import REPO
    rng = ctx.rng
    d = ctx.tmp()
    root = d + "/sbd"
    cats = [int(c) for c in rng.choice(np.arange(1, 21), 3, replace=False)]
    names = c23.names(rng, int(rng.integers(1, 4)) if size is None else 1)
    for n in names:
        c23.write(rng, f"{root}/cls_orig/{n}.mat", f"{root}/inst_orig/{n}.mat", *sbd_annotation(rng, cats, size))
    for s in ("train", "val"):
        with open(f"{root}/{s}.txt", "w") as f:
            f.write("".join(n + "\n" for n in (names if s == "val" else names[:1])))
    c23.run_script(f"{REPO}/scripts/convert_datasets/sbd.py", ["--root", root, "--nproc", str(int(rng.choice([1, 1, 2])))])
    for _ in range(3):
        thin, IS = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        kw = params(rng, IS, float(rng.choice([1.0, 1.0, 0.5])))
        ev = build("sbd", root, d + "/pred", thin=thin)
        configure(ev, kw)
        cat = int(rng.choice(cats))
        edges, segs = {}, {}
        for n in names:
            e = c23.read_rgb(f"{root}/gtEval/{n}_{'thin' if thin else 'raw'}_{'isedge' if IS else 'edge'}.png")[0][cat - 1]
            edges[n] = trees.scaled(e, kw["scale"])
            segs[n] = trees.scaled(np.array(trees.Image.open(f"{root}/gtEval/{n}_labelIds.png")), kw["scale"]) == cat
        judged(ctx, ev, f"sbd {'thin' if thin else 'raw'}", list(ev.sample_names), cat, edges, segs, root, d, kw, True, ".png")


def case_reanno(ctx, i):
    from scipy.io import savemat
    from vf.framework import REPO
    rng = ctx.rng
    d = ctx.tmp()
    root = d + "/sbd"
    cats = [int(c) for c in rng.choice(np.arange(1, 21), 3, replace=False)]
    names = c23.names(rng, int(rng.integers(1, 4)))
    for s in ("train", "val"):
        os.makedirs(root, exist_ok=True)
        with open(f"{root}/{s}.txt", "w") as f:
            f.write("".join(n + "\n" for n in names))
    ann = {n: sbd_annotation(rng, cats) for n in names}
    for n in names:
        cls, inst, mine, present = ann[n]
        c23.write(rng, f"{root}/cls_orig/{n}.mat", f"{root}/inst_orig/{n}.mat", cls, inst, mine, present)
        for mode, r in (("raw", 2), ("thin", 1)):
            zero = np.zeros(cls.shape, bool)
            cb = [refs.bdry_ref(cls == k, zero, r)[0] != 0 if k in present else zero for k in range(1, 21)]
            ib = [b & (rng.random(b.shape) < 0.5) | (refs.bdry_ref(inst == 1, zero, r)[0] != 0 if mine and k + 1 == mine[0] else zero) for k, b in enumerate(cb)]
            c23.write(rng, f"{root}/gt_reanno_{mode}/cls/{n}.mat", f"{root}/gt_reanno_{mode}/inst/{n}.mat", cls, inst, present, present, cls_bdry=cb, inst_bdry=ib)
    for mode in ("raw", "thin"):
        lst = np.empty((len(names), 1), object)
        lst[:, 0] = names
        savemat(f"{root}/gt_reanno_{mode}/test.mat", dict(listTest=lst))
    c23.run_script(f"{REPO}/scripts/convert_datasets/sbd.py", ["--root", root, "--nproc", "1", "--reanno"])
    for _ in range(2):
        thin, IS = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        kw = params(rng, IS)
        ev = build("reanno", root, d + "/pred", thin=thin)
        configure(ev, kw)
        kw["kill_internal"] = kw["skip_if_nonexistent"] = False
        ev.set_sample_names(split_file=f"{root}/reanno_val.txt")
        ctx.require(list(ev.sample_names) == names, "reanno_val.txt lists other samples", want=names, got=list(ev.sample_names))
        cat = int(rng.choice(cats))
        edges = {n: c23.read_rgb(f"{root}/gtEval/{n}_reanno_{'thin' if thin else 'raw'}_{'isedge' if IS else 'edge'}.png")[0][cat - 1] for n in names}
        segs = {n: np.array(trees.Image.open(f"{root}/gtEval/{n}_labelIds.png")) == cat for n in names}
        ctx.see("re-annotated")
        judged(ctx, ev, f"reanno {'thin' if thin else 'raw'}", list(ev.sample_names), cat, edges, segs, root, d, kw, True, ".png")


def city_tree(ctx, d, size=None):
    rng = ctx.rng
    t = c25.make(rng, d + "/gt", d + "/pred", int(rng.integers(1, 4)) if size is None else 1, (40, 110) if size is None else size)
    cats, present = c25.some_cats(rng, t, 1)
    return t, cats


def case_city(ctx, i, size=None):
    from vf.framework import REPO
    rng = ctx.rng
    d = ctx.tmp()
    t, cats = city_tree(ctx, d, size)
    root = d + "/gt"
    IS = bool(rng.random() < 0.5)
    c23.run_script(f"{REPO}/scripts/convert_datasets/cityscapes.py", ["--root", root, "--nproc", "1"] + ([] if IS else ["--nonIS"]))
    for _ in range(3 if size is None else 2):
        half, thin = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
        kw = params(rng, IS, 1.0 if half else float(rng.choice([1.0, 1.0, 0.5])), size)
        ev = build("half" if half else "city", root, d + "/pred", thin=thin)
        configure(ev, kw)
        cat = int(rng.choice(cats))
        edges, segs = {}, {}
        for n in t.names:
            kind = ("half_" if half else "") + ("thin_" if thin else "raw_") + ("isedge" if IS else "edge")
            a = np.array(trees.Image.open(f"{root}/gtEval/val/{n}_gtProc_{kind}.png")).astype(np.int64)
            bits = a[..., 2] | (a[..., 1] << 8) | (a[..., 0] << 16)
            edges[n] = trees.scaled(((bits >> (cat - 1)) & 1).astype(np.uint8), kw["scale"])
            seg = np.array(trees.Image.open(f"{root}/gtEval/val/{n}_gtFine_labelTrainIds.png"))
            segs[n] = trees.nearest(seg, edges[n].shape) == cat - 1
        ctx.see("half resolution", int(half))
        judged(ctx, ev, f"city {kind}", list(ev.sample_names), cat, edges, segs, root, d, kw, False, "_leftImg8bit.png")


def case_otf(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    t, cats = city_tree(ctx, d)
    root = d + "/gt"
    os.makedirs(root + "/gtEval/val")
    os.makedirs(root + "/splits")
    for n in t.names:
        seg = np.full(t.labs[n].shape, 255, np.uint8)
        for l, k in trees.LABEL2TRAIN.items():
            seg[t.labs[n] == l] = k
        trees.save(f"{root}/gtEval/val/{n}_gtFine_labelTrainIds.png", seg)
        t.segs[n] = seg
    with open(root + "/splits/val.txt", "w") as f:
        f.write("".join(n + "\n" for n in t.names))
    for _ in range(2):
        thin, IS = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
        kw = params(rng, IS, float(rng.choice([1.0, 1.0, 0.5])))
        ev = build("otf", root, d + "/pred", thin=thin)
        configure(ev, kw)
        cat = int(rng.choice(cats))
        if not trees.city_label_edges(t, cat, kw["scale"], 1 if thin else 2, IS):
            ctx.see("undecided")
            continue
        edges = {n: t.scaled_edges[cat, n] for n in t.names}
        segs = {n: trees.nearest(t.segs[n], edges[n].shape) == cat - 1 for n in t.names}
        ctx.see("on the fly")
        judged(ctx, ev, "on the fly", list(ev.sample_names), cat, edges, segs, root, d, kw, False, "_leftImg8bit.png")


def case_bsds(ctx, i, size=None):
    rng = ctx.rng
    d = ctx.tmp()
    split = str(rng.choice(["test", "val"]))
    names = [f"{split}/{v}" for v in sorted({int(v) for v in rng.integers(1000, 400000, int(rng.integers(1, 4)) if size is None else 1)})]
    how = HOW[int(rng.integers(0, len(HOW)))]
    md, thin = float(rng.choice([0.0075, 0.02])), bool(rng.random() < 0.4)
    spec = thresholds(rng)
    thr = refs.thresholds_ref(spec)
    images = []
    k = int(rng.integers(1, 5))
    for n in names:
        hw = size or (int(rng.integers(40, 160)), int(rng.integers(40, 160)))
        lab = shapes(rng, hw, [0, 1, 2], int(rng.integers(2, 7)) if size is None else int(rng.integers(8, 30)))
        e = np.zeros(hw, bool)
        e[:-1] |= lab[:-1] != lab[1:]
        e[:, :-1] |= lab[:, :-1] != lab[:, 1:]
        trees.save_mat(f"{d}/gt/groundTruth/{n}.mat", [e] * k)
        tol = refs.tolerance(hw, md)
        mine = how if how != "mixed" else ["graded", "enriched", "empty", "perfect"][int(rng.integers(0, 4))]
        p, ok = predict(rng, e, tol, "perfect" if mine == "shifted" and tol < 1.05 else mine, 0)
        trees.save(f"{d}/pred/{n}.png", p)
        images.append((p / 255, [e] * k, None, ok))
    ev = build("bsds", d + "/gt", d + "/pred", split=split)
    with warnings.catch_warnings(), probe.correspondences() as calls:
        warnings.simplefilter("ignore")
        ev.set_eval_params(max_dist=md, apply_thinning=thin, apply_nms=False)
        ev.set_sample_names(list(names))
        nproc = 2 if rng.random() < 0.15 else 1
        got = ev.evaluate(thresholds=spec, nproc=nproc, save_dir=d + "/out")
    ctx.see(f"{how} predictions")
    ctx.see("bsds")
    ctx.see("parallel evaluations", int(nproc > 1))
    judge(ctx, f"bsds, {how} predictions, {k} equal annotators", thr, images, md, thin, False, False, got, d + "/out", calls if nproc == 1 else None,
          names)
    ctx.sig("bsds", how, names, [int(x[1][0].sum()) for x in images])
