"""C23: the SBD conversion."""
import os
import runpy
import sys
import warnings

import numpy as np
from PIL import Image

from vf import gens, refs

ID = "C23"
RULE = "a distinct non-trivial evaluation is one distinct annotation with at least one boundary pixel, converted and compared pixel by pixel"
PLAN = {"quick": [("routine", 320), ("loaders", 320), ("script", 96), ("bundled", 2)],
        "thorough": [("routine", 1500), ("loaders", 1500), ("script", 300), ("bundled", 2)]}
MUST_SEE = ["edge pixels", "instance-only edge pixels", "single-instance annotations", "single-class annotations", "annotations without classes",
            "annotations with ten or more instances of a class", "annotations with several interleaved classes", "thin conversions", "framed pixels", "both loaders", "reanno files", "re-annotated lists of one sample", "script runs", "parallel script runs", "bundled annotations",
            "images smaller than the frame", "annotations with more than 100 instances of a class", "scripts over ten or more annotations"]
ASSUMPTIONS = ["annotations as written by scipy in the SBD .mat layout", "instances of a class lie in the class's segmentation or off it by at most a few pixels"]
CASE_WALL_S = 300


def annotation(rng, small_ok=True):
    """cls segmentation, instance segmentation, instance categories, present categories"""
    lo = 3 if small_ok and rng.random() < 0.1 else 11
    hw = gens.sometimes_big(rng, (int(rng.integers(lo, 34)), int(rng.integers(lo, 34))), 0.04 if small_ok else 0, 60, 130)
    cls = np.zeros(hw, np.uint8)
    inst = np.zeros(hw, np.uint8)
    k = int(rng.choice([0, 1, 1, 2, 3, 4, 6, 9]))
    pool = rng.permutation(np.arange(1, 21))[:max(1, int(rng.choice([1, 1, 2, 3, 3, 6])))]
    cats = [int(rng.choice(pool)) for _ in range(k)]
    if small_ok and rng.random() < 0.12:
        # a crowd: many small instances of few classes next to each other
        hw = int(rng.integers(24, 34)), int(rng.integers(30, 44))
        if rng.random() < 0.2:
            hw = int(rng.integers(70, 90)), int(rng.integers(90, 110))
        cls, inst = np.zeros(hw, np.uint8), np.zeros(hw, np.uint8)
        step = int(rng.integers(3, 6))
        cells = [(y, x) for y in range(4, hw[0] - 4, step + 3) for x in range(4, hw[1] - 4, step)][:250 if rng.random() < 0.6 else 420]
        if len(cells) > 255:
            inst = inst.astype(np.uint16)
        cats = [int(rng.choice(pool[:2])) for _ in cells]
        for i, (y, x) in enumerate(cells):
            cls[y:y + step + 3, x:x + step], inst[y:y + step + 3, x:x + step] = cats[i], i + 1
        return cls, inst, cats, sorted(set(cats))
    for i, c in enumerate(cats):
        reg = gens.blobs(rng, hw, 1)
        if rng.random() < 0.5:
            y, x = rng.integers(0, hw[0]), rng.integers(0, hw[1])
            reg = np.zeros(hw, bool)
            reg[y:y + int(rng.integers(3, 16)), x:x + int(rng.integers(3, 16))] = True
        cls[reg] = c
        inst[reg] = i + 1
    if rng.random() < 0.2:
        inst = np.roll(inst, 1, axis=1)
    return cls, inst, cats, sorted(set(cats))


def sparse_cell(maps):
    from scipy.sparse import csc_matrix
    cell = np.empty((len(maps), 1), object)
    for i, b in enumerate(maps):
        cell[i, 0] = csc_matrix(b.astype(np.uint8))
    return cell


def column(v):
    return np.array(v, np.uint8).reshape(-1, 1) if len(v) else np.zeros((0, 0))


def write(rng, cls_path, inst_path, cls, inst, cats, present, cls_bdry=None, inst_bdry=None):
    from scipy.io import savemat
    hw = cls.shape
    if cls_bdry is None:
        cls_bdry = [rng.random(hw) < 0.05 for _ in range(20)]
    if inst_bdry is None:
        inst_bdry = [rng.random(hw) < 0.05 for _ in cats]
    for p in (cls_path, inst_path):
        os.makedirs(os.path.dirname(p), exist_ok=True)
    savemat(cls_path, dict(GTcls=dict(Boundaries=sparse_cell(cls_bdry), Segmentation=cls, CategoriesPresent=column(present))))
    savemat(inst_path, dict(GTinst=dict(Segmentation=inst, Boundaries=sparse_cell(inst_bdry), Categories=column(cats))))
    return np.array(cls_bdry, np.uint8).reshape((20,) + hw), np.array(inst_bdry, np.uint8).reshape((-1,) + hw)


def framed(cls):
    out = cls.copy()
    h, w = cls.shape
    keep = np.zeros(cls.shape, bool)
    if h > 10 and w > 10:
        keep[5:h - 5, 5:w - 5] = True
    out[~keep] = 21
    return out


def inst_ids(inst, cats, present):
    out = np.zeros(inst.shape, np.int64)
    seen = {}
    for i, c in enumerate(cats):
        if c not in present:
            continue
        out[inst == i + 1] = c * 1000 + seen.get(c, 0)
        seen[c] = seen.get(c, 0) + 1
    return out


def expected(cls, inst, cats, present, radius, thin):
    """-> (plain edges, instance edges, both with their sure masks), classes 1..20"""
    f = framed(cls)
    one = np.stack([f == k for k in range(22)]).astype(np.uint8)
    e, s = refs.edges_ref(one, [21], radius, thin=thin)
    ids = inst_ids(inst, cats, present)
    ie, isu = refs.edges_ref(one, [21], radius, ids, list(range(1, 21)), thin=thin)
    return f, ids, e[1:21], s[1:21], ie[1:21], isu[1:21]


def same(ctx, got, want, sure, what, **info):
    ctx.require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}", **info)
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{what}: {int(bad.sum())} pixels differ, first at (class-1, y, x) "
                f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", **info)


def read_rgb(path):
    a = np.array(Image.open(path))
    bits = a[..., 2].astype(np.int64) | (a[..., 1].astype(np.int64) << 8) | (a[..., 0].astype(np.int64) << 16)
    return np.stack([(bits >> k) & 1 for k in range(20)]).astype(np.uint8), int((bits >> 20).max())


def check_edges(ctx, path, want, sure, what, **info):
    ctx.require(os.path.exists(path), f"{what}: {os.path.basename(path)} was not written", dir=os.listdir(os.path.dirname(path))[:20], **info)
    got, rest = read_rgb(path)
    ctx.require(rest == 0, f"{what}: classes beyond the 20th", **info)
    same(ctx, got, want, sure, what, **info)
    ctx.see("edge pixels", int(got.sum()))


def check_segs(ctx, d, name, lab, train, ins, f, ids, **info):
    ctx.equal(np.array(Image.open(f"{d}/{name}{lab}")), f, "saved segmentation", **info)
    want = np.where((f >= 1) & (f <= 20), f.astype(int) - 1, 255)
    ctx.equal(np.array(Image.open(f"{d}/{name}{train}")), want, "saved train ids", **info)
    ctx.equal(np.array(Image.open(f"{d}/{name}{ins}")).astype(np.int64), ids, "saved instance ids", **info)
    ctx.see("framed pixels", int((f == 21).sum()))


def note(ctx, cls, cats, present, e, ie, r, thin):
    ctx.see("instance-only edge pixels", int((ie & ~e & 1).sum()))
    ctx.see("single-instance annotations", int(len(cats) == 1))
    ctx.see("single-class annotations", int(len(present) == 1))
    ctx.see("annotations without classes", int(not present))
    ctx.see("thin conversions", int(thin))
    ctx.see("annotations with ten or more instances of a class", int(max([cats.count(c) for c in present] or [0]) >= 10))
    ctx.see("annotations with more than 100 instances of a class", int(max([cats.count(c) for c in present] or [0]) > 100))
    ctx.see("annotations with several interleaved classes", int(len(present) > 3))
    ctx.see("images smaller than the frame", int(min(cls.shape) <= 10))
    if e.any():
        ctx.sig(cls.tobytes(), cls.shape, r, thin)


def names(rng, n):
    return sorted({str(rng.choice(["", "", "", "", "a.b.", "extra_"])) + f"{rng.integers(2007, 2012)}_{rng.integers(0, 10**6):06d}" + str(rng.choice(["", "", "", ".v2", "_left half"]))
                   for _ in range(n)})


def case_routine(ctx, i):
    from pyEdgeEval.helpers.convert_sbd import routine
    rng = ctx.rng
    root = ctx.tmp()
    out = os.path.join(root, str(rng.choice(["gtEval", "out", "a.b"])))
    os.makedirs(out)
    for name in names(rng, int(rng.integers(1, 4))):
        cls, inst, cats, present = annotation(rng)
        write(rng, f"{root}/cls_orig/{name}.mat", f"{root}/inst_orig/{name}.mat", cls, inst, cats, present)
        r = int(rng.choice([1, 2, 2, 3, 4]))
        thin = bool(rng.random() < 0.4)
        segs = bool(rng.random() < 0.6)
        suf = dict(edge_suffix="_e.png", isedge_suffix="_i.png", label_suffix="_l.png", train_suffix="_t.png", inst_suffix="_n.png")
        if rng.random() < 0.3:
            suf = {}
        before = set(os.listdir(out))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            routine(name, root, out, radius=r, thin=thin, save_segs=segs, **suf)
        e_s, i_s = suf.get("edge_suffix", "_edge.png"), suf.get("isedge_suffix", "_isedge.png")
        l_s, t_s, n_s = suf.get("label_suffix", "_labelIds.png"), suf.get("train_suffix", "_trainIds.png"), suf.get("inst_suffix", "_instanceIds.png")
        f, ids, e, s, ie, isu = expected(cls, inst, cats, present, 1 if thin else r, thin)
        info = dict(segmentation=cls, instances=inst, categories=cats, radius=r, thin=thin)
        new = set(os.listdir(out)) - before
        want = {name + x for x in ([e_s, i_s] + ([l_s, t_s, n_s] if segs else []))}
        ctx.require(new == want, f"wrote {sorted(new)} instead of {sorted(want)}", **info)
        check_edges(ctx, f"{out}/{name}{e_s}", e, s, "class edges", **info)
        check_edges(ctx, f"{out}/{name}{i_s}", ie, isu, "instance-sensitive edges", **info)
        if segs:
            check_segs(ctx, out, name, l_s, t_s, n_s, f, ids, **info)
        note(ctx, cls, cats, present, e, ie, r, thin)
        ctx.sample(segmentation=cls, categories=cats, radius=r, thin=thin)


def case_loaders(ctx, i):
    from pyEdgeEval.helpers.convert_sbd import convert_mat2np, load_sbd_gt_cls_mat, load_sbd_gt_inst_mat
    rng = ctx.rng
    root = ctx.tmp()
    cls, inst, cats, present = annotation(rng)
    cp, ip = f"{root}/c/x.mat", f"{root}/i/x.mat"
    cb, ib = write(rng, cp, ip, cls, inst, cats, present)
    info = dict(segmentation=cls, instances=inst, categories=cats)
    for new in (False, True):
        what = "new loader" if new else "old loader"
        for f, p, bd, seg, ct in ((load_sbd_gt_cls_mat, cp, cb, cls, present), (load_sbd_gt_inst_mat, ip, ib, inst, cats)):
            got = f(p, new)
            ctx.equal(got[0], bd, f"{what}, {f.__name__}: boundaries", **info)
            ctx.equal(got[1], seg, f"{what}, {f.__name__}: segmentation", **info)
            ctx.equal(np.ravel(got[2]).astype(int), np.array(ct, int), f"{what}, {f.__name__}: categories", **info)
    ctx.see("both loaders")
    merged = cb.copy()
    for b, c in zip(ib, cats):
        merged[c - 1] |= b
    full = rng.random((20,) + cls.shape) < 0.05
    write(rng, f"{root}/c/r.mat", f"{root}/i/r.mat", cls, inst, cats, present, cls_bdry=cb, inst_bdry=list(full))
    re_merged = cb.copy()
    for c in present:
        re_merged[c - 1] |= full[c - 1].astype(np.uint8)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from pyEdgeEval.helpers import convert_sbd as cs
        jobs = [("class edges of the annotation", cs.load_reanno_instance_insensitive_gt, (cp,), cb),
                ("re-annotated class and instance edges", cs.load_reanno_instance_sensitive_gt, (f"{root}/c/r.mat", f"{root}/i/r.mat"), re_merged)]
        for new in (False, True):
            jobs += [("class edges of the annotation", cs.load_instance_insensitive_gt, (cp, new), cb),
                     ("class and instance edges of the annotation", cs.load_instance_sensitive_gt, (cp, ip, new), merged)]
        for what, f, a, want in jobs:
            got = f(*a)
            ctx.equal(got[0], want, what, loader=f.__name__, args=a, **info)
            ctx.equal(got[1], cls, what + ": segmentation", loader=f.__name__, args=a, **info)
            ctx.equal(np.ravel(got[2]).astype(int), np.array(present, int), what + ": categories", loader=f.__name__, args=a, **info)
    ctx.see("annotated instance edges of a class with several instances", int(merged.sum() > cb.sum() and len(cats) > len(present)))
    r = int(rng.choice([1, 2, 3, 5]))
    thin = bool(rng.random() < 0.25)
    f, ids, e, s, ie, isu = expected(cls, inst, cats, present, r, thin)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for new in (False, True):
            b, seg = convert_mat2np(cp, None, r, thin, 21, new)
            same(ctx, np.asarray(b), e, s, "class edges", radius=r, thin=thin, new_loader=new, **info)
            ctx.equal(seg, f, "framed segmentation", new_loader=new, **info)
            b, seg, ii = convert_mat2np(cp, ip, r, thin, 21, new)
            same(ctx, np.asarray(b), ie, isu, "instance-sensitive edges", radius=r, thin=thin, new_loader=new, **info)
            ctx.equal(ii, ids, "instance ids", new_loader=new, **info)
            ctx.equal(seg, f, "framed segmentation", new_loader=new, **info)
    ctx.see("edge pixels", int(e.sum()))
    note(ctx, cls, cats, present, e, ie, r, thin)
    from pyEdgeEval.helpers.convert_sbd import convert_seg_label2train
    for seg in (cls, f, np.where(cls == 0, np.uint8(rng.integers(0, 22)), cls)):
        want = np.where((seg >= 1) & (seg <= 20), seg.astype(int) - 1, 255)
        ctx.equal(convert_seg_label2train(seg.copy(), {k: k - 1 for k in range(1, 21)}), want, "train ids of a segmentation", segmentation=seg)


def run_script(path, argv):
    old = sys.argv
    sys.argv = [path] + argv
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old


def case_script(ctx, i):
    """scripts/convert_datasets/sbd.py"""
    from scipy.io import savemat
    from vf.framework import REPO
    rng = ctx.rng
    root = ctx.tmp()
    out = str(rng.choice(["gtEval", "converted"]))
    nproc = int(rng.choice([1, 2, 3]))
    reanno = bool(rng.random() < 0.6)
    ann = {}
    pool = names(rng, 5 if rng.random() < 0.9 else int(rng.integers(12, 26)))
    ctx.see("scripts over ten or more annotations", int(len(pool) >= 10))
    cut = int(rng.integers(1, len(pool))) if len(pool) > 1 else 1
    splits = dict(train=pool[:cut], val=pool[cut:] or pool[:1])
    for sp, ns in splits.items():
        with open(f"{root}/{sp}.txt", "w") as f:
            f.write("".join(n + "\n" for n in ns))
        for n in ns:
            ann[n] = annotation(rng)
            write(rng, f"{root}/cls_orig/{n}.mat", f"{root}/inst_orig/{n}.mat", *ann[n])
    re_want = {}
    if reanno:
        rn = names(rng, int(rng.integers(1, 4)))
        for mode in ("raw", "thin"):
            d = f"{root}/gt_reanno_{mode}"
            for n in rn:
                cls, inst, cats, present = annotation(rng, False)
                cb, ib = write(rng, f"{d}/cls/{n}.mat", f"{d}/inst/{n}.mat", cls, inst, present, present,
                               inst_bdry=[(rng.random(cls.shape) < 0.05) & ((k + 1) in present) for k in range(20)])
                re_want[n, mode] = cb, cb | ib
            lst = np.empty((len(rn), 1), object)
            for k, n in enumerate(rn):
                lst[k, 0] = n
            savemat(f"{d}/test.mat", dict(listTest=lst))
        from pyEdgeEval.helpers.convert_sbd import load_reanno_samples
        for new in (False, True):
            ctx.require(list(load_reanno_samples(f"{d}/test.mat", new)) == rn, f"the {'new' if new else 'old'} loader reads other samples from test.mat", want=rn)
        ctx.see("re-annotated lists of one sample", int(len(rn) == 1))
    run_script(f"{REPO}/scripts/convert_datasets/sbd.py", ["--root", root, "--nproc", str(nproc)] +
               (["-o", out] if out != "gtEval" or rng.random() < 0.5 else []) + (["--reanno"] if reanno else []))
    d = f"{root}/{out}"
    want = set()
    info = dict(nproc=nproc, reanno=reanno)
    for n, (cls, inst, cats, present) in ann.items():
        for mode, r, thin in (("raw", 2, False), ("thin", 1, True)):
            f, ids, e, s, ie, isu = expected(cls, inst, cats, present, r, thin)
            check_edges(ctx, f"{d}/{n}_{mode}_edge.png", e, s, f"{mode} class edges of {n}", segmentation=cls, **info)
            check_edges(ctx, f"{d}/{n}_{mode}_isedge.png", ie, isu, f"{mode} instance-sensitive edges of {n}", segmentation=cls, **info)
            want |= {f"{n}_{mode}_edge.png", f"{n}_{mode}_isedge.png"}
            note(ctx, cls, cats, present, e, ie, r, thin)
        check_segs(ctx, d, n, "_labelIds.png", "_trainIds.png", "_instanceIds.png", f, ids, **info)
        want |= {n + "_labelIds.png", n + "_trainIds.png", n + "_instanceIds.png"}
    for (n, mode), (cb, ib) in re_want.items():
        every = np.ones(cb.shape, bool)
        check_edges(ctx, f"{d}/{n}_reanno_{mode}_edge.png", cb, every, f"re-annotated {mode} class edges of {n}", **info)
        check_edges(ctx, f"{d}/{n}_reanno_{mode}_isedge.png", ib, every, f"re-annotated {mode} instance-sensitive edges of {n}", **info)
        want |= {f"{n}_reanno_{mode}_edge.png", f"{n}_reanno_{mode}_isedge.png"}
        ctx.see("reanno files", 2)
    ctx.require(set(os.listdir(d)) == want, "other files were written", got=sorted(set(os.listdir(d)) ^ want), **info)
    if reanno:
        ctx.require(open(f"{root}/reanno_val.txt").read().split("\n") == rn + [""], "reanno_val.txt does not list the re-annotated samples",
                    got=open(f"{root}/reanno_val.txt").read(), want=rn)
    ctx.see("script runs")
    ctx.see("parallel script runs", int(nproc > 1))


def case_bundled(ctx, i):
    """the two annotations that come with the repository, read by scipy alone for the oracle"""
    from scipy.io import loadmat
    from pyEdgeEval.helpers.convert_sbd import convert_mat2np
    from vf.framework import REPO
    name = ["2008_000051", "2008_000195"][i]
    base = f"{REPO}/data/SBD_bench/datadir"
    c, n = loadmat(f"{base}/cls/{name}.mat")["GTcls"][0, 0], loadmat(f"{base}/inst/{name}.mat")["GTinst"][0, 0]
    cls, present = c["Segmentation"], [int(v) for v in np.ravel(c["CategoriesPresent"])]
    inst, cats = n["Segmentation"], [int(v) for v in np.ravel(n["Categories"])]
    # a window of it keeps the brute-force oracle affordable; the frame is added by the code, so the files are rewritten
    rng = ctx.rng
    ys, xs = np.nonzero(inst)
    k = int(rng.integers(0, len(ys)))
    y, x = max(0, ys[k] - 40), max(0, xs[k] - 40)
    cw, iw = cls[y:y + 80, x:x + 80].copy(), inst[y:y + 80, x:x + 80].copy()
    root = ctx.tmp()
    write(rng, f"{root}/c/x.mat", f"{root}/i/x.mat", cw, iw, cats, present)
    for r in (1, 2, 3):
        f, ids, e, s, ie, isu = expected(cw, iw, cats, present, r, False)
        b, seg, ii = convert_mat2np(f"{root}/c/x.mat", f"{root}/i/x.mat", r)
        same(ctx, np.asarray(b), ie, isu, f"instance-sensitive edges of {name}", radius=r, window=[int(y), int(x)])
        ctx.equal(ii, ids, "instance ids")
        ctx.sig(name, r)
    # the whole annotation goes through both loaders with the same result
    whole = [convert_mat2np(f"{base}/cls/{name}.mat", f"{base}/inst/{name}.mat", 2, False, 21, nl) for nl in (False, True)]
    for a, b in zip(*whole):
        ctx.equal(np.asarray(a), np.asarray(b), "the two loaders convert the bundled annotation differently")
    ctx.see("bundled annotations")
