"""C37: the results of the original MATLAB benchmarks, bundled with the repository, are reproduced."""
import os
import warnings

import numpy as np

from vf import trees
from vf.framework import REPO

ID = "C37"
RULE = "a distinct non-trivial evaluation is one distinct (benchmark, images, thresholds, orientation, processes) whose scores were compared with MATLAB's"
PLAN = {"quick": [("bsds", 48), ("sbd", 24), ("full", 1)], "thorough": [("bsds", 400), ("sbd", 240), ("full", 8)]}
MUST_SEE = ["MATLAB thresholds compared", "MATLAB images compared", "MATLAB overall scores compared", "MATLAB counts compared", "flipped or rotated", "subsets of thresholds",
            "subsets of images", "parallel evaluations", "returned scores compared"]
ASSUMPTIONS = ["the bundled reference results are MATLAB's", "tolerances: BSDS500 0.004, SBD 0.4% and three pixels; 0.012 or 2-3% and six pixels for flipped images (thinning depends on the orientation) and the fixed tolerance of pre-seal evaluation"]
CASE_WALL_S = 800
CASE_CPU_S = 800
BUDGET_S = {"quick": 420, "thorough": 3000}
BSDS = ["2018", "3063", "5096", "6046", "8068"]
FRAME = 5  # the evaluators ignore predictions in the frame, the MATLAB benchmark does not
SBD = ["2008_000051", "2008_000195"]


LEVELS = np.linspace(1 / 6, 1 - 1 / 6, 5)  # a strength of 85 / 255 is below the second


def turn(a, how):
    """one of the eight orientations"""
    a = a.T if how & 4 else a
    a = a[::-1] if how & 1 else a
    return np.ascontiguousarray(a[:, ::-1] if how & 2 else a)


def table(path):
    with open(path) as f:
        return np.array([[float(x) for x in line.split()] for line in f if line.strip()])


def orientation(ctx):
    how = int(ctx.rng.integers(1, 8)) if ctx.rng.random() < 0.4 else 0
    ctx.see("flipped or rotated", int(how > 0))
    return how


def near(ctx, got, want, tol, what, names=("threshold", "recall", "precision", "F"), **info):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.require(got.shape == want.shape, f"{what}: {got.shape} values, MATLAB gives {want.shape}", **info)
    tol = np.broadcast_to(tol, len(names))
    for k, n in enumerate(names):
        ctx.require(bool(abs(got[k] - want[k]) <= tol[k]), f"{what}: {n} {got[k]:.6g}, MATLAB gives {want[k]:.6g} (tolerance {tol[k]:.3g})", **info)


OVERALL = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC"]


def overall(ctx, got, path, want, tol, what, **info):
    have = [float(got[k]) for k in OVERALL]
    saved = table(path)[0]
    ctx.close(saved[:8], have, f"{what}: saved and returned scores", tol=1e-5, **info)
    ctx.see("returned scores compared")
    near(ctx, have, want[:8], tol, what, OVERALL, **info)
    ctx.see("MATLAB overall scores compared", 8)


def case_bsds(ctx, i):
    from scipy.io import loadmat
    from pyEdgeEval.evaluators import BSDS500Evaluator
    rng = ctx.rng
    ref = f"{REPO}/data/BSDS500_bench"
    root, preds, order = ref, f"{ref}/png", list(BSDS)
    how = orientation(ctx)
    mode = ["all", "images", "thresholds"][i % 3]
    if mode == "images":
        order = [BSDS[k] for k in rng.permutation(5)[:int(rng.integers(1, 5))]]
        ctx.see("subsets of images")
    elif rng.random() < 0.5:
        order = [BSDS[k] for k in rng.permutation(5)]
    if how or rng.random() < 0.3:
        d = ctx.tmp()
        root, preds = d + "/gt", d + "/pred"
        for n in order:
            m = loadmat(f"{ref}/groundTruth/{n}.mat")["groundTruth"]
            bs = [np.asarray(x[0, 0]["Boundaries"]) for x in m[0]]
            bs = [bs[k] for k in rng.permutation(len(bs))]
            trees.save_mat(f"{root}/groundTruth/{n}.mat", [turn(b, how) for b in bs])
            trees.save(f"{preds}/{n}.png", turn(np.array(trees.Image.open(f"{ref}/png/{n}.png")), how))
    matlab_thr = table(f"{ref}/test_2/eval_bdry_thr.txt")
    matlab_img = table(f"{ref}/test_2/eval_bdry_img.txt")
    pick, spec = list(range(5)), [5, list(LEVELS), LEVELS][int(rng.integers(0, 3))]
    if mode == "thresholds":
        pick = sorted(int(k) for k in rng.permutation(5)[:int(rng.integers(1, 5))])
        spec = [float(LEVELS[k]) for k in pick]
        ctx.see("subsets of thresholds")
    nproc = int(rng.choice([1, 1, 2, 4, 8]))
    tol = 0.004 if not how else 0.012
    info = dict(images=order, nproc=nproc, orientation=how)
    out = ctx.tmp() + "/out"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev = BSDS500Evaluator(dataset_root=root, pred_root=preds)
        ev.set_sample_names(sample_names=order)
        ev.set_eval_params(apply_thinning=True)
        got = ev.evaluate(thresholds=spec, nproc=nproc, save_dir=out)
    ctx.see("parallel evaluations", int(nproc > 1))
    if mode != "images":
        rows = table(f"{out}/eval_bdry_thr.txt")
        ctx.require(len(rows) == len(pick), f"{len(rows)} threshold rows instead of {len(pick)}", **info)
        for r, k in zip(rows, pick):
            near(ctx, r, matlab_thr[k], tol, f"BSDS500 threshold {k + 1}/6", **info)
            ctx.see("MATLAB thresholds compared")
    if mode != "thresholds":
        lines = trees.rows(f"{out}/eval_bdry_img.txt")
        ctx.require(len(lines) == len(order), f"{len(lines)} image rows instead of {len(order)}", **info)
        for n, line in zip(order, lines):
            ctx.equal(os.path.basename(str(line[0])), n, "image of the row", **info)
            # thinning depends on the orientation, and so may which threshold is best
            near(ctx, [float(x) for x in line[1:]], matlab_img[BSDS.index(n)][1:], tol if not how else [1, 1, 1, tol], f"BSDS500 image {n}", **info)
            ctx.see("MATLAB images compared")
    if mode == "all":
        overall(ctx, got, f"{out}/eval_bdry.txt", table(f"{ref}/test_2/eval_bdry.txt")[0], tol, "BSDS500", **info)
    ctx.sig("bsds", mode, how, order, repr(spec), nproc)
    ctx.sample(benchmark="BSDS500", images=len(order), compared=mode, processes=nproc, orientation=how)


def sbd_tree(ctx, d, names, how):
    from scipy.io import loadmat
    ref = f"{REPO}/data/SBD_bench"
    for n in names:
        m = loadmat(f"{ref}/datadir/cls/{n}.mat")["GTcls"][0, 0]
        seg = np.asarray(m["Segmentation"])
        bits = np.zeros(seg.shape, np.int64)
        for k in range(20):
            b = m["Boundaries"][k, 0]
            bits |= np.asarray(b.todense() if hasattr(b, "todense") else b).astype(np.int64) << k
        bits, seg = turn(np.pad(bits, FRAME), how), turn(np.pad(seg, FRAME), how)
        pred = turn(np.pad(np.array(trees.Image.open(f"{ref}/indir/class_015/{n}.bmp")), FRAME), how)
        trees.save(f"{d}/gt/gtEval/{n}_thin_edge.png", np.stack([bits >> 16 & 255, bits >> 8 & 255, bits & 255], -1).astype(np.uint8))
        trees.save(f"{d}/gt/gtEval/{n}_labelIds.png", seg)
        trees.save(f"{d}/pred/class_015/{n}.bmp", pred)
    # the tolerance is a share of the diagonal of the unpadded image
    h, w = np.array(pred.shape) - 2 * FRAME
    return float(0.02 * np.hypot(h, w) / np.hypot(*pred.shape))


MODES = {"post-seal": dict(eval_mode="post-seal"), "custom": dict(eval_mode=None, kill_internal=True, skip_if_nonexistent=True), "pre-seal": dict(eval_mode="pre-seal")}


def sbd_run(ctx, names, how, spec, nproc, mode):
    from pyEdgeEval.evaluators import SBDEvaluator
    d = ctx.tmp()
    md = sbd_tree(ctx, d, names, how)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev = SBDEvaluator(d + "/gt", d + "/pred", thin=True, pred_suffix=".bmp")
        ev.set_sample_names(sample_names=list(names))
        ev.set_eval_params(apply_thinning=True, instance_sensitive=False, max_dist=md, **MODES[mode])
        got = ev.evaluate_category(category=15, thresholds=spec, nproc=nproc, save_dir=d + "/out")
    ctx.see("parallel evaluations", int(nproc > 1))
    return got, f"{d}/out/class_015"


def ratio(a, b):
    return a / b if b else 0.0


def case_sbd(ctx, i):
    rng = ctx.rng
    ref = f"{REPO}/data/SBD_bench/outdir"
    how = orientation(ctx)
    mode = str(rng.choice(list(MODES)))
    # the tolerance of pre-seal evaluation is fixed, and a little larger for the padded images
    base, few = [(0.004, 3), (0.03, 6)][mode == "pre-seal"] if not how else (0.02, 6)
    pick = sorted(int(k) for k in rng.choice(np.concatenate([np.arange(3, 99, 3), np.arange(40, 70), np.arange(99)]), int(rng.integers(1, 5)), replace=False))
    pick = sorted(set(pick))
    spec = [(k + 1) / 100 for k in pick]
    names = list(SBD) if i % 2 else [SBD[i // 2 % 2]]
    if rng.random() < 0.5:
        names = names[::-1]
    nproc = int(rng.choice([1, 2, 4]))
    info = dict(images=names, nproc=nproc, orientation=how, mode=mode)
    got, out = sbd_run(ctx, names, how, spec, nproc, mode)
    rows = table(f"{out}/eval_bdry_thr.txt")
    ctx.see("subsets of thresholds")
    ctx.see("subsets of images", int(len(names) == 1))
    counts = [table(f"{ref}/{n}_ev1.txt") for n in names]
    ctx.require(len(rows) == len(pick), f"{len(rows)} threshold rows instead of {len(pick)}", **info)
    for r, k in zip(rows, pick):
        cr, sr, cp, sp = (sum(c[k][j] for c in counts) for j in (1, 2, 3, 4))
        rec, prec = ratio(cr, sr), ratio(cp, sp)
        want = np.array([(k + 1) / 100, rec, prec, ratio(2 * rec * prec, rec + prec)])
        tol = base * want + few / np.array([1e9, sr, max(1, sp), (sr + sp) / 2])
        near(ctx, r, want, tol, f"SBD threshold {k + 1}/100", **info)
        ctx.see("MATLAB counts compared", len(names))
        ctx.see("MATLAB thresholds compared")
    ctx.sig("sbd", mode, how, names, pick, nproc)
    ctx.sample(benchmark="SBD", images=len(names), counted=len(pick), processes=nproc, orientation=how)


def case_full(ctx, i):
    """all 99 thresholds: per-image and overall results"""
    ref = f"{REPO}/data/SBD_bench/outdir"
    names = SBD if i % 2 == 0 else SBD[::-1]
    nproc = [4, 1, 8, 2][i % 4]
    info = dict(images=names, nproc=nproc)
    got, out = sbd_run(ctx, names, 0, 99, nproc, ["post-seal", "custom"][i % 2])
    rows, want = table(f"{out}/eval_bdry_thr.txt"), table(f"{ref}/eval_bdry_thr.txt")
    counts = [table(f"{ref}/{n}_ev1.txt") for n in SBD]
    ctx.equal(len(rows), 99, "threshold rows", **info)
    for k in range(99):
        sp = sum(c[k][4] for c in counts)
        near(ctx, rows[k], want[k], 0.004 * want[k] + 3 / np.array([1e9, 2133, max(1, sp), (2133 + sp) / 2]), f"SBD threshold {k + 1}/100", **info)
        ctx.see("MATLAB thresholds compared")
    lines = trees.rows(f"{out}/eval_bdry_img.txt")
    img = table(f"{ref}/eval_bdry_img.txt")
    for n, line in zip(names, lines):
        ctx.equal(str(line[0]), n, "image of the row", **info)
        have, k = [float(x) for x in line[1:]], round(float(line[1]) * 100) - 1
        at = counts[SBD.index(n)][k]
        # the best threshold may be another one of nearly the same F
        near(ctx, have[3:], img[SBD.index(n)][4:], 0.004, f"SBD image {n}", ["F"], **info)
        near(ctx, have[:3], [at[0], at[1] / at[2], at[3] / at[4]], 0.006, f"SBD image {n} at its best threshold", ["threshold", "recall", "precision"], **info)
        ctx.see("MATLAB images compared")
    overall(ctx, got, f"{out}/eval_bdry.txt", table(f"{ref}/eval_bdry.txt")[0], [0.025, 0.05, 0.05, 0.003, 0.01, 0.01, 0.004, 0.003], "SBD", **info)
    ctx.sig("full", names, nproc)
    ctx.sample(benchmark="SBD", images=2, compared="all 99 thresholds", processes=nproc)
