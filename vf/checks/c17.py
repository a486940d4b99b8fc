"""C17: threshold specifications."""
import numpy as np

from vf import gens, refs
from vf.checks.c14 import funcs, tiny

ID = "C17"
RULE = "a distinct non-trivial evaluation is one threshold specification resolved, or one prediction evaluated with several thresholds and with each alone"
PLAN = {"quick": [("spec", 800), ("reject", 60), ("alone", 800), ("equal", 400)],
        "thorough": [("spec", 4000), ("reject", 500), ("alone", 6000), ("equal", 3000)]}
MUST_SEE = ["integers", "floats", "lists", "arrays", "rejected", "thresholds evaluated alone", "unsorted lists", "repeated thresholds",
            "list and array evaluations", "long lists"]
ASSUMPTIONS = ["booleans and NumPy scalars are not claimed either way"]


def resolve(spec):
    from pyEdgeEval.common.utils import check_thresholds
    return check_thresholds(spec)


def case_spec(ctx, i):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 9, 10, 19, 33, 99, 100, 999])) if rng.random() < 0.6 else int(rng.integers(1, 300))
    got = resolve(n)
    ctx.require(isinstance(got, np.ndarray) and got.shape == (n,), "an integer gives an array of as many thresholds", n=n)
    ctx.close(got, refs.thresholds_ref(n), f"thresholds of {n}", tol=1e-12)
    ctx.see("integers")
    f = float(rng.choice([0.0, 1.0, 0.5])) if rng.random() < 0.2 else float(rng.uniform(0, 1))
    got = resolve(f)
    ctx.equal(got, [f], f"threshold of {f!r}")
    ctx.see("floats")
    vals = [float(v) for v in rng.uniform(0, 1, int(rng.integers(1, 12) if rng.random() < 0.7 else rng.integers(12, 400)))]
    ctx.see("long lists", int(len(vals) > 100))
    if rng.random() < 0.3:
        vals += vals[:2]
        ctx.see("repeated thresholds")
    if vals != sorted(vals):
        ctx.see("unsorted lists")
    keep = list(vals)
    ctx.equal(resolve(vals), keep, "thresholds of a list")
    ctx.require(vals == keep, "the list was changed")
    ctx.see("lists")
    arr = np.array(vals, dtype=rng.choice([np.float64, np.float32]))
    if rng.random() < 0.3:
        arr = np.repeat(arr, 2)[::2]
    c = arr.copy()
    ctx.equal(resolve(arr), c, "thresholds of an array")
    ctx.equal(arr, c, "the array was changed")
    ctx.see("arrays")
    ctx.sig(n, f, tuple(keep))
    ctx.sample(integer=n, float=f, list=keep)


def case_reject(ctx, i):
    rng = ctx.rng
    bad = [None, "0.5", "[0.5]", (0.1, 0.5), {0.5}, {"a": 0.5}, object(), [[0.1, 0.2]], [[0.1], [0.2]], np.array([[0.1, 0.2]]),
           np.full((1, 1), 0.5), np.array(0.5), np.zeros((2, 2, 2)), 0.5j, b"0.5", range(3), iter([0.5]), [[[0.5]]],
           np.int64(5), np.float32(0.5)]
    spec = bad[i % len(bad)]
    ctx.raises(ValueError, lambda: resolve(spec), f"thresholds {spec!r}")
    ctx.see("rejected")
    ctx.sig("reject", i % len(bad))
    from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as b
    from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as m
    z = tuple(np.zeros(1) for _ in range(4))
    ctx.raises(ValueError, lambda: (b, m)[i % 2](lambda s: z, spec, [dict(name="x")], nproc=1), f"metrics with thresholds {spec!r}")


def case_alone(ctx, i):
    single, multi, label = funcs()
    rng = ctx.rng
    if rng.random() < 0.5:
        hw = int(rng.integers(5, 24)), int(rng.integers(5, 24))
        pred, md = gens.smooth_strength(rng, hw), 0.1
        gt = gens.strokes(rng, hw, 2)
        seg = gens.blobs(rng, hw)
    else:
        pred, gt, seg, md, _ = tiny(rng)
    thr = list(rng.uniform(0.01, 1, int(rng.integers(2, 5)))) + list(rng.choice(pred.ravel(), 2))
    thr = np.array([float(t) for t in rng.permutation(thr)])
    thin, nms = bool(rng.random() < 0.5), bool(rng.random() < 0.2) and min(pred.shape) > 4
    runs = [("single", lambda t: single(t, pred, gt, max_dist=md, apply_thinning=thin, apply_nms=nms)),
            ("multiple", lambda t: multi(t, pred, [gt, ~gt & (np.arange(gt.size).reshape(gt.shape) % 7 == 0)], max_dist=md,
                                         apply_thinning=thin, apply_nms=nms)),
            ("label", lambda t: label(t, pred, gt, gt_seg=seg, max_dist=md, apply_thinning=thin, kill_internal=bool(i % 2),
                                      apply_nms=nms))]
    for name, f in runs:
        whole = f(thr)
        for k, v in enumerate(thr):
            alone = f(np.array([v]))
            for j in (1, 3):
                ctx.require(whole[j][k] == alone[j][0], f"{name}: sum at threshold {v} of {len(thr)} is {whole[j][k]}, alone {alone[j][0]}",
                            thresholds=thr, pred=pred, gt=gt.astype(int))
            for j in (0, 2):
                # the matching of larger maps has a random part; the counts of tiny ones do not
                slack = 0 if max(gt.sum(), (pred >= v).sum()) <= 6 else 2 + 0.03 * alone[j][0]
                if name == "multiple":
                    slack = 2 * slack + (3 if j == 2 else 0)  # which of equally good pixels is matched is open
                ctx.require(abs(whole[j][k] - alone[j][0]) <= slack,
                            f"{name}: count at threshold {v} of {len(thr)} is {whole[j][k]}, alone {alone[j][0]}",
                            thresholds=thr, pred=pred, gt=gt.astype(int))
            ctx.see("thresholds evaluated alone")
    ctx.sig(pred.tobytes(), thr.tobytes())


def case_equal(ctx, i):
    """the same evaluation from a list, an array and (if equally spaced) an integer"""
    from pyEdgeEval.datasets import sbd_eval_single
    from vf import trees
    from pyEdgeEval.evaluators import CityscapesEvaluator, SBDEvaluator
    rng = ctx.rng
    d = ctx.tmp()
    cat = int(rng.integers(1, 20))
    if i % 2:
        t = trees.sbd(rng, d + "/gt", d + "/pred", [cat], ["raw_isedge"], n=2)
        ev = SBDEvaluator(d + "/gt", d + "/pred")
        border = True
    else:
        t = trees.city(rng, d + "/gt", d + "/pred", [cat], ["raw_isedge"], n=2)
        ev = CityscapesEvaluator(d + "/gt", d + "/pred")
        border = False
    ev.set_eval_params(scale=1.0, max_dist=0.1)
    n = int(rng.integers(1, 6))
    if rng.random() < 0.5:
        specs = [n, refs.thresholds_ref(n), np.array(refs.thresholds_ref(n))]
    elif rng.random() < 0.5:
        f = float(rng.choice([0.3, 0.5]))
        specs = [f, [f], np.array([f])]
    else:
        v = [float(x) for x in rng.uniform(0.05, 0.95, n)]
        specs = [v, np.array(v)]
    thr = refs.thresholds_ref(specs[0])
    cnts = trees.counts(t, cat, thr, "raw_isedge", max_dist=0.1, border=border)
    for spec in specs:
        out = ev.evaluate_category(category=cat, thresholds=spec, nproc=1, save_dir=None)
        if cnts is None:
            ctx.see("undecided")
            continue
        trees.check_overall(ctx, [out[k] for k in trees.KEYS], thr, cnts, f"thresholds given as {type(spec).__name__}")
        ctx.see("list and array evaluations")
    ctx.sig(repr(specs[0]), cat)
