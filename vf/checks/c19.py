"""C19: result files."""
import os

import numpy as np

from vf import refs, trees

ID = "C19"
RULE = "a distinct non-trivial evaluation is one distinct set of results whose saved files were parsed and compared number by number"
PLAN = {"quick": [("saved", 1000), ("multilabel", 400), ("binary", 160)], "thorough": [("saved", 6000), ("multilabel", 2500), ("binary", 800)]}
MUST_SEE = ["per-image lines", "per-threshold lines", "overall files", "categories in the summary table", "files replaced",
            "means over several categories", "new nested directories", "categories out of order", "evaluations of more than nine categories",
            "names of more than 100 characters", "chosen columns"]
ASSUMPTIONS = ["image names contain no white space"]
SBD_CLASSES = [c.replace("_", " ") for c in (
    "aeroplane bicycle bird boat bottle bus car cat chair cow dining_table dog horse motor_bike person potted_plant sheep sofa "
    "train tv/monitor").split()]
CITY_CLASSES = [c.replace("_", " ") for c in (
    "road sidewalk building wall fence pole traffic_light traffic_sign vegetation terrain sky person rider car truck bus train "
    "motorcycle bicycle").split()]


def metrics(rng):
    k = rng.integers(0, 6)
    v = rng.uniform(0, 1, 9) if k else rng.choice([0.0, 1.0, 1e-7, 0.9999999, 0.5, 1 / 3], 9)
    conv = (float, np.float64, np.float32)[int(rng.integers(0, 3))]
    return {n: conv(x) for n, x in zip(trees.KEYS, v)}


def results(rng):
    def four():
        v = rng.uniform(0, 1, 4) if rng.random() < 0.9 else rng.choice([0.0, 1.0, 5e-7, 0.9999996], 4)
        return dict(zip(("threshold", "recall", "precision", "f1"), v))
    names = [f"val/{rng.integers(0, 10**9)}" if rng.random() < 0.5 else f"a-b_{j}.c" for j in range(int(rng.integers(1, 9)) if rng.random() < 0.9 else int(rng.integers(90, 250)))]
    if rng.random() < 0.2:
        names = [f"{n}/{'x' * int(rng.integers(20, 200))}{j}" for j, n in enumerate(names)]
    return [dict(name=n, **four()) for n in names], [four() for _ in range(int(rng.choice([1, 2, 5, 9, 11, 99, 130])))], metrics(rng)


def compare(ctx, d, res, what):
    samples, per_thr, overall = res
    key = ("threshold", "recall", "precision", "f1")
    got = trees.rows(f"{d}/eval_bdry_img.txt")
    ctx.require([r[0] for r in got] == [s["name"] for s in samples], f"{what}: image names", got=[r[0] for r in got],
                want=[s["name"] for s in samples])
    ctx.close([[float(v) for v in r[1:]] for r in got], [[s[k] for k in key] for s in samples], f"{what}: per-image file", tol=5.1e-7)
    ctx.see("per-image lines", len(got))
    ctx.see("names of more than 100 characters", sum(len(s["name"]) > 100 for s in samples))
    got = trees.rows(f"{d}/eval_bdry_thr.txt")
    ctx.close(np.array(got, float), [[s[k] for k in key] for s in per_thr], f"{what}: per-threshold file", tol=5.1e-7)
    ctx.see("per-threshold lines", len(got))
    got = trees.rows(f"{d}/eval_bdry.txt")
    ctx.close(np.array(got, float).ravel(), [overall[k] for k in trees.KEYS], f"{what}: overall file", tol=5.1e-7)
    ctx.see("overall files")


def case_saved(ctx, i):
    from pyEdgeEval.common.binary_label import save_results
    from pyEdgeEval.common.multi_label import save_category_results
    rng = ctx.rng
    root = ctx.tmp() + ("/out" if rng.random() < 0.5 else "/some/new/dir")
    if root.endswith("new/dir"):
        ctx.see("new nested directories")
    for k in range(2):
        res = results(rng)
        save_results(root, *res) if rng.random() < 0.5 else save_results(root=root, sample_metrics=res[0], threshold_metrics=res[1],
                                                                        overall_metric=res[2])
        compare(ctx, root, res, "binary results")
        if k:
            ctx.see("files replaced")
    cats = [int(c) for c in rng.choice(np.arange(1, 151), 3, replace=False)]
    all_res = {}
    for c in cats + cats[:1]:
        all_res[c] = results(rng)
        save_category_results(root=root, category=c, sample_metrics=all_res[c][0], threshold_metrics=all_res[c][1], overall_metric=all_res[c][2])
    for c in cats:
        compare(ctx, f"{root}/class_{c:03d}", all_res[c], f"category {c}")
    compare(ctx, root, res, "binary results next to the categories")
    ctx.sig(repr(res[2]), repr(cats))
    ctx.sample(categories=cats, overall=res[2], images=[s["name"] for s in res[0]])


def tables(path):
    """the tables of results.txt: [(header, rows)]"""
    out = []
    for line in open(path).read().splitlines():
        line = line.strip()
        if line.startswith("|"):
            cells = [c.strip() for c in line.strip("|").split("|")]
            if new:
                out.append((cells, []))
                new = False
            else:
                out[-1][1].append(cells)
        elif not line.startswith("+"):
            new = True
    return out


def case_multilabel(ctx, i):
    from pyEdgeEval.evaluators import CityscapesEvaluator, SBDEvaluator
    rng = ctx.rng
    d = ctx.tmp()
    sbd = i % 2
    ncls = 20 if sbd else 19
    cats = [int(c) for c in rng.choice(np.arange(1, ncls + 1), int(rng.integers(1, 5) if rng.random() < 0.9 else rng.integers(10, ncls + 1)),
                                       replace=False)]
    ctx.see("evaluations of more than nine categories", int(len(cats) > 9))
    if cats != sorted(cats):
        ctx.see("categories out of order")
    inst = bool(rng.random() < 0.5)
    kind = "raw_isedge" if inst else "raw_edge"
    if sbd:
        t = trees.sbd(rng, d + "/gt", d + "/pred", cats, [kind])
        ev = SBDEvaluator(d + "/gt", d + "/pred")
        names = SBD_CLASSES
    else:
        t = trees.city(rng, d + "/gt", d + "/pred", cats, [kind])
        ev = CityscapesEvaluator(d + "/gt", d + "/pred")
        names = CITY_CLASSES
    if rng.random() < 0.5 and len(t.names) > 1:
        t.names = t.names[::-1]
        ev.set_sample_names(list(t.names))
    ev.set_eval_params(scale=1.0, max_dist=0.1, instance_sensitive=inst)
    out = d + ("/res" if rng.random() < 0.5 else "/deep/er/res")
    shown, kw = ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "AUC"), {}
    if rng.random() < 0.3:
        shown = tuple(str(k) for k in rng.permutation(trees.KEYS)[:int(rng.integers(1, 10))])
        kw = dict(print_metrics=shown)
        ctx.see("chosen columns")
    for rep in range(2 if rng.random() < 0.3 else 1):
        spec = trees.thresholds(rng)
        thr = refs.thresholds_ref(spec)
        cnts = {c: trees.counts(t, c, thr, kind, max_dist=0.1, border=bool(sbd)) for c in cats}
        if any(v is None for v in cnts.values()):
            ctx.see("undecided")
            return
        ev.evaluate(categories=list(cats) if len(cats) > 1 or rng.random() < 0.5 else cats[0], thresholds=spec,
                    nproc=1 if rng.random() < 0.8 else 2, save_dir=out, **kw)
        if rep:
            ctx.see("files replaced")
    ctx.require(sorted(n for n in os.listdir(out) if n.startswith("class_")) == sorted(f"class_{c:03d}" for c in cats),
                "category directories", got=os.listdir(out), categories=cats)
    per = {}
    for c in cats:
        trees.check_files(ctx, f"{out}/class_{c:03d}", t.names, thr, cnts[c], f"category {c}")
        again = ev.evaluate_category(category=c, thresholds=spec, nproc=1, save_dir=None)
        trees.check_overall(ctx, [again[k] for k in trees.KEYS], thr, cnts[c], f"category {c}")
        per[c] = [float(again[k]) for k in trees.KEYS]
        ctx.close([float(v) for v in trees.rows(f"{out}/class_{c:03d}/eval_bdry.txt")[0]], per[c],
                  f"category {c}: the overall file is not what is returned", tol=5.1e-7)
        ctx.see("per-image lines", len(t.names))
        ctx.see("per-threshold lines", len(thr))
        ctx.see("overall files")
    mean = np.mean([per[c] for c in cats], axis=0)
    got = trees.rows(f"{out}/overall_eval_bdry.txt")
    ctx.close(np.array(got, float).ravel(), mean, "mean over the categories", tol=1.1e-6, per_category=per)
    if len(cats) > 1:
        ctx.see("means over several categories")
    tabs = tables(f"{out}/results.txt")
    head, body = tabs[0]
    ctx.require("Class" in head and [r[head.index("Class")] for r in body] == [names[c - 1] for c in cats],
                "classes of the summary table", got=body, categories=cats)
    for c, r in zip(cats, body):
        for k, col in enumerate(head):
            if col in trees.KEYS:
                v = per[c][trees.KEYS.index(col)]
                if col == "ODS_threshold":
                    ctx.close(float(r[k]), v, f"summary table: {col} of {names[c - 1]}", tol=5.1e-3)
                else:
                    ctx.close(float(r[k]), 100 * v, f"summary table: {col} of {names[c - 1]}", tol=5.1e-4)
        ctx.require({k for k in shown if k.startswith("ODS")} == {k for k in head if k.startswith("ODS")} and set(head) <= set(shown) | {"Class"},
                    "columns of the class table", head=head, asked=shown)
        ctx.see("categories in the summary table")
    means = [k for k in shown if k != "ODS_threshold"]
    if means:
        ctx.require(len(tabs) == 2, "results.txt has a table per class and a summary", tables=tabs)
        head, body = tabs[1]
        ctx.require(set(means) <= set(head) <= set(shown), "columns of the summary", head=head, asked=shown)
        for col, v in zip(head, body[0]):
            if col in trees.KEYS:
                ctx.close(float(v), 100 * mean[trees.KEYS.index(col)], f"summary: mean {col}", tol=5.1e-4)
    ctx.sig(repr(cnts), tuple(cats))


def case_binary(ctx, i):
    from pyEdgeEval.evaluators import BSDS500Evaluator
    rng = ctx.rng
    d = ctx.tmp()
    t = trees.bsds(rng, d + "/gt", d + "/pred", annotators=1)
    ev = BSDS500Evaluator(d + "/gt", d + "/pred")
    ev.set_sample_names(list(t.names))
    ev.set_eval_params(max_dist=0.1, apply_thinning=bool(i % 2))
    spec = trees.thresholds(rng)
    thr = refs.thresholds_ref(spec)
    cnts = trees.bsds_counts(t, thr, 0.1, bool(i % 2))
    if cnts is None:
        ctx.see("undecided")
        return
    res = ev.evaluate(thresholds=spec, nproc=1, save_dir=d + "/out")
    trees.check_files(ctx, d + "/out", t.names, thr, cnts, "BSDS")
    trees.check_overall(ctx, [res[k] for k in trees.KEYS], thr, cnts, "BSDS")
    ctx.close([float(v) for v in trees.rows(d + "/out/eval_bdry.txt")[0]], [float(res[k]) for k in trees.KEYS],
              "the overall file is not what is returned", tol=5.1e-7)
    ctx.see("per-image lines", len(t.names))
    ctx.see("per-threshold lines", len(thr))
    ctx.see("overall files")
    ctx.sig(repr(cnts))
