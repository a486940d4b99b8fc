"""C20: precision/recall plots."""
import contextlib
import io
import os
import re

import numpy as np

from vf import refs, trees
from vf.checks.c16 import random_counts

ID = "C20"
RULE = "a distinct non-trivial evaluation is one figure whose curves, legend and file were compared with the saved result files"
PLAN = {"quick": [("multi", 120), ("binary", 120), ("twins", 24)], "thorough": [("multi", 1200), ("binary", 1200), ("twins", 200)]}
MUST_SEE = ["curves", "figures", "rows with too little recall left out", "several algorithms", "given colours", "given names", "figure files",
            "single thresholds", "human plotted", "contours", "summaries", "recall at 50% precision", "rejections"]
ASSUMPTIONS = ["figures are drawn with matplotlib's Agg backend; algorithm names contain no mathtext"]


def written(rng, d, k):
    """result files written by the evaluation"""
    from pyEdgeEval.common.binary_label import calculate_metrics, save_results
    from pyEdgeEval.common.multi_label import calculate_metrics as m, save_category_results
    n = int(rng.choice([1, 2, 5, 9, 19]))
    thr = refs.thresholds_ref(n)
    cnts = random_counts(rng, n, int(rng.integers(1, 4)))
    if rng.random() < 0.05:
        cnts = [tuple(np.array(v) for v in (np.zeros(n), np.full(n, 9.0), np.zeros(n), np.ones(n)))]
    elif rng.random() < 0.4:
        # an almost empty first half
        for c in cnts:
            c[0][n // 2:] = 0
            c[2][n // 2:] = 0
    samples = [dict(name=f"i{j}", c=c) for j, c in enumerate(cnts)]
    one = lambda s: s["c"]
    if rng.random() < 0.5:
        save_results(d, *calculate_metrics(one, thr, samples, nproc=1))
    else:
        save_category_results(d, k + 1, *m(one, thr, samples, nproc=1))
        d = f"{d}/class_{k + 1:03d}"
    return f"{d}/eval_bdry_thr.txt", f"{d}/eval_bdry.txt", n


def template(ctx, ax):
    """axes from 0 to 1, contours of equal F1"""
    ctx.equal((ax.get_xlabel(), ax.get_ylabel()), ("Recall", "Precision"), "axis labels")
    ctx.close(list(ax.get_xlim()) + list(ax.get_ylim()), [0, 1, 0, 1], "axis limits", tol=1e-9)
    seen = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        inside = (x > 0) & (y > 0) & (x <= 1) & (y <= 1)
        if tuple(np.round(l.get_color(), 3) if not isinstance(l.get_color(), str) else ()) == (0, 1, 0) and inside.sum() > 2:
            f = 2 * x[inside] * y[inside] / (x[inside] + y[inside])
            ctx.require(np.ptp(f) < 1e-6, "a contour does not join points of equal F1", f1=[f.min(), f.max()])
            seen.append(round(float(f.mean()), 6))
            ctx.see("contours")
    ctx.equal(sorted(set(seen)), [k / 10 for k in range(1, 10)], "F1 of the contours")


def r50(rows):
    """interval of the recall at a precision of 0.5 (or the lowest one); rows of equal precision may stand for each other"""
    if len(rows) == 0:
        return None
    p = np.unique(rows[:, 2])
    q = max(p[0], 0.5)
    if q > p[-1]:
        return None
    at = lambda v: rows[rows[:, 2] == v, 1]
    k = int(np.searchsorted(p, q))
    if p[k] == q:
        return at(q).min(), at(q).max()
    w = (q - p[k - 1]) / (p[k] - p[k - 1])
    return at(p[k - 1]).min() * (1 - w) + at(p[k]).min() * w, at(p[k - 1]).max() * (1 - w) + at(p[k]).max() * w


def summaries(ctx, text, algs, shown):
    """the line printed for each algorithm"""
    lines = [l for l in text.splitlines() if "ODS=" in l]
    ctx.require(len(lines) == len(algs), "one summary per algorithm is printed", lines=lines)
    for a, name in zip(algs, shown):
        mine = [l for l in lines if l.endswith(" - " + name)]
        ctx.require(len(mine) == 1, f"no summary of {name}", lines=lines)
        v = {k: float(x) for k, x in re.findall(r"(ODS|OIS|R50)=([\d.]+|nan)", mine[0])}
        saved = [float(x) for x in open(a.overall_results).read().split()]
        ctx.close([v["ODS"], v["OIS"]], [saved[3], saved[6]], f"printed ODS and OIS F1 of {name}", tol=5.1e-4, line=mine[0])
        rows = np.array([[float(x) for x in r] for r in trees.rows(a.threshold_results)]).reshape(-1, 4)
        want = r50(rows[rows[:, 1] >= 1e-3])
        if want is None:
            ctx.require(np.isnan(v["R50"]), f"recall at 50% precision of {name} is not defined", line=mine[0])
        else:
            ctx.require(want[0] - 5.2e-4 <= v["R50"] <= want[1] + 5.2e-4, f"recall at 50% precision of {name}: {v['R50']}, from the rows {want}", line=mine[0], rows=rows)
            ctx.see("recall at 50% precision")
        ctx.see("summaries")


def run(ctx, plot, binary):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from PIL import Image
    from pyEdgeEval.visualization.pr_curve import AlgorithmInfo
    rng = ctx.rng
    plt.close("all")
    d = ctx.tmp()
    n = int(rng.integers(1, 6)) if rng.random() < 0.85 else int(rng.integers(6, 15))
    pool = ["HED", "CASENet (ours)", "DFF-50", "SEAL", "Canny 1986", "b", "a"]
    labels = [str(v) for v in rng.permutation(pool + ([f"alg{j}" for j in range(8)] if n > 7 else []))[:n]]
    ctx.see("more than ten algorithms", int(n > 10))
    algs, data = [], {}
    for k in range(n):
        thr_file, all_file, nt = written(rng, f"{d}/r{k}", k)
        algs.append(AlgorithmInfo(labels[k], thr_file, all_file))
        if nt == 1:
            ctx.see("single thresholds")
    kw = {}
    shown = list(labels)
    if rng.random() < 0.5:
        shown = [f"{l} v{k}" for k, l in enumerate(labels)]
        kw["names"] = list(shown)
        ctx.see("given names")
    human = False
    if binary:
        if rng.random() < 0.5:
            kw["plot_human"] = bool(rng.random() < 0.5)
        human = kw.get("plot_human", True)
    given = None
    if rng.random() < 0.5:
        pool = [tuple(v) for v in np.round(rng.permutation(60)[:15, None] * [0.016, 0, 0] + rng.uniform(0, 0.9, (15, 3)) * [0, 1, 1], 3)] if n > 5 else [(0.9, 0.1, 0.1), (0.1, 0.2, 0.9), (0.9, 0.6, 0.0), (0.5, 0.0, 0.6), (0.0, 0.7, 0.7), (0.3, 0.3, 0.1)]
        given = [pool[j] for j in rng.permutation(len(pool))[:n + human]]
        kw["colors"] = np.array(given) if rng.random() < 0.5 else list(given)
        ctx.see("given colours")
    ext = str(rng.choice(["png", "png", "pdf", "svg"]))
    save = f"{d}/figure.{ext}" if rng.random() < 0.7 else None
    if save:
        kw["save_path"] = save
    if rng.random() < 0.4:
        # the wrong number of names or colours, no algorithm, missing results
        m = n + human
        wrong = [dict(names=[f"w{j}" for j in range(n + (1 if n == 1 or rng.random() < 0.5 else -1))]), dict(names=[]),
                 dict(colors=[(0.1, 0.2, 0.9)] * (m + 1)), dict(colors=[(0.1, 0.2, 0.9)] * (m - 1)), None, "files"]
        for w in wrong:
            bad = {k: v for k, v in kw.items() if k == "plot_human"}
            some = list(algs)
            if w is None:
                some = []
            elif w == "files":
                k = int(rng.integers(0, n))
                some[k] = some[k]._replace(**{["threshold_results", "overall_results"][int(rng.integers(2))]: f"{d}/nowhere.txt"})
            else:
                bad.update(w)
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.raises(Exception, lambda: plot(some, **bad), f"{'no algorithm' if w is None else 'missing result files' if w == 'files' else list(w)[0] + ' of the wrong number'}", algorithms=n, options=repr(bad))
            plt.close("all")
        ctx.see("rejections")
    before = [open(a.threshold_results).read() for a in algs]
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        plot(list(algs), **kw)
    ctx.require(before == [open(a.threshold_results).read() for a in algs], "plotting changed a result file")
    ctx.require(len(plt.get_fignums()) == 1, "one figure is drawn", figures=len(plt.get_fignums()))
    fig = plt.gcf()
    ax = fig.axes[0]
    leg = ax.get_legend()
    ctx.require(leg is not None, "no legend")
    texts = [t.get_text() for t in leg.get_texts()]
    colours = [to_rgba(l.get_color()) for l in leg.get_lines()]
    ctx.require(len(texts) == len(colours) == n + human, "legend entries", texts=texts)
    if human:
        ctx.require("Human" in texts[0], "the human entry comes first", texts=texts)
        dots = [l for l in ax.lines if len(l.get_xdata()) == 1 and abs(l.get_xdata()[0] - 0.7235) < 1e-6 and abs(l.get_ydata()[0] - 0.9014) < 1e-6
                and l.get_marker() not in ("None", "", None)]
        ctx.require(dots, "no mark at the human recall and precision")
        texts, colours = texts[1:], colours[1:]
        ctx.see("human plotted")
    f1 = {}
    for k in range(n):
        f1[shown[k]] = float(open(algs[k].overall_results).read().split()[3])
    order = []
    for t, c in zip(texts, colours):
        mine = [s for s in shown if t.endswith(" " + s) or t == s]
        ctx.require(len(mine) >= 1, f"legend entry {t!r} names no algorithm", names=shown)
        name = max(mine, key=len)
        order.append(name)
        v = f1[name]
        # two decimals of the saved value
        ok = {f"{v + e:.2f}" for e in (-1e-6, 0, 1e-6)}
        ctx.require(any(o in t[:len(t) - len(name)] for o in ok), f"legend entry {t!r} does not show ODS F1 {v}")
        k = shown.index(name)
        if given is not None:
            ctx.close(c[:3], given[k], f"colour of {name} in the legend", tol=1e-3)
        rows = np.array([[float(x) for x in r] for r in trees.rows(algs[k].threshold_results)]).reshape(-1, 4)
        use = rows[rows[:, 1] >= 1e-3]
        if len(use) < len(rows):
            ctx.see("rows with too little recall left out")
        lines = [l for l in ax.lines if len(l.get_xdata()) == len(use) and np.allclose(l.get_xdata(), use[:, 1], atol=1e-6)
                 and np.allclose(l.get_ydata(), use[:, 2], atol=1e-6)]
        ctx.require(any(np.allclose(to_rgba(l.get_color()), c, atol=1e-3) for l in lines),
                    f"the curve of {name} is not drawn in its colour", rows=use, lines=len(lines), colour=c, title=t)
        ctx.see("curves")
        ctx.sig(rows.tobytes(), t)
    ctx.require(sorted(order) == sorted(shown), "every algorithm has a legend entry", order=order, names=shown)
    fs = [f1[o] for o in order]
    ctx.require(all(a >= b - 1e-6 for a, b in zip(fs, fs[1:])), "the legend is not ordered by decreasing ODS F1", order=order, f1=fs)
    if len(set(np.round(c, 3).tobytes() if hasattr(np.round(c, 3), "tobytes") else tuple(c) for c in colours)) != len(colours):
        ctx.require(False, "two algorithms share a colour", colours=colours)
    if n > 1:
        ctx.see("several algorithms")
    template(ctx, ax)
    summaries(ctx, said.getvalue(), algs, shown)
    if save:
        ctx.require(os.path.exists(save) and os.path.getsize(save) > 500, "the requested figure was not written", path=save)
        head = open(save, "rb").read(200)
        ctx.require({"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[ext] in head, "the figure has another format", head=repr(head[:20]))
        if ext == "png":
            im = np.array(Image.open(save).convert("RGB")).astype(int)
            for c in colours:
                px = (np.abs(im - np.round(np.array(c[:3]) * 255)).max(-1) <= 12).sum()
                ctx.require(px >= 5, "a colour of the legend is missing in the saved figure", colour=c)
        ctx.see("figure files")
    ctx.see("figures")
    plt.close("all")
    ctx.sample(names=shown, legend=texts, f1=f1)


def case_multi(ctx, i):
    from pyEdgeEval.visualization.pr_curve import plot_pr_curve
    run(ctx, plot_pr_curve, False)


def case_twins(ctx, i):
    """algorithms of the same name"""
    import matplotlib.pyplot as plt
    from pyEdgeEval.common.binary_label.visualize import plot_pr_curve as b
    from pyEdgeEval.visualization.pr_curve import AlgorithmInfo, plot_pr_curve as m
    rng = ctx.rng
    plt.close("all")
    d = ctx.tmp()
    n = int(rng.integers(2, 5))
    algs = [AlgorithmInfo("HED" if k < 2 else f"x{k}", *written(rng, f"{d}/r{k}", k)[:2]) for k in range(n)]
    if i % 2:
        m(list(algs))
    else:
        b(list(algs), plot_human=False)
    ax = plt.gcf().axes[0]
    texts = [t.get_text() for t in ax.get_legend().get_texts()]
    f1 = [float(open(a.overall_results).read().split()[3]) for a in algs]
    left = list(texts)
    for f, a in zip(f1, algs):
        hit = [t for t in left if t.endswith(a.name) and any(f"{f + e:.2f}" in t[:-len(a.name)] for e in (-1e-6, 0, 1e-6))]
        ctx.require(hit, f"no legend entry of {a.name} with F {f}", legend=texts)
        left.remove(hit[0])
    ctx.require(not left, "legend entries of no algorithm", legend=texts)
    drawn = list(ax.lines)
    for a in algs:
        rows = np.array([[float(x) for x in r] for r in trees.rows(a.threshold_results)]).reshape(-1, 4)
        use = rows[rows[:, 1] >= 1e-3]
        mine = [l for l in drawn if len(l.get_xdata()) == len(use) and np.allclose(l.get_xdata(), use[:, 1], atol=1e-6)
                and np.allclose(l.get_ydata(), use[:, 2], atol=1e-6)]
        ctx.require(mine, f"the curve of an algorithm called {a.name} is not drawn", rows=use)
        drawn.remove(mine[0])
        ctx.see("curves")
    ctx.see("algorithms of the same name", 2)
    ctx.sig(repr(f1), n)
    plt.close("all")


def case_binary(ctx, i):
    from pyEdgeEval.common.binary_label.visualize import plot_pr_curve
    run(ctx, plot_pr_curve, True)
