"""C26: the evaluation scripts and helpers."""
import os
import re
import sys
import warnings

import numpy as np

from vf import probe, refs, trees
from vf.checks.c21 import expected
from vf.checks.c23 import run_script

ID = "C26"
RULE = "a distinct non-trivial evaluation is one distinct command line (or helper call) whose written results were all recomputed, or that was rejected"
PLAN = {"quick": [("sbd", 192), ("reanno", 96), ("city", 256), ("bsds", 128), ("rejected", 240), ("everything", 6)],
        "thorough": [("sbd", 1000), ("reanno", 500), ("city", 1200), ("bsds", 600), ("rejected", 1500), ("everything", 60)]}
MUST_SEE = ["scripts", "helpers", "sbd", "reanno", "city_raw", "city_thin", "bsds", "categories evaluated", "several categories", "default output path",
            "malformed categories", "malformed thresholds", "out-of-range categories", "all categories by default", "default thresholds",
            "matched pixels", "raw", "thin", "pre-seal", "nonIS", "half", "NMS", "val split", "no split directory", "tolerance given",
            "pre-seal with instance-sensitive rejected", "other GT directory", "many images"]
ASSUMPTIONS = ["scripts run in-process through runpy with the given argument vector",
               "scores are recomputed on trees with at most six edge pixels per class; NMS is taken from the code (decided by C05)"]
CASE_WALL_S = 300
BAD_CATS = ["a", "1,2", "(1, 2)", "[a]", "[1;2]", "[1, 2", "1, 2]", "[1, 12", "[12", "12]", "[2, 11", "12, 1]", "[1.5]", "2.5", "[]", "[1, b]", "{1}"]
BAD_THRS = ["abc", "0.5", "0.1,0.2", "(0.5)", "[x]", "[0.1;0.2]", "[0.1", "0.2]", "[0.25", "0.25]", "[0.2, 0.35", "10.2, 0.35]", "[]", "[0.1, y]"]


def spell(rng, values):
    if len(values) == 1 and rng.random() < 0.6:
        s = str(values[0])
    else:
        sep = str(rng.choice([", ", ",", " , "]))
        s = "[" + sep.join(str(v) for v in values) + "]"
        if rng.random() < 0.2:
            s = "[ " + s[1:-1] + " ]"
    return f" {s} " if rng.random() < 0.2 else s


def thr_text(rng):
    v = trees.thresholds(rng)
    while isinstance(v, float):
        v = trees.thresholds(rng)
    if isinstance(v, int):
        return str(v), v
    v = [float(x) for x in v]
    sep = str(rng.choice([", ", ","]))
    text = [repr(x) for x in v]
    for k, x in enumerate(v):
        if rng.random() < 0.3:
            text[k] = next((t for t in rng.permutation([f"{x:g}", f"{x:e}", f"{x:g}".lstrip("0"), f" {x!r} "]) if float(t) == x), text[k])
    return "[" + sep.join(text) + "]", v


def call(path, argv, fn=None, **kw):
    """-> None, or the exception that ended the script"""
    from vf.framework import REPO
    old = sys.argv
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if fn is None:
                run_script(f"{REPO}/scripts/evaluate/{path}", argv)
            else:
                sys.argv = ["prog"] + argv
                fn(**kw)
    except SystemExit as e:
        if e.code not in (None, 0):
            return e
    finally:
        sys.argv = old
    return None


def results_under(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs
                  if re.search(r"eval_bdry|results", f))


def where(ctx, out, pred, before):
    """the output directory, given or made under the prediction root"""
    if out is not None:
        return out
    new = sorted(set(os.listdir(pred)) - before)
    ctx.require(len(new) == 1 and new[0].startswith("edge_results_"), "without an output path the results go to one new edge_results_* directory "
                "of the predictions", new=new)
    ctx.see("default output path")
    return os.path.join(pred, new[0])


def verify(ctx, out, t, cats, thr, kind, want, border, what, **info):
    got = sorted(n for n in os.listdir(out) if n.startswith("class_"))
    ctx.require(got == sorted(f"class_{c:03d}" for c in cats), f"{what}: category directories", got=got, categories=cats, **info)
    for c in cats:
        stats = {}
        cnts = trees.counts(t, c, thr, kind, scale=want["scale"], max_dist=want["max_dist"], thin=want["apply_thinning"],
                            nms=want["apply_nms"], kill=want["kill_internal"], skip=want["skip_if_nonexistent"], border=border, stats=stats)
        if cnts is None:
            ctx.see("undecided")
            continue
        trees.check_files(ctx, f"{out}/class_{c:03d}", t.names, thr, cnts, what, category=c, gt=kind, params=want, **info)
        ctx.see("categories evaluated")
        ctx.see("matched pixels", stats.get("matched", 0))
    ctx.require(os.path.exists(f"{out}/overall_eval_bdry.txt") and os.path.exists(f"{out}/results.txt"), f"{what}: no summary", files=os.listdir(out))
    ctx.see("several categories", int(len(cats) > 1))
    ctx.see("pre-seal", int(want["kill_internal"] and want["skip_if_nonexistent"]))


def options(rng, ctx):
    o = dict(pre_seal=bool(rng.random() < 0.25), nonIS=bool(rng.random() < 0.5), apply_nms=bool(rng.random() < 0.2), nproc=int(rng.choice([1, 1, 1, 2])))
    if o["pre_seal"] and rng.random() < 0.6:
        o["nonIS"] = True
    o["max_dist"] = float(rng.choice([0.04, 0.08, 0.1])) if rng.random() < 0.75 else None
    ctx.see("nonIS", int(o["nonIS"]))
    ctx.see("NMS", int(o["apply_nms"]))
    ctx.see("tolerance given", int(o["max_dist"] is not None))
    return o


def flags(o, rng):
    a = [["--nproc", str(o["nproc"])]]
    for k, f in (("pre_seal", "--pre-seal"), ("nonIS", "--nonIS"), ("apply_nms", "--apply-nms"), ("raw", "--raw"), ("half", "--half"),
                 ("use_val", "--use-val")):
        if o.get(k):
            a.append([f])
    for k, f in (("max_dist", "--max-dist"), ("pred_suffix", "--pred-suffix"), ("categories", "--categories"), ("thresholds", "--thresholds"),
                 ("output_path", "--output-path"), ("scale", "--scale")):
        if o.get(k) is not None:
            a.append([f + "=" + str(o[k])] if rng.random() < 0.5 or str(o[k]).startswith("-") else [f, str(o[k])])
    return [w for g in [a[k] for k in rng.permutation(len(a))] for w in g]


def size(ctx, o):
    """None (a few images) or, now and then, many of them for several processes"""
    if ctx.rng.random() > 0.06:
        return None
    o["nproc"] = int(ctx.rng.integers(2, 6))
    ctx.see("many images")
    return int(ctx.rng.integers(8, 20))


def cli(ctx, i):
    c = bool(i % 2)
    ctx.see("scripts" if c else "helpers")
    return c


def sbd_like(ctx, i, kind):
    from pyEdgeEval.helpers import evaluate_sbd as mod
    rng = ctx.rng
    d = ctx.tmp()
    o = options(rng, ctx)
    raw = bool(rng.random() < 0.5)
    thin = not raw
    cats = [int(c) for c in rng.choice(np.arange(1, 21), int(rng.choice([1, 2, 3])), replace=False)]
    suffix = ".png" if rng.random() < 0.6 else "_p.png"
    pre = "reanno_" if kind == "reanno" else ""
    if kind == "reanno":
        o["pre_seal"] = False
        o["max_dist"] = None
    kinds = [f"{pre}{m}_{e}" for m in ("raw", "thin") for e in ("edge", "isedge")]
    t = trees.sbd(rng, d + "/gt", d + "/pred", cats, kinds + [k for k in trees.SBD_SUFFIX if k not in kinds], pred_suffix=suffix,
                  n=size(ctx, o))
    gt_dir = "gtEval"
    text, spec = thr_text(rng)
    thr = refs.thresholds_ref(spec)
    out = None if rng.random() < 0.2 else d + str(rng.choice(["/out", "/some/where"]))
    before = set(os.listdir(d + "/pred"))
    kw = dict(eval_mode=("pre-seal" if o["pre_seal"] else "post-seal"), apply_thinning=thin, apply_nms=o["apply_nms"],
              max_dist=0.02 if o["max_dist"] is None else o["max_dist"], scale=1.0, instance_sensitive=not o["nonIS"])
    if kind == "reanno":
        kw.pop("eval_mode")
        kw["max_dist"] = 0.0075
    want, inst = expected(kind, kw)
    args = dict(o, raw=raw, categories=spell(rng, cats), thresholds=text, output_path=out, pred_suffix=suffix)
    if cli(ctx, i):
        argv = [d + "/gt", d + "/pred"] + flags(dict(args, pred_suffix=None if suffix == ".png" else suffix), rng)
        if kind == "reanno":
            bad = call(None, argv, mod.evaluate_reanno_sbd)
        elif rng.random() < 0.3:
            gt_dir = "other"
            os.rename(d + "/gt/gtEval", d + "/gt/other")
            bad = call(None, argv, mod.evaluate_sbd, gt_dir="other")
            ctx.see("other GT directory")
        else:
            bad = call("sbd.py", argv)
        ctx.require(bad is None, f"{kind}: {argv[2:]} ended with {bad!r}")
        info = dict(argv=argv[2:])
    else:
        info = dict(call=args)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            common = dict(gt_dir=gt_dir, sbd_path=d + "/gt", pred_path=d + "/pred", pred_suffix=suffix, output_path=out, categories=args["categories"],
                          apply_thinning=thin, apply_nms=o["apply_nms"], nonIS=o["nonIS"], thresholds=text, nproc=o["nproc"])
            if kind == "reanno":
                mod.evaluate_reanno(**common)
            else:
                mod.evaluate(**common, pre_seal=o["pre_seal"], max_dist=kw["max_dist"])
    use = f"{pre}{'thin' if thin else 'raw'}_{'isedge' if inst else 'edge'}"
    verify(ctx, where(ctx, out, d + "/pred", before), t, cats, thr, use, want, True, kind, **info)
    ctx.see(kind)
    ctx.see("thin" if thin else "raw")
    ctx.sig(kind, repr(args), tuple(t.names))
    ctx.sample(**info)


def case_sbd(ctx, i):
    sbd_like(ctx, i, "sbd")


def case_reanno(ctx, i):
    sbd_like(ctx, i, "reanno")


def case_city(ctx, i):
    from pyEdgeEval.helpers import evaluate_cityscapes as mod
    rng = ctx.rng
    d = ctx.tmp()
    o = options(rng, ctx)
    thin = bool(i // 2 % 2)
    half = True if thin else bool(rng.random() < 0.3)
    scale = 0.5 if thin else float(rng.choice([0.5, 0.5, 1.0, 0.7]))
    cats = [int(c) for c in rng.choice(np.arange(1, 20), int(rng.choice([1, 2, 3])), replace=False)]
    t = trees.city(rng, d + "/gt", d + "/pred", cats, list(trees.CITY_SUFFIX), n=size(ctx, o))
    text, spec = thr_text(rng)
    thr = refs.thresholds_ref(spec)
    out = None if rng.random() < 0.2 else d + str(rng.choice(["/out", "/some/where"]))
    before = set(os.listdir(d + "/pred"))
    kw = dict(eval_mode=("pre-seal" if o["pre_seal"] else "post-seal"), apply_thinning=thin, apply_nms=o["apply_nms"],
              max_dist=0.0035 if o["max_dist"] is None else o["max_dist"], scale=scale, instance_sensitive=not o["nonIS"])
    want, inst = expected("half" if half else "city", kw)
    args = dict(o, categories=spell(rng, cats), thresholds=text, output_path=out)
    if not thin:
        args.update(half=half, scale=scale if scale != 0.5 or rng.random() < 0.3 else None)
    gt_dir = "gtEval"
    if cli(ctx, i):
        argv = [d + "/gt", d + "/pred"] + flags(args, rng)
        info = dict(argv=argv[2:], thin=thin)
        if rng.random() < 0.25:
            os.rename(d + "/gt/gtEval", d + "/gt/other")
            f = lambda: call(None, argv, mod.evaluate_cityscapes_thin if thin else mod.evaluate_cityscapes_raw, gt_dir="other")
            ctx.see("other GT directory")
        else:
            f = lambda: call(f"cityscapes_{'thin' if thin else 'raw'}.py", argv)
    else:
        info = dict(call=args, thin=thin, half=half, scale=scale)

        def f():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mod.evaluate(gt_dir=gt_dir, cityscapes_path=d + "/gt", pred_path=d + "/pred", output_path=out, categories=args["categories"],
                             thin=thin, pre_seal=o["pre_seal"], nonIS=o["nonIS"], max_dist=kw["max_dist"], scale=scale, apply_thinning=thin,
                             apply_nms=o["apply_nms"], thresholds=text, half=half, nproc=o["nproc"])
    if want is None:
        ctx.raises((AssertionError, ValueError), f, "pre-seal with instance-sensitive GT", **info)
        ctx.require(not results_under(d), "pre-seal with instance-sensitive GT wrote results", files=results_under(d), **info)
        ctx.see("pre-seal with instance-sensitive rejected")
        return
    bad = f()
    ctx.require(bad is None, f"{info} ended with {bad!r}")
    use = f"{'half_' if half else ''}{'thin' if thin else 'raw'}_{'isedge' if inst else 'edge'}"
    verify(ctx, where(ctx, out, d + "/pred", before), t, cats, thr, use, want, False, "cityscapes", **info)
    ctx.see("city_thin" if thin else "city_raw")
    ctx.see("half", int(half and not thin))
    ctx.see("thin" if thin else "raw")
    ctx.sig("city", repr(args), thin, half, tuple(t.names))
    ctx.sample(**info)


def case_bsds(ctx, i):
    from pyEdgeEval.helpers import evaluate_bsds500 as mod
    rng = ctx.rng
    d = ctx.tmp()
    use_val = bool(rng.random() < 0.5)
    flat = bool(rng.random() < 0.4)
    split = "val" if use_val else "test"
    t = trees.bsds(rng, d + "/gt", d + "/pred", split=split, flat=flat)
    # the other split holds something else
    trees.bsds(rng, d + "/gt", d + "/pred", n=1, split="test" if use_val else "val", flat=flat)
    text, spec = thr_text(rng)
    thr = refs.thresholds_ref(spec)
    out = None if rng.random() < 0.2 else d + "/out"
    os.makedirs(d + "/pred", exist_ok=True)
    before = set(os.listdir(d + "/pred"))
    o = dict(raw=bool(rng.random() < 0.5), apply_nms=bool(rng.random() < 0.2), use_val=use_val, nproc=int(rng.choice([1, 1, 2])),
             max_dist=float(rng.choice([0.04, 0.08, 0.1])) if rng.random() < 0.75 else None, thresholds=text, output_path=out)
    md = 0.0075 if o["max_dist"] is None else o["max_dist"]
    if cli(ctx, i):
        argv = [d + "/gt", d + "/pred"] + flags(o, rng)
        info = dict(argv=argv[2:], flat=flat)
        bad = call(None, argv, mod.evaluate_bsds500, no_split_dir=True) if flat else call("bsds500.py", argv)
        ctx.require(bad is None, f"{info} ended with {bad!r}")
    else:
        info = dict(call=o, flat=flat)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.evaluate(bsds_path=d + "/gt", pred_path=d + "/pred", output_path=out, use_val=use_val, max_dist=md, thresholds=text,
                         apply_thinning=not o["raw"], apply_nms=o["apply_nms"], nproc=o["nproc"], no_split_dir=flat)
    out = where(ctx, out, d + "/pred", before)
    got = [l.rsplit(None, 4)[0].strip() for l in open(out + "/eval_bdry_img.txt") if l.strip()]
    ctx.require(sorted(got) == sorted(t.names), "not every image of the split was evaluated exactly once", got=got, want=t.names, **info)
    t.names = got
    cnts = trees.bsds_counts(t, thr, md, not o["raw"], o["apply_nms"])
    ctx.see("bsds")
    ctx.see("val split", int(use_val))
    ctx.see("no split directory", int(flat))
    if cnts is None:
        ctx.see("undecided")
        return
    trees.check_files(ctx, out, t.names, thr, cnts, "BSDS", **info)
    ctx.see("categories evaluated")
    ctx.sig("bsds", repr(o), tuple(t.names))


def case_rejected(ctx, i):
    from pyEdgeEval.helpers import evaluate_bsds500 as mb, evaluate_cityscapes as mc, evaluate_sbd as ms
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "reanno", "city_raw", "city_thin", "bsds"][i % 5]
    what = ["categories", "thresholds", "range", "range"][int(rng.integers(0, 4))] if kind != "bsds" else "thresholds"
    if kind == "bsds":
        trees.bsds(rng, d + "/gt", d + "/pred", n=1)
        fn, path, top = mb.evaluate_bsds500, "bsds500.py", 1
    elif kind in ("sbd", "reanno"):
        trees.sbd(rng, d + "/gt", d + "/pred", [1, 2, 20], list(trees.SBD_SUFFIX), n=1)
        fn, path, top = (ms.evaluate_sbd, "sbd.py", 20) if kind == "sbd" else (ms.evaluate_reanno_sbd, None, 20)
    else:
        trees.city(rng, d + "/gt", d + "/pred", [1, 2, 19], list(trees.CITY_SUFFIX), n=1)
        fn, path, top = (mc.evaluate_cityscapes_raw, "cityscapes_raw.py", 19) if kind == "city_raw" else (mc.evaluate_cityscapes_thin, "cityscapes_thin.py", 19)
    cats, thr = str(rng.choice(["1", "[2]", "[1, 2]"])), str(rng.choice(["2", "[0.4]"]))
    if what == "categories":
        cats = BAD_CATS[int(rng.integers(len(BAD_CATS)))]
    elif what == "thresholds":
        thr = BAD_THRS[int(rng.integers(len(BAD_THRS)))]
    else:
        v = int(rng.choice([0, 0, -1, top + 1, top + 1, top + 1, top + 2, 255]))
        cats = [f"{v}", f"[{v}]", f"[1, {v}]", f"[2, {v}]", f"[{v}, 2]"][int(rng.integers(5))]
    o = dict(nproc=1, thresholds=thr, output_path=d + "/out" if rng.random() < 0.7 else None)
    if kind != "bsds":
        o["categories"] = cats
    argv = [d + "/gt", d + "/pred"] + flags(o, rng)
    before = results_under(d)
    try:
        bad = call(path, argv) if path and rng.random() < 0.6 else call(None, argv, fn)
    except Exception as e:
        bad = e
    if what == "range":
        ctx.require(bad is not None, f"{kind}: categories {cats!r} were accepted", argv=argv[2:])
        ctx.see("out-of-range categories")
    else:
        ctx.see("malformed " + what)
    ctx.require(results_under(d) == before, f"{kind}: categories {cats!r} with thresholds {thr!r} wrote results", files=results_under(d),
                argv=argv[2:])
    ctx.sig(kind, what, cats, thr)


def case_everything(ctx, i):
    """no --categories, no --thresholds"""
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "city_raw", "city_thin"][i % 3]
    full = bool(i < 3)
    if kind == "sbd":
        cats = list(range(1, 21))
        t = trees.sbd(rng, d + "/gt", d + "/pred", cats, ["thin_isedge", "raw_isedge"], n=1, size=(14, 18), most=4)
        want, _ = expected("sbd", dict(eval_mode="post-seal", apply_thinning=True, apply_nms=False, max_dist=0.02, scale=1.0, instance_sensitive=True))
        use, border = "thin_isedge", True
    else:
        cats = list(range(1, 20))
        t = trees.city(rng, d + "/gt", d + "/pred", cats, ["raw_isedge", "half_thin_isedge"], n=1, size=(10, 14), most=4)
        thin = kind == "city_thin"
        want, _ = expected("half" if thin else "city", dict(eval_mode="post-seal", apply_thinning=thin, apply_nms=False, max_dist=0.0035,
                                                            scale=0.5, instance_sensitive=True))
        use, border = ("half_thin_isedge" if thin else "raw_isedge"), False
    argv = [d + "/gt", d + "/pred", "--output-path", d + "/out", "--nproc", "2"]
    if full:
        argv += ["--categories", str(cats[0])]
        cats = cats[:1]
        thr = refs.thresholds_ref(99)
        ctx.see("default thresholds")
    else:
        argv += ["--thresholds", "2"]
        thr = refs.thresholds_ref(2)
        ctx.see("all categories by default")
    bad = call({"sbd": "sbd.py"}.get(kind, f"cityscapes_{kind[5:]}.py"), argv)
    ctx.require(bad is None, f"{argv[2:]} ended with {bad!r}")
    verify(ctx, d + "/out", t, cats, thr, use, want, border, kind, argv=argv[2:])
    ctx.sig(kind, full)
