"""C21: evaluation protocols."""
import warnings

import numpy as np

from vf import probe, refs, trees

ID = "C21"
RULE = "a distinct non-trivial evaluation is one distinct (evaluator, sequence of parameter settings) whose effective parameters were compared"
PLAN = {"quick": [("params", 1500), ("scale", 300), ("effect", 600)], "thorough": [("params", 4000), ("scale", 300), ("effect", 4000)]}
MUST_SEE = ["pre-seal", "post-seal", "no mode", "re-annotated", "half resolution", "on the fly", "settings replaced", "scales rejected",
            "pre-seal with instance-sensitive rejected", "native calls with the selected tolerance", "defaults"]
ASSUMPTIONS = ["the effective parameters are read from eval_params and instance_sensitive, and confirmed by what reaches the native matching"]


def evaluators():
    from pyEdgeEval.evaluators import BSDS500Evaluator, CityscapesEvaluator, HalfCityscapesEvaluator, OTFCityscapesEvaluator, SBDEvaluator
    from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator
    return dict(sbd=SBDEvaluator, reanno=ReannoSBDEvaluator, city=CityscapesEvaluator, half=HalfCityscapesEvaluator,
                otf=OTFCityscapesEvaluator, bsds=BSDS500Evaluator)


DEFAULT = dict(sbd=dict(scale=1.0, max_dist=0.02), reanno=dict(scale=1.0, max_dist=0.0075), city=dict(scale=0.5, max_dist=0.0035),
               half=dict(max_dist=0.0035), otf=dict(scale=0.5, max_dist=0.0035), bsds=dict(scale=1.0, max_dist=0.0075))


def setting(rng, kind):
    kw = {}
    if kind != "bsds":
        mode = [None, "pre-seal", "post-seal"][int(rng.integers(0, 3))]
        if mode or rng.random() < 0.5:
            kw["eval_mode"] = mode
        if rng.random() < 0.7:
            kw["instance_sensitive"] = bool(rng.random() < 0.5)
        if rng.random() < 0.5:
            kw["kill_internal"] = bool(rng.random() < 0.5)
        if rng.random() < 0.5:
            kw["skip_if_nonexistent"] = bool(rng.random() < 0.5)
    if rng.random() < 0.6:
        kw["scale"] = float(rng.choice([1.0, 0.5, 0.25, 0.8, 1e-3]))
    if rng.random() < 0.6:
        kw["max_dist"] = float(rng.choice([0.0035, 0.0075, 0.02, 0.01, 0.05, 0.3]))
    for f in ("apply_thinning", "apply_nms"):
        if rng.random() < 0.6:
            kw[f] = bool(rng.random() < 0.5)
    return kw


def expected(kind, kw):
    """effective parameters, or None when the combination is rejected"""
    d = DEFAULT[kind]
    out = dict(scale=kw.get("scale", d.get("scale")), max_dist=kw.get("max_dist", d["max_dist"]),
               apply_thinning=kw.get("apply_thinning", kind == "bsds"), apply_nms=kw.get("apply_nms", False))
    if kind == "half":
        out["scale"] = 1
    if kind == "bsds":
        return out, None
    inst = kw.get("instance_sensitive", True)
    mode = kw.get("eval_mode")
    if kind == "reanno":
        out.update(kill_internal=False, skip_if_nonexistent=False)
    elif mode == "pre-seal":
        if kind != "sbd" and inst:
            return None, None
        inst = False
        out.update(kill_internal=True, skip_if_nonexistent=True, max_dist=0.02)
    elif mode == "post-seal":
        out.update(kill_internal=not inst, skip_if_nonexistent=not inst)
    else:
        out.update(kill_internal=kw.get("kill_internal", False), skip_if_nonexistent=kw.get("skip_if_nonexistent", False))
    return out, inst


def build(kind, d="/nonexistent", p="/nonexistent", **kw):
    return evaluators()[kind](d, p, **kw)


def apply(ctx, ev, kind, kw):
    want, inst = expected(kind, kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if want is None:
            ctx.raises((AssertionError, ValueError), lambda: ev.set_eval_params(**kw), f"{kind}: pre-seal with instance-sensitive GT", **{})
            ctx.see("pre-seal with instance-sensitive rejected")
            return None, None
        ev.set_eval_params(**kw)
    return want, inst


def case_params(ctx, i):
    rng = ctx.rng
    for kind in evaluators():
        thin = bool(rng.random() < 0.5)
        ev = build(kind) if kind == "bsds" else build(kind, thin=thin)
        seq = [setting(rng, kind) for _ in range(int(rng.integers(1, 4)))]
        for k, kw in enumerate(seq):
            want, inst = apply(ctx, ev, kind, kw)
            if want is None:
                break
            got = dict(ev.eval_params)
            for n, v in want.items():
                ctx.require(n in got and got[n] == v, f"{kind}: {n} is {got.get(n)!r} instead of {v!r} after {seq[:k + 1]}", got=got)
            if inst is not None:
                ctx.require(bool(ev.instance_sensitive) == inst, f"{kind}: instance_sensitive is {ev.instance_sensitive} after {seq[:k + 1]}")
            if kind == "otf" and "radius" in got:
                ctx.require(got["radius"] == (1 if thin else 2), f"on the fly: radius {got['radius']} with thin={thin}")
            if k:
                ctx.see("settings replaced")
            ctx.see({"pre-seal": "pre-seal", "post-seal": "post-seal"}.get(kw.get("eval_mode"), "no mode"))
            if "max_dist" not in kw:
                ctx.see("defaults")
            ctx.see({"reanno": "re-annotated", "half": "half resolution", "otf": "on the fly"}.get(kind, kind))
            ctx.sig(kind, repr(seq[:k + 1]), thin)
    ctx.sample(evaluator=kind, settings=seq)


def case_scale(ctx, i):
    rng = ctx.rng
    bad = [0, 0.0, -0.5, 1.01, 2, 1.0000001, float("inf"), float("nan"), -1e-9]
    for kind in ("sbd", "reanno", "city", "otf", "bsds"):
        v = bad[i % len(bad)]
        kw = dict(setting(rng, kind), scale=v)
        kw.pop("eval_mode", None)
        ctx.raises((AssertionError, ValueError), lambda: build(kind).set_eval_params(**kw), f"{kind}: scale {v}")
        ctx.see("scales rejected")
    ev = build("half")
    ev.set_eval_params(scale=bad[i % len(bad)])
    ctx.require(ev.eval_params["scale"] == 1, "the half-resolution evaluator leaves scale 1")
    ctx.sig("scale", i % len(bad))


def case_effect(ctx, i):
    """what reaches the native matching, and the scores, follow the selected parameters"""
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "reanno", "city", "half"][i % 4]
    cat = int(rng.integers(1, 20))
    kinds = {"sbd": ["raw_edge", "raw_isedge"], "reanno": ["reanno_raw_edge", "reanno_raw_isedge"], "city": ["raw_edge", "raw_isedge"],
             "half": ["half_raw_edge", "half_raw_isedge"]}[kind]
    make = trees.sbd if kind in ("sbd", "reanno") else trees.city
    t = make(rng, d + "/gt", d + "/pred", [cat], kinds, size=(30, 90), most=5)
    ev = build(kind, d + "/gt", d + "/pred")
    seq = [setting(rng, kind) for _ in range(int(rng.integers(1, 3)))]
    for kw in seq:
        kw.pop("scale", None)
        want, inst = apply(ctx, ev, kind, kw)
        if want is None:
            return
    thr = [0.2, 0.45, 0.7]
    with probe.correspondences() as calls:
        out = ev.evaluate_category(category=cat, thresholds=thr, nproc=1, save_dir=None)
    for c in calls:
        ctx.close(c["max_dist"], want["max_dist"], f"{kind}: tolerance of the matching after {seq}")
        ctx.see("native calls with the selected tolerance")
    stats = {}
    cnts = trees.counts(t, cat, thr, kinds[1 if inst else 0], scale=want["scale"], max_dist=want["max_dist"], thin=want["apply_thinning"],
                        nms=want["apply_nms"], kill=want["kill_internal"], skip=want["skip_if_nonexistent"], border=kind in ("sbd", "reanno"),
                        stats=stats)
    if cnts is None:
        ctx.see("undecided")
        return
    trees.check_overall(ctx, [out[k] for k in trees.KEYS], thr, cnts, f"{kind} after {seq}")
    ctx.see("scores compared")
    for k in ("matched", "killed"):
        ctx.see(k, stats.get(k, 0))
    ctx.sig(kind, repr(seq), cat, repr(cnts))
