"""C30: evaluations and functions do not depend on what was called before."""
import copy
import importlib
import os
import warnings

import numpy as np

from vf import fresh, gens, refs, trees
from vf.checks.c10 import scene
from vf.checks.c21 import build, expected
from vf.checks.c22 import params

ID = "C30"
RULE = ("a distinct non-trivial evaluation is one distinct history of at least two evaluations (or calls) whose every result was "
        "recomputed from the definition (or compared with the first one)")
PLAN = {"quick": [("single", 240), ("interleaved", 240), ("growing", 96), ("functions", 200)],
        "thorough": [("single", 2500), ("interleaved", 2500), ("growing", 800), ("functions", 2500)]}
MUST_SEE = ["evaluations recomputed", "evaluations after other parameters", "evaluations after other sample names", "evaluations after failures",
            "evaluations after file changes", "evaluations after parallel ones", "evaluations between other evaluators'", "repeated evaluations",
            "arguments compared", "results overwritten by the caller", "evaluations saved over earlier ones", "function calls repeated",
            "failing function calls between", "calls compared with a fresh process", "evaluations after exchanged images", "rejected settings", "matched pixels", "BSDS evaluations", "whole-dataset evaluations", "sample names read and changed"]
ASSUMPTIONS = ["scores are recomputed on trees with at most six edge pixels per class, where counts are determined; NMS is taken from the code"]


class Held:
    """an evaluator, its tree and what is in force"""

    def __init__(self, ctx, kind, d):
        rng = ctx.rng
        self.kind, self.d = kind, d
        self.thin = bool(rng.random() < 0.5)
        self.cats = [int(c) for c in rng.choice(np.arange(1, 20), 2, replace=False)]
        n = int(rng.integers(2, 5))
        if kind == "bsds":
            self.t = trees.bsds(rng, d + "/gt", d + "/pred", n=n)
            self.ev = build("bsds", d + "/gt", d + "/pred")
        elif kind == "otf":
            self.t = trees.city_labels(rng, d + "/gt", d + "/pred", self.cats, n=n, size=(4, 11))
            self.ev = build(kind, d + "/gt", d + "/pred", thin=self.thin)
        else:
            pre = {"reanno": "reanno_", "half": "half_"}.get(kind, "")
            kinds = [f"{pre}{m}_{e}" for m in ("raw", "thin") for e in ("edge", "isedge")]
            make = trees.sbd if kind in ("sbd", "reanno") else trees.city
            self.t = make(rng, d + "/gt", d + "/pred", self.cats, kinds, n=n)
            self.ev = build(kind, d + "/gt", d + "/pred", thin=self.thin)
        self.names = list(self.t.names)
        self.out = d + "/out"
        self.evals, self.since = 0, set()
        self.set(ctx)
        self.ev.set_sample_names(sample_names=list(self.names))

    def set(self, ctx):
        rng = ctx.rng
        while True:
            kw = params(rng, self.kind)
            want, inst = expected(self.kind, kw)
            if want is not None:
                break
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.ev.set_eval_params(**kw)
        self.kw, self.want, self.inst = kw, want, inst
        self.since.add("other parameters")

    def rejected(self, ctx):
        """a rejected setting; the next one is complete again"""
        if self.kind == "half":
            return
        try:
            self.ev.set_eval_params(scale=7.0)
        except (AssertionError, ValueError):
            ctx.see("rejected settings")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.ev.set_eval_params(**self.kw)

    def rename(self, ctx):
        rng = ctx.rng
        k = int(rng.integers(1, len(self.t.names) + 1))
        self.names = [self.t.names[j] for j in rng.permutation(len(self.t.names))[:k]]
        self.ev.set_sample_names(sample_names=list(self.names))
        self.since.add("other sample names")
        if rng.random() < 0.5:
            # the list one is given is a copy
            mine = self.ev.sample_names
            ctx.equal(list(mine), self.names, "sample names")
            mine.reverse()
            mine.append("changed by the caller")
            ctx.equal(list(self.ev.sample_names), self.names, "sample names after the caller changed the list it was given")
            ctx.see("sample names read and changed")

    def edit(self, ctx):
        """predictions of an image are replaced (often by a file of the same size)"""
        rng = ctx.rng
        name = self.names[int(rng.integers(0, len(self.names)))]
        keys = [name] if self.kind == "bsds" else [(c, name) for c in self.cats]
        for key in keys:
            old = self.t.preds[key]
            new = np.roll(old, int(rng.integers(0, 3)), axis=1)
            new = np.where(new > 0, trees.LEVELS[rng.integers(0, len(trees.LEVELS), new.shape)], 0).astype(np.uint8)
            self.t.preds[key] = new
            p = f"{self.d}/pred/{name}.png" if self.kind == "bsds" else f"{self.d}/pred/class_{key[0]:03d}/{name}{self.t.pred_suffix}"
            st = os.stat(p)
            trees.save(p, new)
            if rng.random() < 0.5:
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        self.since.add("file changes")

    def exchange(self, ctx):
        """all files of two images change places"""
        names = self.t.names
        if len(names) < 2 or any(a != b and b.startswith(a) for a in names for b in names):
            return
        a, b = (names[int(j)] for j in ctx.rng.permutation(len(names))[:2])
        found = [os.path.join(top, f) for k in ("gt", "pred") for top, _, fs in os.walk(f"{self.d}/{k}") for f in fs]
        for p in found:
            if a in p:
                q = p.replace(a, b)
                os.rename(p, p + ".moving")
                os.rename(q, p)
                os.rename(p + ".moving", q)
        for table in ("edges", "segs", "preds", "gts", "labs", "insts"):
            t = getattr(self.t, table, {})
            for key in list(t):
                name = key[-1] if isinstance(key, tuple) else key
                if name == a:
                    other = key[:-1] + (b,) if isinstance(key, tuple) else b
                    t[key], t[other] = t[other], t[key]
        self.since.add("exchanged images")

    def paths(self, name):
        if self.kind == "bsds":
            return [f"{self.d}/gt/groundTruth/{name}.mat"]
        return [os.path.join(b, f) for b, _, fs in os.walk(self.d + "/gt") for f in fs
                if os.path.join(b, f).split("/gt/", 1)[1].find(name.split("/")[-1]) >= 0 and f.endswith(".png") and "labelTrainIds" not in f]

    def fail(self, ctx):
        """an evaluation that fails half-way"""
        rng = ctx.rng
        name = self.names[int(rng.integers(0, len(self.names)))]
        ps = self.paths(name)
        for p in ps:
            os.rename(p, p + ".gone")
        how = int(rng.integers(0, 3))
        if how == 2:
            for p in ps:
                open(p, "wb").write(b"broken")
        try:
            self.run([0.3, 0.6], 1 if how else 2, None, self.cats[0])
        except Exception:
            self.since.add("failures")
        finally:
            for p in ps:
                os.rename(p + ".gone", p)

    def run(self, spec, nproc, out, cat):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.kind == "bsds":
                return self.ev.evaluate(thresholds=spec, nproc=nproc, save_dir=out)
            return self.ev.evaluate_category(category=cat, thresholds=spec, nproc=nproc, save_dir=out)

    def counts(self, thr, cat, stats):
        names, t = self.t.names, self.t
        try:
            t.names = list(self.names)
            w = self.want
            if self.kind == "bsds":
                return trees.bsds_counts(t, thr, w["max_dist"], w["apply_thinning"], w["apply_nms"])
            if self.kind == "otf":
                if not trees.city_label_edges(t, cat, w["scale"], 1 if self.thin else 2, self.inst):
                    return None
                use = "otf"
            else:
                pre = {"reanno": "reanno_", "half": "half_"}.get(self.kind, "")
                use = f"{pre}{'thin' if self.thin else 'raw'}_{'isedge' if self.inst else 'edge'}"
            return trees.counts(t, cat, thr, use, scale=w["scale"], max_dist=w["max_dist"], thin=w["apply_thinning"], nms=w["apply_nms"],
                                kill=w["kill_internal"], skip=w["skip_if_nonexistent"], border=self.kind in ("sbd", "reanno"), stats=stats)
        finally:
            t.names = names

    def evaluate(self, ctx, hist, other=False):
        rng = ctx.rng
        spec = trees.thresholds(rng)
        if self.evals and rng.random() < 0.3:
            spec = copy.deepcopy(self.last)
            ctx.see("repeated evaluations")
        elif not isinstance(spec, (int, float)) and rng.random() < 0.1:
            spec = np.concatenate([[0.0], spec]) if isinstance(spec, np.ndarray) else [0.0] + spec
        self.last = copy.deepcopy(spec)
        thr = refs.thresholds_ref(spec)
        nproc = int(rng.choice([1, 1, 1, 2, 3]))
        out = self.out if rng.random() < 0.5 else None
        cat = self.cats[int(rng.integers(0, 2))]
        whole = self.kind != "bsds" and out and rng.random() < 0.25
        before = copy.deepcopy(spec), copy.deepcopy(self.ev.eval_params), list(self.ev.sample_names), os.getcwd()
        what = f"{self.kind} after {hist[-8:]}"
        if whole:
            cats = list(self.cats)
            asked = list(cats)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.ev.evaluate(categories=asked, thresholds=spec, nproc=nproc, save_dir=out)
            ctx.require(asked == cats, f"{what}: the list of categories was changed", got=asked)
            ctx.see("whole-dataset evaluations")
            got = {}
        else:
            cats = [cat]
            got = {cat: self.run(spec, nproc, out, cat)}
        ctx.require(type(spec) is type(before[0]) and np.array_equal(spec, before[0]), f"{what}: the thresholds were changed", got=spec)
        ctx.require(dict(self.ev.eval_params) == dict(before[1]), f"{what}: the parameters were changed", got=self.ev.eval_params, want=before[1])
        ctx.require(list(self.ev.sample_names) == before[2] == self.names, f"{what}: the sample names were changed")
        ctx.require(os.getcwd() == before[3], f"{what}: the working directory was changed")
        ctx.see("arguments compared")
        for c in cats:
            stats = {}
            cnts = self.counts(thr, c, stats)
            if cnts is None:
                ctx.see("undecided")
                continue
            info = dict(category=c, params=self.want, images=self.names)
            if c in got:
                trees.check_overall(ctx, [got[c][k] for k in trees.KEYS], thr, cnts, what, **info)
            if out:
                trees.check_files(ctx, out if self.kind == "bsds" else f"{out}/class_{c:03d}", self.names, thr, cnts, what, **info)
                ctx.see("evaluations saved over earlier ones", int("saved" in self.since))
            ctx.see("evaluations recomputed")
            ctx.see("matched pixels", stats.get("matched", 0))
            ctx.see("BSDS evaluations", int(self.kind == "bsds"))
            if self.evals:
                for s in self.since - {"saved"}:
                    ctx.see("evaluations after " + s)
                if other:
                    ctx.see("evaluations between other evaluators'")
            ctx.sig(self.kind, repr(hist[-6:]), repr(cnts), c)
        if got and rng.random() < 0.4:
            r = got[cat]
            for k in list(r):
                r[k] = -1
            ctx.see("results overwritten by the caller")
        self.evals += 1
        if out:
            self.since.add("saved")
        if nproc > 1:
            self.since.add("parallel ones")


KINDS = ["sbd", "reanno", "city", "half", "otf", "bsds"]


def step(ctx, h, hist, other=False):
    op = str(ctx.rng.choice(["eval"] * 5 + ["set", "set", "names", "edit", "exchange", "fail", "reject"]))
    hist.append((h.kind, op))
    if op == "eval":
        h.evaluate(ctx, hist, other)
    else:
        dict(set=h.set, names=h.rename, edit=h.edit, exchange=h.exchange, fail=h.fail, reject=h.rejected)[op](ctx)


def case_single(ctx, i):
    h = Held(ctx, KINDS[i % 6], ctx.tmp())
    hist = []
    h.evaluate(ctx, hist)
    for _ in range(int(ctx.rng.integers(4, 12))):
        step(ctx, h, hist)
    h.evaluate(ctx, hist)
    ctx.sample(evaluator=h.kind, history=[op for _, op in hist])


def case_interleaved(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kinds = [KINDS[i % 6], KINDS[int(rng.integers(0, 6))], KINDS[(i + 1) % 6]][: int(rng.integers(2, 4))]
    hs = [Held(ctx, k, f"{d}/{j}") for j, k in enumerate(kinds)]
    hist = []
    last = None
    for _ in range(int(rng.integers(5, 14))):
        h = hs[int(rng.integers(0, len(hs)))]
        step(ctx, h, hist, last is not h)
        last = h
    for h in hs:
        h.evaluate(ctx, hist, True)


def case_growing(ctx, i):
    """one evaluator per step over trees of other image sizes, same names, same directory"""
    import shutil
    rng = ctx.rng
    d = ctx.tmp() + "/tree"
    kind = KINDS[i % 6]
    hist = []
    for k in range(int(rng.integers(2, 4))):
        if os.path.exists(d):
            shutil.rmtree(d)
        h = Held(ctx, kind, d)
        hist.append((kind, f"tree {k}"))
        h.evaluate(ctx, hist, True)
        h.evaluate(ctx, hist, True)


def calls(rng):
    """name -> (module, function, arguments, a call that fails)"""
    from pyEdgeEval._lib import nms
    from pyEdgeEval.common.multi_label import rgb_multilabel_encoding
    from pyEdgeEval.preprocess import bwmorph_thin, fast_nms
    hw = int(rng.integers(9, 26)), int(rng.integers(9, 26))
    a = gens.binary(rng, hw)
    s = gens.smooth_strength(rng, hw)
    lab, inst, one, il, ign = scene(rng)
    m = (rng.random(lab.shape) < 0.5).astype(np.uint8)
    lib, pre, ml, et, ut = "pyEdgeEval._lib", "pyEdgeEval.preprocess", "pyEdgeEval.common.multi_label", "pyEdgeEval.edge_tools", "pyEdgeEval.utils"
    few = int(rng.integers(1, 5))
    seg = lab == lab.flat[int(rng.integers(0, lab.size))]
    thr = np.array([0.2, 0.5, 0.8])
    return dict(
        nms=(lib, "nms", (s, rng.random(hw) * 3, int(rng.integers(1, 3)), int(rng.integers(0, 6)), 1.01), lambda: nms(s, s[:-1], 1, 5, 1.0)),
        fast_nms=(pre, "fast_nms", (s, int(rng.integers(1, 3)), 5, 1.01), lambda: fast_nms(a.astype(int))),
        binary_thin=(pre, "binary_thin", (a,) + ((int(rng.integers(1, 4)),) if rng.random() < 0.3 else ()), None),
        bwmorph_thin=(pre, "bwmorph_thin", (a,) + ((int(rng.integers(1, 4)),) if rng.random() < 0.3 else ()), lambda: bwmorph_thin(a, 0)),
        mask2bdry=(ut, "mask2bdry", (m, np.zeros_like(m), int(rng.integers(1, 4))), None),
        loop_mask2edge=(et, "loop_mask2edge", (one, list(ign), int(rng.integers(1, 4))), None),
        loop_instance_mask2edge=(et, "loop_instance_mask2edge", (one, inst, list(il), list(ign), int(rng.integers(1, 4))), None),
        mask2onehot=(ut, "mask2onehot", (lab, [int(v) for v in np.unique(lab)][::-1]), None),
        mask_label2trainId=(ut, "mask_label2trainId", (lab, {int(v): k for k, v in enumerate(np.unique(lab)[:4])}), None),
        edge_multilabel2binary=(ut, "edge_multilabel2binary", (one,), None),
        encode_rgb=(ml, "rgb_multilabel_encoding", (one[:few],), lambda: rgb_multilabel_encoding(np.zeros((25, 3, 3), np.uint8))),
        encode_bits=(ml, "default_multilabel_encoding", (one[:few],), None),
        # no edge in the ground truth: nothing is matched, what is left is deterministic
        counted=(ml, "evaluate_boundaries_threshold", (thr, s, np.zeros(hw, np.uint8), None, 0.02, bool(rng.random() < 0.5), False, False,
                                                       bool(rng.random() < 0.6)), None),
        counted_several=("pyEdgeEval.common.binary_label", "evaluate_boundaries_threshold_multiple_gts",
                         (thr, s, [np.zeros(hw, np.uint8)], 0.02, bool(rng.random() < 0.5), bool(rng.random() < 0.6)), None),
        mp_mask2edge=(et, "mp_mask2edge", (one, list(ign), 2, 1), None),
    )


def turned(rng, args):
    """the same arguments with every map turned or shifted in the same way: same shapes, same sums"""
    k = int(rng.integers(0, 4))
    f = [lambda v: v[..., ::-1, :], lambda v: v[..., ::-1], lambda v: np.roll(v, 3, axis=-1), lambda v: np.roll(v, -2, axis=-2)][k]

    def go(v):
        if isinstance(v, np.ndarray) and v.ndim >= 2:
            return np.ascontiguousarray(f(v))
        return type(v)(go(x) for x in v) if isinstance(v, (list, tuple)) else copy.deepcopy(v)
    return tuple(go(v) for v in args)


def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (np.array_equal(a, b) and a.dtype == b.dtype if isinstance(a, np.ndarray) else a == b)


def scribble(v):
    if isinstance(v, (tuple, list)):
        for x in v:
            scribble(x)
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.size:
        v[...] = 1 - v if v.dtype == bool else v + 1


def case_functions(ctx, i):
    """every call gives what it gives in a fresh process, whatever came between, also after the caller wrote on the result"""
    rng = ctx.rng
    sets = [calls(rng) for _ in range(2)]
    sets += [{n: (m, f, turned(rng, args), bad) for n, (m, f, args, bad) in sets[k].items()} for k in (0, 0, 1)]
    first = {}
    hist = []
    names = [str(n) for n in rng.choice(list(sets[0]), 5, replace=False)]
    if rng.random() < 0.8 and "mp_mask2edge" in names:
        names.remove("mp_mask2edge")
    for _ in range(60):
        k, name = int(rng.integers(0, len(sets))), names[int(rng.integers(0, len(names)))]
        mod, fname, args, bad = sets[k][name]
        if bad is not None and rng.random() < 0.15:
            try:
                bad()
            except Exception:
                ctx.see("failing function calls between")
            hist.append((name, "fail"))
            continue
        hist.append((name, k))
        given = copy.deepcopy(args)
        got = getattr(importlib.import_module(mod), fname)(*given)
        again = (k, name) in first
        if not again:
            how, first[k, name] = fresh.call(mod, fname, args)
            ctx.require(how == "ok", f"{name} {how} in a fresh process: {first[k, name]}", arguments=args)
            ctx.see("calls compared with a fresh process")
        ctx.require(same(got, first[k, name]), f"{name} gives another result than in a fresh process after {hist[-12:]}",
                    arguments=args, got=got, fresh=first[k, name])
        ctx.see("function calls repeated", int(again))
        if rng.random() < 0.5:
            scribble(got)
    ctx.sig("functions", repr(hist))
