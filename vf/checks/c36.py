"""C36: comparison of converted Cityscapes edges with a reference tree."""
import contextlib
import io
import os
import re
import warnings

import numpy as np

from vf import trees
from vf.checks import c23

ID = "C36"
RULE = "a distinct non-trivial evaluation is one distinct pair of trees with at least one differing and one equal file whose report was compared"
PLAN = {"quick": [("trees", 260), ("file", 400)], "thorough": [("trees", 2000), ("file", 4000)]}
MUST_SEE = ["files compared", "equal files", "differing files", "files named", "differences of one pixel", "differences in one channel", "parallel comparisons", "tif comparisons",
            "script runs", "roots named like the reference", "instance-sensitive rejected", "other files around", "converted trees", "differences counted"]
ASSUMPTIONS = ["reference and converted files of a scene have the same size", "the report is read from stdout: totals per split, and path and count of each file with more than three differing values"]
CASE_WALL_S = 300


def read_report(text):
    """({split: missed}, {path: differing values})"""
    text = re.sub(r"[^\n]*\r", "", text)
    totals = {m[0]: int(m[1]) for m in re.findall(r">>> \[(\w+)\] total missed: +(\d+)", text)}
    named = {m[0]: int(m[1]) for m in re.findall(r"^(/\S+\.(?:png|tif)) (\d+)$", text, re.M)}
    return totals, named


def differ(rng, a):
    """a copy with some values changed, their number"""
    b = a.copy()
    how = int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 5]))
    n = [0, 1, int(rng.integers(2, 6)), int(rng.integers(4, 40)), 3, 0][how]
    if how == 4 and rng.random() < 0.5 or rng.random() < 0.15:
        # single bits, that is classes
        at = rng.choice(b.size, min(int(rng.integers(1, 12)), b.size), replace=False)
        b.flat[at] = b.flat[at] ^ (1 << int(rng.integers(0, 8 if b.dtype == np.uint8 else 19)))
        return b, int((a != b).sum())
    if how == 5:
        # the same values elsewhere
        b = np.roll(a, int(rng.integers(1, 4)), axis=int(rng.integers(0, a.ndim)))
    if n:
        at = rng.choice(b.size, min(n, b.size), replace=False)
        top = 1 << (8 if b.dtype == np.uint8 else 19)
        b.flat[at] = (b.flat[at].astype(np.int64) + rng.integers(1, top, len(at))) % top
    return b, int((a != b).sum())


def put(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    from PIL import Image
    Image.fromarray(a).save(path)


def pair(ctx, rng, ref, conv, ext, given=None):
    hw = int(rng.integers(4, 30)), int(rng.integers(4, 30))
    if given is not None:
        a = given
    elif ext == "png":
        a = rng.integers(0, 256, hw + (3,), np.uint8) * (rng.random(hw + (1,)) < 0.3).astype(np.uint8)
    else:
        a = (rng.integers(0, 1 << 19, hw) * (rng.random(hw) < 0.3)).astype(np.int32)
    b, n = differ(rng, a)
    if given is None:
        put(conv, a)
    put(ref, b)
    ctx.see("differing files" if n else "equal files")
    ctx.see("differences counted", n)
    if n == 1:
        ctx.see("differences of one pixel")
        ctx.see("differences in one channel", int(a.ndim == 3))
    return n


def root_of(ctx, rng):
    d = ctx.tmp()
    k = rng.random()
    if k < 0.35:
        d += ["/gtProc", "/my_gtProc_run", "/gtProc/data"][int(rng.integers(0, 3))]
        ctx.see("roots named like the reference")
    elif k < 0.5:
        d += "/gtEval"
    os.makedirs(d, exist_ok=True)
    return d


def case_trees(ctx, i):
    from pyEdgeEval.helpers import convert_cityscapes as H
    from vf.framework import REPO
    rng = ctx.rng
    root = root_of(ctx, rng)
    out = str(rng.choice(["gtEval", "gtEval", "converted"]))
    ext = str(rng.choice(["png", "png", "tif"]))
    script = rng.random() < 0.4
    refdir = "gtProc" if script or rng.random() < 0.7 else "matlab"
    nproc = int(rng.choice([1, 1, 2, 3]))
    diffs = {}
    converted = ext == "png" and rng.random() < 0.3
    ctx.see("converted trees", int(converted))
    scenes = {}
    for split in ("train", "val"):
        for k in range(int(rng.integers(0 if not converted else 1, 6))):
            town = str(rng.choice(["ulm", "bonn", "val", "train"]))
            scenes[f"{split}/{town}/{town}_{k:06d}_{rng.integers(0, 10**6):06d}"] = split
        os.makedirs(f"{root}/{refdir}/{split}", exist_ok=True)
    if converted:
        for n in scenes:
            hw = int(rng.integers(10, 30)), int(rng.integers(10, 30))
            lab, inst = trees.city_scene(rng, hw, rng.permutation([7, 11, 24, 26, 21, 23]))
            split, name = n.split("/", 1)
            trees.save_scene(root, split, name, lab, inst)
            with open(f"{root}/gtFine/{n}_gtFine_polygons.json", "w") as f:
                f.write('{"imgHeight": %d, "imgWidth": %d, "objects": []}' % hw)
        os.makedirs(root + "/gtFine/test", exist_ok=True)
        with contextlib.redirect_stdout(io.StringIO()):
            H.convert_cityscapes(out, root, inst_sensitive=False, nproc=1)
    for n, split in scenes.items():
        conv = f"{root}/{out}/{n}_gtProc_{'edge' if split == 'train' else 'raw_edge'}.{ext}"
        ref = f"{root}/{refdir}/{n}_gtProc_edge.{ext}"
        diffs[ref] = pair(ctx, rng, ref, conv, ext, c23_read(conv) if converted else None)
        if rng.random() < 0.3:
            # of other kinds, not compared
            put(f"{root}/{refdir}/{n}_gtProc_isedge.{ext}", np.zeros((5, 5), np.uint8))
            put(f"{root}/{out}/{n}_gtProc_half_raw_edge.{ext}", np.zeros((5, 5), np.uint8))
            ctx.see("other files around")
    before = snapshot(root)
    text = io.StringIO()
    with contextlib.redirect_stdout(text), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if script:
            c23.run_script(f"{REPO}/scripts/convert_datasets/cityscapes.py", ["--root", root, "--test_mode", "--nonIS", "--nproc", str(nproc), "--ext", ext] + (
                ["-o", out] if out != "gtEval" or rng.random() < 0.5 else []))
            ctx.see("script runs")
        else:
            H.test_against_matlab(out, refdir, root, inst_sensitive=False, ext=ext, nproc=nproc)
    ctx.see("parallel comparisons", int(nproc > 1))
    ctx.see("tif comparisons", int(ext == "tif"))
    ctx.see("files compared", len(diffs))
    totals, named = read_report(text.getvalue())
    info = dict(root=root, ext=ext, nproc=nproc, script=bool(script), differences=diffs)
    want = {s: sum(1 for p, n in diffs.items() if n and scenes_of(p, root, refdir) == s) for s in ("train", "val")}
    ctx.require(totals == want, f"the totals reported are {totals}, expected {want}", **info)
    want = {p: n for p, n in diffs.items() if n > 3}
    ctx.require({os.path.normpath(p): n for p, n in named.items()} == want, "the files named differ from those with more than three differing values", got=named, **info)
    ctx.see("files named", len(want))
    ctx.require(snapshot(root) == before, "the comparison changed files", **info)
    if any(diffs.values()) and not all(diffs.values()):
        ctx.sig(sorted(diffs.values()), ext, nproc, script)
        ctx.sample(totals=totals, named=len(named), files=len(diffs))
    if rng.random() < 0.1:
        ctx.raises((AssertionError, ValueError), lambda: H.test_against_matlab(out, refdir, root, inst_sensitive=True, ext=ext, nproc=1),
                   "the comparison of instance-sensitive edges")
        ctx.see("instance-sensitive rejected")


def scenes_of(p, root, refdir):
    return p[len(f"{root}/{refdir}/"):].split("/")[0]


def c23_read(path):
    from PIL import Image
    return np.array(Image.open(path))


def snapshot(root):
    out = {}
    for a, _, fs in os.walk(root):
        for f in fs:
            with open(f"{a}/{f}", "rb") as h:
                out[f"{a}/{f}"] = h.read()
    return out


def case_file(ctx, i):
    from pyEdgeEval.helpers.convert_cityscapes import test_edges
    rng = ctx.rng
    root = root_of(ctx, rng)
    ext = str(rng.choice(["png", "tif"]))
    town = str(rng.choice(["ulm", "bonn"]))
    n = f"{root}/{{}}/{rng.choice(['train', 'val'])}/{town}/{town}_000001_{rng.integers(0, 10**6):06d}{{}}.{ext}"
    ref, conv = n.format("gtProc", "_gtProc_edge"), n.format("gtEval", "_gtProc_raw_edge")
    want = pair(ctx, rng, ref, conv, ext)
    before = snapshot(root)
    fn, diff, equal = test_edges(ref, orig_suffix=f"_gtProc_edge.{ext}", test_suffix=f"_gtProc_raw_edge.{ext}")
    ctx.require((fn, int(diff), bool(equal)) == (ref, want, want == 0), f"one file: reported {diff} differences ({'equal' if equal else 'not equal'}), expected {want}",
                file=fn, want=ref)
    ctx.require(snapshot(root) == before, "the comparison changed files")
    ctx.see("files compared")
