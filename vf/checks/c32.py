"""C32: batch non-maximum suppression of saved predictions."""
import os

import cv2
import numpy as np
from PIL import Image

from vf import gens

ID = "C32"
RULE = "a distinct non-trivial evaluation is one distinct directory of predictions whose every output file was compared"
PLAN = {"quick": [("one", 160), ("results", 160), ("all", 160), ("rejected", 12)],
        "thorough": [("one", 1500), ("results", 2000), ("all", 2000), ("rejected", 12)]}
MUST_SEE = ["files suppressed", "existing outputs left alone", "names with several dots", "files of another format", "several models",
            "mat files", "npy files", "images returned without saving", "uint8 predictions", "float predictions", "wrong calls rejected",
            "outputs with edges", "directories of many files", "runs over finished outputs", "constant predictions"]
ASSUMPTIONS = ["fast_nms itself is decided by C05"]


def image(ctx, big=False):
    rng = ctx.rng
    h, w = int(rng.integers(11, 40)), int(rng.integers(11, 40))
    if big:
        h, w = 4 * h, 4 * w
    a = gens.smooth_strength(rng, (h, w)) if rng.random() < 0.5 else rng.random((h, w))
    if rng.random() < 0.6:  # ridges
        ys, xs = np.mgrid[0:h, 0:w]
        a = np.exp(-np.abs(np.sin(xs / rng.uniform(2, 6) + ys / rng.uniform(2, 9))) * rng.uniform(2, 8))
    if rng.random() < 0.05:     # a prediction without any edge
        a = np.full((h, w), float(rng.choice([0, 0, 1, 0.4])))
        ctx.see("constant predictions")
    k = rng.integers(0, 3)
    if k == 0:
        ctx.see("uint8 predictions")
        return (a * 255).astype(np.uint8)
    ctx.see("float predictions")
    return a.astype(np.float64 if k == 1 else np.float32)


class Strengths:
    """what fast_nms leaves; its 8 bit form is the nearest of 256 levels (either at half a level)"""
    def __init__(self, a):
        from pyEdgeEval.preprocess import fast_nms
        self.v = 255 * np.clip(np.asarray(fast_nms(a.copy(), r=1, s=5, m=1.01), np.float64), 0, 1)

    def compare(self, ctx, got, what, **info):
        ctx.require(got.dtype == np.uint8 and got.shape == self.v.shape, f"{what}: {got.dtype} {got.shape}", **info)
        off = np.abs(got - self.v)
        ctx.require((off <= 0.5 + 1e-6).all(), f"{what}: {int((off > 0.5 + 1e-6).sum())} pixels are not the suppressed strengths",
                    got=got, want=np.round(self.v), **info)

    def any(self):
        return self.v.any()


def suppressed(a):
    return Strengths(a)


def read(path):
    with open(path, "rb") as f:
        ok = f.read(8) == b"\x89PNG\r\n\x1a\n"
    return np.array(Image.open(path)) if ok else None


def compare(ctx, path, want, what, **info):
    ctx.require(os.path.isfile(path), f"{what}: {os.path.basename(path)} is missing", files=sorted(os.listdir(os.path.dirname(path))), **info)
    got = read(path)
    ctx.require(got is not None and got.dtype == np.uint8, f"{what}: {os.path.basename(path)} is not an 8-bit PNG", **info)
    want.compare(ctx, got, f"{what}: {os.path.basename(path)}", **info)
    ctx.see("files suppressed")
    ctx.see("outputs with edges", int(want.any()))


NAMES = ["a", "b1", "100007", "im.v2", "x.png", "2008_000001", "with space", "é", "..c", "UP.MAT", "n.npy", "m.mat"]


def names(ctx, n):
    rng = ctx.rng
    out = [str(v) for v in rng.permutation(NAMES)[:n]]
    out += [f"f{k:05d}" for k in range(n - len(out))]
    ctx.see("names with several dots", sum("." in v for v in out))
    return out


def number(ctx):
    if ctx.rng.random() < 0.04:
        ctx.see("directories of many files")
        return 120
    return int(ctx.rng.integers(1, 7))


def content(d):
    return {f: (open(f"{d}/{f}", "rb").read(), os.stat(f"{d}/{f}").st_mtime_ns) for f in sorted(os.listdir(d))}


def case_one(ctx, i):
    from pyEdgeEval.preprocess.nms.fast_nms import nms_process_one_image
    rng = ctx.rng
    d = ctx.tmp()
    a = image(ctx, i % 11 == 0)
    before = a.copy()
    want = suppressed(a)
    if i % 3 == 0:
        got = nms_process_one_image(a, save=False) if rng.random() < 0.5 else nms_process_one_image(a, d + "/x.jpg", save=False)
        ctx.require(os.listdir(d) == [], "a file was written although save=False", files=os.listdir(d))
        ctx.see("images returned without saving")
    else:
        path = f"{d}/{names(ctx, 1)[0]}.png"
        got = nms_process_one_image(a, path, True) if rng.random() < 0.5 else nms_process_one_image(img=a, save_path=path)
        compare(ctx, path, want, "nms_process_one_image")
        ctx.require(len(os.listdir(d)) == 1, "further files were written", files=os.listdir(d))
    ctx.require(got.dtype == np.uint8, f"returned {got.dtype}")
    want.compare(ctx, got, "nms_process_one_image")
    ctx.equal(a, before, "the image was modified")
    ctx.sig(a.tobytes())


def put(ctx, d, name, fmt, key, a):
    from scipy.io import savemat
    p = f"{d}/{name}{fmt}"
    if fmt == ".mat":
        savemat(p, {key: a, "other": np.zeros((3, 3))})
        ctx.see("mat files")
    else:
        np.save(p, a)
        ctx.see("npy files")


def finished(ctx, out, stems):
    """some outputs exist already (of a run that was stopped): they stay as they are"""
    keep = {}
    if ctx.rng.random() < 0.5:
        return keep
    os.makedirs(out, exist_ok=True)
    for s in stems:
        if ctx.rng.random() < 0.3:
            p = f"{out}/{s}.png"
            if ctx.rng.random() < 0.5:
                Image.fromarray(np.full((5, 5), 7, np.uint8)).save(p)
            else:
                open(p, "wb").write(b"something else")
            keep[s] = open(p, "rb").read()
    return keep


def verify(ctx, out, want, keep, what):
    files = sorted(os.listdir(out))
    ctx.require(files == sorted(s + ".png" for s in want), f"{what}: files {files[:20]} instead of {sorted(want)[:20]}")
    for s, w in want.items():
        p = f"{out}/{s}.png"
        if s in keep:
            ctx.require(open(p, "rb").read() == keep[s], f"{what}: the existing {s}.png was replaced")
            ctx.see("existing outputs left alone")
        else:
            compare(ctx, p, w, what)


def case_results(ctx, i):
    from pyEdgeEval.preprocess.nms.fast_nms import nms_results
    d = ctx.tmp()
    src, out = d + "/in", d + "/new/out"
    os.makedirs(src)
    want, loaded = {}, []
    imgs = {}
    fmt = [".npy", ".png", ".bin", ""][i % 4]
    for s in names(ctx, number(ctx)):
        if fmt == "" and "." in s:
            continue
        a = image(ctx)
        if fmt == ".png":
            a = a if a.dtype == np.uint8 else (a * 255).astype(np.uint8)
            Image.fromarray(a).save(f"{src}/{s}.png")
        else:
            with open(f"{src}/{s}{fmt}", "wb") as f:
                np.save(f, a)
        imgs[s] = a
        want[s] = suppressed(a)

    def loader(path):
        loaded.append(path)
        return cv2.imread(path, cv2.IMREAD_GRAYSCALE) if fmt == ".png" else np.load(open(path, "rb"))
    if fmt == ".png":
        want = {s: suppressed(np.array(Image.open(f"{src}/{s}.png"))) for s in want}
    keep = finished(ctx, out, want)
    nms_results(src, out, loader)
    verify(ctx, out, want, keep, "nms_results")
    ctx.require(sorted(map(str, loaded)) == sorted(f"{src}/{s}{fmt}" for s in want if s not in keep), "loaded files", got=sorted(loaded)[:20])
    state = content(out)
    nms_results(src, out, loader)
    ctx.require(content(out) == state, "a second run changes finished outputs")
    ctx.see("runs over finished outputs")
    ctx.sig("results", tuple(want), fmt, tuple(keep), repr([float(v.v.sum()) for v in want.values()]))
    ctx.sample(files=sorted(os.listdir(src))[:5], kept=sorted(keep))


def case_all(ctx, i):
    from pyEdgeEval.preprocess.nms.fast_nms import nms_all_results
    rng = ctx.rng
    d = ctx.tmp()
    src, out = d + "/in", d + "/out"
    os.makedirs(src)
    fmt = [".mat", ".npy"][i % 2]
    key = str(rng.choice(["edge", "result", "predmap"]))
    want = {}
    ns = names(ctx, number(ctx) + 1)
    for k, s in enumerate(ns):
        a = image(ctx)
        other = k == 0 and rng.random() < 0.6
        if other and rng.random() < 0.3:
            # the format's own extension in capitals is no file of that format
            with open(f"{src}/{s}{fmt.upper()}", "wb") as f:
                np.save(f, a)
        else:
            put(ctx, src, s, [".npy", ".mat"][i % 2] if other else fmt, key, a)
        if other:
            ctx.see("files of another format")
        else:
            want[s] = suppressed(a)
    if not want:
        return
    if rng.random() < 0.3:
        open(src + "/notes.txt", "w").write("x")
        ctx.see("files of another format")
    models = ["hed", "casenet/r50", "dff"][: int(rng.integers(1, 4))]
    ctx.see("several models", int(len(models) > 1))
    keeps = {m: finished(ctx, f"{out}/{m}", want) for m in models}
    arg = models[0] if len(models) == 1 and rng.random() < 0.5 else models
    kw = dict(key=key) if fmt == ".mat" else {}
    run = lambda: nms_all_results(arg, src, out, **kw, **({} if fmt == ".mat" and rng.random() < 0.5 else dict(file_format=fmt)))
    run()
    for m in models:
        verify(ctx, f"{out}/{m}", want, keeps[m], f"nms_all_results, model {m}")
    state = [content(f"{out}/{m}") for m in models]
    run()
    ctx.require([content(f"{out}/{m}") for m in models] == state, "a second run changes finished outputs")
    ctx.see("runs over finished outputs")
    ctx.sig("all", tuple(want), tuple(models), repr([float(v.v.sum()) for v in want.values()]))


def case_rejected(ctx, i):
    from pyEdgeEval.preprocess.nms.fast_nms import nms_all_results, nms_process_one_image, nms_results
    d = ctx.tmp()
    os.makedirs(d + "/in")
    a = image(ctx)
    put(ctx, d + "/in", "a", ".mat", "edge", a)
    bad = (AssertionError, ValueError, OSError)
    call = [lambda: nms_process_one_image(a, d + "/x.jpg"), lambda: nms_results(d + "/gone", d + "/o", np.load),
            lambda: nms_all_results("m", d + "/gone", d + "/o", "edge"), lambda: nms_all_results("m", d + "/in", d + "/o"),
            lambda: nms_all_results("m", d + "/in", d + "/o", "edge", ".txt"), lambda: nms_all_results("m", d + "/in", d + "/o", "edge", "mat")][i % 6]
    ctx.raises(bad, call, f"wrong call {i % 6}")
    ctx.require(not os.path.exists(d + "/x.jpg"), "an image was written under a name that is not .png")
    ctx.see("wrong calls rejected")
    ctx.sig("rejected", i % 6)
