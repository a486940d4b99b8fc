"""C07: bwmorph_thin and binary_thin agree."""
import numpy as np

from vf import gens

ID = "C07"
RULE = "a distinct non-trivial evaluation is one distinct image thinned by both implementations that removed at least one pixel"
PLAN = {"quick": [("thick", 4), ("random", 1200), ("large", 192), ("reject", 8)], "thorough": [("thick", 24), ("random", 3000), ("large", 400), ("reject", 32)]}
MUST_SEE = ["images compared", "iteration limits compared", "rejections"]


def case_random(ctx, i):
    from pyEdgeEval.preprocess.thin import binary_thin, bwmorph_thin
    from scipy import ndimage as ndi
    rng = ctx.rng
    for _ in range(8):
        hw = gens.shape(rng, 1, 40)
        x = gens.binary(rng, hw)
        if rng.random() < 0.4:
            x = ndi.binary_dilation(x, iterations=int(rng.integers(1, 4)))
        x = x.astype([bool, np.uint8, float, np.int64][int(rng.integers(0, 4))])
        keep = x.copy()
        a, b = bwmorph_thin(x), binary_thin(x)
        info = dict(image=keep.astype(int))
        ctx.require(np.asarray(a).dtype == bool, "bwmorph_thin returns no bool mask", **info)
        ctx.equal(a, b, "bwmorph_thin against binary_thin", **info)
        ctx.equal(x, keep, "thinning changed its input", **info)
        ctx.see("images compared")
        for k in (1, 2, int(rng.integers(3, 10))):
            ctx.equal(bwmorph_thin(x, n_iter=k), binary_thin(x, max_iter=k), f"the implementations differ after {k} iterations", **info)
            ctx.see("iteration limits compared")
        if (np.asarray(a) != (keep != 0)).any():
            ctx.sig(keep.tobytes(), hw)
    ctx.sample(image=(keep != 0)[:8, :8].astype(int), thinned=np.asarray(a)[:8, :8].astype(int))


def case_large(ctx, i):
    """many pixels removed per iteration (counts that are multiples of powers of two), long thinnings"""
    from pyEdgeEval.preprocess.thin import binary_thin, bwmorph_thin
    rng = ctx.rng
    for _ in range(2):
        if rng.random() < 0.6:
            x = gens.mosaic(rng, int(rng.choice([256, 512, 128, 1024, 255, 257])))
        else:
            hw = int(rng.integers(60, 300)), int(rng.integers(60, 300))
            x = gens.blobs(rng, hw) if rng.random() < 0.7 else gens.binary(rng, hw)
        ctx.equal(bwmorph_thin(x), binary_thin(x), "bwmorph_thin against binary_thin", image=x.astype(int))
        k = int(rng.integers(1, 40))
        ctx.equal(bwmorph_thin(x, n_iter=k), binary_thin(x, max_iter=k), f"the implementations differ after {k} iterations", image=x.astype(int))
        ctx.see("images compared")
        ctx.see("iteration limits compared")
        ctx.see("large images")
        ctx.sig(np.packbits(x).tobytes(), x.shape)


def case_thick(ctx, i):
    """hundreds of iterations"""
    from pyEdgeEval.preprocess.thin import binary_thin, bwmorph_thin
    from vf.checks.c06 import thick_image
    x = thick_image(ctx.rng, i)
    ctx.equal(bwmorph_thin(x), binary_thin(x), "bwmorph_thin against binary_thin")
    k = int(ctx.rng.choice([200, 255, 256, 257]))
    ctx.equal(bwmorph_thin(x, n_iter=k), binary_thin(x, max_iter=k), f"the implementations differ after {k} iterations")
    ctx.see("images compared")
    ctx.see("thick images")
    ctx.sig(np.packbits(x).tobytes(), x.shape)


def case_reject(ctx, i):
    from pyEdgeEval.preprocess.thin import bwmorph_thin
    rng = ctx.rng
    hw = gens.shape(rng, 2, 12, 0)
    x = gens.binary(rng, hw).astype(np.uint8)
    bad = x.astype(int)
    bad[tuple(rng.integers(0, hw))] = rng.choice([2, -1, 255, 256, 257])
    frac = x.astype(float)
    frac[tuple(rng.integers(0, hw))] = 0.5
    for what, f in (("an image with a value other than 0 and 1", lambda: bwmorph_thin(bad)),
                    ("an image with a fractional value", lambda: bwmorph_thin(frac)),
                    ("a three-dimensional image", lambda: bwmorph_thin(np.stack([x, x]))),
                    ("a one-dimensional image", lambda: bwmorph_thin(x[0])),
                    ("n_iter 0", lambda: bwmorph_thin(x, n_iter=0)),
                    ("a negative n_iter", lambda: bwmorph_thin(x, n_iter=-int(rng.integers(1, 5))))):
        ctx.raises(ValueError, f, f"bwmorph_thin with {what}")
        ctx.see("rejections")
    ctx.sig("reject", x.tobytes())
