"""C06: binary_thin is Guo-Hall thinning to its fixpoint and preserves topology."""
import numpy as np

from vf import gens, refs

ID = "C06"
RULE = "a distinct non-trivial evaluation is one thinned distinct image from which at least one pixel was removed"
PLAN = {"quick": [("thick", 4), ("random", 1200), ("large", 128), ("exhaustive", 16), ("tables", 160)],
        "thorough": [("thick", 24), ("random", 3000), ("large", 300), ("exhaustive", 16), ("exhaustive5", 64), ("tables", 1500)]}
MUST_SEE = ["thinned images", "pixels removed", "images with holes", "iteration limits reached", "windows enumerated", "thinnings longer than 256 iterations"]


def check(ctx, x, full=True):
    from pyEdgeEval.preprocess import binary_thin
    xb = np.asarray(x) != 0
    got = binary_thin(x)
    info = dict(image=xb.astype(int), got=np.asarray(got).astype(int))
    ctx.require(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == xb.shape, "the result is no bool mask", **info)
    ctx.require(not (got & ~xb).any(), "the result is not a subset of the input", **info)
    ctx.equal(got, refs.guo_hall(xb), "binary_thin against Guo-Hall thinning", **info)
    why = refs.topology(xb, got)
    ctx.require(why is None, f"topology changed: {why}", **info)
    ctx.see("thinned images")
    ctx.see("pixels removed", int((xb & ~got).sum()))
    if (xb & ~got).any():
        ctx.sig(np.packbits(xb).tobytes(), xb.shape)
    if full:
        ctx.equal(binary_thin(got), got, "thinning again changes the result", **info)
    return xb, got


def case_random(ctx, i):
    from pyEdgeEval.preprocess import binary_thin
    from scipy import ndimage as ndi
    rng = ctx.rng
    for _ in range(8):
        hw = gens.shape(rng, 1, 40)
        x = gens.binary(rng, hw)
        if rng.random() < 0.4:
            x = ndi.binary_dilation(x, iterations=int(rng.integers(1, 4)))
        kind = rng.integers(0, 4)
        y = x if kind == 0 else x.astype(np.uint8) if kind == 1 else x * 255.0 if kind == 2 else np.where(x, -3, 0)
        xb, got = check(ctx, y)
        if ndi.label(~np.pad(xb, 1))[1] > 1:
            ctx.see("images with holes")
        for k in (0, 1, 2, int(rng.integers(3, 9))):
            lim = binary_thin(y, max_iter=k)
            ctx.equal(lim, refs.guo_hall(xb, k), f"binary_thin after {k} iterations", image=xb.astype(int))
            ctx.require(lim.dtype == bool, "binary_thin with an iteration limit returns no bool mask")
            if not np.array_equal(lim, got):
                ctx.see("iteration limits reached")
    ctx.sample(image=xb[:8, :8].astype(int), thinned=got[:8, :8].astype(int))


def case_large(ctx, i):
    """long thinnings, and counts of removed pixels that are multiples of powers of two"""
    rng = ctx.rng
    if rng.random() < 0.5:
        x = gens.mosaic(rng, int(rng.choice([256, 512, 128, 1024, 255, 257])))
    else:
        hw = int(rng.integers(60, 300)), int(rng.integers(60, 300))
        x = gens.blobs(rng, hw) if rng.random() < 0.7 else gens.binary(rng, hw)
    xb, got = check(ctx, x, full=False)
    from pyEdgeEval.preprocess import binary_thin
    k = int(rng.integers(1, 40))
    ctx.equal(binary_thin(x, max_iter=k), refs.guo_hall(xb, k), f"binary_thin after {k} iterations", image=xb.astype(int))
    ctx.see("large images")


def thick_image(rng, i):
    """images whose thinning takes hundreds of iterations (solid, ring, cross, noisy solid), or long and sparse ones"""
    hw = [(530, 520), (524, 600), (600, 600), (2, 3000)][i % 4]
    x = np.ones(hw, bool)
    k = rng.integers(0, 4)
    if i % 4 == 2:
        x = gens.strokes(rng, hw, 12) | (rng.random(hw) < 0.02)
    elif k == 1:
        # the hole makes the ring thin where it is narrowest
        x[3:6, 3:6] = False
    elif k == 2:
        x[:20, :20] = False
        x[-7:, -30:] = False
    elif k == 3:
        x[[0, -1]] = False
        x[rng.integers(0, min(3, hw[0]), 4), rng.integers(0, hw[1], 4)] = False
    return x


def case_thick(ctx, i):
    from pyEdgeEval.preprocess import binary_thin
    x = thick_image(ctx.rng, i)
    xb, got = check(ctx, x, full=False)
    k = int(ctx.rng.choice([200, 255, 256, 257]))
    if i % 4 < 2:
        ctx.equal(binary_thin(x, max_iter=k), refs.guo_hall(xb, k), f"binary_thin after {k} iterations")
        ctx.see("thinnings longer than 256 iterations", int(not np.array_equal(refs.guo_hall(xb, 256), got)))


def windows(ctx, side, lo, hi):
    """all side x side images numbered lo..hi, thinned many at a time in one mosaic whose
    tiles are too far apart to interact, then each looked at alone"""
    from pyEdgeEval.preprocess import binary_thin
    step = side + 2
    cols = 64
    for base in range(lo, hi, 4096):
        n = min(4096, hi - base)
        v = np.arange(base, base + n)
        tiles = ((v[:, None] >> np.arange(side * side)) & 1).astype(bool).reshape(n, side, side)
        rows = -(-n // cols)
        mosaic = np.zeros((rows * step, cols * step), bool)
        for j in range(n):
            y, x = j // cols * step + 1, j % cols * step + 1
            mosaic[y:y + side, x:x + side] = tiles[j]
        got = binary_thin(mosaic)
        want = refs.guo_hall(mosaic)
        if not np.array_equal(got, want):
            y, x = np.argwhere(got != want)[0]
            j = int(y // step * cols + x // step)
            ctx.equal(binary_thin(tiles[j]), refs.guo_hall(tiles[j]), "binary_thin against Guo-Hall thinning",
                      image=tiles[j].astype(int))
        why = refs.topology(mosaic, got)
        ctx.require(why is None, f"topology of the mosaic of windows {base}.. changed: {why}")
        ctx.see("windows enumerated", n)
        ctx.see("pixels removed", int((mosaic & ~got).sum()))
        for j in range(n):
            ctx.sigs.append(hash((side, base + j)) & 0xffffffff)


def case_exhaustive(ctx, i):
    """every 4x4 image"""
    windows(ctx, 4, i * 4096, (i + 1) * 4096)


def case_exhaustive5(ctx, i):
    """a 1/32 sample of the 5x5 images, each case a stretch of them"""
    lo = (i * 524288 + (ctx.seed * 7919) % 32 * 16384) % (1 << 25)
    windows(ctx, 5, lo, lo + 16384)


def case_tables(ctx, i):
    """the neighbourhood tables thinning is made of: weights 1 2 4 / 8 16 32 / 64 128 256, the outside is 0"""
    from pyEdgeEval.preprocess.thin import thin as t
    if not all(hasattr(t, n) for n in ("binary_image_to_lut_indices", "apply_lut", "identity_lut", "lut_masks_one", "lut_masks_zero")):
        ctx.see("thinning made without these tables")  # they are no part of the property
        return
    rng = ctx.rng
    hw = gens.shape(rng, 1, 40)
    x = gens.binary(rng, hw).astype([bool, np.uint8, np.int64, float][int(rng.integers(0, 4))])
    if x.dtype != bool:
        x = x * rng.choice(np.array([1, 2, 200, 255] if x.dtype == np.uint8 else [1, 2, -3, 1000]), hw).astype(x.dtype)
    on = np.pad(x != 0, 1).astype(int)
    want = sum(on[1 + dy:1 + dy + hw[0], 1 + dx:1 + dx + hw[1]] << ((dy + 1) * 3 + dx + 1) for dy in (-1, 0, 1) for dx in (-1, 0, 1))
    info = dict(image=x)
    keep = x.copy()
    ctx.equal(t.binary_image_to_lut_indices(x), want, "neighbourhood indices", **info)
    lut = rng.random(512) < 0.5
    if rng.random() < 0.3:
        lut = rng.integers(0, 100, 512)
    ctx.equal(t.apply_lut(x, lut), lut[want], "a table applied to an image", **info)
    ctx.equal(t.apply_lut(x, t.identity_lut()), x != 0, "the identity table", **info)
    ctx.equal(x, keep, "image after the table was applied", **info)
    for k, (dy, dx) in enumerate([(0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1)], 1):
        n = on[1 + dy:1 + dy + hw[0], 1 + dx:1 + dx + hw[1]]
        ctx.equal(t.apply_lut(x, t.lut_masks_one(k)), n == 1, f"neighbour {k} is set", **info)
        ctx.equal(t.apply_lut(x, t.lut_masks_zero(k)), n == 0, f"neighbour {k} is not set", **info)
    for bad in (lut[:511], np.concatenate([lut, lut[:1]]), lut.reshape(2, 256), lut.reshape(512, 1), lut[:256]):
        ctx.raises(ValueError, lambda: t.apply_lut(x, bad), "a table of the wrong shape", shape=bad.shape)
        ctx.see("wrong tables refused")
    for bad in (x.ravel(), x[None], x[..., None]):
        ctx.raises(ValueError, lambda: t.binary_image_to_lut_indices(bad), "an image that is not 2D", shape=bad.shape)
    ctx.see("neighbourhood tables applied")
    ctx.sig("table", keep.tobytes(), lut.tobytes())
