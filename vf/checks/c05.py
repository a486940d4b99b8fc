"""C05: nms and fast_nms follow their definition."""
import numpy as np

from vf import gens, refs

ID = "C05"
RULE = "a distinct non-trivial evaluation is one nms or fast_nms call on a distinct image with both kept and suppressed pixels"
PLAN = {"quick": [("wide", 40), ("nms", 3200), ("fast", 1600), ("tri", 600)], "thorough": [("wide", 300), ("nms", 8000), ("fast", 4000), ("tri", 3000)]}
MUST_SEE = ["pixels kept", "pixels suppressed", "border pixels faded", "one pixel wide images", "nms calls", "fast_nms calls", "triangle filters", "triangle filters with a step", "filters wider than the image", "faint images", "default parameters"]
ASSUMPTIONS = ["pixels whose strength times m equals the interpolated strength up to rounding are not decided"]


def params(rng):
    return dict(r=int(rng.choice([1, 1, 2, 3, 0, 5])), s=int(rng.choice([0, 1, 5, 5, 3, 40])),
                m=float(rng.choice([1.01, 1.0, 1.01, 0.9, 1.3])))


def image(rng, hw):
    k = rng.integers(0, 5)
    if k == 0:
        return gens.smooth_strength(rng, hw)
    if k == 1:
        return rng.random(hw)
    if k == 2:
        return gens.levels(rng, hw) / 255.0
    if k == 3:
        return gens.binary(rng, hw).astype(float)
    return rng.random(hw) * gens.noise(rng, hw, 0.3)


def compare(ctx, got, want, sure, src, what, **info):
    ctx.require(isinstance(got, np.ndarray) and got.shape == want.shape, f"{what}: wrong shape", **info)
    bad = sure & ~(np.abs(got - want) <= 1e-12 + 1e-9 * np.abs(want))
    ctx.require(not bad.any(), f"{what} differs from its definition at {int(bad.sum())} pixels, "
                f"first {tuple(map(int, np.argwhere(bad)[0])) if bad.any() else None}: "
                f"{got[bad][:1]} instead of {want[bad][:1]}", **info)
    ctx.see("pixels kept", int(((got != 0) & sure).sum()))
    ctx.see("pixels suppressed", int(((got == 0) & (src != 0) & sure).sum()))
    ctx.see("pixels undecided by rounding", int((~sure).sum()))


def case_nms(ctx, i):
    from pyEdgeEval._lib import nms
    rng = ctx.rng
    for _ in range(6):
        hw = gens.shape(rng, 1, 24, 0.25)
        e = image(rng, hw)
        k = rng.integers(0, 3)
        ori = rng.uniform(0, np.pi, hw) if k == 0 else rng.uniform(-10, 10, hw) if k == 1 else rng.choice([0, np.pi / 2, np.pi / 4, 1.0], hw)
        p = params(rng)
        got = nms(e, ori, **p)
        want, sure = refs.nms_ref(e, ori, **p)
        compare(ctx, got, want, sure, e, "nms", edge=e, ori=ori, **p)
        ctx.see("nms calls")
        if rng.random() < 0.2:
            ctx.equal(nms(e, ori), nms(e, ori, r=1, s=5, m=1.01), "the parameters nms documents as defaults are not the ones it uses")
            ctx.see("default parameters")
        if min(hw) == 1:
            ctx.see("one pixel wide images")
        s = min(p["s"], hw[0] // 2, hw[1] // 2)
        if s > 1:
            ctx.see("border pixels faded", int(((got != e) & (got != 0)).sum()))
        if (got != 0).any() and ((got == 0) & (e != 0)).any():
            ctx.sig(e.tobytes(), ori.tobytes(), tuple(p.values()))
    ctx.sample(edge=e[:4, :4], params=p, out=got[:4, :4])


def case_wide(ctx, i):
    """sizes of the benchmarks' images, long offsets, wide borders"""
    from pyEdgeEval._lib import nms
    rng = ctx.rng
    hw = [(321, 481), (1, 700), (700, 2), (300, 520), (520, 300), (40, 1100)][i % 6]
    e = image(rng, hw)
    ori = rng.uniform(0, np.pi, hw) if rng.random() < 0.5 else rng.choice([0, np.pi / 2, np.pi / 4, 1.0], hw)
    p = dict(r=int(rng.choice([1, 2, 5, 12, 20])), s=int(rng.choice([0, 5, 60, 130, 200])), m=float(rng.choice([1.01, 1.0, 1.3])))
    got = nms(e, ori, **p)
    want, sure = refs.nms_ref(e, ori, **p)
    compare(ctx, got, want, sure, e, "nms", edge=e, ori=ori, **p)
    ctx.see("large images")
    ctx.sig(e.tobytes(), ori.tobytes(), tuple(p.values()))
    if min(hw) >= 5:
        fast(ctx, hw)


def case_fast(ctx, i):
    for _ in range(4):
        # the derivative needs two pixels each way, the smoothing four
        fast(ctx, (int(ctx.rng.integers(5, 40)), int(ctx.rng.integers(5, 40))))


def fast(ctx, hw):
    from pyEdgeEval.preprocess import fast_nms
    rng = ctx.rng
    e = image(rng, hw)
    if rng.random() < 0.25:
        # strengths outside of [0, 1]
        e = e * rng.choice([2, 10, 300, 70000]) - (rng.random() < 0.3) * 0.5
    kind = ("f8", "f4", "u1")[int(rng.integers(0, 3))]
    if rng.random() < 0.15:
        # very faint ones: the definition knows no absolute strength
        e, kind = e * float(rng.choice([1e-4, 1e-6, 1e-9])), "f8"
        ctx.see("faint images")
    img = e if kind == "f8" else e.astype(np.float32) if kind == "f4" else np.round(np.clip(e, 0, 1) * 255).astype(np.uint8)
    p = params(rng)
    got = fast_nms(img, **p)
    ctx.see("fast_nms calls")
    src = img / 255.0 if kind == "u1" else img.astype(np.float64)
    edge = refs.conv_tri_ref(src, 1)
    gx, gy = refs.gradients(refs.conv_tri_ref(edge, 4))
    xx, _ = refs.gradients(gx)
    xy, yy = refs.gradients(gy)
    # where a second derivative vanishes its sign is a matter of rounding
    scale = max(np.abs(xx).max(), np.abs(xy).max(), np.abs(yy).max(), 1e-20)
    eps = 1e-4 if kind == "f4" else 1e-9
    firm = (np.abs(xx) > eps * scale) & (np.abs(xy) > eps * scale) & (np.abs(yy) > eps * scale)
    # only inside orientations are firm: an orientation at 0 or pi is the same direction
    xx = np.where(xx == 0, 1e-5, xx)
    ori = np.mod(np.arctan(yy * np.sign(-xy) / xx), np.pi)
    want, sure = refs.nms_ref(edge, ori, **p)
    top = float(np.abs(src).max())
    tol = (2e-5 if kind == "f4" else 1e-9) * (top if top < 1e-3 else max(1.0, top))
    if kind == "f4":
        # single precision inputs: decide only pixels that stay the same under small perturbation of the margin
        w2, _ = refs.nms_ref(edge, ori, p["r"], p["s"], p["m"] * 1.003)
        w3, _ = refs.nms_ref(edge, ori, p["r"], p["s"], p["m"] * 0.997)
        sure &= (w2 == want) & (w3 == want)
    else:
        w2, _ = refs.nms_ref(edge, ori, p["r"], p["s"], p["m"] * 1.00001)
        w3, _ = refs.nms_ref(edge, ori, p["r"], p["s"], p["m"] * 0.99999)
        sure &= (w2 == want) & (w3 == want)
    sure &= firm
    ctx.require(got.shape == hw, "fast_nms changes the shape", shape=got.shape)
    bad = sure & ~(np.abs(got - want) <= tol)
    ctx.require(not bad.any(), f"fast_nms differs from nms of the smoothed image at {int(bad.sum())} of {int(sure.sum())} "
                f"decided pixels: {got[bad][:3]} instead of {want[bad][:3]}", img=img, dtype=kind, **p)
    ctx.see("pixels kept", int(((got != 0) & sure).sum()))
    ctx.see("pixels suppressed", int(((got == 0) & (edge != 0) & sure).sum()))
    # the same values through the other accepted type
    if kind == "u1":
        ctx.close(fast_nms((img / 255.0), **p), got, "fast_nms of uint8 and of value/255 differ", tol=0)
    # as uint8
    u8 = fast_nms(img, return_as_uint8=True, **p)
    ctx.require(u8.dtype == np.uint8 and u8.shape == hw, "return_as_uint8 does not return uint8", dtype=str(u8.dtype))
    ctx.equal(u8, np.round(np.clip(got, 0, 1) * 255).astype(np.uint8), "fast_nms as uint8")
    # half_prec rounds the smoothed image to single precision only
    hp = fast_nms(img, half_prec=True, **p)
    ctx.require(hp.shape == hw, "fast_nms(half_prec) changes the shape")
    ctx.sig(img.tobytes(), tuple(p.values()))


def case_tri(ctx, i):
    """the triangle filter and the gradients as in MATLAB's convTri.m and gradient2.m"""
    from pyEdgeEval.preprocess.nms.toolbox import conv_tri, grad2
    rng = ctx.rng
    for _ in range(4):
        hw = gens.shape(rng, 1, 24, 0.25)
        e = image(rng, hw) * rng.choice([1, 1, 300])
        kind = str(rng.choice(["f8", "f8", "f4"]))
        r, s = [0.5, 1, 1, 2, 3, 4, 4, 7, 9][int(rng.integers(0, 9))], int(rng.choice([1, 1, 2, 3, 4, 5, 7]))
        src = e.astype(kind)
        got = conv_tri(src, r, s)
        if r < 1:
            p = 12 / r / (r + 2) - 2
            k = np.array([1, p, 1]) / (2 + p)
            b = np.pad(src.astype(np.float64), 1, mode="symmetric")
            want = sum(k[a] * k[c] * b[a:a + hw[0], c:c + hw[1]] for a in range(3) for c in range(3))
        else:
            want = refs.conv_tri_ref(src, r)
        if s > 1:
            # t:s:end-s+t, counted from 1
            t = s // 2 + 1
            want = want[[v - 1 for v in range(t, hw[0] - s + t + 1, s)]][:, [v - 1 for v in range(t, hw[1] - s + t + 1, s)]]
            ctx.see("triangle filters with a step")
        ctx.see("triangle filters")
        ctx.see("filters wider than the image", int(2 * r + 1 > min(hw)))
        info = dict(shape=hw, r=r, s=s, dtype=kind)
        ctx.require(got.shape == want.shape, f"conv_tri returns the shape {got.shape}, expected {want.shape}", **info)
        ctx.close(got, want, "conv_tri", tol=(1e-4 if kind == "f4" else 1e-9) * max(1.0, float(np.abs(src).max())), **info)
        ctx.equal(conv_tri(src, 0, 1), src, "conv_tri of radius 0")
        if min(hw) >= 2:
            gx, gy = grad2(src)
            wx, wy = refs.gradients(src)
            ctx.close(gx, wx, "the gradient along x", tol=1e-6 * max(1.0, float(np.abs(src).max())), **info)
            ctx.close(gy, wy, "the gradient along y", tol=1e-6 * max(1.0, float(np.abs(src).max())), **info)
        ctx.sig(src.tobytes(), r, s)
