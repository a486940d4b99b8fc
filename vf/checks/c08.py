"""C08: masks become boundaries by the distance definition."""
import numpy as np

from vf import gens, refs

ID = "C08"
RULE = "a distinct non-trivial evaluation is one distinct mask (neither empty nor full) and radius whose boundary was compared pixel by pixel"
PLAN = {"quick": [("random", 2000), ("wide", 200), ("scene", 24)], "thorough": [("random", 10000), ("wide", 800), ("scene", 160)]}
MUST_SEE = ["edge pixels", "full masks", "empty masks", "pixels at exactly the radius", "internal edges", "back ends compared", "masks of a whole scene"]
ASSUMPTIONS = ["precise cv2 distances (quality 0, the default); radii that are no distance between pixels or integers are decided "
               "up to 1e-4"]


def compare(ctx, m, r, cv, internal):
    from pyEdgeEval.utils import mask2bdry
    rng = ctx.rng
    none = np.zeros(m.shape, np.uint8)
    src = m.astype([np.uint8, bool, np.uint8, np.int32, np.float64][int(rng.integers(5))])
    got = mask2bdry(mask=src, ignore_mask=none, radius=r, use_cv2=cv, internal_only=internal)
    want, sure = refs.bdry_ref(m, none, r, internal)
    info = dict(mask=m.astype(int), radius=r, use_cv2=cv, internal_only=internal)
    ctx.require(isinstance(got, np.ndarray) and got.dtype == np.uint8 and got.shape == m.shape and not (got > 1).any(),
                "the boundary is no uint8 0/1 map", **info)
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{int(bad.sum())} boundary pixels are wrong, first {tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}",
                got=got, **info)
    if m.all():
        ctx.see("full masks")
        ctx.require(not got.any(), "a mask covering the whole image has a boundary", **info)
    elif not m.any():
        ctx.see("empty masks")
    else:
        ctx.sig(np.packbits(m).tobytes(), m.shape, r)
    ctx.see("internal edges" if internal else "edge pixels", int(got.sum()))
    return got, sure


def case_random(ctx, i):
    rng = ctx.rng
    for _ in range(6):
        hw = gens.shape(rng, 1, 26)
        m = gens.binary(rng, hw)
        r = [1, 1, 2, 2, 3, 4, 5, 10, 1.5, 2.5][int(rng.integers(10))]
        for internal in (False, True):
            a, s = compare(ctx, m, r, True, internal)
            b, _ = compare(ctx, m, r, False, internal)
            ctx.require(not (s & (a != b)).any(), "the cv2 and scipy back ends differ", mask=m.astype(int), radius=r)
            ctx.see("back ends compared")
        if m.any() and not m.all():
            d = refs.dist_to(m) + refs.dist_to(~m)
            ctx.see("pixels at exactly the radius", int((d == r).sum()))
    ctx.sample(mask=m[:8, :8].astype(int), radius=r)


def case_wide(ctx, i):
    """larger images and radii (distances beyond any small kernel)"""
    rng = ctx.rng
    hw = [(96, 128), (1, 300), (300, 2), (80, 80), (120, 700), (3, 1500), (200, 500)][i % 7]
    m = gens.sparse(rng, hw, 3) if rng.random() < 0.5 else gens.blobs(rng, hw, 2)
    if rng.random() < 0.3:
        m = ~m
    r = int(rng.choice([2, 5, 13, 25, 50] if i % 7 < 4 else [50, 100, 130, 255, 256, 300]))
    for internal in (False, True):
        a, s = compare(ctx, m, r, True, internal)
        b, _ = compare(ctx, m, r, False, internal)
        ctx.require(not (s & (a != b)).any(), "the cv2 and scipy back ends differ", radius=r)
        ctx.see("back ends compared")


def case_scene(ctx, i):
    """masks as large as the datasets' images: the boundary is what a disk around the other side reaches"""
    import cv2
    from pyEdgeEval.utils import mask2bdry
    rng = ctx.rng
    hw = [(1024, 2048), (512, 1024), (500, 375), (720, 1280), (321, 481), (1600, 900)][i % 6]
    k = int(rng.integers(8, 40))
    m = np.zeros(hw, np.uint8)
    for _ in range(k):
        c = tuple(int(rng.integers(0, n)) for n in hw[::-1])
        if rng.random() < 0.5:
            cv2.ellipse(m, c, (int(rng.integers(2, 260)), int(rng.integers(2, 160))), float(rng.uniform(0, 180)), 0, 360, int(rng.integers(0, 2)), -1)
        else:
            q = np.array([[int(c[0] + rng.integers(-200, 200)), int(c[1] + rng.integers(-200, 200))] for _ in range(int(rng.integers(3, 7)))], np.int32)
            cv2.fillPoly(m, [q], int(rng.integers(0, 2)))
    r = int(rng.choice([1, 2, 3, 5, 8, 13]))
    y, x = np.mgrid[-r:r + 1, -r:r + 1]
    disk = (y * y + x * x <= r * r).astype(np.uint8)
    reach = lambda a: cv2.dilate(a.astype(np.uint8), disk, borderType=cv2.BORDER_CONSTANT, borderValue=0) > 0
    inside = (m > 0) & reach(m == 0)
    outside = (m == 0) & reach(m > 0)
    none = np.zeros(hw, np.uint8)
    for cv in (True, False):
        for internal in (False, True):
            got = mask2bdry(mask=m, ignore_mask=none, radius=r, use_cv2=cv, internal_only=internal)
            ctx.equal(got, (inside | (outside & (not internal))).astype(np.uint8), f"boundary of a {hw} mask, radius {r}, cv2 {cv}, internal_only {internal}")
            ctx.see("internal edges" if internal else "edge pixels", int(got.sum()))
    ctx.see("masks of a whole scene")
    ctx.sig(np.packbits(m).tobytes(), hw, r)
