"""C01: correspond_pixels returns a valid one-to-one matching."""
import numpy as np

from vf import gens, refs
from vf.framework import Violation

ID = "C01"
RULE = ("a distinct non-trivial evaluation is one correspond_pixels call on a distinct pair of maps with at least one "
        "pair of edge pixels within the tolerance")
PLAN = {"quick": [("crowded", 1), ("huge", 4), ("small", 1600), ("ties", 640), ("medium", 640), ("large", 96), ("long", 24), ("far", 120)],
        "thorough": [("crowded", 6), ("huge", 24), ("small", 12000), ("ties", 4000), ("medium", 4000), ("large", 400), ("long", 200), ("far", 1200)]}
MUST_SEE = ["calls", "matched pixels", "pixels without partner in range", "pairs at exactly the tolerance", "indices beyond 24 bits",
            "images longer than 16 bits", "maps with more than 32768 matched pixels",
            "pairs more than 64 pixels apart"]
ASSUMPTIONS = ["a pair whose distance equals the tolerance up to rounding may be matched or not, except when the "
               "tolerance is exactly representable, where it must count as inside"]


def monitor(ctx, a, b, max_dist, m1, m2):
    """the one-to-one matching specification over one observed result"""
    a, b = np.asarray(a) != 0, np.asarray(b) != 0
    h, w = a.shape
    for m, name in ((m1, "first"), (m2, "second")):
        ctx.require(isinstance(m, np.ndarray) and m.shape == (h, w) and m.dtype.kind == "f",
                    f"{name} match map has the wrong shape or type", shape=getattr(m, "shape", None))
    md = refs.tolerance((h, w), max_dist)
    exact = refs.exact_tolerance((h, w), max_dist)
    info = dict(a=a.astype(int), b=b.astype(int), max_dist=max_dist)
    for m, own, other, inv, name in ((m1, a, b, m2, "first"), (m2, b, a, m1, "second")):
        nz = np.argwhere(m != 0)
        ctx.require(not (m[~own] != 0).any(), f"{name} match map is non-zero off the edge pixels", **info)
        for y, x in nz:
            v = float(m[y, x])
            ctx.require(v == int(v) and 1 <= v <= h * w, f"{name} match map holds {v} which is no pixel index", **info)
            k = int(v) - 1
            y2, x2 = k % h, k // h
            ctx.require(other[y2, x2], f"{name} match map points from {y, x} to {y2, x2} which is not an edge pixel", **info)
            ctx.require(int(inv[y2, x2]) == x * h + y + 1, f"the match of {y, x} with {y2, x2} is not mutual", **info)
            d2 = float((y - y2) ** 2 + (x - x2) ** 2)
            ok = d2 <= md * md * (1 if exact else 1 + 1e-9)
            ctx.require(ok, f"{y, x} is matched with {y2, x2} at distance {d2 ** .5} although the tolerance is {md}", **info)
            if exact and d2 == md * md:
                ctx.see("pairs at exactly the tolerance")
        ctx.see("matched pixels", len(nz))
    ctx.require((m1 != 0).sum() == (m2 != 0).sum(), "the two maps match different numbers of pixels", **info)


def reach(ctx, a, b, max_dist, m1, m2):
    """pixels without any partner in range stay 0; a pair that is alone in range must be matched"""
    pa, pb, near, sure, _ = refs.pair_graph(a, b, max_dist)
    ra, rb = near | ~sure, near & sure
    ctx.see("pixels without partner in range", int((~ra.any(1)).sum() + (~ra.any(0)).sum()))
    lone_a, lone_b = ra.sum(1), ra.sum(0)
    for i in range(len(pa)):
        if not ra[i].any():
            ctx.require(m1[tuple(pa[i])] == 0, "a pixel without partner in range is matched", max_dist=max_dist)
    for j in range(len(pb)):
        if not ra[:, j].any():
            ctx.require(m2[tuple(pb[j])] == 0, "a pixel without partner in range is matched", max_dist=max_dist)
    few = max(int(ra.any(1).sum()), int(ra.any(0).sum())) <= 6  # larger maps are matched approximately
    for i, j in np.argwhere(rb) if few else ():
        if lone_a[i] == 1 and lone_b[j] == 1:
            ctx.see("isolated pairs in range")
            ctx.require(m1[tuple(pa[i])] != 0,
                        f"{tuple(map(int, pa[i]))} and {tuple(map(int, pb[j]))} are in range of each other only, yet unmatched",
                        a=np.asarray(a).astype(int), b=np.asarray(b).astype(int), max_dist=max_dist)
    return bool(near.any())


def call(ctx, a, b, max_dist, check_reach=True):
    from pyEdgeEval._lib import correspond_pixels
    oc = float(ctx.rng.choice([100.0, 100.0, 2.0, 1.5, 1000.0]))
    m1, m2, cost, c = correspond_pixels(a, b, max_dist=max_dist, outlier_cost=oc)
    ctx.see("calls")
    monitor(ctx, a, b, max_dist, m1, m2)
    any_near = reach(ctx, a, b, max_dist, m1, m2) if check_reach else bool((m1 != 0).any())
    if any_near:
        ctx.sig(np.packbits(np.asarray(a) != 0).tobytes(), np.packbits(np.asarray(b) != 0).tobytes(), a.shape, max_dist)
    return m1, m2


def pair(ctx, hw):
    rng = ctx.rng
    a = gens.binary(rng, hw)
    b = gens.shifted(rng, a, amount=int(rng.integers(0, 4))) if rng.random() < 0.6 else gens.binary(rng, hw)
    return a, b


def case_small(ctx, i):
    for _ in range(12):
        hw = gens.shape(ctx.rng, 1, 14)
        a, b = pair(ctx, hw)
        md = float(ctx.rng.choice([0.001, 0.0075, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0, ctx.rng.uniform(0.001, 0.4)]))
        m1, m2 = call(ctx, a, b, md)
    ctx.sample(a=a.astype(int), b=b.astype(int), max_dist=md, match=m1)


TIES = [((3, 4), 0.4), ((3, 4), 0.25), ((4, 3), 0.5), ((6, 8), 0.25), ((6, 8), 0.5), ((8, 6), 0.125), ((9, 12), 0.25),
        ((12, 16), 0.25), ((12, 16), 0.0625), ((5, 12), 0.25), ((8, 15), 0.0625 * 2), ((12, 5), 1.0), ((15, 20), 0.125)]


def case_ties(ctx, i):
    """tolerances that are hit exactly: diagonal an integer, max_dist dyadic"""
    rng = ctx.rng
    for _ in range(8):
        hw, md = TIES[int(rng.integers(len(TIES)))]
        t = refs.tolerance(hw, md)
        a = gens.sparse(rng, hw, int(rng.integers(1, 4)))
        b = np.zeros(hw, bool)
        for y, x in np.argwhere(a):
            k = int(t)
            for dy, dx in ((0, k), (k, 0), (0, -k), (-k, 0), (3, 4), (4, -3)):
                if rng.random() < 0.5 and (dy * dy + dx * dx) == t * t and 0 <= y + dy < hw[0] and 0 <= x + dx < hw[1]:
                    b[y + dy, x + dx] = True
        if not b.any():
            b = gens.sparse(rng, hw, 2)
        call(ctx, a, b, md)


def case_medium(ctx, i):
    for _ in range(3):
        hw = gens.shape(ctx.rng, 15, 60, 0.2)
        a, b = pair(ctx, hw)
        if a.sum() > 1500 or b.sum() > 1500:
            a, b = a & gens.noise(ctx.rng, hw, 0.4), b & gens.noise(ctx.rng, hw, 0.4)
        call(ctx, a, b, float(ctx.rng.choice([0.0075, 0.02, 0.05, 0.1])))


def case_large(ctx, i):
    """sizes of the benchmarks' images"""
    rng = ctx.rng
    hw = [(321, 481), (481, 321), (375, 500), (256, 512)][i % 4]
    a = gens.strokes(rng, hw, int(rng.integers(3, 10)))
    b = gens.shifted(rng, a, 3, add=0.0005)
    call(ctx, a, b, float(rng.choice([0.0075, 0.02, 0.0035])))


def pairs_of_points(rng, hw, n, reach):
    """two sparse maps, most pixels with a partner nearby, some in the far corners"""
    h, w = hw
    a, b = np.zeros(hw, bool), np.zeros(hw, bool)
    pts = [(0, 0), (h - 1, w - 1), (0, w - 1), (h - 1, 0)] + [(int(rng.integers(h)), int(rng.integers(w))) for _ in range(n)]
    for y, x in pts:
        if rng.random() < 0.9:
            a[y, x] = True
        y2 = min(h - 1, max(0, y + int(rng.integers(-reach, reach + 1))))
        x2 = min(w - 1, max(0, x + int(rng.integers(-reach, reach + 1))))
        if rng.random() < 0.9:
            b[y2, x2] = True
    return a, b


def case_huge(ctx, i):
    """more pixels than fit 24 bits: the index in the match maps is exact"""
    rng = ctx.rng
    hw = [(4200, 4100), (20, 900000), (4100, 4300), (500000, 36)][i % 4]
    a, b = pairs_of_points(rng, hw, 40, 2)
    m1, m2 = call(ctx, a, b, float(rng.choice([1.5, 2.5, 4.0])) / float(np.hypot(*hw)))
    ctx.see("indices beyond 24 bits", int((m1 > 1 << 24).sum()))
    ctx.see("images longer than 16 bits", int(max(hw) > 65536))


def case_long(ctx, i):
    """very elongated images"""
    rng = ctx.rng
    n = int(rng.choice([40000, 46341, 50000, 65536, 66000, 70000]))
    hw = (int(rng.integers(1, 5)), n)
    hw = hw if rng.random() < 0.5 else hw[::-1]
    a, b = pairs_of_points(rng, hw, 30, 3)
    call(ctx, a, b, float(rng.choice([1.5, 2.5, 4.0])) / float(np.hypot(*hw)))
    ctx.see("images longer than 16 bits", int(n > 65536))


def case_far(ctx, i):
    """few pixels, tolerances of tens to hundreds of pixels"""
    rng = ctx.rng
    for _ in range(4):
        hw = int(rng.integers(40, 420)), int(rng.integers(40, 420))
        md = float(rng.uniform(0.1, 1.0))
        t = refs.tolerance(hw, md)
        a, b = np.zeros(hw, bool), np.zeros(hw, bool)
        for _ in range(int(rng.integers(1, 4))):
            y, x = int(rng.integers(hw[0])), int(rng.integers(hw[1]))
            a[y, x] = True
            phi, d = rng.uniform(0, 2 * np.pi), t * rng.choice([rng.uniform(0.3, 1), 0.99, 1.01])
            if i % 3 == 0:
                phi = float(rng.choice([0, 0.5, 1, 1.5])) * np.pi + rng.uniform(-0.1, 0.1)
            y, x = int(y + d * np.sin(phi)), int(x + d * np.cos(phi))
            if 0 <= y < hw[0] and 0 <= x < hw[1]:
                b[y, x] = True
        m1, m2 = call(ctx, a, b, md)
        for y, x in np.argwhere(m1 != 0):
            k = int(m1[y, x]) - 1
            ctx.see("pairs more than 64 pixels apart", int(np.hypot(y - k % hw[0], x - k // hw[0]) > 64))


def case_crowded(ctx, i):
    """tens of thousands of pixels to match at once"""
    rng = ctx.rng
    n = 182 + 2 * int(rng.integers(0, 3)) if ctx.tier == "quick" else 258
    hw = (n, n + 1)
    a = np.ones(hw, bool) if rng.random() < 0.5 else rng.random(hw) < 0.99
    m1, m2 = call(ctx, a, np.ones(hw, bool), 1.1 / float(np.hypot(*hw)), check_reach=False)
    k = int((m1 != 0).sum())
    ctx.require(k >= 0.97 * a.sum() - 2, f"{k} of {int(a.sum())} pixels matched although every one has itself as partner")
    ctx.see("maps with more than 32768 matched pixels", int(k > 32768))
