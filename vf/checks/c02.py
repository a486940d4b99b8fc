"""C02: the matching is optimal and the reported cost is the true one."""
import numpy as np

from vf import gens, refs

ID = "C02"
RULE = ("a distinct non-trivial evaluation is one correspond_pixels call on a distinct pair of maps whose maximum matching "
        "is not empty, compared with an independent optimum")
PLAN = {"quick": [("huge", 3), ("tiny", 2000), ("medium", 800), ("large", 96), ("long", 24)],
        "thorough": [("huge", 12), ("tiny", 20000), ("medium", 6000), ("large", 400), ("long", 200)]}
MUST_SEE = ["optimum compared exactly", "optimum compared within the bound", "calls with nothing to match",
            "calls where greedy matching is not optimal", "outlier costs beyond 32 bits"]
ASSUMPTIONS = ["maps with more than six matchable pixels are solved by the code with randomised outlier edges; for those "
               "the property promises 3% plus two pixels, which is what is decided"]


def greedy(near, dist):
    used, k = set(), 0
    for i, j in sorted(map(tuple, np.argwhere(near)), key=lambda t: dist[t]):
        if ("r", i) not in used and ("c", j) not in used:
            used |= {("r", i), ("c", j)}
            k += 1
    return k


def check(ctx, a, b, max_dist, oc=100.0, got=None):
    from pyEdgeEval._lib import correspond_pixels
    m1, m2, cost, out_cost = got or correspond_pixels(a, b, max_dist=max_dist, outlier_cost=oc)
    a, b = np.asarray(a) != 0, np.asarray(b) != 0
    pa, pb, near, sure, dist = refs.pair_graph(a, b, max_dist)
    info = dict(a=a.astype(int), b=b.astype(int), max_dist=max_dist, outlier_cost=oc, match=m1, cost=cost)
    h, w = a.shape
    want_oc = oc * refs.tolerance((h, w), max_dist)
    ctx.close(out_cost, want_oc, "reported outlier cost", tol=1e-9 * want_oc, **info)
    k = int((m1 != 0).sum())
    tot = 0.0
    for y, x in np.argwhere(m1 != 0):
        v = int(m1[y, x]) - 1
        tot += np.hypot(y - v % h, x - v // h)
    unmatched = int(a.sum()) - k + int(b.sum()) - int((m2 != 0).sum())
    want = tot + unmatched * want_oc
    ctx.close(cost, want, f"reported cost ({k} matched, {unmatched} unmatched)", tol=1e-6 * max(1.0, want), **info)
    ctx.see("calls")
    ctx.see("outlier costs beyond 32 bits", int(want_oc > 250000 and near.any()))
    if not sure.all():
        ctx.see("calls with a pair on the tolerance")
        lo, hi = refs.max_cardinality(near & sure), refs.max_cardinality(near | ~sure)
    else:
        lo = hi = refs.max_cardinality(near)
    if not near.any():
        ctx.see("calls with nothing to match")
    else:
        ctx.sig(pa.tobytes(), pb.tobytes(), a.shape, max_dist)
    ctx.require(k <= hi, f"{k} pixels matched, but at most {hi} can be", **info)
    poss = near | ~sure
    n1, n2 = int(poss.any(1).sum()), int(poss.any(0).sum())
    if oc < 10:
        # a cheap outlier may be worth more than one more long match
        ctx.see("calls with cheap outliers")
    elif max(n1, n2) <= 6:
        ctx.see("optimum compared exactly")
        ctx.require(k >= lo, f"{k} pixels matched although {lo} can be", **info)
        if lo == hi and sure.all():
            kk, best = refs.optimal_small(near, dist)
            ctx.require(tot <= best + 0.0101 * max(1, kk), f"matched at total distance {tot} although {best} is possible", **info)
            if greedy(near, dist) < kk:
                ctx.see("calls where greedy matching is not optimal")
    else:
        ctx.see("optimum compared within the bound")
        ctx.require(k >= lo - 0.03 * lo - 2, f"{k} pixels matched although {lo} can be", **info)
        ctx.see("pixels short of the optimum", lo - k)
        ctx.see("optimum pixels", lo)


def limit(rng, a, b, max_dist, n=6):
    """drop pixels until at most n of each map have a partner"""
    a, b = a.copy(), b.copy()
    while True:
        pa, pb, near, sure, _ = refs.pair_graph(a, b, max_dist)
        near = near | ~sure
        ia, ib = np.flatnonzero(near.any(1)), np.flatnonzero(near.any(0))
        if len(ia) > n:
            a[tuple(pa[rng.choice(ia)])] = False
        elif len(ib) > n:
            b[tuple(pb[rng.choice(ib)])] = False
        else:
            return a, b


def case_tiny(ctx, i):
    rng = ctx.rng
    for _ in range(12):
        hw = gens.shape(rng, 2, 9)
        md = float(rng.choice([0.05, 0.12, 0.2, 0.3, 0.5, rng.uniform(0.05, 0.6)]))
        if rng.random() < 0.5:
            a, b = gens.sparse(rng, hw, int(rng.integers(0, 7))), gens.sparse(rng, hw, int(rng.integers(0, 7)))
        else:
            a, b = gens.binary(rng, hw), gens.binary(rng, hw)
        a, b = limit(rng, a, b, md)
        check(ctx, a, b, md, float(rng.choice([100.0, 100.0, 2.0, 10.0, 1000.0, 1e6, 1e10])))
    ctx.sample(a=a.astype(int), b=b.astype(int), max_dist=md)


def case_medium(ctx, i):
    rng = ctx.rng
    for _ in range(3):
        hw = gens.shape(rng, 8, 48, 0.15)
        a = gens.binary(rng, hw)
        b = gens.shifted(rng, a, int(rng.integers(0, 4))) if rng.random() < 0.7 else gens.binary(rng, hw)
        if a.sum() > 1200 or b.sum() > 1200:
            a, b = a & gens.noise(rng, hw, 0.4), b & gens.noise(rng, hw, 0.4)
        check(ctx, a, b, float(rng.choice([0.0075, 0.02, 0.05, 0.1])))


def case_large(ctx, i):
    rng = ctx.rng
    hw = [(321, 481), (481, 321), (375, 500), (256, 512)][i % 4]
    a = gens.strokes(rng, hw, int(rng.integers(3, 9)))
    b = gens.shifted(rng, a, 3, add=0.0005)
    check(ctx, a, b, float(rng.choice([0.0075, 0.02])))


def case_huge(ctx, i):
    """large images with few edges in every corner"""
    from vf.checks.c01 import pairs_of_points
    rng = ctx.rng
    hw = [(4200, 4100), (20, 900000), (500000, 36)][i % 3]
    a, b = pairs_of_points(rng, hw, 4, 2)
    md = float(rng.choice([1.5, 2.5, 4.0])) / float(np.hypot(*hw))
    check(ctx, *(limit(rng, a, b, md) if i % 2 else (a, b)), md)
    ctx.see("images with more than 16 million pixels")


def case_long(ctx, i):
    from vf.checks.c01 import pairs_of_points
    rng = ctx.rng
    n = int(rng.choice([40000, 46341, 50000, 65536, 66000, 70000]))
    hw = (int(rng.integers(1, 5)), n)
    hw = hw if rng.random() < 0.5 else hw[::-1]
    a, b = pairs_of_points(rng, hw, 4, 3)
    md = float(rng.choice([1.5, 2.5, 4.0])) / float(np.hypot(*hw))
    check(ctx, *(limit(rng, a, b, md) if rng.random() < 0.5 else (a, b)), md)
    ctx.see("very elongated images")
