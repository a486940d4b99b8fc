"""Reference models the monitors compare the real code with.

Written from the properties (and the papers/benchmarks they come from), not from
the code under test; they never import pyEdgeEval.
"""
import itertools
import math

import numpy as np
from scipy import ndimage as ndi


# --- pixel correspondence --------------------------------------------------

def tolerance(shape, max_dist):
    return max_dist * math.sqrt(shape[0] ** 2 + shape[1] ** 2)


def pair_graph(a, b, max_dist):
    """-> (pa, pb, near, sure): pixel lists (y, x) of the two maps; near[i, j] is True
    when the pair is within the tolerance, sure False where the floating point
    comparison could go either way"""
    a, b = np.asarray(a) != 0, np.asarray(b) != 0
    pa, pb = np.argwhere(a), np.argwhere(b)
    d2 = ((pa[:, None, :] - pb[None, :, :]) ** 2).sum(-1).astype(float)
    md2 = tolerance(a.shape, max_dist) ** 2
    tie = np.abs(d2 - md2) <= 1e-9 * max(md2, 1e-300)
    if exact_tolerance(a.shape, max_dist):
        tie[:] = False
        md = max_dist * math.isqrt(a.shape[0] ** 2 + a.shape[1] ** 2)
        near = d2 <= md * md
    else:
        near = d2 <= md2
    return pa, pb, near, ~tie, np.sqrt(d2)


def exact_tolerance(shape, max_dist):
    """integer diagonal and dyadic max_dist: the tolerance has no rounding error"""
    n = shape[0] ** 2 + shape[1] ** 2
    return math.isqrt(n) ** 2 == n and float(max_dist * 1024).is_integer()


def max_cardinality(near):
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching
    if near.size == 0 or not near.any():
        return 0
    m = maximum_bipartite_matching(csr_matrix(near.astype(np.int8)), perm_type="column")
    return int((m >= 0).sum())


def optimal_small(near, dist):
    """(maximum cardinality, minimum total distance among the maximum matchings)"""
    from scipy.optimize import linear_sum_assignment
    n, m = near.shape
    if n == 0 or m == 0 or not near.any():
        return 0, 0.0
    big = 1e6
    cost = np.full((n + m, n + m), 0.0)
    cost[:n, :m] = np.where(near, dist, 4 * big)
    cost[:n, m:] = big
    cost[n:, :m] = big
    cost[n:, m:] = 0.0
    r, c = linear_sum_assignment(cost)
    k, tot = 0, 0.0
    for i, j in zip(r, c):
        if i < n and j < m:
            assert near[i, j]
            k += 1
            tot += dist[i, j]
    return k, tot


def matched_sets(near, dist, slack):
    """all sets of matched rows over the maximum matchings whose cost is within slack
    of the minimum (small graphs only)"""
    k, best = optimal_small(near, dist)
    out = set()
    n, m = near.shape
    rows = [i for i in range(n) if near[i].any()]

    def go(p, used, chosen, cost):
        if cost > best + slack + 1e-9:
            return
        if len(chosen) + len(rows) - p < k:
            return
        if p == len(rows):
            if len(chosen) == k:
                out.add(frozenset(chosen))
            return
        i = rows[p]
        for j in range(m):
            if near[i, j] and not used >> j & 1:
                go(p + 1, used | 1 << j, chosen + [i], cost + dist[i, j])
        go(p + 1, used, chosen, cost)

    go(0, 0, [], 0.0)
    return out


# --- Guo-Hall thinning -----------------------------------------------------

def _thin_half(x, second):
    p = np.pad(x, 1)
    n = [p[1:-1, 2:], p[:-2, 2:], p[:-2, 1:-1], p[:-2, :-2],
         p[1:-1, :-2], p[2:, :-2], p[2:, 1:-1], p[2:, 2:]]  # x1..x8: E NE N NW W SW S SE
    xh = sum(((~n[2 * i]) & (n[2 * i + 1] | n[(2 * i + 2) % 8])).astype(int) for i in range(4))
    n1 = sum((n[2 * i] | n[2 * i + 1]).astype(int) for i in range(4))
    n2 = sum((n[2 * i + 1] | n[(2 * i + 2) % 8]).astype(int) for i in range(4))
    mn = np.minimum(n1, n2)
    if second:
        g3 = ~((n[5] | n[6] | ~n[3]) & n[4])
    else:
        g3 = ~((n[1] | n[2] | ~n[7]) & n[0])
    return x & ~((xh == 1) & (mn >= 2) & (mn <= 3) & g3)


def guo_hall(x, max_iter=None):
    x = np.asarray(x) != 0
    k = 0
    while max_iter is None or k < max_iter:
        y = _thin_half(_thin_half(x, False), True)
        if np.array_equal(x, y):
            break
        x = y
        k += 1
    return x


def topology(before, after):
    """None, or what is wrong: 8-connected objects and 4-connected background, one to one"""
    if (after & ~before).any():
        return "a pixel was added"
    l0, n0 = ndi.label(before, structure=np.ones((3, 3)))
    l1, n1 = ndi.label(after, structure=np.ones((3, 3)))
    if n0 != n1:
        return f"{n0} components became {n1}"
    if len(np.unique(l0[after])) != n0:
        return "a component disappeared"
    b0, m0 = ndi.label(~np.pad(before, 1))
    b1, m1 = ndi.label(~np.pad(after, 1))
    if m0 != m1:
        return f"{m0} background components became {m1}"
    pairs = np.unique(np.stack([b0[b0 > 0], b1[b0 > 0]]), axis=1)
    if pairs.shape[1] != m0:
        return "background components were joined"
    return None


# --- non-maximum suppression -----------------------------------------------

def nms_ref(edge, ori, r, s, m):
    """-> (out, sure)"""
    edge = np.asarray(edge, np.float64)
    ori = np.asarray(ori, np.float64)
    h, w = edge.shape
    m = float(np.float32(m))
    out = edge.copy()
    sure = np.ones((h, w), bool)
    ys, xs = np.mgrid[0:h, 0:w].astype(float)
    co, so = np.cos(ori), np.sin(ori)
    for d in range(-r, r + 1):
        if d == 0:
            continue
        x, y = xs + d * co, ys + d * so
        # clamped just inside of the image
        x = np.where(x < 0, 0.0, np.where(x > w - 1.001, w - 1.001, x))
        y = np.where(y < 0, 0.0, np.where(y > h - 1.001, h - 1.001, y))
        if w == 1:
            x = np.zeros_like(x)
        if h == 1:
            y = np.zeros_like(y)
        x0, y0 = x.astype(int), y.astype(int)
        x1, y1 = np.minimum(x0 + 1, w - 1), np.minimum(y0 + 1, h - 1)
        fx, fy = x - x0, y - y0
        e0 = (edge[y0, x0] * (1 - fx) * (1 - fy) + edge[y0, x1] * fx * (1 - fy)
              + edge[y1, x0] * (1 - fx) * fy + edge[y1, x1] * fx * fy)
        e = edge * m
        out[(e < e0) & (edge != 0)] = 0
        # an interpolation position on an integer may land on either side of it; continuous, so e0 barely moves
        sure &= np.abs(e - e0) > 1e-9 * np.maximum(1e-12, np.abs(e0) + np.abs(e))
    sx = min(s, w // 2, h // 2)
    for k in range(sx):
        out[:, k] *= k / sx
        out[:, w - 1 - k] *= k / sx
    for k in range(sx):
        out[k, :] *= k / sx
        out[h - 1 - k, :] *= k / sx
    return out, sure


def conv_tri_ref(img, r):
    """triangle filter (1-r: [1 2 1]/4 for r = 1) with symmetric padding"""
    k = np.concatenate([np.arange(1, r + 2), np.arange(r, 0, -1)]).astype(float)
    if r == 1:
        k = np.array([1.0, 2.0, 1.0])
    k /= k.sum()
    p = np.pad(np.asarray(img, np.float64), r, mode="symmetric")
    p = np.apply_along_axis(lambda v: np.convolve(v, k, "valid"), 1, p)
    return np.apply_along_axis(lambda v: np.convolve(v, k, "valid"), 0, p)


def gradients(a):
    """central differences, one sided at the borders -> (d/dx, d/dy)"""
    a = np.asarray(a, np.float64)
    gx, gy = np.empty_like(a), np.empty_like(a)
    gx[:, 1:-1] = (a[:, 2:] - a[:, :-2]) / 2
    gx[:, 0], gx[:, -1] = a[:, 1] - a[:, 0], a[:, -1] - a[:, -2]
    gy[1:-1] = (a[2:] - a[:-2]) / 2
    gy[0], gy[-1] = a[1] - a[0], a[-1] - a[-2]
    return gx, gy


# --- masks to edges --------------------------------------------------------

def dist_to(mask):
    """Euclidean distance of every pixel to the nearest True pixel of mask (inf if none)"""
    mask = np.asarray(mask, bool)
    h, w = mask.shape
    if not mask.any():
        return np.full((h, w), np.inf)
    far = h + w + 5.0
    # along each row first, then over the rows
    g = np.where(mask, 0.0, far)
    for x in range(1, w):
        g[:, x] = np.minimum(g[:, x], g[:, x - 1] + 1)
    for x in range(w - 2, -1, -1):
        g[:, x] = np.minimum(g[:, x], g[:, x + 1] + 1)
    g2 = np.where(g >= far, np.inf, g * g)
    dy2 = (np.arange(h)[:, None] - np.arange(h)[None, :]) ** 2.0
    return np.sqrt((dy2[:, :, None] + g2[None, :, :]).min(1))


def near_dist(radius):
    """like dist_to for integral radii, but infinite beyond the radius: one disk per distance, fast on whole scenes"""
    import cv2

    def dist(mask):
        m = np.asarray(mask, bool)
        if radius > 3:      # more distances than one exact transform costs
            from scipy.ndimage import distance_transform_edt
            return distance_transform_edt(~m) if m.any() else np.full(m.shape, np.inf)
        y, x = np.mgrid[-radius:radius + 1, -radius:radius + 1]
        sq = y * y + x * x
        out = np.full(m.shape, np.inf)
        for q in sorted({int(v) for v in sq.ravel() if v <= radius * radius}, reverse=True):
            k = (sq <= q).astype(np.uint8)
            out[cv2.dilate(m.astype(np.uint8), k, borderType=cv2.BORDER_CONSTANT, borderValue=0) > 0] = np.sqrt(q)
        return out
    return dist


def bdry_ref(mask, ignored, radius, internal_only=False, dist_to=dist_to):
    """the boundary of C08/C09 -> (uint8 map, sure)"""
    m = np.asarray(mask) != 0
    ig = np.asarray(ignored) != 0
    rest = ~(m | ig)
    d_rest = dist_to(rest)            # 0 on the rest
    d_mask = dist_to(m)               # 0 on the mask
    if internal_only:
        total = np.where(m, d_rest, 0)
    else:
        total = d_rest + d_mask
    out = (total <= radius) & (total > 0)
    sure = np.abs(total - radius) > 1e-4
    # one of the two being zero the sum is a plain Euclidean distance and an integer radius is decided exactly;
    # cv2 computes in float32, whose square root of a perfect square is exact
    plain = (np.minimum(d_rest, d_mask) == 0) | internal_only
    sure |= plain & (float(radius) == int(radius))
    return out.astype(np.uint8), sure


def edges_ref(onehot, ignore_indices, radius, inst=None, inst_labels=(), thin=False, internal_only=False, dist_to=dist_to):
    """edges per label -> (edges, sure)"""
    onehot = np.asarray(onehot)
    k, h, w = onehot.shape
    ig = np.zeros((h, w), bool)
    for i in ignore_indices:
        ig |= onehot[i] != 0
    out = np.zeros((k, h, w), np.uint8)
    sure = np.ones((k, h, w), bool)
    for l in range(k):
        if l in ignore_indices or not onehot[l].any():
            continue
        e, s = bdry_ref(onehot[l], ig, radius, internal_only, dist_to)
        if inst is not None:
            for iid in np.unique(inst):
                iid = int(iid)
                if iid < min(inst_labels) * 1000 or iid // 1000 != l:
                    continue
                e2, s2 = bdry_ref(inst == iid, ig, radius, internal_only, dist_to)
                e = e | e2
                s &= s2
        if thin:
            if not s.all():
                s = np.zeros_like(s)
            e = guo_hall(e).astype(np.uint8)
        out[l], sure[l] = e, s
    return out, sure


# --- encodings -------------------------------------------------------------

def rgb_ref(edges):
    k, h, w = edges.shape
    out = np.zeros((h, w, 3), np.uint8)
    for c in range(k):
        out[:, :, 2 - c // 8] |= ((edges[c] != 0).astype(np.uint8) << (c % 8)).astype(np.uint8)
    return out


def int_ref(edges):
    k, h, w = edges.shape
    out = np.zeros((h, w), np.uint32)
    for c in range(k):
        out |= ((edges[c] != 0).astype(np.uint32) << np.uint32(c))
    return out


# --- metrics ---------------------------------------------------------------

def thresholds_ref(spec):
    if isinstance(spec, int):
        return [(i + 1) / (spec + 1) for i in range(spec)]
    if isinstance(spec, float):
        return [spec]
    return [float(v) for v in spec]


def _f1(p, r):
    return 2 * p * r / (p + r) if p + r > 0 else 0.0


def prf(cr, sr, cp, sp):
    r = cr / sr if sr else 0.0
    p = cp / sp if sp else 0.0
    return r, p, _f1(p, r)


def image_best(thr, counts):
    """first index with the best F1, and all indices within rounding of it"""
    fs = [prf(*[counts[j][i] for j in range(4)])[2] for i in range(len(thr))]
    mx = max(fs)
    near = [i for i, f in enumerate(fs) if f >= mx - 1e-12]
    return fs.index(mx), near, fs


def image_picks(counts):
    """the indices that may count as the best F1 of an image: the first one, and those that
    tie with it only mathematically (different counts whose F1 a computer may order either way)"""
    n = len(counts[0])
    row = [tuple(float(counts[j][i]) for j in range(4)) for i in range(n)]
    fs = [prf(*r)[2] for r in row]
    mx = max(fs)
    seen, out = set(), []
    for i in range(n):
        key = prf(*row[i])
        if fs[i] >= mx - 1e-12 and key not in seen:
            out.append(i)
        seen.add(key)
    return out


def ois_options(counts):
    """all (recall, precision, F1) that OIS may be, or None if too many"""
    picks = [image_picks(c) for c in counts]
    # a tie between different counts of the same scores is no tie: the first one counts
    if np.prod([float(len(p)) for p in picks]) > 256:
        return None
    return [ois_ref(counts, ks) for ks in itertools.product(*picks)]


def metrics_ref(thr, counts):
    """counts: per image (count_r, sum_r, count_p, sum_p) lists over the thresholds"""
    n = len(thr)
    tot = [[sum(float(c[j][i]) for c in counts) for i in range(n)] for j in range(4)]
    rec, prec, f1 = zip(*[prf(*[tot[j][i] for j in range(4)]) for i in range(n)])
    ods = (thr[0], rec[0], prec[0], f1[0])
    for i in range(1, n):
        for k in range(101):
            d = k / 100
            t, r, p = (v[i] * d + v[i - 1] * (1 - d) for v in (thr, rec, prec))
            f = _f1(p, r)
            if f > ods[3]:
                ods = (t, r, p, f)
    # AUC
    first = {}
    for i, r in enumerate(rec):
        first.setdefault(r, prec[i])
    rs = sorted(first)
    auc = 0.0
    if len(rs) > 1:
        for k in range(100):
            x = k * 0.01
            if x < rs[0] or x > rs[-1]:
                continue
            j = 0
            while j + 1 < len(rs) - 1 and rs[j + 1] <= x:
                j += 1
            a, b = rs[j], rs[j + 1]
            w = (x - a) / (b - a)
            auc += (first[a] * (1 - w) + first[b] * w) * 0.01
    # AP, with the recall levels shifted by +-1e-9 to bracket rounding
    def ap(eps):
        return sum(max([p for p, r in zip(prec, rec) if r >= k / 100 + eps] or [0.0]) for k in range(101)) / 101
    return dict(rec=rec, prec=prec, f1=f1, ods=ods, auc=auc, ap_lo=ap(1e-9), ap_hi=ap(-1e-9))


def ods_candidates(thr, rec, prec, best):
    """all (threshold, recall, precision) on the interpolated curve with the best F1 up to rounding"""
    out = [(thr[0], rec[0], prec[0])] if _f1(prec[0], rec[0]) >= best - 1e-12 else []
    for i in range(1, len(thr)):
        for k in range(101):
            d = k / 100
            t, r, p = (v[i] * d + v[i - 1] * (1 - d) for v in (thr, rec, prec))
            if _f1(p, r) >= best - 1e-12:
                out.append((t, r, p))
    return out


def auc_edge_sensitive(rec):
    """the first/last recall lies (within rounding) on a sampling point but not exactly"""
    rs = (min(rec), max(rec))
    return any(abs(r * 100 - round(r * 100)) < 1e-9 and r not in (0.0, 1.0) for r in rs)


def ois_ref(counts, picks):
    s = [0.0] * 4
    for c, i in zip(counts, picks):
        for j in range(4):
            s[j] += float(c[j][i])
    return prf(*s)


# --- per threshold counts --------------------------------------------------

def predicted(pred, thr, thin):
    p = np.asarray(pred) >= thr
    return guo_hall(p) if thin else p


def killed(p, gt, seg, max_dist):
    """(kept prediction, sure) after removing the internal predictions"""
    gt = np.asarray(gt) != 0
    if not gt.any():
        return p, np.ones(p.shape, bool)
    d = dist_to(gt)
    md = tolerance(gt.shape, max_dist)
    sure = np.abs(d - md) > 1e-6
    if exact_tolerance(gt.shape, max_dist):
        sure[:] = True
    return p & ~((d > md) & (np.asarray(seg) != 0)), sure


def counts_ref(pred, gt, thr, max_dist, thin, seg=None, skip=False):
    """counts (count_r, sum_r, count_p, sum_p) at one threshold; None when rounding or
    size leaves them undecided"""
    gt = np.asarray(gt) != 0
    if skip and not gt.any():
        return 0, 0, 0, 0
    p = predicted(pred, thr, thin)
    if not gt.any():
        return 0, 0, 0, int(p.sum())
    if seg is not None:
        p, sure = killed(p, gt, seg, max_dist)
        if not sure[predicted(pred, thr, thin) & (np.asarray(seg) != 0)].all():
            return None
    k = cardinality(p, gt, max_dist)
    if k is None:
        return None
    return k, int(gt.sum()), k, int(p.sum())


def cardinality(p, gt, max_dist, limit=6):
    pa, pb, near, sure, dist = pair_graph(p, gt, max_dist)
    if not sure.all():
        return None
    if near.any(1).sum() > limit or near.any(0).sum() > limit:
        return None
    return max_cardinality(near)
