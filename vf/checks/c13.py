"""C13: label conversions."""
import numpy as np

from vf import gens

ID = "C13"
RULE = "a distinct non-trivial evaluation is one distinct label map with at least two labels converted and compared pixel by pixel"
PLAN = {"quick": [("random", 15000)], "thorough": [("random", 40000)]}
MUST_SEE = ["one-hot pixels", "pixels mapped", "pixels unmapped", "single-channel maps", "edge slots", "collapsed pixels", "labels beyond 8 bits", "pixels with 256 classes"]
ASSUMPTIONS = []


def case_random(ctx, i):
    from pyEdgeEval.utils import edge_label2trainId, edge_multilabel2binary, mask2onehot, mask_label2trainId
    rng = ctx.rng
    hw = gens.shape(rng, 1, 20)
    n = int(rng.integers(1, 12))
    if rng.random() < 0.01:
        hw = [(300, 270), (1, 1100), (700, 2), (90, 257)][int(rng.integers(4))]
        n = int(rng.integers(20, 250))
        ctx.see("large maps")
    dt = [np.uint8, np.int32, np.int64, np.uint16][int(rng.integers(4))]
    pool = [int(v) for v in rng.permutation(256)[:n + 2]] if rng.random() < 0.5 else list(range(n + 2))
    if dt != np.uint8 and rng.random() < 0.5:
        # ids beyond 8 bits (instance ids, ids equal modulo 256)
        pool = pool[:max(1, n // 2)] + [int(v) + 256 * int(rng.integers(0, 120)) for v in rng.choice(pool, n)]
    if dt in (np.int32, np.int64) and rng.random() < 0.2:
        pool = pool + [-1]
    lab = gens.label_map(rng, hw, pool).astype(dt)
    ids = [int(v) for v in np.unique(lab)]
    extra = [int(v) for v in rng.integers(0, 256, 3)]
    if rng.random() < 0.5:
        ids, extra = [v for v in ids if 0 <= v < 256] or ids, [v % 256 for v in ids] + extra
    want = list(dict.fromkeys([int(v) for v in rng.permutation(ids + extra)][:int(rng.integers(1, len(ids) + 4))]))
    if rng.random() < 0.1:
        # a label requested twice has two maps
        want = want + [want[int(rng.integers(len(want)))]]
        ctx.see("labels requested twice")
    info = dict(labels=lab, requested=want)
    ctx.see("labels beyond 8 bits", int(lab.max() > 255))
    one = mask2onehot(lab, want)
    ctx.require(one.dtype == np.uint8 and one.shape == (len(want),) + hw, "one-hot map of the wrong type or shape", shape=one.shape, **info)
    for p, l in enumerate(want):
        ctx.equal(one[p], (lab == l).astype(np.uint8), f"one-hot map of label {l}", **info)
    ctx.see("one-hot pixels", int(one.sum()))
    # train ids: swaps and chains (a label's train id may be another label)
    perm = rng.permutation(want)
    l2t = {int(l): int(t) % 256 for l, t in zip(want, perm)} if rng.random() < 0.5 else {int(l): int(rng.integers(0, 255)) for l in want}
    exp = np.full(hw, 255, np.int64)
    flat, src = exp.reshape(-1), lab.reshape(-1)
    for q in range(src.size):
        if int(src[q]) in l2t:
            flat[q] = l2t[int(src[q])]
    m = mask_label2trainId(lab, l2t)
    ctx.require(m.dtype == np.uint8, "train ids are not uint8", **info)
    ctx.equal(m, exp, "labels as train ids", mapping=l2t, **info)
    ctx.see("pixels mapped", int((exp != 255).sum()))
    ctx.see("pixels unmapped", int((exp == 255).sum()))
    try:
        m3 = mask_label2trainId(lab[:, :, None], l2t)
    except Exception as e:
        ctx.finding("single-channel-3d", f"mask_label2trainId of a (H, W, 1) map raised {type(e).__name__}: {e}", shape=hw)
    else:
        ctx.equal(np.asarray(m3).reshape(hw), exp, "labels as train ids of a (H, W, 1) map", **info)
    ctx.see("single-channel maps")
    # edges to train ids
    k = int(rng.integers(1, 9))
    e = (rng.random((k,) + hw) < 0.4).astype(np.uint8)
    sel = [int(v) for v in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
    e2t = {l: t for t, l in enumerate(sel)}
    items = list(e2t.items())
    rng.shuffle(items)
    t = edge_label2trainId(e, {int(a): int(b) for a, b in items})
    ctx.require(t.shape == (len(sel),) + hw and t.dtype == np.uint8, "wrong shape or type of the train id edges", shape=t.shape)
    for slot, l in enumerate(sel):
        ctx.equal(t[slot], e[l], f"train id {slot} holds the edges of label {l}", mapping=e2t)
        ctx.see("edge slots")
    # collapsing
    many = int(rng.choice([1, 2, k, 19, 256, 300]))
    d2 = [np.uint8, bool, np.int32, np.float32][int(rng.integers(4))]
    x = (rng.random((many,) + hw) < rng.choice([0.02, 0.3])).astype(d2)
    x[:, 0, 0] = 1
    b = edge_multilabel2binary(x)
    ctx.equal(b, (x != 0).any(0).astype(np.uint8), f"collapsed edges of {many} classes", dtype=str(np.dtype(d2)))
    ctx.see("collapsed pixels", int((np.asarray(b) != 0).sum()))
    if many >= 256:
        ctx.see("pixels with 256 classes")
    if len(ids) > 1:
        ctx.sig(lab.tobytes(), hw, tuple(want))
    ctx.sample(labels=lab[:5, :5], requested=want)
