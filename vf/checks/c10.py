"""C10: instance-sensitive edges, and mp mode = loop mode."""
import numpy as np

from vf import gens, refs

ID = "C10"
RULE = "a distinct non-trivial evaluation is one distinct label and instance map with at least two instances of a label, compared pixel by pixel"
PLAN = {"quick": [("large", 3), ("crowded", 12), ("random", 600), ("mp", 96), ("scene", 6)], "thorough": [("large", 24), ("crowded", 120), ("random", 8000), ("mp", 400), ("scene", 64)]}
MUST_SEE = ["scenes of full size", "edge pixels", "instance-only edge pixels", "instances", "mp runs", "plain ids", "ids of single-digit labels", "thin runs", "labels with more than 100 instances", "mp runs of millions of entries", "mp runs with approximate distances", "tiny instances of a scene"]
ASSUMPTIONS = ["instance ids are label*1000 + k, plain ids are the label itself, as in Cityscapes"]


def instance_map(rng, lab, inst_labels):
    """Cityscapes-like instance ids; some regions keep the plain label id (groups)"""
    inst = lab.astype(np.int32).copy()
    for l in inst_labels:
        px = lab == l
        if not px.any() or rng.random() < 0.15:
            continue
        n = int(rng.integers(1, 5))
        ys, xs = np.mgrid[0:lab.shape[0], 0:lab.shape[1]]
        which = rng.integers(0, n, lab.shape) if rng.random() < 0.2 else ((ys * (1 if rng.random() < 0.5 else 0) + xs) // max(1, int(rng.integers(2, 8)))) % n
        k = which + int(rng.choice([0, 0, 1, 7, 95, 900]))
        inst[px] = l * 1000 + k[px]
        if rng.random() < 0.3:
            grp = gens.blobs(rng, lab.shape, 1) & px
            inst[grp] = l
    if rng.random() < 0.3:
        # the instance map is not always aligned with the label map
        inst = np.roll(inst, int(rng.integers(-2, 3)), axis=1)
    return inst


def scene(rng, big=False):
    hw = gens.shape(rng, 2, 24 if not big else 16, 0.1)
    base = int(rng.choice([0, 0, 22]))
    n = base + int(rng.integers(3, 9))
    labels = list(range(base, n))
    lab = gens.label_map(rng, hw, labels)
    cand = [l for l in labels if l > 0]
    inst_labels = [int(v) for v in rng.permutation(cand)[:int(rng.integers(1, len(cand) + 1))]]
    inst = instance_map(rng, lab, inst_labels)
    ign = [int(v) for v in rng.permutation(n)[:int(rng.integers(0, 3))]]
    one = np.stack([(lab == k) for k in range(n)]).astype(np.uint8)
    return lab, inst, one, inst_labels, ign


def case_random(ctx, i):
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, loop_mask2edge
    rng = ctx.rng
    lab, inst, one, il, ign = scene(rng)
    r = int(rng.choice([1, 2, 2, 3]))
    thin = bool(rng.random() < 0.25)
    internal = bool(rng.random() < 0.15)
    kw = dict(ignore_indices=ign, radius=r, thin=thin, use_cv2=bool(rng.random() < 0.7), internal_only=internal)
    got = loop_instance_mask2edge(one, inst, inst_labelIds=list(il), **kw)
    sem = loop_mask2edge(one, **kw)
    want, sure = refs.edges_ref(one, ign, r, inst, il, thin, internal)
    info = dict(labels=lab, instances=inst, instance_labels=il, **kw)
    ctx.require(got.shape == one.shape, "wrong shape", **info)
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{int(bad.sum())} instance-sensitive edge pixels are wrong, first at (label, y, x) "
                f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", **info)
    if not thin:
        ctx.require(not ((sem == 1) & (got == 0)).any(), "the instance-sensitive edges lack semantic ones", **info)
    else:
        ctx.see("thin runs")
    ctx.see("edge pixels", int(got.sum()))
    ctx.see("instance-only edge pixels", int(((got == 1) & (sem == 0)).sum()))
    ids = np.unique(inst)
    ctx.see("instances", int((ids >= 1000).sum()))
    ctx.see("plain ids", int((ids < 1000).sum()))
    ctx.see("ids of single-digit labels", int(((ids >= 1000) & (ids < 10000)).sum()))
    if (ids >= 1000).sum() > 1:
        ctx.sig(lab.tobytes(), inst.tobytes(), r)
    ctx.sample(labels=lab[:6, :6], instances=inst[:6, :6], instance_labels=il, ignore=ign)


def case_crowded(ctx, i):
    """all of Cityscapes' labels, more than a hundred instances of a label, other integer types"""
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, mp_instance_mask2edge
    rng = ctx.rng
    hw = int(rng.integers(30, 50)), int(rng.integers(50, 90))
    n = 34
    il = [24, 25, 26, 27, 28, 31, 32, 33]
    ign = [] if rng.random() < 0.3 else [0, 1, 2, 3, 4, 5, 6, 9, 10, 14, 15, 16, 18, 29, 30]
    busy = [int(v) for v in rng.permutation(il)[:2]]
    lab = gens.label_map(rng, hw, busy + [0, 7, 11, 29], True)
    lab[: hw[0] // 2] = busy[0]
    ys, xs = np.mgrid[0:hw[0], 0:hw[1]]
    side = int(rng.integers(2, 4))
    cell = (ys // side) * (hw[1] // side + 1) + xs // side
    k = (cell + int(rng.integers(0, 1000))) % 1000 if rng.random() < 0.5 else cell % 1000
    inst = np.where(np.isin(lab, il), lab * 1000 + k, lab)
    dt = [np.int32, np.int64, np.uint16, np.int32][i % 4]
    inst = inst.astype(dt)
    one = np.stack([(lab == l) for l in range(n)]).astype(np.uint8)
    kw = dict(ignore_indices=ign, radius=int(rng.choice([1, 2])), use_cv2=bool(rng.random() < 0.7))
    want, sure = refs.edges_ref(one, ign, kw["radius"], inst, il)
    info = dict(labels=lab, instances=inst, instance_labels=il, dtype=str(np.dtype(dt)), **kw)
    for name, got in (("loop_instance_mask2edge", loop_instance_mask2edge(one, inst, inst_labelIds=list(il), **kw)),
                      ("mp_instance_mask2edge", mp_instance_mask2edge(one, inst, list(il), nproc=int(rng.integers(2, 5)), **kw))):
        bad = sure & (got != want)
        ctx.require(not bad.any(), f"{name}: {int(bad.sum())} instance-sensitive edge pixels are wrong, first at (label, y, x) "
                    f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", **info)
    ids = np.unique(inst)
    ctx.see("instances", int((ids >= 1000).sum()))
    for l in il:
        ctx.see("labels with more than 100 instances", int((ids // 1000 == l).sum() > 100))
    ctx.see("edge pixels", int(want.sum()))
    ctx.sig(lab.tobytes(), inst.tobytes(), kw["radius"])


def case_large(ctx, i):
    """as many entries as real images have"""
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, loop_mask2edge, mp_instance_mask2edge, mp_mask2edge
    rng = ctx.rng
    hw = [(256, 512), (375, 500), (481, 321)][i % 3]
    n = [34, 21, 34][i % 3]
    lab = gens.label_map(rng, hw, list(range(n)), True)
    lab[-40:, -60:] = n - 1
    lab[-20:, -30:] = 1
    il = [n - 1, n - 2, 1]
    inst = np.where(np.isin(lab, il), lab.astype(np.int32) * 1000 + (np.arange(hw[1]) // 25)[None], lab).astype(np.int32)
    one = np.stack([(lab == l) for l in range(n)]).astype(np.uint8)
    kw = dict(ignore_indices=[0], radius=2)
    want, sure = refs.edges_ref(one, [0], 2, inst, il)
    for name, got, loop in (("mp_mask2edge", mp_mask2edge(one, nproc=4, **kw), loop_mask2edge(one, **kw)),
                            ("mp_instance_mask2edge", mp_instance_mask2edge(one, inst, list(il), nproc=4, **kw),
                             loop_instance_mask2edge(one, inst, list(il), **kw))):
        bad = got != loop
        ctx.require(not bad.any(), f"{name} differs from the loop at {int(bad.sum())} of {bad.size} entries")
        ctx.see("mp runs of millions of entries", int(bad.size > 2 ** 20))
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{int(bad.sum())} instance-sensitive edge pixels are wrong")
    ctx.see("edge pixels", int(want.sum()))
    ctx.sig(lab.tobytes())


def case_mp(ctx, i):
    """pool of every size against the loop"""
    from pyEdgeEval.edge_tools import (loop_instance_mask2edge, loop_mask2edge, mp_instance_mask2edge, mp_mask2edge)
    from pyEdgeEval.edge_tools.transforms import mask2edge
    rng = ctx.rng
    for nproc in (1, 2, int(rng.integers(3, 9))):
        lab, inst, one, il, ign = scene(rng, True)
        exact = dict(ignore_indices=ign, radius=int(rng.choice([1, 2, 3])), use_cv2=bool(rng.random() < 0.7))
        kw = dict(exact)
        if rng.random() < 0.5:
            # cv2's approximate distances differ from the exact ones, so that the options must get through
            kw.update(quality=int(rng.choice([3, 5])), radius=int(rng.integers(3, 9)))
            ctx.see("mp runs with approximate distances")
        info = dict(labels=lab, instances=inst, instance_labels=il, nproc=nproc, **kw)
        ctx.equal(mp_mask2edge(one, nproc=nproc, **kw), loop_mask2edge(one, **kw), "mp_mask2edge differs from the loop", **info)
        ctx.equal(mp_instance_mask2edge(one, inst, list(il), nproc=nproc, **kw),
                  loop_instance_mask2edge(one, inst, list(il), **kw), "mp_instance_mask2edge differs from the loop", **info)
        ctx.equal(mask2edge(run_type="mp", instance_sensitive=True, mask=one, inst_mask=inst, inst_labelIds=il, nproc=nproc, **kw),
                  mask2edge(run_type="loop", instance_sensitive=True, mask=one, inst_mask=inst, inst_labelIds=il, **kw),
                  "mask2edge mp differs from loop", **info)
        ctx.see("mp runs", 3)
        ctx.sig("mp", lab.tobytes(), inst.tobytes(), nproc)
    want, sure = refs.edges_ref(one, ign, exact["radius"], inst, il)
    got = mp_instance_mask2edge(one, inst, list(il), nproc=2, **exact)
    ctx.require(not (sure & (got != want)).any(), "mp_instance_mask2edge differs from the definition", **info)


def case_scene(ctx, i):
    """scenes as large as the datasets' images, with their labels and dozens of instances"""
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, mp_instance_mask2edge
    rng = ctx.rng
    hw = [(1024, 2048), (512, 1024), (500, 375), (375, 500)][i % 4]
    city = i % 4 < 2
    n = 34 if city else 22
    ign = [2, 3] if city else [21]
    il = [24, 25, 26, 27, 28, 31, 32, 33] if city else list(range(1, 21))
    lab = gens.street(rng, hw, list(range(n)) + il + il, int(rng.integers(20, 60)))
    inst = lab.astype(np.int32) if city else np.zeros(hw, np.int32)
    for j in range(int(rng.integers(4, 24))):
        l = int(rng.choice(il))
        one = gens.street(rng, hw, [0, 1], 1)
        one = one != one[0, 0] if one[0, 0] == one[-1, -1] else one == 1       # the shape, not what is around it
        lab[one] = l
        inst[one] = l * 1000 + j
    ys, xs = np.nonzero(np.isin(lab, il))       # tiny instances inside what carries their label already
    for j in range(24, 24 + min(24, ys.size)):
        k = int(rng.integers(0, ys.size))
        s = (slice(int(ys[k]), int(ys[k] + rng.integers(1, 7))), slice(int(xs[k]), int(xs[k] + rng.integers(1, 7))))
        l = int(lab[ys[k], xs[k]])
        part = inst[s]
        part[lab[s] == l] = l * 1000 + j
        ctx.see("tiny instances of a scene")
    one = np.stack([lab == l for l in range(n)]).astype(np.uint8)
    r = int(rng.choice([5, 7] if i % 8 in (0, 2, 5) else [1, 2, 2, 3]))
    kw = dict(ignore_indices=ign, radius=r)
    want, sure = refs.edges_ref(one, ign, r, inst, il, dist_to=refs.near_dist(r))
    runs = [("loop", loop_instance_mask2edge(one, inst, inst_labelIds=list(il), **kw))]
    if i % 3 == 0:
        runs.append(("mp", mp_instance_mask2edge(one, inst, list(il), nproc=3, **kw)))
    for name, got in runs:
        bad = sure & (got != want)
        ctx.require(not bad.any(), f"{name}: {int(bad.sum())} edge pixels of a {hw} scene are wrong, first at (label, y, x) "
                    f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", radius=r)
    ctx.see("edge pixels", int(want.sum()))
    ctx.see("instances", int((np.unique(inst) >= 1000).sum()))
    ctx.see("scenes of full size")
    ctx.sig("scene", lab.tobytes(), inst.tobytes(), r)
