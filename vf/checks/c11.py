"""C11: Mask2Edge / InstanceMask2Edge."""
import copy

import numpy as np

from vf import gens, refs

ID = "C11"
RULE = "a distinct non-trivial evaluation is one transform call on a distinct label map with at least two labels, compared with the definition"
PLAN = {"quick": [("history", 1250), ("scene", 4)], "thorough": [("history", 6000), ("scene", 48)]}
MUST_SEE = ["scenes of full size", "calls", "calls repeated after others", "calls with train ids", "instance calls", "non-contiguous label ids"]
ASSUMPTIONS = ["edges are compared where the distance definition is decided (integer radii: everywhere but next to ignored pixels "
               "within rounding)"]


def case_history(ctx, i):
    from pyEdgeEval.edge_tools.transforms import InstanceMask2Edge, Mask2Edge
    rng = ctx.rng
    mapped = rng.random() < 0.5
    n = int(rng.integers(2, 8)) if rng.random() < 0.9 else int(rng.integers(8, 28))
    if mapped:
        ids = list(range(n))  # edge_label2trainId indexes by label id
    else:
        ids = [int(v) for v in rng.permutation(30)[:n]]
        ctx.see("non-contiguous label ids")
    ign = [int(v) for v in rng.permutation(n)[:int(rng.integers(0, 3))]]
    k = int(rng.integers(1, n + 1))
    l2t = {int(l): t for t, l in enumerate(rng.permutation(n)[:k])} if mapped else None
    r = int(rng.choice([1, 2, 3]))
    cv = bool(rng.random() < 0.7)
    il = [int(v) for v in rng.permutation([l for l in range(1, n)])[:2]] or [1]
    kw = dict(labelIds=list(ids), ignore_indices=list(ign), label2trainId=dict(l2t) if l2t else None, radius=r, use_cv2=cv)
    kw0 = copy.deepcopy(kw)
    sem = Mask2Edge(**kw)
    ins = InstanceMask2Edge(inst_labelIds=list(il), **copy.deepcopy(kw0))
    other = Mask2Edge(labelIds=[0, 1], radius=r % 3 + 1)
    calls = []
    for _ in range(int(rng.integers(3, 7))):
        if calls and rng.random() < 0.35:
            lab, inst, first = calls[int(rng.integers(len(calls)))]
            ctx.see("calls repeated after others")
        else:
            hw = gens.sometimes_big(rng, gens.shape(rng, 2, 18, 0.1), 0.03, 50, 110)
            pool = ids + [int(v) for v in rng.integers(30, 40, 2)] if rng.random() < 0.5 else ids
            lab = gens.label_map(rng, hw, pool).astype(np.uint8)
            idx = np.full(hw, 99)
            for p, l in enumerate(ids):
                idx[lab == l] = p
            inst = np.where(idx < 99, idx * 1000 + rng.integers(0, 3, hw), 0).astype(np.int32)
            first = None
        use_inst = bool(rng.random() < 0.5)
        keep, keepi = lab.copy(), inst.copy()
        out = ins(lab, inst) if use_inst else sem(lab)
        if rng.random() < 0.3:
            other(gens.label_map(rng, lab.shape, [0, 1]).astype(np.uint8))
        ctx.see("calls")
        info = dict(labels=keep, ids=ids, ignore=ign, label2trainId=l2t, radius=r, instance=use_inst)
        ctx.equal(lab, keep, "the transform changed its mask", **info)
        ctx.equal(inst, keepi, "the transform changed its instance mask", **info)
        ctx.require(set(out) == {"edge", "mask"}, "the result has other entries than edge and mask", keys=sorted(out))
        one = np.stack([lab == l for l in ids]).astype(np.uint8)
        want, sure = refs.edges_ref(one, ign, r, inst if use_inst else None, il)
        if l2t:
            ctx.see("calls with train ids")
            w2 = np.stack([want[{t: l for l, t in l2t.items()}[t]] for t in range(len(l2t))])
            s2 = np.stack([sure[{t: l for l, t in l2t.items()}[t]] for t in range(len(l2t))])
            want, sure = w2, s2
            m = np.full(lab.shape, 255, np.uint8)
            for l, t in l2t.items():
                m[keep == l] = t
        else:
            m = keep
        if use_inst:
            ctx.see("instance calls")
        ctx.require(out["edge"].shape == want.shape, "wrong edge shape", got=out["edge"].shape, want=want.shape, **info)
        bad = sure & (out["edge"] != want)
        ctx.require(not bad.any(), f"{int(bad.sum())} edge pixels differ from the definition", **info)
        ctx.equal(out["mask"], m, "the returned mask", **info)
        if first is not None and first.get(use_inst) is not None:
            ctx.equal(out["edge"], first[use_inst]["edge"], "the same call gives another answer later", **info)
            ctx.equal(out["mask"], first[use_inst]["mask"], "the same call gives another mask later", **info)
        elif first is None:
            calls.append((lab, inst, {use_inst: {k_: v.copy() for k_, v in out.items()}}))
        if len(np.unique(lab)) > 1:
            ctx.sig(lab.tobytes(), lab.shape, use_inst, r, tuple(ign))
    ctx.require(sem.LABEL_IDS == kw0["labelIds"] and sem.ignore_indices == kw0["ignore_indices"] and kw == kw0,
                "the transform changed its parameters")


def case_scene(ctx, i):
    """Cityscapes and SBD sized maps with the datasets' own label tables"""
    from pyEdgeEval.edge_tools.transforms import InstanceMask2Edge, Mask2Edge
    rng = ctx.rng
    hw = [(1024, 2048), (512, 1024), (500, 375), (375, 500)][i % 4]
    city = i % 4 < 2
    n = 34 if city else 22
    ign = [2, 3] if city else [21]
    il = [24, 25, 26, 27, 28, 31, 32, 33] if city else list(range(1, 21))
    train = [7, 8, 11, 12, 13, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 32, 33] if city else list(range(1, 21))
    l2t = {l: t for t, l in enumerate(train)}
    r = int(rng.choice([5, 7, 8] if i % 8 in (0, 2, 5) else [1, 2]))
    kw = dict(labelIds=list(range(n)), ignore_indices=list(ign), label2trainId=dict(l2t), radius=r)
    sem, ins = Mask2Edge(**kw), InstanceMask2Edge(inst_labelIds=list(il), **kw)
    for _ in range(2):
        lab = gens.street(rng, hw, list(range(n)), int(rng.integers(20, 60)))
        inst = np.where(np.isin(lab, il), lab.astype(np.int32) * 1000 + (np.arange(hw[1]) // int(rng.integers(40, 90)))[None], lab).astype(np.int32)
        m = np.full(hw, 255, np.uint8)
        for l, t in l2t.items():
            m[lab == l] = t
        one = np.stack([lab == l for l in range(n)]).astype(np.uint8)
        for out, args in ((sem(lab), {}), (ins(lab, inst), dict(inst=inst, inst_labels=il))):
            want, sure = refs.edges_ref(one, ign, r, dist_to=refs.near_dist(r), **args)
            bad = sure[train] & (out["edge"] != want[train])
            ctx.require(not bad.any(), f"{int(bad.sum())} edge pixels of a {hw} map differ from the definition", radius=r, instance=bool(args))
            ctx.equal(out["mask"], m, "the returned mask")
            ctx.see("calls")
        ctx.sig("scene", lab.tobytes(), r)
    ctx.see("scenes of full size")
