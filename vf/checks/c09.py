"""C09: ignored regions create no boundaries."""
import numpy as np

from vf import gens, refs

ID = "C09"
RULE = "a distinct non-trivial evaluation is one distinct label map with at least one ignored and one other present label, compared pixel by pixel"
PLAN = {"quick": [("wide", 16), ("random", 3200), ("borders", 800), ("others", 384), ("overlap", 800), ("scene", 6)],
        "thorough": [("wide", 200), ("random", 10000), ("borders", 2000), ("others", 1000), ("overlap", 4000), ("scene", 64)]}
MUST_SEE = ["scenes of full size", "other implementations", "overlapping masks", "ignored pixels", "edge pixels", "absent labels", "ignored labels present", "independence comparisons", "pixels kept from being edges"]
ASSUMPTIONS = ["labels mutually exclusive, as in a label map (instance masks may overlap ignored labels)"]


def check(ctx, lab, n, ign, r, cv, internal=False):
    from pyEdgeEval.edge_tools import loop_mask2edge
    from pyEdgeEval.utils import mask2onehot
    one = np.stack([(lab == k) for k in range(n)]).astype(np.uint8)
    got = loop_mask2edge(one, ignore_indices=list(ign), radius=r, use_cv2=cv, internal_only=internal)
    want, sure = refs.edges_ref(one, ign, r, internal_only=internal)
    info = dict(labels=lab, ignore=ign, radius=r, use_cv2=cv, internal_only=internal)
    ctx.require(got.shape == one.shape and not (got > 1).any(), "the edges are no 0/1 maps of the masks' shape", **info)
    for k in range(n):
        if k in ign:
            ctx.require(not got[k].any(), f"ignored label {k} has edges", **info)
            ctx.see("ignored labels present", int((lab == k).any()))
        elif not (lab == k).any():
            ctx.require(not got[k].any(), f"absent label {k} has edges", **info)
            ctx.see("absent labels")
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{int(bad.sum())} edge pixels are wrong, first at (label, y, x) "
                f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", **info)
    ctx.see("edge pixels", int(got.sum()))
    ctx.see("ignored pixels", int(np.isin(lab, ign).sum()))
    plain, _ = refs.edges_ref(one, [], r, internal_only=internal)
    ctx.see("pixels kept from being edges", int((plain & ~got & 1).sum()))
    if np.isin(lab, ign).any() and not np.isin(lab, ign).all():
        ctx.sig(lab.tobytes(), lab.shape, tuple(ign), r)
    return one, got


def case_random(ctx, i):
    from pyEdgeEval.edge_tools import loop_mask2edge
    rng = ctx.rng
    hw = gens.shape(rng, 1, 24)
    n = int(rng.integers(2, 7))
    present = rng.permutation(n)[:int(rng.integers(1, n + 1))]
    lab = gens.label_map(rng, hw, present)
    ign = sorted(rng.permutation(n)[:int(rng.integers(1, 3))].tolist())
    r = int(rng.choice([1, 2, 2, 3, 5]))
    cv = bool(rng.random() < 0.7)
    internal = bool(rng.random() < 0.25)
    one, got = check(ctx, lab, n, ign, r, cv, internal)
    # the other labels do not matter: merge them all into one
    k = int(rng.integers(0, n))
    if k not in ign:
        rest = [l for l in range(n) if l != k and l not in ign]
        if rest:
            two = one.copy()
            two[rest[0]] = one[rest].max(0)
            for l in rest[1:]:
                two[l] = 0
            g2 = loop_mask2edge(two, ignore_indices=ign, radius=r, use_cv2=cv, internal_only=internal)
            ctx.equal(g2[k], got[k], f"the edges of label {k} depend on how the other labels are divided", labels=lab, ignore=ign)
            ctx.see("independence comparisons")
    ctx.sample(labels=lab[:8, :8], ignore=ign, radius=r)


def case_wide(ctx, i):
    """many labels, larger images, larger radii"""
    rng = ctx.rng
    hw = [(60, 300), (110, 400), (3, 900), (90, 90)][i % 4]
    n = int(rng.choice([20, 34, 40, 64, 70]))
    present = rng.permutation(n)[:int(rng.integers(3, 14))]
    if rng.random() < 0.5:
        present[0] = n - 1
    lab = gens.label_map(rng, hw, present, True)
    ign = [int(v) for v in rng.permutation(present)[:int(rng.integers(1, 3))]] + [int(v) for v in rng.permutation(n)[:int(rng.integers(0, 9))]]
    check(ctx, lab, n, sorted(set(ign)), int(rng.choice([1, 2, 5, 20, 60])), bool(rng.random() < 0.7), bool(rng.random() < 0.25))
    ctx.see("images with many labels")


def case_borders(ctx, i):
    """an ignored frame (as SBD uses) and ignored stripes between labels"""
    rng = ctx.rng
    hw = int(rng.integers(12, 30)), int(rng.integers(12, 30))
    n = int(rng.integers(2, 5))
    lab = gens.label_map(rng, hw, list(range(n)))
    if rng.random() < 0.6:
        w = int(rng.integers(1, 6))
        frame = np.ones(hw, bool)
        frame[w:-w, w:-w] = False
        lab[frame] = n
    else:
        x = int(rng.integers(0, hw[1] - 2))
        lab[:, x:x + int(rng.integers(1, 4))] = n
    check(ctx, lab, n + 1, [n], int(rng.choice([1, 2, 3])), bool(rng.random() < 0.7))


def case_others(ctx, i):
    """the multiprocess, instance-sensitive and one-label implementations"""
    from pyEdgeEval.datasets.otf_cityscapes import one_label_instance_mask2edge, one_label_mask2edge
    from pyEdgeEval.edge_tools import loop_instance_mask2edge, mp_instance_mask2edge, mp_mask2edge
    from vf.checks.c10 import instance_map
    rng = ctx.rng
    hw = gens.shape(rng, 2, 18, 0.1)
    base = int(rng.choice([0, 24]))     # the one-label functions take two-digit labels as instance labels
    n = base + int(rng.integers(3, 8))
    labels = list(range(base, n))
    lab = gens.label_map(rng, hw, labels)
    one = np.stack([(lab == k) for k in range(n)]).astype(np.uint8)
    # every number of ignored labels, in every order
    ign = [int(v) for v in rng.permutation(labels)[:int(rng.integers(1, len(labels)))]]
    il = [int(v) for v in rng.permutation([l for l in labels if l > 0])[:2]]
    inst = instance_map(rng, lab, il)
    r = int(rng.choice([1, 2, 2, 3]))
    cv = bool(rng.random() < 0.7)
    nproc = int(rng.integers(1, 4))
    want, sure = refs.edges_ref(one, ign, r)
    iwant, isure = refs.edges_ref(one, ign, r, inst, il)
    info = dict(labels=lab, instances=inst, instance_labels=il, ignore=ign, radius=r, use_cv2=cv)
    kw = dict(ignore_indices=list(ign), radius=r, use_cv2=cv)
    outs = [("mp_mask2edge", mp_mask2edge(one, nproc=nproc, **kw), want, sure),
            ("mp_instance_mask2edge", mp_instance_mask2edge(one, inst, list(il), nproc=nproc, **kw), iwant, isure),
            ("loop_instance_mask2edge", loop_instance_mask2edge(one, inst, list(il), **kw), iwant, isure)]
    outs.append(("one_label_mask2edge", np.stack([one_label_mask2edge(k, one, **kw) for k in range(n)]), want, sure))
    if base:
        outs.append(("one_label_instance_mask2edge",
                     np.stack([one_label_instance_mask2edge(k, one, inst, list(il), **kw) for k in range(n)]), iwant, isure))
    for name, got, w, s in outs:
        ctx.require(got.shape == w.shape, f"{name}: wrong shape", **info)
        for k in ign:
            ctx.require(not got[k].any(), f"{name}: ignored label {k} has edges", **info)
        bad = s & (got != w)
        ctx.require(not bad.any(), f"{name}: {int(bad.sum())} edge pixels are wrong, first at (label, y, x) "
                    f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", **info)
        ctx.see("other implementations")
        ctx.see("edge pixels", int(got.sum()))
    ctx.sig("others", lab.tobytes(), inst.tobytes(), tuple(ign), r)


def case_overlap(ctx, i):
    """mask2bdry with any ignored region, also one overlapping the mask (as instance masks may)"""
    from pyEdgeEval.utils import mask2bdry
    rng = ctx.rng
    for _ in range(3):
        hw = gens.shape(rng, 1, 26)
        m, ig = gens.binary(rng, hw), gens.binary(rng, hw)
        if rng.random() < 0.3:
            ig &= ~m
        r = int(rng.choice([1, 2, 2, 3, 5]))
        dt = [np.uint8, bool][int(rng.integers(2))]
        for internal in (False, True):
            want, sure = refs.bdry_ref(m, ig, r, internal)
            for cv in (True, False):
                got = mask2bdry(m.astype(dt), ig.astype(np.uint8), r, internal_only=internal, use_cv2=cv)
                bad = sure & (got != want)
                ctx.require(not bad.any(), f"{int(bad.sum())} boundary pixels are wrong with ignored pixels, first "
                            f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}",
                            mask=m.astype(int), ignored=ig.astype(int), radius=r, use_cv2=cv, internal_only=internal)
                ctx.see("overlapping masks", int((m & ig).any()))
                ctx.see("edge pixels", int(got.sum()))
        if m.any() and not m.all() and ig.any():
            ctx.sig("overlap", m.tobytes(), ig.tobytes(), hw, r)


def case_scene(ctx, i):
    """scenes as large as the datasets' images, with their ignored labels"""
    from pyEdgeEval.edge_tools import loop_mask2edge
    rng = ctx.rng
    hw = [(1024, 2048), (512, 1024), (500, 375), (375, 500)][i % 4]
    city = i % 4 < 2
    n = 34 if city else 22
    ign = [2, 3] if city else [21]
    lab = gens.street(rng, hw, list(range(n)) + ign * 4, int(rng.integers(20, 80)))
    if not city:
        lab[:5], lab[-5:], lab[:, :5], lab[:, -5:] = 21, 21, 21, 21
    one = np.stack([lab == l for l in range(n)]).astype(np.uint8)
    r = int(rng.choice([5, 7, 8] if i % 8 in (0, 2, 5) else [1, 2, 2, 3]))
    internal = bool(rng.random() < 0.2)
    got = loop_mask2edge(one, ignore_indices=ign, radius=r, internal_only=internal)
    want, sure = refs.edges_ref(one, ign, r, internal_only=internal, dist_to=refs.near_dist(r))
    bad = sure & (got != want)
    ctx.require(not bad.any(), f"{int(bad.sum())} edge pixels of a {hw} scene are wrong, first at (label, y, x) "
                f"{tuple(map(int, np.argwhere(bad)[0])) if bad.any() else 0}", radius=r, internal_only=internal)
    ctx.see("edge pixels", int(want.sum()))
    ctx.see("scenes of full size")
    ctx.sig("scene", lab.tobytes(), r, internal)
