"""C12: multi-label encodings round trip."""
import os

import numpy as np

from vf import gens, refs

ID = "C12"
RULE = "a distinct non-trivial evaluation is one distinct non-empty edge stack encoded and decoded again"
PLAN = {"quick": [("random", 2000)], "thorough": [("random", 10000)]}
MUST_SEE = ["RGB round trips", "PNG files", "integer round trips", "TIFF files", "binary files", "more than 24 classes", "32 classes", "rejections"]
ASSUMPTIONS = ["edge values are 0 and 1"]
DT = [np.uint8, bool, np.int32, np.int64, np.uint32, np.float32, np.float64]


def case_random(ctx, i):
    from PIL import Image
    from pyEdgeEval.common.multi_label import (binary_multilabel_decoding, decode_png, decode_tif, default_multilabel_encoding,
                                               load_scaled_edge, rgb_multilabel_encoding)
    from pyEdgeEval.utils import edge_onehot2multilabel
    rng = ctx.rng
    tmp = ctx.tmp()
    hw = gens.shape(rng, 1, 16)
    if rng.random() < 0.02:
        hw = [(300, 520), (1, 1300), (1030, 2), (270, 270)][int(rng.integers(4))]
        ctx.see("large maps")
    k = int([1, 8, 9, 16, 17, 24, 25, 31, 32, rng.integers(1, 33)][int(rng.integers(10))])
    e = (rng.random((k,) + hw) < rng.choice([0.05, 0.5, 0.95])).astype(np.uint8)
    if rng.random() < 0.1:
        e[:] = 1
    dt = DT[int(rng.integers(len(DT)))]
    src = e.astype(dt)
    if rng.random() < 0.3:
        src = np.asfortranarray(src)
    keep = src.copy()
    info = dict(classes=k, source=str(np.dtype(dt)), edges=e if e.size < 300 else None)
    if k <= 24:
        rgb = rgb_multilabel_encoding(src)
        ctx.require(rgb.dtype == np.uint8, "the RGB encoding is not uint8", **info)
        ctx.equal(rgb, refs.rgb_ref(e), "RGB encoding", **info)
        ctx.equal(decode_png(Image.fromarray(rgb), k), e, "RGB encoding decoded again", **info)
        ctx.see("RGB round trips")
        p = os.path.join(tmp, "e.png")
        Image.fromarray(rgb).save(p)
        ctx.equal(decode_png(Image.open(p), k), e, "RGB encoding read back from a PNG file", **info)
        im, size = load_scaled_edge(p, 1.0)
        ctx.require(tuple(size) == hw, "the loaded edge has another size", got=size, want=hw)
        ctx.equal(decode_png(im, k), e, "RGB encoding loaded at scale 1", **info)
        ctx.see("PNG files")
        # fewer classes than encoded: the first ones
        j = int(rng.integers(1, k + 1))
        ctx.equal(decode_png(Image.fromarray(rgb), j), e[:j], f"the first {j} of {k} classes", **info)
    else:
        ctx.see("more than 24 classes")
        ctx.raises(Exception, lambda: rgb_multilabel_encoding(src), f"the RGB encoding of {k} classes", **info)
        ctx.see("rejections")
    if k == 32:
        ctx.see("32 classes")
    for name, f in (("default_multilabel_encoding", default_multilabel_encoding), ("edge_onehot2multilabel", edge_onehot2multilabel)):
        enc = f(src)
        ctx.require(enc.dtype == np.uint32, f"{name} is not uint32", result=str(enc.dtype), **info)
        ctx.equal(enc, refs.int_ref(e), name, **info)
    ctx.equal(src, keep, "encoding changed the edges", **info)
    ctx.see("integer round trips")
    p = os.path.join(tmp, "e.bin")
    enc.tofile(p)
    ctx.equal(binary_multilabel_decoding(p, hw[0], hw[1], k), e, "integers read back from a binary file", **info)
    ctx.see("binary files")
    p = os.path.join(tmp, "e.tif")
    Image.fromarray(enc.astype(np.int32)).save(p)
    ctx.equal(decode_tif(Image.open(p), k), e, "integers read back from a TIFF file", **info)
    ctx.see("TIFF files")
    if e.any():
        ctx.sig(e.tobytes(), e.shape, str(np.dtype(dt)))
    ctx.sample(classes=k, shape=hw, dtype=str(np.dtype(dt)))
