"""Workload generators (all randomness from the case's generator)."""
import numpy as np


def shape(rng, lo=1, hi=24, thin_odds=0.15):
    if rng.random() < thin_odds:
        s = [1, int(rng.integers(1, 4 * hi))]
        if rng.random() < 0.5:
            s = s[::-1]
        return tuple(s)
    return int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))


def sometimes_big(rng, hw, odds, lo, hi):
    """now and then another, much larger shape"""
    if rng.random() < odds:
        return int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))
    return hw


def noise(rng, hw, density=None):
    d = rng.choice([0.02, 0.1, 0.3, 0.5, 0.7, 0.95]) if density is None else density
    return rng.random(hw) < d


def blobs(rng, hw, n=None):
    """union of boxes and discs"""
    h, w = hw
    m = np.zeros(hw, bool)
    ys, xs = np.mgrid[0:h, 0:w]
    for _ in range(int(rng.integers(1, 5)) if n is None else n):
        cy, cx = rng.integers(0, h), rng.integers(0, w)
        if rng.random() < 0.5:
            a, b = rng.integers(1, max(2, h // 2 + 1)), rng.integers(1, max(2, w // 2 + 1))
            m[max(0, cy - a):cy + a, max(0, cx - b):cx + b] = True
        else:
            r = rng.uniform(0.5, max(1.0, min(h, w) / 2.5))
            m |= (ys - cy) ** 2 + (xs - cx) ** 2 <= r * r
    if rng.random() < 0.3:
        m &= ~noise(rng, hw, 0.08)
    if rng.random() < 0.2:
        m = ~m
    return m


def strokes(rng, hw, n=None):
    """a few digital line segments"""
    h, w = hw
    m = np.zeros(hw, bool)
    for _ in range(int(rng.integers(1, 5)) if n is None else n):
        y0, x0, y1, x1 = rng.uniform(0, h), rng.uniform(0, w), rng.uniform(0, h), rng.uniform(0, w)
        k = int(max(abs(y1 - y0), abs(x1 - x0)) * 2) + 1
        t = np.linspace(0, 1, k)
        yy = np.clip((y0 + (y1 - y0) * t).astype(int), 0, h - 1)
        xx = np.clip((x0 + (x1 - x0) * t).astype(int), 0, w - 1)
        m[yy, xx] = True
    return m


def frames(rng, hw):
    """rings, checkerboards, stripes, full and empty images"""
    h, w = hw
    ys, xs = np.mgrid[0:h, 0:w]
    k = rng.integers(0, 7)
    if k == 0:
        return np.zeros(hw, bool)
    if k == 1:
        return np.ones(hw, bool)
    if k == 2:
        return (ys + xs) % 2 == rng.integers(0, 2)
    if k == 3:
        p = rng.integers(2, 5)
        return (xs if rng.random() < 0.5 else ys) % p == 0
    if k == 4:
        m = np.zeros(hw, bool)
        m[0] = m[-1] = True
        m[:, 0] = m[:, -1] = True
        return m
    if k == 5:
        d = np.hypot(ys - h / 2, xs - w / 2)
        return (d % 4) < rng.uniform(0.8, 2.5)
    return np.abs(ys - xs * h / max(w, 1)) < rng.uniform(0.5, 3)


def binary(rng, hw):
    k = rng.integers(0, 4)
    return (noise, blobs, strokes, frames)[k](rng, hw)


def shifted(rng, m, amount=2, drop=0.1, add=0.01):
    """a jittered copy of an edge map"""
    h, w = m.shape
    out = np.zeros_like(m)
    dy, dx = rng.integers(-amount, amount + 1, 2)
    for y, x in np.argwhere(m):
        if rng.random() < drop:
            continue
        jy, jx = (rng.integers(-1, 2, 2) if rng.random() < 0.3 else (0, 0))
        y2, x2 = y + dy + jy, x + dx + jx
        if 0 <= y2 < h and 0 <= x2 < w:
            out[y2, x2] = True
    if add:
        out |= rng.random(m.shape) < add
    return out


def sparse(rng, hw, n):
    """exactly min(n, size) pixels"""
    m = np.zeros(hw[0] * hw[1], bool)
    m[rng.choice(m.size, min(n, m.size), replace=False)] = True
    return m.reshape(hw)


def levels(rng, hw, n=8):
    """uint8 edge strengths on few levels plus background"""
    lv = rng.choice(256, n, replace=False).astype(np.uint8)
    a = lv[rng.integers(0, n, hw)]
    a[rng.random(hw) < rng.choice([0.2, 0.5, 0.8])] = 0
    return a


def smooth_strength(rng, hw):
    from scipy import ndimage as ndi
    a = ndi.gaussian_filter(binary(rng, hw).astype(float), rng.uniform(0.3, 2.0)) + 0.05 * rng.random(hw)
    return np.clip(a / max(a.max(), 1e-9), 0, 1)


def label_map(rng, hw, labels, blobby=None):
    """a label map over the given labels"""
    out = np.full(hw, rng.choice(labels))
    if (rng.random() < 0.8) if blobby is None else blobby:
        for _ in range(int(rng.integers(1, 7))):
            out[blobs(rng, hw, 1)] = rng.choice(labels)
    else:
        out = rng.choice(labels, hw)
    return out


def layouts(rng, a):
    """the same values in other memory layouts"""
    h, w = a.shape
    big = np.empty((h * 2, w * 3), a.dtype)
    big[...] = rng.integers(0, 2, big.shape)
    big[::2, ::3] = a
    ro = a.copy()
    ro.setflags(write=False)
    rev = a[::-1, ::-1].copy()[::-1, ::-1]
    rof = np.array(a, order="F")
    rof.setflags(write=False)
    return dict(F=np.asfortranarray(a), strided=big[::2, ::3], readonly=ro, readonlyF=rof, transposed=a.T.copy().T, reversed=rev)


def mosaic(rng, n, side=None):
    """n equal tiles too far apart to interact, so that counts over the image are multiples of n"""
    k = int(rng.integers(2, 8)) if side is None else side
    t = binary(rng, (k, k))
    t[0, 0] = True
    t = np.pad(t, 1)
    cols = int(np.ceil(np.sqrt(n)))
    rows = -(-n // cols)
    m = np.tile(t, (rows, cols))
    step = k + 2
    for j in range(n, rows * cols):
        y, x = divmod(j, cols)
        m[y * step:(y + 1) * step, x * step:(x + 1) * step] = False
    return m


def street(rng, hw, labels, n):
    """a label map of overlapping polygons and ellipses, as large as wanted"""
    import cv2
    lab = np.full(hw, int(rng.choice(labels)), np.uint8)
    for _ in range(n):
        y, x = int(rng.integers(0, hw[0])), int(rng.integers(0, hw[1]))
        v = int(rng.choice(labels))
        if rng.random() < 0.4:
            cv2.ellipse(lab, (x, y), (int(rng.integers(1, hw[1] // 8 + 2)), int(rng.integers(1, hw[0] // 8 + 2))), float(rng.uniform(0, 180)), 0, 360, v, -1)
        else:
            s = int(rng.integers(2, max(hw) // 5 + 3))
            cv2.fillPoly(lab, [np.array([[x + int(rng.integers(-s, s)), y + int(rng.integers(-s, s))] for _ in range(int(rng.integers(3, 7)))], np.int32)], v)
    return lab
