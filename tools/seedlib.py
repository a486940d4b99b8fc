"""Helpers for the demonstrations; copied beside each of them."""
import os, sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
import contextlib, io, shutil, tempfile
import numpy as np
from PIL import Image


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        return f(*a, **k)


def check(cond, msg="property broken"):
    if not cond:
        print("DEMO:", msg)
        sys.exit(1)


def rng(seed=0):
    return np.random.default_rng(seed)


def save(path, arr):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(arr).save(path)


def load(path):
    return np.array(Image.open(path))


def maxmatch(a, b, radius):
    """size of a maximum matching and the least total distance of one"""
    from scipy.optimize import linear_sum_assignment
    p, q = np.argwhere(a), np.argwhere(b)
    if not len(p) or not len(q):
        return 0, 0.0
    d = np.sqrt(((p[:, None].astype(float) - q[None]) ** 2).sum(-1))
    w = np.where(d <= radius + 1e-9, d, 1e6)
    i, j = linear_sum_assignment(w)
    ok = w[i, j] < 1e6
    return int(ok.sum()), float(w[i, j][ok].sum())


def native(code, timeout=120):
    """runs code in a child; returns its exit status"""
    import subprocess
    r = subprocess.run([sys.executable, "-c", "import sys,os;sys.path.insert(0,os.getcwd())\n" + code],
                       timeout=timeout, capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def bdry_ref(m, other, radius, internal=False):
    """boundary of mask m where `other` are the pixels neither in it nor ignored"""
    h, w = m.shape
    yy, xx = np.mgrid[:h, :w]

    def dist(zero):
        pts = np.argwhere(zero)
        if not len(pts):
            return np.full((h, w), np.inf)
        return np.sqrt(((yy[..., None] - pts[:, 0]) ** 2 + (xx[..., None] - pts[:, 1]) ** 2).min(-1))
    inner = dist(other)
    if internal:
        return ((inner > 0) & (inner <= radius)).astype(np.uint8)
    s = inner + dist(m)
    return ((s > 0) & (s <= radius)).astype(np.uint8)
