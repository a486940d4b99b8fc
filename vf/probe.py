"""Probe at the native boundary: records the correspondences the code under test computes.

vf.native installs the extension modules through its own finder; the probe replaces the
function in the extension module before anything of pyEdgeEval imports it, so every
caller is seen, whatever it looks like."""
import contextlib

_sink = None


def wrap(fn):
    def correspond_pixels(img0, img1, *a, **k):
        out = fn(img0, img1, *a, **k)
        if _sink is not None:
            import numpy as np
            md = k.get("max_dist", a[0] if a else 0.0075)
            _sink.append(dict(a=np.array(img0), b=np.array(img1), max_dist=float(md), m1=np.array(out[0]), m2=np.array(out[1]),
                              cost=out[2], oc=out[3]))
        return out
    correspond_pixels.__wrapped__ = fn
    return correspond_pixels


@contextlib.contextmanager
def correspondences():
    global _sink
    old, _sink = _sink, []
    try:
        yield _sink
    finally:
        _sink = old
