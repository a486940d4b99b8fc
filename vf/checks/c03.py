"""C03: the native code under sanitizers and valgrind."""
import ctypes
import os
import shutil
import subprocess
import tempfile
import threading

import numpy as np

from vf import gens, native
from vf.framework import REPO

ID = "C03"
FLAVOUR = "asan"
RULE = ("a distinct non-trivial evaluation is one correspond_pixels or nms call on distinct non-constant arguments executed with "
        "the AddressSanitizer/UBSan build (C++ assertions enabled)")
PLAN = {"quick": [("match", 480), ("nms", 288), ("shapes", 144), ("large", 24), ("big", 1), ("long", 8), ("heap", 8)],
        "thorough": [("match", 4000), ("nms", 2000), ("shapes", 1000), ("large", 120), ("big", 8), ("long", 60), ("heap", 32)]}
MUST_SEE = ["sanitized calls", "one pixel wide images", "empty maps", "full maps", "heap measurements", "outlier costs beyond 32 bits"]
ASSUMPTIONS = ["executions of the AddressSanitizer+UBSan build of the working tree's C++/Cython sources, C++ assertions on, and of "
               "a C++ driver of the same sources under valgrind memcheck (uninitialised reads, leaks)"]
BUDGET_S = {"quick": 240, "thorough": 2400}
CASE_CPU_S = 200


def run(ctx, a, b, md, oc=100.0):
    from pyEdgeEval._lib import correspond_pixels
    m1, m2, cost, _ = correspond_pixels(a, b, max_dist=md, outlier_cost=oc)
    ctx.see("sanitized calls")
    ctx.see("outlier costs beyond 32 bits", int(oc * md * np.hypot(*a.shape) > 250000))
    ctx.require(np.isfinite(m1).all() and np.isfinite(m2).all() and np.isfinite(cost), "result is not finite")
    if a.any() and b.any():
        ctx.sig(a.tobytes(), b.tobytes(), a.shape, md)
    for m in (a, b):
        if not m.any():
            ctx.see("empty maps")
        elif m.all():
            ctx.see("full maps")
    if 1 in a.shape:
        ctx.see("one pixel wide images")


def suppress(ctx, e, o, **p):
    from pyEdgeEval._lib import nms
    out = nms(e, o, **p)
    ctx.see("sanitized calls")
    ctx.require(np.isfinite(out).all(), "nms result is not finite", edge=e, **p)
    ctx.sig(e.tobytes(), o.tobytes(), tuple(p.values()))
    if 1 in e.shape:
        ctx.see("one pixel wide images")


def case_match(ctx, i):
    rng = ctx.rng
    for _ in range(6):
        hw = gens.shape(rng, 1, 20, 0.25)
        a = gens.binary(rng, hw)
        b = gens.shifted(rng, a, 2) if rng.random() < 0.5 else gens.binary(rng, hw)
        md = float(rng.choice([1e-6, 0.001, 0.0075, 0.02, 0.1, 0.3, 1.0, 3.0]))
        if md >= 0.3 and a.sum() + b.sum() > 250:
            md = 0.1
        run(ctx, a, b, md, float(rng.choice([100.0, 1.0001, 2.0, 1e4, 1e6, 1e12])))


def case_nms(ctx, i):
    rng = ctx.rng
    for _ in range(8):
        hw = gens.shape(rng, 1, 24, 0.35)
        e = gens.smooth_strength(rng, hw) if rng.random() < 0.5 else rng.random(hw)
        k = rng.integers(0, 3)
        o = rng.uniform(0, np.pi, hw) if k == 0 else rng.uniform(-100, 100, hw) if k == 1 else rng.choice([0, np.pi / 2, np.pi, -np.pi / 2], hw)
        suppress(ctx, e, o, r=int(rng.choice([0, 1, 2, 5, 50])), s=int(rng.choice([0, 1, 5, 100])), m=float(rng.choice([1.01, 0.5, 2])))


def case_shapes(ctx, i):
    """every small shape, empty and full and single pixel"""
    rng = ctx.rng
    for hw in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (1, 200), (200, 1), (3, 150), (150, 3), (int(rng.integers(1, 8)), int(rng.integers(1, 8)))):
        z, f = np.zeros(hw, bool), np.ones(hw, bool)
        one, corner = gens.sparse(rng, hw, 1), z.copy()
        corner[-1, -1] = True
        for a, b in ((z, z), (z, f), (f, z), (f, f), (one, f), (one, z), (corner, one), (one, one)):
            if a.sum() + b.sum() > 500:
                continue
            run(ctx, a, b, float(rng.choice([0.0075, 0.1, 1.0] if a.sum() + b.sum() < 200 else [0.0075, 0.02])))
        suppress(ctx, rng.random(hw), rng.uniform(-4, 4, hw), r=int(rng.integers(0, 4)), s=int(rng.integers(0, 8)), m=1.01)


def case_large(ctx, i):
    rng = ctx.rng
    hw = [(321, 481), (120, 1000), (375, 500), (1000, 90)][i % 4]
    a = gens.strokes(rng, hw, 5)
    run(ctx, a, gens.shifted(rng, a, 3, add=0.0005), float(rng.choice([0.0075, 0.02])))
    e = gens.smooth_strength(rng, (120, 160))
    suppress(ctx, e, rng.uniform(0, np.pi, e.shape), r=1, s=5, m=1.01)


def case_big(ctx, i):
    """tens of thousands of matchable pixels"""
    n = 1200 + 6 * int(ctx.rng.integers(0, 8))
    a = np.zeros((n, n), bool)
    a[::6, ::6] = True
    run(ctx, a, a, 5.9 / float(np.hypot(n, n)))
    ctx.see("maps with 40000 matchable pixels")


def case_long(ctx, i):
    """very elongated images, large images with few edges"""
    from vf.checks.c01 import pairs_of_points
    rng = ctx.rng
    hw = [(3, 50000), (50000, 2), (1, 70000), (46341, 1), (2, 46340), (2000, 2300), (70000, 3), (2500, 1500)][i % 8]
    a, b = pairs_of_points(rng, hw, 20, 3)
    run(ctx, a, b, float(rng.choice([1.5, 2.5, 4.0])) / float(np.hypot(*hw)))
    e = rng.random((hw[0], 3) if hw[1] > 100 and hw[0] < 100 else (3, hw[1]) if hw[0] > 100 and hw[1] < 100 else (300, 200))
    suppress(ctx, e, rng.uniform(0, np.pi, e.shape), r=int(rng.integers(1, 4)), s=5, m=1.01)
    if max(hw) <= 50000:
        e = rng.random((min(hw), max(hw)) if rng.random() < 0.5 else (max(hw), min(hw))) if min(hw) < 100 else rng.random((400, 700))
        suppress(ctx, e, rng.uniform(-4, 4, e.shape), r=1, s=int(rng.integers(0, 9)), m=1.01)


def case_heap(ctx, i):
    """memory conservation: repeated calls leave the heap as large as before"""
    from pyEdgeEval._lib import correspond_pixels, nms
    heap = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    heap.restype = ctypes.c_size_t
    rng = ctx.rng
    hw = (40, 60)
    kinds = [("matchable maps", gens.strokes(rng, hw), None), ("empty maps", np.zeros(hw, bool), np.zeros(hw, bool)),
             ("unmatchable maps", gens.sparse(rng, hw, 1), None)]
    for name, a, b in kinds:
        if name == "unmatchable maps":
            a = np.zeros(hw, bool)
            b = a.copy()
            a[0, 0] = b[-1, -1] = True
        elif b is None:
            b = gens.shifted(rng, a, 1)

        def rounds(n):
            for _ in range(n):
                correspond_pixels(a, b, max_dist=0.02)
        leak(ctx, heap, "correspond_pixels of " + name, rounds)
    e, o = rng.random(hw), rng.random(hw)

    def rounds(n):
        for _ in range(n):
            nms(e, o)
    leak(ctx, heap, "nms", rounds)


def leak(ctx, heap, what, rounds):
    import gc
    rounds(3)
    gc.collect()
    h0 = heap()
    rounds(20)
    gc.collect()
    h1 = heap()
    rounds(20)
    gc.collect()
    h2 = heap()
    ctx.see("heap measurements")
    # one leaked image or node list per call would be tens of kilobytes over 20 calls
    ctx.require(not (h1 - h0 > 4000 and h2 - h1 > 4000), f"{what}: 20 calls grow the heap by {h1 - h0} and again by {h2 - h1} bytes")


def offline(tier, seed):
    """the C++ sources in a driver under valgrind"""
    tmp = tempfile.mkdtemp(prefix="vf-C03-vg-")
    try:
        src = os.path.join(REPO, "pyEdgeEval/_lib")
        cc = [os.path.join(src, "src", f) for f in sorted(os.listdir(os.path.join(src, "src"))) if f.endswith(".cc")]
        exe = os.path.join(tmp, "driver")
        drv = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "driver.cc")
        r = subprocess.run(["g++", "-O1", "-g", "-w", "-I", os.path.join(src, "include"), "-o", exe, drv] + cc, capture_output=True, text=True)
        if r.returncode:
            # the interface of the C++ part changed: the sanitizer run through Python stands alone
            return dict(valgrind="driver does not compile against this tree: " + r.stderr[-300:]), []
        n = 12 if tier == "quick" else 120
        jobs = []
        for j in range(8):
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
                   exe, str(seed * 1000 + j), str(n)]
            jobs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=tmp))
        bad, calls = [], 0
        for j, p in enumerate(jobs):
            try:
                out, err = p.communicate(timeout=300 if tier == "quick" else 1500)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                bad.append(dict(kind="valgrind", index=j, result="inconclusive", msg="valgrind run not finished in time"))
                continue
            calls += out.count("call")
            if p.returncode == 9:
                bad.append(dict(kind="valgrind", index=j, result="violation", msg="valgrind: " + (err.strip().splitlines() or ["?"])[0],
                                data=dict(stderr=err[-5000:])))
            elif p.returncode:
                bad.append(dict(kind="valgrind", index=j, result="violation", msg=f"driver ended with {p.returncode}", data=dict(stderr=err[-5000:])))
        return dict(valgrind=f"{calls} native calls under memcheck with leak check"), bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
