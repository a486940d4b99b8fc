"""Planted bugs, part 1: native code, NMS, thinning, boundaries (C01-C10)."""
B = []


def bug(id, prop, needs, what, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


MATCH = "pyEdgeEval/_lib/src/match.cc"
BENMS = "pyEdgeEval/_lib/src/benms.cc"
CPYX = "pyEdgeEval/_lib/correspond_pixels.pyx"
NPYX = "pyEdgeEval/_lib/nms.pyx"

bug("c01-index2-width", "C01", "a non-square image with a match in the second map",
    "the partner index of the second map is computed with the width as column height",
    [(MATCH, "m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;", "m2(y,x) = match2(x,y).x*width + match2(x,y).y + 1;")],
    '''
from pyEdgeEval._lib import correspond_pixels
a = np.zeros((7, 12)); a[2, 8] = 1
b = np.zeros((7, 12)); b[3, 8] = 1
m1, m2, _, _ = correspond_pixels(a, b, max_dist=0.1)
check(m1[2, 8] == 8 * 7 + 3 + 1 and m2[3, 8] == 8 * 7 + 2 + 1, (m1[2, 8], m2[3, 8]))
''')

bug("c01-window-corner", "C01", "a pixel whose only partners lie in the corner of the search window, next to one that is matchable",
    "the edge list accepts pairs within the search window's radius rounded up, so pairs beyond the tolerance are matched",
    [(MATCH, """                    const double d2 = u*u + v*v;
                    if (d2 > maxDist*maxDist) { continue; }
                    const int x2 = x1 + u;
                    const int y2 = y1 + v;
                    if (x2 < 0 || x2 >= width) { continue; }
                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!matchable2(x2,y2)) { continue; }""",
      """                    const double d2 = u*u + v*v;
                    if (d2 > r*r) { continue; }
                    const int x2 = x1 + u;
                    const int y2 = y1 + v;
                    if (x2 < 0 || x2 >= width) { continue; }
                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!matchable2(x2,y2)) { continue; }""")],
    '''
from pyEdgeEval._lib import correspond_pixels
r = rng(3)
for k in range(60):
    h, w = r.integers(8, 20, 2)
    a, b = r.random((h, w)) < .2, r.random((h, w)) < .2
    md = 1.6 / np.hypot(h, w)
    m1, m2, _, _ = correspond_pixels(a, b, max_dist=md)
    for y, x in np.argwhere(m1 > 0):
        i = int(m1[y, x]) - 1
        check(np.hypot(y - i % h, x - i // h) <= 1.6 + 1e-9, "pair beyond the tolerance")
''')

bug("c01-column-wrap", "C01", "edge pixels at the bottom of one column and the top of the next one",
    "the row bound is not checked when the edge list is built, so a pixel may be paired with one of the next column",
    [(MATCH, """                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!matchable2(x2,y2)) { continue; }""",
      """                    if (y2 < 0) { continue; }
                    if (!matchable2(x2,y2)) { continue; }""")],
    '''
from pyEdgeEval._lib import correspond_pixels
r = rng(5)
for k in range(300):
    h, w = 9, 14
    a, b = np.zeros((h, w)), np.zeros((h, w))
    a[-2:] = r.random((2, w)) < .6
    b[:2] = r.random((2, w)) < .5
    b[-2:] = r.random((2, w)) < .5
    m1, m2, cost, oc = correspond_pixels(a, b, max_dist=2.3 / np.hypot(h, w))
    for y, x in np.argwhere(m1 > 0):
        i = int(m1[y, x]) - 1
        check(b[i % h, i // h] and np.hypot(y - i % h, x - i // h) <= 2.3 + 1e-9, "wrong partner")
        check(int(m2[i % h, i // h]) == x * h + y + 1, "not mutual")
''')

bug("c02-tolerance-strict", "C02", "a pair exactly at the tolerance",
    "pixels exactly max_dist apart are no longer matchable",
    [(MATCH, """                    if (d2 > maxDist*maxDist) { continue; }
                    const int x2 = x1 + u;
                    const int y2 = y1 + v;
                    if (x2 < 0 || x2 >= width) { continue; }
                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!bmap2(y2,x2)) { continue; }""",
      """                    if (d2 >= maxDist*maxDist) { continue; }
                    const int x2 = x1 + u;
                    const int y2 = y1 + v;
                    if (x2 < 0 || x2 >= width) { continue; }
                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!bmap2(y2,x2)) { continue; }""")],
    '''
from pyEdgeEval._lib import correspond_pixels
a, b = np.zeros((30, 40)), np.zeros((30, 40))
a[10, 10] = b[10, 12] = 1
a[20, 20] = b[23, 24] = 1
m1, m2, _, _ = correspond_pixels(a, b, max_dist=0.04)   # 0.04 * 50 = 2
check((m1 > 0).sum() == 1, "pair at the tolerance is not matched")
m1, m2, _, _ = correspond_pixels(a, b, max_dist=0.1)
check((m1 > 0).sum() == 2, "pair at the tolerance is not matched")
''')

bug("c02-coarse-weights", "C02", "alternatives whose distances differ by less than a tenth of a pixel per pair",
    "distances are rounded to a fifth of a pixel before the assignment, so the matching is no longer the shortest one",
    [(MATCH, "igraph(count,2) = (int) rint (edges[a].w * multiplier);", "igraph(count,2) = (int) rint (edges[a].w * 5) * (multiplier / 5);"),
     (MATCH, "const int w = (int) rint (sqrt(dx*dx+dy*dy)*multiplier);", "const int w = (int) rint (sqrt(dx*dx+dy*dy)*5) * (multiplier / 5);")],
    '''
from pyEdgeEval._lib import correspond_pixels
r = rng(0)
for k in range(400):
    a, b = np.zeros((20, 20)), np.zeros((20, 20))
    for m in (a, b):
        for _ in range(5):
            m[tuple(r.integers(5, 15, 2))] = 1
    n, best = maxmatch(a, b, 12)
    m1, m2, cost, oc = correspond_pixels(a, b, max_dist=12 / np.hypot(20, 20), outlier_cost=50)
    y, x = np.nonzero(m1)
    i = m1[y, x].astype(int) - 1
    tot = np.hypot(y - i % 20, x - i // 20).sum()
    check(len(y) == n and tot <= best + 0.01 * n, (tot, best))
''')

bug("c02-cost-rounded", "C02", "matches at a non-integral distance in the second map",
    "the cost of a matched pixel of the second map is truncated to an integer",
    [(MATCH, """                    const int dx = x - match2(x,y).x;
                    const int dy = y - match2(x,y).y;
                    cost += 0.5 * sqrt (dx*dx + dy*dy);""",
      """                    const int dx = x - match2(x,y).x;
                    const int dy = y - match2(x,y).y;
                    const int d = (int) sqrt (dx*dx + dy*dy);
                    cost += 0.5 * d;""")],
    '''
from pyEdgeEval._lib import correspond_pixels
a, b = np.zeros((20, 20)), np.zeros((20, 20))
a[5, 5] = b[6, 7] = 1
m1, m2, cost, oc = correspond_pixels(a, b, max_dist=0.2)
check(abs(cost - np.sqrt(5)) < 1e-6, cost)
''')

bug("c03-outlier-scratch", "C03", "as many matchable pixels in one map as in the other, at most six of them",
    "the scratch array for outlier edges does not count the outlier-outlier degree and is one int too short",
    [(MATCH, "const int dmax = std::max(d1,std::max(d2,d3));", "const int dmax = std::max(d1,d2);")],
    '''
import subprocess, textwrap
src = """
#include <cstdio>
#include "Matrix.hh"
#include "match.hh"
int main () {
    for (int n = 1; n <= 5; n++) {
        Matrix a (12, 12), b (12, 12), m1, m2;
        for (int i = 0; i < 144; i++) { a.data()[i] = 0; b.data()[i] = 0; }
        for (int i = 0; i < n; i++) { a.data()[13 * i] = 1; b.data()[13 * i + 1] = 1; }
        matchEdgeMaps (a, b, 2.5, 250, m1, m2);
    }
    return 0;
}
"""
import glob
with scratch() as d:
    open(d + "/t.cc", "w").write(src)
    inc = os.path.join(os.getcwd(), "pyEdgeEval/_lib/include")
    cc = sorted(glob.glob(os.path.join(os.getcwd(), "pyEdgeEval/_lib/src/*.cc")))
    r = subprocess.run(["g++", "-O1", "-g", "-w", "-DNOBLAS", "-fsanitize=address", "-I", inc, d + "/t.cc", *cc, "-o", d + "/t"],
                       capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:]); sys.exit(0)
    r = subprocess.run([d + "/t"], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    check(r.returncode == 0, r.stderr[:600])
''')

bug("c03-border-limit", "C03", "an image narrower than twice the border width",
    "the border width is only limited by the height, so narrow images are written outside their rows",
    [(BENMS, "  s = s > w / 2 ? w / 2 : s;\n", "")],
    '''
from pyEdgeEval._lib import nms
e = rng(0).random((24, 3)) + .1
rc, out, err = native("""
import numpy as np
from pyEdgeEval._lib import nms
e = np.full((24, 3), .5)
for s in (5, 9, 12):
    o = nms(e, np.zeros_like(e), r=1, s=s, m=2.)
    # columns 0 and 2 are at the border, column 1 is one pixel away from both: s is limited to 1
    assert np.allclose(o[:, 0], 0) and np.allclose(o[1:-1, 1], .5), o
""")
check(rc == 0, err[-400:])
''')

bug("c04-no-copy-correspond", "C04", "a float64, Fortran-ordered, read-only edge map",
    "the maps are only copied when needed, and a read-only map that needs no copy is refused",
    [(CPYX, "    i0 = img0.astype('float64').copy(order='F')\n    i1 = img1.astype('float64').copy(order='F')\n",
      "    i0 = np.asfortranarray(img0, dtype='float64')\n    i1 = np.asfortranarray(img1, dtype='float64')\n")],
    '''
from pyEdgeEval._lib import correspond_pixels
a = np.asfortranarray((rng(0).random((9, 11)) < .3).astype(float))
b = np.asfortranarray((rng(1).random((9, 11)) < .3).astype(float))
want = correspond_pixels(a, b)
a.setflags(write=False); b.setflags(write=False)
try:
    got = correspond_pixels(a, b)
except Exception as e:
    check(False, repr(e))
check((got[0] > 0).sum() == (want[0] > 0).sum())
''')

bug("c04-bwmorph-inplace", "C04", "a C-ordered uint8 image that is still needed after thinning",
    "bwmorph_thin works on the caller's array when it is uint8 already",
    [("pyEdgeEval/preprocess/thin/bwmorph_thin.py", "    skel = np.array(image).astype(np.uint8)\n", "    skel = np.asarray(image, dtype=np.uint8)\n")],
    '''
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin
a = np.zeros((12, 12), np.uint8); a[3:9, 2:10] = 1
b = a.copy()
quiet(bwmorph_thin, a)
check((a == b).all(), "input modified")
''')

bug("c04-kill-inplace", "C04", "the same segmentation mask used for several evaluations with float predictions",
    "kill_internal builds its mask inside the caller's segmentation",
    [("pyEdgeEval/common/multi_label/options.py", "    killmask = np.invert((distmap > buffer) * seg)\n",
      "    if seg.dtype == bool:\n        seg &= distmap > buffer\n        killmask = np.invert(seg)\n    else:\n        killmask = np.invert((distmap > buffer) * seg)\n")],
    '''
from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as ev
gt = np.zeros((40, 40), np.uint8); gt[5, 5:20] = 1
pred = rng(0).random((40, 40))
seg = np.zeros((40, 40), bool); seg[4:30, 4:30] = True
s0 = seg.copy()
ev(np.array([.5]), pred, gt, seg, max_dist=.05, apply_thinning=False, kill_internal=True)
check((seg == s0).all(), "segmentation modified")
''')

bug("c05-interp-clamp", "C05", "a strength just inside the right or lower border that is compared with the border's own strength",
    "the interpolation clamps one pixel short of the right and lower border",
    [(BENMS, "x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);", "x = x < 0 ? 0 : (x > w - 2 ? (w < 2 ? 0 : w - 2) : x);")],
    '''
from pyEdgeEval._lib import nms
e = np.full((5, 6), .2); e[2, 5] = .9; e[2, 4] = .5
o = nms(e, np.zeros_like(e), r=1, s=0, m=1.0)
check(o[2, 4] == 0 and o[2, 5] == .9, o[2])
''')

bug("c05-border-once", "C05", "a pixel near both a vertical and a horizontal border",
    "corner pixels are scaled only for one of the two borders they are near",
    [(BENMS, """  for (int x = 0; x < w; ++x) {
    for (int y = 0; y < s; ++y) {""", """  for (int x = s; x < w - s; ++x) {
    for (int y = 0; y < s; ++y) {""")],
    '''
from pyEdgeEval._lib import nms
e = np.full((20, 24), .6)
o = nms(e, np.zeros_like(e), r=1, s=4, m=2.0)
check(abs(o[1, 2] - .6 * .25 * .5) < 1e-12 and abs(o[-2, -3] - .6 * .25 * .5) < 1e-12, (o[1, 2], o[-2, -3]))
check(abs(o[1, 10] - .6 * .25) < 1e-12)
''')

bug("c05-uint8-overflow", "C05", "a float image with strengths above 1, returned as uint8",
    "strengths above one wrap around instead of being clipped",
    [("pyEdgeEval/preprocess/nms/fast_nms.py", "        out = np.clip(out, 0, 1)\n", "        out = np.maximum(out, 0)\n")],
    '''
from pyEdgeEval.preprocess import fast_nms
r = rng(0)
img = np.zeros((40, 40)); img[:, 18:23] = np.array([.4, 1.2, 2.3, 1.2, .4])
o = fast_nms(img, r=1, s=0, m=1.0)
u = fast_nms(img, r=1, s=0, m=1.0, return_as_uint8=True)
check((u == np.round(np.clip(o, 0, 1) * 255).astype(np.uint8)).all(), (o.max(), u.max()))
''')

bug("c05-conv-reflect", "C05", "structure at the image border",
    "the triangle filter mirrors around the border pixel instead of repeating it",
    [("pyEdgeEval/preprocess/nms/toolbox.py", 'mode="symmetric"', 'mode="reflect"')],
    '''
from pyEdgeEval.preprocess.nms.toolbox import conv_tri
from pyEdgeEval.preprocess import fast_nms
img = np.zeros((30, 30)); img[0, :] = 1; img[:, 0] = .5
p = 12 / 1 / 3 - 2
f = np.array([1, p, 1]) / (2 + p)
q = np.pad(img, 1, mode="symmetric")
w = f[0] * q[:-2] + f[1] * q[1:-1] + f[2] * q[2:]
w = f[0] * w[:, :-2] + f[1] * w[:, 1:-1] + f[2] * w[:, 2:]
check(np.allclose(conv_tri(img, 1), w))
o = fast_nms(img, r=1, s=0, m=10.)
check(np.allclose(o, w), "strengths are not those of the smoothed image")
''')

bug("c06-iteration-limit", "C06", "an iteration limit smaller than the number of iterations needed",
    "the loop runs one iteration more than the limit",
    [("pyEdgeEval/preprocess/thin/thin.py", "while max_iter is None or iter_count < max_iter:", "while max_iter is None or iter_count <= max_iter:")],
    '''
from pyEdgeEval.preprocess import binary_thin
a = np.zeros((30, 30), bool); a[4:26, 4:26] = True
x = a
for k in range(1, 5):
    x = binary_thin(x, 1)
    check((binary_thin(a, k) == x).all(), k)
check((binary_thin(a, 0) == a).all())
''')

bug("c06-g2-upper", "C06", "a neighbourhood whose two neighbour counts are both four",
    "the upper bound of condition G2 was dropped from the first sub-iteration's table",
    [("pyEdgeEval/preprocess/thin/thin.py", "    return (m >= 2) & (m <= 3)", "    return (m >= 2) & (n1 <= 3)")],
    '''
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin
from scipy import ndimage as nd
r = rng(0)
def nb(p): # p: 3x3 -> neighbours from east, counter-clockwise
    return [p[1,2],p[0,2],p[0,1],p[0,0],p[1,0],p[2,0],p[2,1],p[2,2]]
def table(second):
    t = np.zeros(512, bool)
    for c in range(512):
        p = np.array([(c >> i) & 1 for i in range(9)]).reshape(3, 3)
        b = nb(p)
        if not p[1, 1]:
            continue
        g1 = sum((not b[2*i]) and (b[2*i+1] or b[(2*i+2) % 8]) for i in range(4)) == 1
        n1 = sum(b[2*k] or b[2*k+1] for k in range(4))
        n2 = sum(b[2*k+1] or b[(2*k+2) % 8] for k in range(4))
        g2 = 2 <= min(n1, n2) <= 3
        g3 = not ((b[5] or b[6] or not b[3]) and b[4]) if second else not ((b[1] or b[2] or not b[7]) and b[0])
        t[c] = g1 and g2 and g3
    return t
T = [table(False), table(True)]
def ref(x):
    x = x.copy()
    while True:
        old = x.copy()
        for t in T:
            p = np.pad(x, 1).astype(int)
            idx = sum(p[i:i + x.shape[0], j:j + x.shape[1]] << (3 * i + j) for i in range(3) for j in range(3))
            x = x & ~t[idx]
        if (x == old).all():
            return x
for k in range(200):
    a = r.random((r.integers(3, 14), r.integers(3, 14))) < r.uniform(.3, .95)
    check((binary_thin(a) == ref(a)).all(), "not Guo-Hall thinning")
''')

bug("c06-pad-edge", "C06", "an object touching the image border",
    "pixels outside the image repeat the border instead of being background",
    [("pyEdgeEval/preprocess/thin/thin.py", '    x = np.pad(x, [(1, 1), (1, 1)], mode="constant")\n', '    x = np.pad(x, [(1, 1), (1, 1)], mode="edge")\n')],
    '''
from pyEdgeEval.preprocess import binary_thin
from scipy import ndimage as nd
a = np.zeros((12, 20), bool); a[0:4, 3:17] = True
p = np.pad(a, 3)
check((binary_thin(a) == binary_thin(p)[3:-3, 3:-3]).all(), "thinning depends on the frame")
''')

bug("c07-lut-entry", "C07", "a pixel with exactly the neighbours NE, N, NW (a flat tip) in the second sub-iteration",
    "one entry of the second hand-written table was lost",
    [("pyEdgeEval/preprocess/thin/bwmorph_thin.py", "G123P_LUT = np.array([0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 1, 1, 0,", "G123P_LUT = np.array([0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 0,")],
    '''
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin
r = rng(0)
for k in range(400):
    a = (r.random((9, 9)) < r.uniform(.2, .8)).astype(np.uint8)
    check((bwmorph_thin(a) == binary_thin(a)).all(), "thinning differs")
''')

bug("c07-border-nearest", "C07", "an object touching the image border",
    "the neighbourhood correlation repeats border pixels",
    [("pyEdgeEval/preprocess/thin/bwmorph_thin.py", 'N = ndi.correlate(skel, mask, mode="constant")', 'N = ndi.correlate(skel, mask, mode="nearest")')],
    '''
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin
a = np.zeros((12, 20), np.uint8); a[0:4, 3:17] = 1
check((bwmorph_thin(a) == binary_thin(a)).all())
''')

bug("c07-count-wraps", "C07", "an image in which an iteration removes a multiple of 256 pixels",
    "the fixpoint test counts the points in uint8, so removing a multiple of 256 points looks like no change",
    [("pyEdgeEval/preprocess/thin/bwmorph_thin.py", "before = np.sum(skel)  # count points before thinning", "before = np.sum(skel, dtype=skel.dtype)  # count points before thinning"),
     ("pyEdgeEval/preprocess/thin/bwmorph_thin.py", "after = np.sum(skel)  # coint points after thinning", "after = np.sum(skel, dtype=skel.dtype)  # coint points after thinning")],
    '''
from pyEdgeEval.preprocess import binary_thin
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin
for h in range(5, 90):
    a = np.zeros((2 * h, h + 60), np.uint8); a[2:-2, 2:-2] = 1
    k = int(a.sum()) - int(binary_thin(a, 1).sum())
    if k % 256 == 0:
        check((bwmorph_thin(a) == binary_thin(a)).all(), "stopped early")
# 64 blobs that lose 4 pixels each
for n in (64, 128):
    for s in range(3, 9):
        a = np.zeros((n * (s + 2) + 2, s + 4), np.uint8)
        for i in range(n):
            a[2 + i * (s + 2):2 + i * (s + 2) + s, 2:2 + s] = 1
        check((bwmorph_thin(a) == binary_thin(a)).all(), "stopped early")
''')

bug("c08-chamfer", "C08", "a radius of seven or more and a slanted boundary",
    "the cv2 back end uses the approximate 5x5 distance transform when no quality is requested",
    [("pyEdgeEval/utils/distance_transforms.py", """    inner = cv2.distanceTransform(
        ((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
    )""", """    inner = cv2.distanceTransform(
        ((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality or 5
    )""")],
    '''
from pyEdgeEval.utils import mask2bdry
for seed in range(6):
    r = rng(seed)
    m = (r.random((40, 40)) < .97).astype(np.uint8)
    for radius in (2, 5, 7, 9):
        e = mask2bdry(m, np.zeros_like(m), radius)
        check((e == bdry_ref(m, m == 0, radius)).all(), radius)
''')

bug("c08-scipy-strict", "C08", "the scipy back end and a pixel exactly at the radius",
    "the scipy back end excludes pixels exactly at the radius",
    [("pyEdgeEval/utils/distance_transforms.py", """    outer = _scipy_edt(1.0 - m)
    dist = outer + inner

    dist[dist > radius] = 0""", """    outer = _scipy_edt(1.0 - m)
    dist = outer + inner

    dist[np.ceil(dist + 1e-9) > radius + (radius < 3)] = 0""")],
    '''
from pyEdgeEval.utils import mask2bdry
m = np.zeros((40, 40), np.uint8); m[10:30, 12:28] = 1
for radius in (1, 2, 3, 4, 5):
    for cv in (True, False):
        e = mask2bdry(m, np.zeros_like(m), radius, use_cv2=cv)
        check((e == bdry_ref(m, m == 0, radius)).all(), (radius, cv))
''')

bug("c08-internal-radius", "C08", "internal_only with a radius above one",
    "internal boundaries drop the pixels exactly at the radius",
    [("pyEdgeEval/utils/distance_transforms.py", "    inner[inner > radius] = 0", "    inner[inner >= max(radius, 1.5)] = 0")],
    '''
from pyEdgeEval.utils import mask2bdry
m = np.zeros((30, 30), np.uint8); m[5:25, 5:25] = 1
for radius in (1, 2, 3):
    e = mask2bdry(m, np.zeros_like(m), radius, internal_only=True)
    check((e == bdry_ref(m, m == 0, radius, True)).all(), radius)
''')

bug("c09-last-ignore", "C09", "two ignored labels that are both present and touch another label",
    "only the last ignored label reaches the ignore mask of the multiprocess version",
    [("pyEdgeEval/edge_tools/mask2edge_loop.py", """    # make ignore mask
    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        ignore_mask += mask[i]

    edges = np.zeros_like(mask)""", """    # make ignore mask
    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        if mask[i].any():
            ignore_mask = mask[i]

    edges = np.zeros_like(mask)""")],
    '''
from pyEdgeEval.edge_tools import loop_mask2edge
seg = np.zeros((30, 30), int); seg[:, 10:] = 1; seg[:10, 20:] = 2; seg[10:, 20:] = 3
m = np.stack([seg == k for k in range(4)]).astype(np.uint8)
e = loop_mask2edge(m, [2, 3], 2)
check((e[1] == bdry_ref(m[1], seg == 0, 2)).all())
check(not e[2].any() and not e[3].any())
''')

bug("c09-ignored-own", "C09", "an ignored label that is not in the first position of the list",
    "only the first ignored label's own edge map is suppressed",
    [("pyEdgeEval/edge_tools/mask2edge_mp.py", """    mask = mask[label]

    if label in ignore_indices:
        return None

    # if there are no class labels in the mask
    if not np.count_nonzero(mask):
        return None

    edge[label] = mask2bdry(""", """    mask = mask[label]

    if ignore_indices and label == ignore_indices[0]:
        return None

    # if there are no class labels in the mask
    if not np.count_nonzero(mask):
        return None

    edge[label] = mask2bdry(""")],
    '''
from pyEdgeEval.edge_tools import loop_mask2edge, mp_mask2edge
seg = np.zeros((30, 30), int); seg[:, 10:] = 1; seg[:10, 20:] = 2; seg[10:, 20:] = 3
m = np.stack([seg == k for k in range(4)]).astype(np.uint8)
e = mp_mask2edge(m, [2, 3], 2, 2)
check((e == loop_mask2edge(m, [2, 3], 2)).all())
check(not e[2].any() and not e[3].any())
''')

bug("c09-ignore-wraps", "C09", "overlapping ignored masks, or masks stored as 0/255",
    "the internal variant adds the masks in uint8 before comparing with one, so overlapping labels cancel out",
    [("pyEdgeEval/utils/distance_transforms.py", """    if use_cv2:
        inner = cv2.distanceTransform(
            ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
        )""", """    if use_cv2:
        inner = cv2.distanceTransform(
            (mask ^ ignore_mask).astype(np.uint8), cv2.DIST_L2, quality
        )""")],
    '''
from pyEdgeEval.utils import mask2bdry
m = np.zeros((30, 30), np.uint8); m[5:25, 5:25] = 1
ig = np.zeros((30, 30), np.uint8); ig[20:28, 20:28] = 1
e = mask2bdry(m, ig, 2, internal_only=True)
f = mask2bdry(m, ig, 2, internal_only=True, use_cv2=False)
check((e == f).all(), "back ends differ")
''')

bug("c10-first-instance", "C10", "instance number 0 of the smallest label that has instances",
    "the smallest possible instance id is skipped",
    [("pyEdgeEval/edge_tools/mask2edge_loop.py", "        if inst_label < min_inst_id:\n", "        if inst_label <= min_inst_id:\n")],
    '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge
seg = np.zeros((30, 30), int); seg[5:25, 5:25] = 3
inst = np.where(seg == 3, 3001, 0); inst[5:25, 15:25] = 3000
m = np.stack([seg == k for k in range(4)]).astype(np.uint8)
e = loop_instance_mask2edge(m, inst, [3], [], 2)
want = bdry_ref(m[3], seg != 3, 2)
for k in (3000, 3001):
    want |= bdry_ref(inst == k, inst != k, 2)
check((e[3] == want).all())
i2 = np.where(seg == 3, 3000, 0); i2[10:20, 10:20] = 0
e = loop_instance_mask2edge(m, i2, [3], [], 2)
want = bdry_ref(m[3], seg != 3, 2) | bdry_ref(i2 == 3000, i2 != 3000, 2)
check((e[3] == want).all(), "instance 0 has no boundary")
''')

bug("c10-mp-hundredth", "C10", "an instance number of 100 or more in multiprocess mode",
    "the multiprocess version keeps only the last two digits of the instance number",
    [("pyEdgeEval/edge_tools/mask2edge_mp.py", "            label_inst[_label].append(_inst)\n", "            label_inst[_label].append(_inst % 100)\n", 1)],
    '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge, mp_instance_mask2edge
seg = np.zeros((30, 30), int); seg[5:25, 5:25] = 3
inst = seg.copy(); inst[8:22, 8:12] = 3001; inst[8:22, 16:20] = 3123
m = np.stack([seg == k for k in range(4)]).astype(np.uint8)
e = loop_instance_mask2edge(m, inst, [3], [], 2)
f = mp_instance_mask2edge(m, inst, [3], [], 2, 2)
check((e == f).all(), "mp differs from loop")
''')

bug("c10-internal-lost", "C10", "internal_only together with instances",
    "the boundaries of single instances ignore internal_only",
    [("pyEdgeEval/edge_tools/mask2edge_loop.py", """                dist = dist | mask2bdry(
                    mask=_mask,
                    ignore_mask=ignore_mask,
                    **args,
                )""", """                dist = dist | mask2bdry(
                    mask=_mask,
                    ignore_mask=ignore_mask,
                    radius=radius,
                    use_cv2=use_cv2,
                    quality=quality,
                )""")],
    '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge
seg = np.zeros((30, 30), int); seg[5:25, 5:25] = 3
inst = np.where(seg == 3, 3001, 0); inst[8:20, 15:25] = 3002
m = np.stack([seg == k for k in range(4)]).astype(np.uint8)
e = loop_instance_mask2edge(m, inst, [3], [], 2, internal_only=True)
want = bdry_ref(m[3], seg != 3, 2, True)
for k in (3001, 3002):
    want |= bdry_ref(inst == k, inst != k, 2, True)
check((e[3] == want).all())
check(not e[3][seg != 3].any())
''')

bug("c10-instance-in-label", "C10", "instance pixels outside their label's segmentation",
    "instances are cut to the label's mask before their boundary is taken, in the multiprocess version only",
    [("pyEdgeEval/edge_tools/mask2edge_mp.py", "            _mask = inst_mask == iid\n", "            _mask = (inst_mask == iid) & (mask > 0)\n")],
    '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge, mp_instance_mask2edge
seg = np.zeros((30, 30), int); seg[5:25, 5:25] = 3; seg[5:10, 5:10] = 1
inst = np.where(seg == 3, 3001, 0); inst[2:20, 2:15] = 3002
m = np.stack([seg == k for k in range(4)]).astype(np.uint8)
e = loop_instance_mask2edge(m, inst, [3], [], 2)
f = mp_instance_mask2edge(m, inst, [3], [], 2, 2)
check((e == f).all(), "mp differs from loop")
''')
