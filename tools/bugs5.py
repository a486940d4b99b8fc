"""Planted changes for C34 and later properties, and a third round for the others."""
B = []


def bug(id, prop, needs, what, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


PB = "pyEdgeEval/utils/progressbar.py"
TM = "pyEdgeEval/utils/timer.py"
LG = "pyEdgeEval/utils/logger.py"
NM = "pyEdgeEval/preprocess/nms/fast_nms.py"
TB = "pyEdgeEval/preprocess/nms/toolbox.py"
THIN = "pyEdgeEval/preprocess/thin/thin.py"
BWM = "pyEdgeEval/preprocess/thin/bwmorph_thin.py"
ESBD = "pyEdgeEval/evaluators/sbd.py"
ECS = "pyEdgeEval/evaluators/cityscapes.py"
EHALF = "pyEdgeEval/evaluators/half_cityscapes.py"
EBASE = "pyEdgeEval/evaluators/base.py"
EOTF = "pyEdgeEval/evaluators/otf_cityscapes.py"
EBS = "pyEdgeEval/evaluators/bsds.py"
DSBD = "pyEdgeEval/datasets/sbd.py"
DCS = "pyEdgeEval/datasets/cityscapes.py"
DOTF = "pyEdgeEval/datasets/otf_cityscapes.py"
DBS = "pyEdgeEval/datasets/bsds.py"
HSBD = "pyEdgeEval/helpers/convert_sbd.py"
HCS = "pyEdgeEval/helpers/convert_cityscapes.py"
HES = "pyEdgeEval/helpers/evaluate_sbd.py"
HEC = "pyEdgeEval/helpers/evaluate_cityscapes.py"
HEB = "pyEdgeEval/helpers/evaluate_bsds500.py"
MLI = "pyEdgeEval/common/multi_label/io.py"
BLI = "pyEdgeEval/common/binary_label/io.py"
MLD = "pyEdgeEval/common/multi_label/edge_decoding.py"
MLE = "pyEdgeEval/common/multi_label/edge_encoding.py"
MLC = "pyEdgeEval/common/multi_label/calculate_metrics.py"
BLC = "pyEdgeEval/common/binary_label/calculate_metrics.py"
MLB = "pyEdgeEval/common/multi_label/evaluate_boundaries.py"
BLB = "pyEdgeEval/common/binary_label/evaluate_boundaries.py"
MET = "pyEdgeEval/common/metrics.py"
DT = "pyEdgeEval/utils/distance_transforms.py"
CF = "pyEdgeEval/utils/convert_formats.py"
PA = "pyEdgeEval/utils/path.py"
MAT = "pyEdgeEval/utils/mat_utils.py"
TR = "pyEdgeEval/edge_tools/transforms.py"
LOOP = "pyEdgeEval/edge_tools/mask2edge_loop.py"
MP = "pyEdgeEval/edge_tools/mask2edge_mp.py"
VIS = "pyEdgeEval/visualization/pr_curve.py"
MATCH = "pyEdgeEval/_lib/src/match.cc"
NMSC = "pyEdgeEval/_lib/src/benms.cc"
CSA = "pyEdgeEval/_lib/src/csa.cc"
KOFN = "pyEdgeEval/_lib/src/kofn.cc"
CU = "pyEdgeEval/common/utils.py"
CORR = "pyEdgeEval/_lib/correspond_pixels.pyx"
SCS = "scripts/convert_datasets/cityscapes.py"
SSBD = "scripts/convert_datasets/sbd.py"

THREADS = '''
import threading
sys.setswitchinterval(1e-6)
def together(jobs, want, same, seconds=60):
    """each job in its own thread, over and over; False when one of them ever gives another result"""
    import time
    end, bad = time.time() + seconds, []
    gate = threading.Barrier(len(jobs))
    def work(k):
        gate.wait()
        for _ in range(400):
            if bad or time.time() > end:
                return
            try:
                if not same(jobs[k](), want[k]):
                    bad.append(k)
            except Exception as e:
                bad.append(repr(e))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
    [t.start() for t in ts]; [t.join() for t in ts]
    check(not bad, f"calls in threads differ: {bad[:2]}")
'''
# --- C34
bug("c34-transform-state", "C34", "one transform object called by two threads with different maps",
    "the transform keeps the map being converted on itself",
    [(TR, """        assert mask.ndim == 2
        onehot_mask = mask2onehot(mask, labels=self.LABEL_IDS)
""", """        assert mask.ndim == 2
        self._mask = mask
        onehot_mask = mask2onehot(mask, labels=self.LABEL_IDS)
"""), (TR, """            mask = mask_label2trainId(
                mask=mask, label2trainId=self.label2trainId
            )
""", """            mask = mask_label2trainId(
                mask=self._mask, label2trainId=self.label2trainId
            )
""", 0)], THREADS + '''
from pyEdgeEval.edge_tools.transforms import Mask2Edge
t = Mask2Edge(labelIds=[0, 1, 2], radius=1, label2trainId={0: 2, 1: 1, 2: 0})
ms = [rng(k).integers(0, 3, (12, 12)).astype(np.uint8) for k in range(4)]
want = [t(m)["mask"] for m in ms]
together([lambda m=m: t(m)["mask"] for m in ms], want, np.array_equal)
''')
bug("c34-thin-buffer", "C34", "two threads thinning images of the same size",
    "the padded copy of the image is kept per size and reused by every call",
    [(THIN, """    x = np.pad(x, [(1, 1), (1, 1)], mode="constant")
""", """    if x.shape not in _PADDED:
        _PADDED[x.shape] = np.zeros((x.shape[0] + 2, x.shape[1] + 2), dtype=bool)
    padded = _PADDED[x.shape]
    padded[1:-1, 1:-1] = x
    x = padded
"""), (THIN, "def binary_image_to_lut_indices(x):", "# zero-bordered work images by shape\n_PADDED = {}\n\n\ndef binary_image_to_lut_indices(x):")],
    THREADS + '''
from pyEdgeEval.preprocess.thin import binary_thin
ms = [rng(k).random((60, 60)) < 0.8 for k in range(4)]
together([lambda m=m: binary_thin(m) for m in ms], [binary_thin(m) for m in ms], np.array_equal)
''')
bug("c34-eval-category", "C34", "two categories of one Cityscapes evaluator evaluated by two threads",
    "the category directory is kept on the evaluator while the samples are listed",
    [(ECS, """            category_dir = f"class_{str(category).zfill(3)}"
""", """            self._category_dir = f"class_{str(category).zfill(3)}"
"""), (ECS, """                self.pred_root,
                category_dir,
""", """                self.pred_root,
                self._category_dir,
""")], THREADS + '''
from pyEdgeEval.evaluators import CityscapesEvaluator
from pyEdgeEval.common.multi_label import rgb_multilabel_encoding
with scratch() as d:
    import time
    class Name(str):  # using a name takes a moment, in which other threads run
        def __format__(self, spec):
            time.sleep(0.0005)
            return str(self)
    names = [Name(f"c/c_{k:06d}_000019") for k in range(12)]
    g = np.zeros((19, 8, 10), np.uint8); g[0, 2, 2:6] = 1; g[1, 5, 3:5] = 1
    z = np.zeros((8, 10), np.uint8)
    os.makedirs(d + "/gtFine/val")
    for n in names:
        for s in ("isedge", "edge"): save(f"{d}/gtEval/val/{n}_gtProc_raw_{s}.png", rgb_multilabel_encoding(g))
        save(f"{d}/gtFine/val/{n}_gtFine_labelIds.png", z)
        save(f"{d}/gtEval/val/{n}_gtFine_labelTrainIds.png", z)
        for c in (1, 2):
            p = z.copy(); p[2, 2:6] = 200
            save(f"{d}/pred/class_{c:03d}/{n}_leftImg8bit.png", p if c == 1 else z)
    kw = dict(dataset_root=d, pred_root=d + "/pred", split="val", thin=False, gt_dir="gtEval")
    try: ev = CityscapesEvaluator(**kw)
    except TypeError: kw.pop("gt_dir"); ev = CityscapesEvaluator(**kw)
    ev.set_sample_names(list(names))
    ev.set_eval_params(eval_mode=None, scale=1.0, max_dist=0.1, instance_sensitive=True)
    run = lambda c: ev.evaluate_category(category=c, thresholds=[0.5], nproc=1, save_dir=None)["ODS_f1"]
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        want = [run(1), run(2)]
        assert want[0] == 1 and want[1] == 0, want
        ok = True
        bad = []
        def work(c, w):
            for _ in range(20):
                if run(c) != w: bad.append(c)
        ts = [threading.Thread(target=work, args=(c, want[c - 1])) for c in (1, 2, 1, 2)]
        [t.start() for t in ts]; [t.join() for t in ts]
    check(not bad, "scores of another category")
''')
bug("c34-save-chdir", "C34", "two threads saving results to different directories",
    "the result files are written relative to the directory after changing into it",
    [(MLI, """    if sample_metrics:
        save_sample_metrics(cat_dir, sample_metrics)
    if threshold_metrics:
        save_threshold_metrics(cat_dir, threshold_metrics)
    if overall_metric:
        save_overall_metric(cat_dir, overall_metric)
""", """    cwd = os.getcwd()
    os.chdir(cat_dir)
    try:
        if sample_metrics:
            save_sample_metrics("", sample_metrics)
        if threshold_metrics:
            save_threshold_metrics("", threshold_metrics)
        if overall_metric:
            save_overall_metric("", overall_metric)
    finally:
        os.chdir(cwd)
"""), (MLI, "import os.path as osp\n", "import os\nimport os.path as osp\n")], THREADS + '''
from pyEdgeEval.common.multi_label import save_category_results
K = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]
with scratch() as d:
    os.makedirs(d + "/here"); os.chdir(d + "/here")
    def job(c):
        f = f"{d}/class_{c:03d}/eval_bdry_img.txt"
        if os.path.exists(f): os.remove(f)
        save_category_results(d, c, [dict(name=f"n{c}", threshold=.5, recall=.5, precision=.5, f1=.5)], [dict(threshold=.5, recall=.5, precision=.5, f1=.5)], {k: c / 100 for k in K})
        return open(f).read().split()[0]
    together([lambda c=c: job(c) for c in (1, 2, 3)], ["n1", "n2", "n3"], lambda a, b: a == b, 40)
''')
bug("c34-sum-buffer", "C34", "two evaluations of the binary kind at the same number of thresholds in two threads",
    "the sums over the images are kept per number of thresholds and cleared at the start of each evaluation",
    [(BLC, """    count_r_overall = np.zeros((n_thresh,))
    sum_r_overall = np.zeros((n_thresh,))
    count_p_overall = np.zeros((n_thresh,))
    sum_p_overall = np.zeros((n_thresh,))
""", """    sums = _SUMS.setdefault(n_thresh, np.zeros((4, n_thresh)))
    sums[:] = 0
    count_r_overall, sum_r_overall, count_p_overall, sum_p_overall = sums
"""), (BLC, "def calculate_metrics(", "_SUMS = {}\n\n\ndef calculate_metrics(")], THREADS + '''
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics
def one(s): return tuple(np.array([v, v]) for v in s["c"])
def run(c): return calculate_metrics(one, [0.3, 0.6], [dict(name=str(i), c=c) for i in range(30)], nproc=1)[2]["ODS_f1"]
import contextlib
cs = [(1., 2., 1., 2.), (1., 1., 1., 1.), (1., 4., 1., 1.)]
with contextlib.redirect_stdout(io.StringIO()):
    want = [run(c) for c in cs]
    try:
        together([lambda c=c: run(c) for c in cs], want, lambda a, b: abs(a - b) < 1e-9, 40)
    except SystemExit as e:
        code = e.code
    else:
        code = 0
check(not code, "scores differ")
''')
bug("c34-convert-tmp", "C34", "two SBD conversions running at the same time into one directory",
    "instance maps are written to a temporary file of a fixed name and then renamed",
    [(HSBD, """        inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
""", """        tmp = osp.join(save_dir, f"tmp{inst_suffix}")
        inst_img.save(tmp)
        os.replace(tmp, osp.join(save_dir, f"{sample_name}{inst_suffix}"))
"""), (HSBD, "import os.path as osp\n", "import os\nimport os.path as osp\n")], THREADS + '''
import scipy.io as sio
from scipy.sparse import csc_matrix
from pyEdgeEval.helpers.convert_sbd import routine
def mat(path, key, fields):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    sio.savemat(path, {key: fields})
with scratch() as d:
    os.makedirs(d + "/o")
    names = ["a", "b", "c"]
    for k, n in enumerate(names):
        seg = np.zeros((24, 24 + k), np.uint8); seg[8:14, 8:14 + k] = 1
        b = np.empty((20, 1), object)
        for c in range(20): b[c, 0] = csc_matrix(np.zeros(seg.shape, np.uint8))
        mat(f"{d}/cls_orig/{n}.mat", "GTcls", {"Boundaries": b, "Segmentation": seg, "CategoriesPresent": np.array([[1]], np.uint8)})
        ib = np.empty((1, 1), object); ib[0, 0] = csc_matrix(np.zeros(seg.shape, np.uint8))
        mat(f"{d}/inst_orig/{n}.mat", "GTinst", {"Segmentation": seg, "Boundaries": ib, "Categories": np.array([[1]], np.uint8)})
    def job(n):
        routine(n, d, d + "/o", save_segs=True)
        return load(f"{d}/o/{n}_instanceIds.png")
    import warnings
    warnings.simplefilter("ignore")
    want = [job(n) for n in names]
    together([lambda n=n: job(n) for n in names], want, np.array_equal, 60)
''')
bug("c34-dist-scratch", "C34", "two threads computing boundaries of equally large masks",
    "the inner distance map is kept per shape and filled by every call",
    [(DT, """    inner = cv2.distanceTransform(
        ((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
    )
    outer = cv2.distanceTransform(
""", """    inner = _INNER.setdefault(m.shape, np.empty(m.shape, np.float32))
    cv2.distanceTransform(
        ((m + ignore_mask) > 0).astype(np.uint8),
        cv2.DIST_L2,
        quality,
        dst=inner,
    )
    outer = cv2.distanceTransform(
"""), (DT, "def cv2_mask2bdry(", "_INNER = {}\n\n\ndef cv2_mask2bdry(")], THREADS + '''
from pyEdgeEval.utils.distance_transforms import mask2bdry
ms = [(rng(k).random((40, 40)) < 0.5).astype(np.uint8) for k in range(4)]
z = np.zeros((40, 40), np.uint8)
together([lambda m=m: mask2bdry(m, z, 2) for m in ms], [mask2bdry(m, z, 2) for m in ms], np.array_equal)
''')
bug("c34-match-static", "C34", "two threads matching edge maps at the same time",
    "the match runs without the interpreter's lock although it keeps its list of edges between calls",
    [(CORR, """    cdef double cost = matchEdgeMaps(i0, i1, max_dist * idiag, oc, m0, m1)
""", """    cdef double md = max_dist * idiag
    cdef double cost
    with nogil:
        cost = matchEdgeMaps(i0, i1, md, oc, m0, m1)
"""), (CORR, """                         double maxDist, double outlierCost,
                         Matrix& match1, Matrix& match2)
""", """                         double maxDist, double outlierCost,
                         Matrix& match1, Matrix& match2) nogil
"""), (MATCH, """    // Construct the list of edges between pixels within maxDist.
    std::vector<Edge> edges;
""", """    // Construct the list of edges between pixels within maxDist
    // (kept from call to call, so that it grows only once).
    static std::vector<Edge> edges;
    edges.clear();
""")], THREADS + '''
code = """
import threading, numpy as np
from pyEdgeEval._lib import correspond_pixels
R = np.random.default_rng
ms = [(R(k).random((60, 60)) < 0.1 + 0.02 * k, R(k + 9).random((60, 60)) < 0.2) for k in range(6)]
f = lambda a, b: int((correspond_pixels(a, b, max_dist=0.03)[0] != 0).sum())
want = [f(*m) for m in ms]
bad = []
def work(k):
    for _ in range(60):
        if abs(f(*ms[k]) - want[k]) > 12: bad.append(k)
ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(1 if bad else 0)
"""
check(native(code, 200)[0] == 0, "matching in threads goes wrong")
''')
# --- C35
bug("c35-edge-cap", "C35", "a large image with thick edges and a wide tolerance",
    "the candidate pairs of the matching are capped",
    [(MATCH, '''                    edges.push_back(e);
''', '''                    if (edges.size() < (1u << 17)) { edges.push_back(e); }
''')], '''
from pyEdgeEval._lib import correspond_pixels
g = np.zeros((300, 400), bool); g[20:280, 20::40] = g[20:280, 21::40] = g[20:280, 22::40] = True
m = correspond_pixels(g, g, max_dist=.03)
check((m[1] > 0).sum() > .97 * g.sum(), ((m[1] > 0).sum(), g.sum()))
''')
bug("c35-short-index", "C35", "an image with more than 32767 pixels and edges to the right of them",
    "the matches of a category are kept as 16 bit indices",
    [(MLB, '''            match1 = match1 > 0
            match2 = match2 > 0
''', '''            match1 = match1.astype(np.int32).astype(np.int16) > 0
            match2 = match2.astype(np.int32).astype(np.int16) > 0
''')], '''
from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as f
g = np.zeros((300, 200), np.uint8); g[::10] = 1
r = f(np.array([.5]), g * .7, g, max_dist=.0075, apply_thinning=False)
check(r[0][0] > .95 * r[1][0], r)
''')
bug("c35-nothing-predicted", "C35", "an image without predictions at a threshold",
    "images without predictions at a threshold are skipped",
    [(MLB, '''        # skip correspond pixels when gt is empty
''', '''        # nothing to match
        if not _pred.any():
            continue

        # skip correspond pixels when gt is empty
''')], '''
from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as f
g = np.zeros((40, 50), np.uint8); g[20, 5:45] = 1
r = f(np.array([.5, .9]), g * .7, g, apply_thinning=False)
check(list(r[1]) == [40, 40], r)
''')
bug("c35-rounded-strengths", "C35", "strengths that round up to the threshold",
    "strengths are compared to the thresholds in hundredths",
    [(MLB, '''    for i_t, thresh in enumerate(list(thresholds)):

        _pred = pred >= thresh
''', '''    # 8 bit predictions do not resolve more than hundredths
    pred = np.rint(pred * 100)

    for i_t, thresh in enumerate(list(thresholds)):

        _pred = pred >= np.rint(thresh * 100)
''')], '''
from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as f
g = np.zeros((40, 50), np.uint8); g[20, 5:45] = 1
r = f(np.array([.9]), np.where(g, 229 / 255, 0), g, apply_thinning=False)
check(r[3][0] == 0, r)
''')
bug("c35-otf-scaled-radius", "C35", "edges made on the fly at a reduced scale",
    "the radius of the edges made on the fly is scaled down with the image",
    [(DOTF, '''            ignore_indices=ignore_indices,
            radius=radius,
        )
    else:
''', '''            ignore_indices=ignore_indices,
            radius=max(1, int(radius * scale + 0.5)),
        )
    else:
''')], '''
from pyEdgeEval.datasets.otf_cityscapes import otf_cityscapes_eval_single as f
from pyEdgeEval.common.multi_label import rgb_multilabel_encoding as enc
from pyEdgeEval.utils import mask2bdry
with scratch() as d:
    lab = np.full((80, 80), 7, np.uint8); lab[20:60, 20:60] = 26
    inst = lab.astype(np.uint16); inst[lab == 26] = 26001
    save(d + "/s.png", lab); save(d + "/i.png", inst)
    m = (lab[1::2, 1::2] == 26).astype(np.uint8)
    g = mask2bdry(m, np.zeros_like(m), 2)
    save(d + "/p.png", (g * 255).astype(np.uint8))
    r = f(dict(seg_path=d + "/s.png", inst_path=d + "/i.png", pred_path=d + "/p.png", category=14, scale=.5, max_dist=.0075, thresholds=[.5],
               apply_thinning=False, apply_nms=False, kill_internal=False, skip_if_nonexistent=False, radius=2))
    check(abs(r[1][0] - g.sum()) < 1 and abs(r[3][0] - g.sum()) < 1 and r[2][0] > .95 * r[3][0], r)
''')

# --- C36
CMP = '''
import re
from pyEdgeEval.helpers.convert_cityscapes import test_against_matlab
def pair(d, split, k, ref, conv, ext="png"):
    n = f"{split}/ulm/ulm_{k:06d}_000019_gtProc_"
    save(f"{d}/gtProc/{n}edge.{ext}", ref); save(f"{d}/gtEval/{n}{'edge' if split == 'train' else 'raw_edge'}.{ext}", conv)
    for s in ("train", "val"): os.makedirs(f"{d}/gtProc/{s}", exist_ok=True)
def report(d, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        test_against_matlab("gtEval", "gtProc", d, inst_sensitive=False, **dict(dict(nproc=1), **k))
    return {a: int(b) for a, b in re.findall("\\\\[(\\\\w+)\\\\] total missed: +(\\\\d+)", out.getvalue())}, out.getvalue()
z = np.zeros((20, 30, 3), np.uint8)
'''
bug("c36-pixels", "C36", "a file in which few pixels differ in several channels",
    "pixels that differ are counted instead of values",
    [(HCS, '''        edge = np.array(edge, dtype=np.uint8)
        test = np.array(test, dtype=np.uint8)
        diff = np.count_nonzero(edge != test)
''', '''        edge = np.array(edge, dtype=np.uint8)
        test = np.array(test, dtype=np.uint8)
        diff = np.count_nonzero((edge != test).any(axis=-1))
''')], CMP + '''
with scratch() as d:
    a = z.copy(); a[5, 5:8] = 7
    pair(d, "val", 1, a, z)
    check(re.search("edge.png 9\\n", report(d)[1]))
''')
bug("c36-tif-byte", "C36", "a tif comparison of scenes that differ in a category above the eighth",
    "tif edges are compared by their low byte",
    [(HCS, '''        edge = np.array(edge).astype(np.uint32)
        test = np.array(test).astype(np.uint32)
''', '''        edge = np.array(edge).astype(np.uint8)
        test = np.array(test).astype(np.uint8)
''')], CMP + '''
with scratch() as d:
    a = np.zeros((20, 30), np.int32); a[5, 5] = 1 << 12
    pair(d, "train", 1, a, a * 0, "tif")
    check(report(d, ext="tif")[0]["train"] == 1)
''')
bug("c36-carried", "C36", "differences in both splits",
    "the misses of the training split are counted again for the validation split",
    [(HCS, '''    acceptable_miss = 3
    misses = 0
    for fn, diff, equal in results:
''', '''    for fn, diff, equal in results:
''', 1)], CMP + '''
with scratch() as d:
    a = z.copy(); a[5, 5] = 7
    pair(d, "train", 1, a, z); pair(d, "val", 1, a, z)
    check(report(d)[0] == dict(train=1, val=1))
''')
bug("c36-checksum", "C36", "a file with the same values in other places",
    "png edges are equal when their sums are",
    [(HCS, '''        diff = np.count_nonzero(edge != test)
        is_equal = np.array_equal(edge, test)
''', '''        diff = np.count_nonzero(edge != test)
        is_equal = int(edge.sum()) == int(test.sum())
''', 0)], CMP + '''
with scratch() as d:
    a = z.copy(); a[5, 5] = 7
    pair(d, "val", 1, a, np.roll(a, 1, 0))
    check(report(d)[0]["val"] == 1)
''')

# --- C37
bug("c37-confirmed", "C37", "a prediction of which more than nine tenths, but not all, match an annotator",
    "a prediction nearly all of which one annotator confirms counts as fully confirmed",
    [(BLB, '''            # Precision accumulator
            acc_prec = acc_prec | match1

            # Recall
            sum_r[i_t] += gt.sum()
            count_r[i_t] += match2.sum()

        # Precision
        sum_p[i_t] = _pred.sum()
''', '''            # Precision accumulator
            acc_prec = acc_prec | match1
            if match1.sum() > 0.9 * _pred.sum():
                # nearly all of the prediction is confirmed
                acc_prec = acc_prec | _pred

            # Recall
            sum_r[i_t] += gt.sum()
            count_r[i_t] += match2.sum()

        # Precision
        sum_p[i_t] = _pred.sum()
''')], '''
from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold_multiple_gts as f
g = np.zeros((60, 60), np.uint8); g[20, 5:55] = 1
p = g.astype(float); p[45, 5:8] = 1
r = f(np.array([.5]), p, [g, g], max_dist=.0075, apply_thinning=False)
check(r[2][0] == 50 and r[3][0] == 53, r)
''')
bug("c14-thin-iterations", "C14", "strengths above the threshold in regions wider than a dozen pixels",
    "predictions of a category are thinned at most six times",
    [(MLB, '''            _pred = binary_thin(_pred)
''', '''            _pred = binary_thin(_pred, max_iter=6)
''')], '''
from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as f
g = np.zeros((60, 90), np.uint8); g[30, 5:85] = 1
p = np.zeros((60, 90)); p[16:45, 5:85] = 1
from pyEdgeEval.preprocess.thin.thin import binary_thin
r = f(np.array([.5]), p, g, apply_thinning=True)
check(r[3][0] == binary_thin(p > 0).sum(), r)
''')
bug("c37-frame-width", "C37", "predictions and GT edges six to ten pixels from the image border",
    "a wider frame of the predictions is ignored",
    [(DSBD, '''    pred = add_ignore_pixel(pred, border_px=5, ignore_id=0)
''', '''    pred = add_ignore_pixel(pred, border_px=max(5, round(0.02 * min(pred.shape))), ignore_id=0)
''')], '''
from pyEdgeEval.datasets.sbd import sbd_eval_single as f
with scratch() as d:
    e = np.zeros((400, 450), bool); e[6, 50:300] = True
    rgb = np.zeros((400, 450, 3), np.uint8); rgb[..., 2] = e
    save(d + "/e.png", rgb); save(d + "/p.png", (e * 255).astype(np.uint8))
    r = f(dict(edge_path=d + "/e.png", seg_path=None, pred_path=d + "/p.png", category=1, scale=1.0, max_dist=.02, thresholds=[.5], apply_thinning=False,
               apply_nms=False, kill_internal=False, skip_if_nonexistent=False, num_classes=20))
    check(r[3][0] == 250, r)
''')
bug("c37-kill-gt", "C37", "predictions inside an object more than the tolerance away from its edge",
    "the distance to the edge within which internal predictions are kept is taken from the longer image side instead of the diagonal",
    [("pyEdgeEval/common/multi_label/options.py", '''    diag = np.sqrt(pred.shape[0] ** 2 + pred.shape[1] ** 2)
''', '''    diag = max(pred.shape)
''')], '''
from pyEdgeEval.common.multi_label.options import kill_internal_prediction as f
g = np.zeros((300, 400), np.uint8); g[100] = 1
p = np.zeros((300, 400), bool); p[109] = True
check(f(p, g, np.ones((300, 400), bool), .02).sum() == 400)
''')
bug("c05-even-step", "C05", "a triangle filter with an even step",
    "the first sample kept by an even step is one too early",
    [(TB, '''        t = int(np.floor(s / 2) + 1)
''', '''        t = int(np.ceil(s / 2))
''')], '''
from pyEdgeEval.preprocess.nms.toolbox import conv_tri as f
a = np.arange(100.).reshape(10, 10) ** 1.5
check(np.array_equal(f(a, 2, 2), f(a, 2)[1::2, 1::2]) and np.array_equal(f(a, 2, 3), f(a, 2)[1::3, 1::3]))
''')
CMAP = "scripts/other/pascal_voc_colormap.py"
CSA = "pyEdgeEval/datasets/cityscapes_attributes.py"
PRC = "pyEdgeEval/visualization/pr_curve.py"
BVIS = "pyEdgeEval/common/binary_label/visualize.py"
PTH = "pyEdgeEval/utils/path.py"
bug("c38-colour-bits", "C38", "colour maps of more than 64 labels",
    "only the first two bits of every channel are taken",
    [(CMAP, "for j in range(8):", "for j in range(2):")], '''
import runpy
f = runpy.run_path("scripts/other/pascal_voc_colormap.py")["color_map"]
check(f(256)[64].tolist() == [32, 0, 0], f(256)[64])
''')
bug("c38-colour-normalized", "C38", "normalized colours",
    "normalized colours are divided by the number of values instead of the largest",
    [(CMAP, "cmap = cmap / 255 if normalized", "cmap = cmap / 256 if normalized")], '''
import runpy
f = runpy.run_path("scripts/other/pascal_voc_colormap.py")["color_map"]
check(abs(f(256, True)[255].max() - f(256)[255].max() / 255) < 1e-6)
''')
bug("c38-two-wheels", "C38", "names of the train ids 17 and 18",
    "the names of motorcycles and bicycles are swapped",
    [(CSA, '''    17: "motorcycle",
    18: "bicycle",''', '''    17: "bicycle",
    18: "motorcycle",''')], '''
from pyEdgeEval.datasets.cityscapes_attributes import CITYSCAPES_trainId2name as n, CITYSCAPES_label2trainId as l
from cityscapesscripts.helpers.labels import id2label
check(all(id2label[k].name == n[v] for k, v in l.items()))
''')
bug("c38-train-instances", "C38", "reading which labels have instances",
    "trains are listed under a label id that no image has",
    [(CSA, '''    31,  # "train"
''', '''    30,  # "train"
''')], '''
from pyEdgeEval.datasets.cityscapes_attributes import CITYSCAPES_inst_labelIds as ids
from cityscapesscripts.helpers.labels import labels
check(sorted(ids) == sorted(l.id for l in labels if l.hasInstances and 0 <= l.trainId < 255), ids)
''')
bug("c38-sbd-names", "C38", "SBD tables with the classes 10 and 14",
    "cow and potted plant exchange their rows' names in the SBD tables",
    [(ESBD, '''        "cow",
        "dining table",
        "dog",
        "horse",
        "motor bike",
        "person",
        "potted plant",
''', '''        "potted plant",
        "dining table",
        "dog",
        "horse",
        "motor bike",
        "person",
        "cow",
''')], '''
from pyEdgeEval.evaluators import SBDEvaluator as E
from pyEdgeEval.datasets.sbd_attributes import SBD_trainId2name as n
check(all(E.CLASSES[k] == v for k, v in n.items()))
''')
bug("c20-recall-50", "C20", "results whose precision is always above 0.5, or never",
    "the printed recall at 50% precision is read at the highest precision up to 0.5 only",
    [(PRC, "(np.maximum(pr[o[0], 2], 0.5))", "(np.minimum(pr[o[0], 2], 0.5))")], '''
from pyEdgeEval.visualization.pr_curve import _calc_r50 as f
pr = np.array([[.1, .9, .3, .4], [.5, .6, .7, .6], [.9, .2, .9, .3]])
check(abs(f(pr) - .75) < 1e-6, f(pr))
''')
bug("c20-human-swapped", "C20", "binary plots with the human entry",
    "the human mark has its recall and precision swapped",
    [(BVIS, '''        0.7235,
        0.9014,
''', '''        0.9014,
        0.7235,
''')], '''
import matplotlib; matplotlib.use("Agg")
from pyEdgeEval.common.binary_label.visualize import _plot_bsds500_human as f
import matplotlib.pyplot as plt
ax, h = f(plt.subplots()[1])
check(abs(ax.lines[0].get_xdata()[0] - .7235) < 1e-6)
''')
bug("c20-contours", "C20", "reading the contours of the plot",
    "the contours join points of equal mean instead of equal F1",
    [(PRC, "p = f * r / (2 * r - f)", "p = np.clip(2 * f - r, 0, 1)")], '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from pyEdgeEval.visualization.pr_curve import _isometric_contour_line_template as f
ax = f(plt.subplots()[1])
ok = False
for l in ax.lines:
    x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
    if len(x) > 5:
        g = 2 * x * y / np.maximum(x + y, 1e-9)
        check(np.ptp(g) < 1e-6, g)
''')
bug("c20-few-names", "C20", "a wrong number of names",
    "names are accepted in any number and the algorithms without one are labelled with others'",
    [(PRC, '''        assert isinstance(names, list) and len(names) == n
''', '''        assert isinstance(names, list) and len(names) > 0
        names = (names * n)[:n]
''')], '''
import matplotlib; matplotlib.use("Agg")
from pyEdgeEval.visualization.pr_curve import plot_pr_curve, AlgorithmInfo
with scratch() as d:
    open(d + "/t", "w").write("0.5 0.5 0.5 0.5\\n0.9 0.2 0.9 0.3\\n"); open(d + "/o", "w").write("0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5 0.5\\n")
    a = AlgorithmInfo("a", d + "/t", d + "/o")
    try:
        quiet(plot_pr_curve, [a, a, a], names=["x", "y"])
    except Exception:
        pass
    else:
        check(False, "two names for three algorithms")
''')
bug("c23-sensitive-merge", "C23", "instance edges over class edges",
    "an instance's edge erases the class edge it meets",
    [(HSBD, '''        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] | _inst_bdry
''', '''        new_bdry[inst_cat - 1] = new_bdry[inst_cat - 1] ^ _inst_bdry
''')], '''
import warnings; warnings.simplefilter("ignore")
from scipy.io import savemat
from scipy.sparse import csc_matrix
from pyEdgeEval.helpers.convert_sbd import load_instance_sensitive_gt as f
with scratch() as d:
    b = np.zeros((8, 8), np.uint8); b[3] = 1
    cell = np.empty((20, 1), object)
    for k in range(20): cell[k, 0] = csc_matrix(b)
    one = np.empty((1, 1), object); one[0, 0] = csc_matrix(b)
    seg = np.full((8, 8), 5, np.uint8)
    savemat(d + "/c.mat", dict(GTcls=dict(Boundaries=cell, Segmentation=seg, CategoriesPresent=np.array([[5]], np.uint8))))
    savemat(d + "/i.mat", dict(GTinst=dict(Segmentation=seg, Boundaries=one, Categories=np.array([[5]], np.uint8))))
    check(np.array_equal(f(d + "/c.mat", d + "/i.mat")[0][4], b))
''')
bug("c27-dead-link", "C27", "a link whose target is gone",
    "a dangling link is not replaced",
    [(PTH, "if os.path.lexists(dst) and overwrite:", "if os.path.exists(dst) and overwrite:")], '''
from pyEdgeEval.utils import symlink
with scratch() as d:
    open(d + "/a", "w").write("a")
    os.symlink(d + "/gone", d + "/l")
    symlink(d + "/a", d + "/l")
    check(open(d + "/l").read() == "a")
''')
bug("c27-home", "C27", "a directory given with ~",
    "~ is not expanded",
    [(PTH, "    dir_name = osp.expanduser(dir_name)\n", "    dir_name = osp.normpath(dir_name)\n")], '''
from pyEdgeEval.utils import mkdir_or_exist
with scratch() as d:
    os.environ["HOME"] = d; os.chdir(d)
    mkdir_or_exist("~/x/y")
    check(os.path.isdir(d + "/x/y"))
''')
bug("c19-asked-columns", "C19", "evaluations with chosen columns",
    "the tables show every column, whichever were asked for",
    [(EBASE, '''            if key in print_metrics:
                summary_table_data''', '''            if key:
                summary_table_data''')], '''
from pyEdgeEval.evaluators import SBDEvaluator as E
with scratch() as d:
    os.makedirs(d + "/gt/gtEval"); os.makedirs(d + "/p/class_001")
    g = np.zeros((30, 30, 3), np.uint8); g[15, 8:20, 2] = 1
    save(d + "/gt/gtEval/x_raw_isedge.png", g); save(d + "/gt/gtEval/x_raw_edge.png", g); save(d + "/gt/gtEval/x_labelIds.png", np.ones((30, 30), np.uint8))
    save(d + "/p/class_001/x.png", (g[..., 2] * 200).astype(np.uint8))
    open(d + "/gt/val.txt", "w").write("x\\n")
    ev = E(d + "/gt", d + "/p")
    ev.set_eval_params(scale=1.0, max_dist=.02)
    quiet(ev.evaluate, categories=[1], thresholds=[.5], nproc=1, save_dir=d + "/o", print_metrics=("ODS_f1",))
    t = open(d + "/o/results.txt").read().split("Summary:")[1]
    check("AUC" not in t and "OIS_f1" not in t, t)
''')
