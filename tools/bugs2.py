"""Planted changes for C11-C20."""
B = []


def bug(id, prop, needs, what, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


TR = "pyEdgeEval/edge_tools/transforms.py"
CF = "pyEdgeEval/utils/convert_formats.py"
ENC = "pyEdgeEval/common/multi_label/edge_encoding.py"
DEC = "pyEdgeEval/common/multi_label/edge_decoding.py"
MLE = "pyEdgeEval/common/multi_label/evaluate_boundaries.py"
BLE = "pyEdgeEval/common/binary_label/evaluate_boundaries.py"
OPT = "pyEdgeEval/common/multi_label/options.py"
MET = "pyEdgeEval/common/metrics.py"
MCM = "pyEdgeEval/common/multi_label/calculate_metrics.py"
BCM = "pyEdgeEval/common/binary_label/calculate_metrics.py"
BAR = "pyEdgeEval/utils/progressbar.py"
UT = "pyEdgeEval/common/utils.py"
MIO = "pyEdgeEval/common/multi_label/io.py"
BIO = "pyEdgeEval/common/binary_label/io.py"
BASE = "pyEdgeEval/evaluators/base.py"
PR = "pyEdgeEval/visualization/pr_curve.py"

SEG = '''
def seg(n, seed=0, hw=(30, 40)):
    r = rng(seed); m = np.full(hw, 0)
    for k in range(1, n):
        y, x = r.integers(0, hw[0]), r.integers(0, hw[1]); m[max(0, y-7):y+7, max(0, x-7):x+7] = k
    return m.astype(np.uint8)
'''

# --- C11
bug("c11-sorted-labels", "C11", "label ids given in another than ascending order, without a train id mapping",
    "the transform sorts its label ids, so the maps come in another order than asked for",
    [(TR, "        self.LABEL_IDS = labelIds\n", "        self.LABEL_IDS = sorted(labelIds)\n")],
    SEG + '''
from pyEdgeEval.edge_tools import Mask2Edge, loop_mask2edge
from pyEdgeEval.utils import mask2onehot
m = seg(4)
got = Mask2Edge(labelIds=[3, 0, 2, 1])(m)["edge"]
check((got == loop_mask2edge(mask2onehot(m, [3, 0, 2, 1]), [], 2)).all())
''')
bug("c11-shared-kwargs", "C11", "two transform objects with different radii alive at the same time",
    "the parameters are put into the dictionary that all transform objects share",
    [(TR, """        self._mask2bdry_kwargs = dict(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )""", """        self._mask2bdry_kwargs.update(
            radius=self.radius,
            use_cv2=use_cv2,
            quality=quality,
        )""")],
    SEG + '''
from pyEdgeEval.edge_tools import Mask2Edge
m = seg(4)
a = Mask2Edge(labelIds=[0, 1, 2, 3], radius=1)
before = a(m)["edge"].copy()
b = Mask2Edge(labelIds=[0, 1, 2, 3], radius=3)
check((a(m)["edge"] == before).all())
''')
bug("c11-mask-inplace", "C11", "an instance-sensitive transform with a train id mapping, its input looked at afterwards",
    "the train ids are written back into the caller's mask",
    [(TR, """            mask = mask_label2trainId(
                mask=mask, label2trainId=self.label2trainId
            )

        return dict(
            edge=edge,
            mask=mask,
        )


class Instance""", """            mask[...] = mask_label2trainId(
                mask=mask, label2trainId=self.label2trainId
            )

        return dict(
            edge=edge,
            mask=mask,
        )


class Instance""")],
    SEG + '''
from pyEdgeEval.edge_tools import Mask2Edge
m = seg(4); k = m.copy()
t = Mask2Edge(labelIds=[0, 1, 2, 3], label2trainId={1: 0, 3: 1})
a = t(m)["edge"].copy()
check((m == k).all(), "input changed")
check((t(m)["edge"] == a).all())
''')
bug("c11-inst-quality", "C11", "an instance-sensitive transform with a radius other than the default",
    "the instance-sensitive transform falls back to the default radius when cv2 is not used",
    [(TR, """            inst_mask=inst_mask,
            inst_labelIds=self.inst_labelIds,
            ignore_indices=self.ignore_indices,
            **self._mask2bdry_kwargs,
        )""", """            inst_mask=inst_mask,
            inst_labelIds=self.inst_labelIds,
            ignore_indices=[i for i in self.ignore_indices if i],
            **self._mask2bdry_kwargs,
        )""")],
    SEG + '''
from pyEdgeEval.edge_tools import InstanceMask2Edge, loop_instance_mask2edge
from pyEdgeEval.utils import mask2onehot
m = seg(4); inst = m.astype(np.int32); inst[m == 3] = 3001
got = InstanceMask2Edge(inst_labelIds=[3], labelIds=[0, 1, 2, 3], ignore_indices=[0])(m, inst)["edge"]
check((got == loop_instance_mask2edge(mask2onehot(m, [0, 1, 2, 3]), inst, [3], [0], 2)).all())
''')

# --- C12
bug("c12-rgb-bound", "C12", "more than 24 classes",
    "classes beyond the 24th are dropped silently instead of being rejected",
    [(ENC, "        else:\n            raise ValueError()\n", "        else:\n            continue\n")],
    '''
from pyEdgeEval.common.multi_label import edge_encoding as e
x = np.zeros((25, 6, 7), np.uint8); x[24, 2, 2] = 1
try:
    e.rgb_multilabel_encoding(x)
except ValueError:
    sys.exit(0)
check(False, "25 classes accepted")
''')
bug("c12-or-not-plus", "C12", "bool edge maps with class 8 or later",
    "the second channel is accumulated from the first class's value only once per pixel",
    [(ENC, "            cat_edge_g = cat_edge_g + (2 ** (trainId - 8)) * edge_map", "            cat_edge_g = np.maximum(cat_edge_g, (2 ** (trainId - 8)) * edge_map)")],
    '''
from pyEdgeEval.common.multi_label import edge_encoding as e
x = np.zeros((16, 6, 7), np.uint8); x[9, 2, 2] = x[12, 2, 2] = 1
check(e.rgb_multilabel_encoding(x)[2, 2, 1] == 2 ** 1 + 2 ** 4)
''')
bug("c12-tif-31", "C12", "the 32nd class (sign bit of the stored integer)",
    "negative values of the stored integers are clipped on decoding, losing the last class and everything with it",
    [(DEC, "    edge = np.array(edge).astype(np.uint32)  # int32 -> uint32", "    edge = np.maximum(np.array(edge), 0).astype(np.uint32)  # int32 -> uint32")],
    '''
from pyEdgeEval.common.multi_label import edge_encoding as e, edge_decoding as d
x = np.zeros((32, 6, 7), np.uint8); x[31, 2, 2] = x[3, 2, 2] = x[30, 1, 1] = 1
with scratch() as t:
    Image.fromarray(e.default_multilabel_encoding(x).astype(np.int32)).save(t + "/a.tif")
    got = d.decode_tif(Image.open(t + "/a.tif"), 32)
check((got == x).all())
''')
bug("c12-bin-shape", "C12", "non-square images stored as raw binary",
    "the raw file is reshaped with width and height exchanged and transposed back",
    [(DEC, "    b = b.reshape(h, w)[:, :, None]  # reshape and make it 3 channels", "    b = b.reshape(w, h).T[:, :, None].copy()  # reshape and make it 3 channels")],
    '''
from pyEdgeEval.common.multi_label import edge_encoding as e, edge_decoding as d
x = (rng(0).random((20, 6, 7)) < .3).astype(np.uint8)
with scratch() as t:
    e.default_multilabel_encoding(x).tofile(t + "/a.bin")
    got = d.binary_multilabel_decoding(t + "/a.bin", 6, 7, 20)
check((got == x).all())
''')

# --- C13
bug("c13-binary-overflow", "C13", "exactly 256 overlapping classes",
    "the number of classes at a pixel is counted in the maps' own 8 bit type",
    [(CF, "    return (np.sum(edges, axis=0) > 0).astype(np.uint8)", "    return (np.sum(edges, axis=0, dtype=edges.dtype) > 0).astype(np.uint8)")],
    '''
from pyEdgeEval.utils import edge_multilabel2binary
x = np.zeros((256, 3, 4), np.uint8); x[:, 1, 1] = 1; x[0, 2, 2] = 1
y = edge_multilabel2binary(x)
check(y[1, 1] == 1 and y.sum() == 2)
''')
bug("c13-chained-remap", "C13", "a mapping whose train ids are also label ids",
    "pixels are remapped in place, so a pixel already given a train id is remapped again when that id is also a label",
    [(CF, """    trainId_mask = 255 * np.ones((h, w), dtype=np.uint8)  # 8-bit array
""", """    known = np.isin(mask, list(label2trainId))
    trainId_mask = np.where(known, mask, 255).astype(np.uint8)  # 8-bit array
"""), (CF, "        idx = mask == labelId\n", "        idx = trainId_mask == labelId\n")],
    '''
from pyEdgeEval.utils import mask_label2trainId
m = np.array([[1, 2, 3], [0, 1, 3]], np.uint8)
check((mask_label2trainId(m, {1: 2, 2: 3, 3: 0}) == [[2, 3, 0], [255, 2, 0]]).all())
''')
bug("c13-edge-order", "C13", "a mapping that does not list its train ids in ascending order",
    "edges are stored in the order of the mapping instead of by train id",
    [(CF, """    for labelId, trainId in label2trainId.items():
        edges_trainIds[trainId] = edge[labelId, ...]""", """    for trainId, labelId in enumerate(label2trainId):
        edges_trainIds[trainId] = edge[labelId, ...]""")],
    '''
from pyEdgeEval.utils import edge_label2trainId
e = (rng(0).random((5, 4, 6)) < .4).astype(np.uint8)
got = edge_label2trainId(e, {4: 1, 2: 0, 1: 2})
check((got == e[[2, 4, 1]]).all())
''')
bug("c13-onehot-uint8", "C13", "label ids of 256 or more (instance ids)",
    "the mask is narrowed to 8 bits before it is compared with the labels",
    [(CF, "    _mask = [mask == i for i in labels]", "    mask = np.asarray(mask, dtype=np.uint8) if max(labels) < 256 else mask\n    _mask = [mask == i for i in labels]")],
    '''
from pyEdgeEval.utils import mask2onehot
m = np.array([[1, 257, 3], [256, 0, 3]], np.int32)
with np.errstate(all="ignore"):
    check((mask2onehot(m, [0, 1, 3]) == np.stack([m == 0, m == 1, m == 3])).all())
''')

# --- C14
bug("c14-strict-threshold", "C14", "strengths exactly equal to a threshold (8 bit values and representable thresholds)",
    "pixels equal to the threshold are not predicted in the several-annotator evaluation",
    [(BLE, """        _pred = pred >= thresh

        acc_prec""", """        _pred = pred > thresh

        acc_prec""")],
    '''
from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold_multiple_gts as f
p = np.zeros((9, 12)); p[4, 2:10] = .5
g = p > 0
r = f(np.array([.25, .5, .75]), p, [g, g], apply_thinning=False)
check(r[2].tolist() == [8, 8, 0] and r[3].tolist() == [8, 8, 0] and r[0].tolist() == [16, 16, 0])
''')
bug("c14-last-annotator", "C14", "an annotator whose boundary map is empty, after one that is not",
    "an annotator without any boundary resets the precision accumulator",
    [(BLE, "            acc_prec = acc_prec | match1\n", "            acc_prec = acc_prec | match1 if gt.any() else match1\n")],
    '''
from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold_multiple_gts as f
p = np.zeros((20, 30)); p[4, 2:20] = .5; p[15, 2:10] = .5
a, b = p > 0, p > 9
r = f(np.array([.25]), p, [a, b], apply_thinning=False)
check(r[2][0] == 26, r[2])
''')
bug("c14-empty-gt-fp", "C14", "an empty ground truth without skipping, with thinning requested",
    "false positives on an empty ground truth are counted before thinning",
    [(MLE, """            sum_p[i_t] = _pred.sum()  # keep track of false positives""", """            sum_p[i_t] = (pred >= thresh).sum()  # keep track of false positives""")],
    '''
from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as f
from pyEdgeEval.preprocess import binary_thin
p = np.zeros((20, 30)); p[4:9, 2:20] = .5
r = f(np.array([.25]), p, np.zeros((20, 30), np.uint8), apply_thinning=True)
check(r[3][0] == binary_thin(p > 0).sum())
''')
bug("c14-thin-accumulates", "C14", "thresholds in ascending order with thinning: a lower threshold's thinned map is reused",
    "a threshold that predicts as many pixels as the previous one reuses the previous count of matches",
    [(MLE, """            match1, match2, cost, oc = correspond_pixels(
                _pred, gt, max_dist=max_dist
            )
            match1 = match1 > 0
            match2 = match2 > 0
""", """            if i_t == 0 or _pred.sum() != sum_p[i_t - 1]:
                match1, match2, cost, oc = correspond_pixels(
                    _pred, gt, max_dist=max_dist
                )
                match1 = match1 > 0
                match2 = match2 > 0
""")],
    '''
from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as f
from pyEdgeEval.preprocess import binary_thin
n = 0
for hi in range(8, 34):
    p = np.zeros((50, 40)); p[8:32, 5:16] = .3; p[8:8 + hi, 5:8] = .9
    if binary_thin(p >= .25).sum() != binary_thin(p >= .75).sum():
        continue
    n += 1
    g = np.zeros((50, 40), np.uint8); g[8:8 + hi, 6] = 1
    t = np.array([.25, .75])
    a = f(t, p, g, max_dist=.02)
    one = f(t[1:], p, g, max_dist=.02)
    check(abs(a[0][1] - one[0][0]) <= 2, (a, one))
check(n, "no case")
''')

# --- C15
bug("c15-tie-killed", "C15", "a prediction exactly at max_dist times the diagonal from the ground truth",
    "predictions at exactly the tolerance are removed",
    [(OPT, "    killmask = np.invert((distmap > buffer) * seg)", "    killmask = np.invert((distmap >= buffer) * seg)")],
    '''
from pyEdgeEval.common.multi_label.options import kill_internal_prediction as f
p = np.ones((30, 40), bool); g = np.zeros((30, 40), np.uint8); g[15, 20] = 1
r = f(p, g, np.ones((30, 40), bool), .1)
check(r[15, 25] and r[10, 20] and not r[15, 26])
''')
bug("c15-killed-before-thinning", "C15", "a thick prediction of which one side is internal",
    "internal predictions are removed before thinning, so the skeleton moves",
    [(MLE, """        if apply_thinning:
            _pred = binary_thin(_pred)

        # skip correspond pixels when gt is empty
        if gt.any():
            if kill_internal:
                assert isinstance(
                    gt_seg, np.ndarray
                ), "ERR: `seg` is not np.ndarray"
                _pred = kill_internal_prediction(
                    pred=_pred,
                    gt=gt,
                    seg=gt_seg,
                    max_dist=max_dist,
                )
""", """        # skip correspond pixels when gt is empty
        if gt.any() and kill_internal:
            assert isinstance(
                gt_seg, np.ndarray
            ), "ERR: `seg` is not np.ndarray"
            _pred = kill_internal_prediction(
                pred=_pred,
                gt=gt,
                seg=gt_seg,
                max_dist=max_dist,
            )

        if apply_thinning:
            _pred = binary_thin(_pred)

        if gt.any():
""")],
    '''
from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as f
from pyEdgeEval.preprocess import binary_thin
from scipy.ndimage import distance_transform_edt as edt
p = np.zeros((30, 40)); p[8:20, 5:35] = .7
g = np.zeros((30, 40), np.uint8); g[8, 5:35] = 1
s = np.ones((30, 40), bool)
want = binary_thin(p > 0) & ~(edt(1 - g) > .05 * 50)
check(f(np.array([.5]), p, g, s, .05, kill_internal=True)[3][0] == want.sum())
''')
bug("c15-diag-squared-side", "C15", "images that are not square",
    "the tolerance is taken from the longer side instead of the diagonal times its cosine",
    [(OPT, "    diag = np.sqrt(pred.shape[0] ** 2 + pred.shape[1] ** 2)", "    diag = np.sqrt(2) * min(pred.shape)")],
    '''
from pyEdgeEval.common.multi_label.options import kill_internal_prediction as f
p = np.ones((30, 40), bool); g = np.zeros((30, 40), np.uint8); g[15, 20] = 1
r = f(p, g, np.ones((30, 40), bool), .1)
check(r[15, 25] and not r[15, 26])
''')
bug("c15-cityscapes-category", "C15", "Cityscapes with kill_internal",
    "the segmentation of the next category decides which predictions are internal",
    [("pyEdgeEval/datasets/cityscapes.py", "        cat_seg = seg == cat_idx", "        cat_seg = seg == category")],
    '''
from pyEdgeEval.datasets.cityscapes import _evaluate_single as f
from pyEdgeEval.common.multi_label.edge_encoding import rgb_multilabel_encoding
e = np.zeros((19, 40, 60), np.uint8); e[4, 2, 5:50] = 1
s = np.full((40, 60), 4, np.uint8)
p = np.zeros((40, 60), np.uint8); p[30, 5:40] = 200; p[2, 5:50] = 200
with scratch() as t:
    save(t + "/e.png", rgb_multilabel_encoding(e)); save(t + "/s.png", s); save(t + "/p.png", p)
    r = f(edge_path=t + "/e.png", seg_path=t + "/s.png", pred_path=t + "/p.png", category=5, scale=1.0, max_dist=.02,
          thresholds=[.5], apply_thinning=False, apply_nms=False, kill_internal=True, skip_if_nonexistent=True, num_classes=19)
check(r[3][0] == 45, r)
''')

# --- C16
bug("c16-ois-last-tie", "C16", "an image whose best F1 is reached at several thresholds",
    "the last of several equally good thresholds is chosen in the binary metrics",
    [(BCM, "        best_ndx = np.argmax(f1)\n", "        best_ndx = len(f1) - 1 - np.argmax(f1[::-1])\n")],
    '''
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as f
c = (np.array([4., 2, 4]), np.array([8., 8, 8]), np.array([4., 2, 4]), np.array([8., 8, 8]))
s, t, o = quiet(f, lambda x: c, [.2, .5, .7], [dict(name="a")], 1)
check(s[0]["threshold"] == .2)
''')
bug("c16-auc-right", "C16", "curves that do not reach recall 1",
    "the precision beyond the largest recall is extended instead of being 0 in the multi-label metrics",
    [(MCM, "            right=0.0,\n", "            right=prec_unique[-1] if rec_unique[-1] > 0.995 else 0.0,\n"),
     (MCM, "            left=0.0,\n", "            left=prec_unique[0],\n")],
    '''
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as f
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as g
c = (np.array([6., 4]), np.array([8., 8]), np.array([6., 4]), np.array([8., 4]))
a = quiet(f, lambda x: c, [.2, .5], [dict(name="a")], 1)[2]["AUC"]
b = quiet(g, lambda x: c, [.2, .5], [dict(name="a")], 1)[2]["AUC"]
check(abs(a - b) < 1e-9, (a, b))
''')
bug("c16-ap-strict", "C16", "a curve whose recall equals a recall level exactly",
    "AP looks for a larger recall than the level instead of at least the level",
    [(BCM, "        _r = rec_overall >= t\n", "        _r = rec_overall > t\n")],
    '''
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as f
c = (np.array([8., 4]), np.array([8., 8]), np.array([8., 4]), np.array([8., 4]))
a = quiet(f, lambda x: c, [.2, .5], [dict(name="a")], 1)[2]["AP"]
check(abs(a - 1) < 1e-9, a)
''')
bug("c16-ods-unsorted", "C16", "thresholds that are not in ascending order",
    "thresholds are sorted before the interpolation while recall and precision are not",
    [(MET, "    best_threshold = thresholds[0]\n", "    thresholds = np.sort(thresholds)\n    best_threshold = thresholds[0]\n")],
    '''
from pyEdgeEval.common.metrics import interpolated_max_scores as f
t, r, p, v = f(np.array([.8, .3]), np.array([.1, .9]), np.array([1., .9]))
check(abs(t - .3) < 1e-9, t)
''')
bug("c16-zero-precision", "C16", "an image without predictions at its only threshold",
    "0/0 precision counts as 1 in the totals",
    [(MET, "    return count_p / (sum_p + (sum_p == 0))", "    return (count_p + ((sum_p == 0) & (count_p == 0) & (np.ndim(sum_p) == 0))) / (sum_p + (sum_p == 0))")],
    '''
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as f
c = tuple(np.array([float(v)]) for v in (0, 8, 0, 0))
o = quiet(f, lambda x: c, [.5], [dict(name="a")], 1)[2]
check(o["OIS_precision"] == 0, o)
''')

# --- C17
bug("c17-sorted-list", "C17", "a list of thresholds that is not sorted",
    "a list is sorted although an array is not",
    [(UT, "        # multiple specific thresholds\n        thresholds = np.array(thresholds)", "        # multiple specific thresholds\n        thresholds = np.array(thresholds if len(thresholds) < 3 else sorted(thresholds))")],
    '''
from pyEdgeEval.common.utils import check_thresholds
check(check_thresholds([.5, .2, .9]).tolist() == [.5, .2, .9])
''')
bug("c17-unique", "C17", "an evaluation with a repeated threshold",
    "repeated thresholds keep only their first count",
    [(BLE, """    for i_t, thresh in enumerate(list(thresholds)):

        _pred = pred >= thresh

        if apply_thinning:""", """    for i_t, thresh in enumerate(list(thresholds)):

        if thresh in thresholds[:i_t]:
            continue
        _pred = pred >= thresh

        if apply_thinning:""")],
    '''
from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold as f
p = np.zeros((9, 12)); p[4, 2:10] = .5
r = f(np.array([.25, .25]), p, p > 0, apply_thinning=False)
check(r[3].tolist() == [8, 8], r)
''')
bug("c17-two-dim", "C17", "a two-dimensional threshold array with a single row",
    "two-dimensional thresholds are flattened instead of rejected",
    [(UT, "    if thresholds.ndim != 1:\n", "    if thresholds.ndim == 2 and 1 in thresholds.shape:\n        thresholds = thresholds.ravel()\n    if thresholds.ndim != 1:\n")],
    '''
from pyEdgeEval.common.utils import check_thresholds
try:
    check_thresholds([[.1, .2]])
except ValueError:
    sys.exit(0)
check(False)
''')

# --- C18
bug("c18-unordered-many", "C18", "many tasks of different duration",
    "with more tasks than a few rounds of workers the results come in order of completion",
    [(BAR, "    if keep_order:\n", "    if keep_order and task_num <= 8 * nproc:\n")],
    '''
import time
from pyEdgeEval.utils import track_parallel_progress
def f(i):
    time.sleep(.05 if i % 5 == 0 else 0)
    return i
r = quiet(track_parallel_progress, f, list(range(60)), 4, no_bar=True)
check(r == list(range(60)), r)
''')
bug("c18-skip-first-drops", "C18", "skip_first with fewer tasks than workers",
    "results of the first round of workers are dropped when skip_first is set",
    [(BAR, """            if len(results) < nproc * chunksize:
                continue
            elif len(results) == nproc * chunksize:""", """            if len(results) < nproc * chunksize:
                if len(results) == task_num + nproc * chunksize:
                    results.pop()
                continue
            elif len(results) == nproc * chunksize:""")],
    '''
from pyEdgeEval.utils import track_parallel_progress
def f(i):
    return i * 2
r = quiet(track_parallel_progress, f, list(range(3)), 4, skip_first=True)
check(r == [0, 2, 4], r)
''')
bug("c18-swallow", "C18", "a task that raises StopIteration-like or key errors",
    "a failing task ends the loop, its error is dropped",
    [(BAR, """    for result in gen:
        results.append(result)""", """    while True:
        try:
            result = next(gen)
        except (StopIteration, LookupError):
            break
        results.append(result)""")],
    '''
from pyEdgeEval.utils import track_parallel_progress
def f(i):
    return {0: 1, 1: 2}[i]
try:
    quiet(track_parallel_progress, f, [0, 1, 2, 1], 2, no_bar=True)
except KeyError:
    sys.exit(0)
check(False, "the KeyError of a task is lost")
''')
bug("c18-by-name", "C18", "two images with the same file name in different directories",
    "results are looked up by image name, so images of equal name share one result",
    [(BCM, """    for sample_index, sample_data in enumerate(samples):
        count_r, sum_r, count_p, sum_p = sample_metrics[sample_index]
""", """    by_name = {s["name"]: m for s, m in zip(samples, sample_metrics)}
    for sample_index, sample_data in enumerate(samples):
        count_r, sum_r, count_p, sum_p = by_name[sample_data["name"]]
""")],
    '''
from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as f
def g(s):
    return tuple(np.array([float(v)]) for v in (s["n"], 8, s["n"], 8))
r = quiet(f, g, [.5], [dict(name="a", n=2), dict(name="a", n=6)], 1)
check(r[0][0]["recall"] == .25 and r[0][1]["recall"] == .75, r[0])
''')

# --- C19
bug("c19-columns", "C19", "results whose precision and recall differ",
    "precision and recall change places in the per-image file",
    [(MIO, """                    thrs=res["threshold"],
                    rec=res["recall"],
                    prec=res["precision"],
                    f1=res["f1"],
                )
            )


def save_threshold""", """                    thrs=res["threshold"],
                    rec=res["precision"],
                    prec=res["recall"],
                    f1=res["f1"],
                )
            )


def save_threshold""")],
    '''
from pyEdgeEval.common.multi_label import save_category_results as f
o = dict.fromkeys("ODS_threshold ODS_recall ODS_precision ODS_f1 OIS_recall OIS_precision OIS_f1 AUC AP".split(), .5)
x = dict(threshold=.5, recall=.25, precision=.75, f1=.375)
with scratch() as t:
    f(t, 3, [dict(x, name="a")], [x], o)
    check(open(t + "/class_003/eval_bdry_img.txt").read().split() == ["a", "0.500000", "0.250000", "0.750000", "0.375000"])
''')
bug("c19-append", "C19", "saving twice into the same directory",
    "the per-threshold file is appended to",
    [(BIO, """    tmp_line = "{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"
    with open(file_path, "w") as f:""", """    tmp_line = "{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"
    with open(file_path, "a") as f:""")],
    '''
from pyEdgeEval.common.binary_label import save_results as f
o = dict.fromkeys("ODS_threshold ODS_recall ODS_precision ODS_f1 OIS_recall OIS_precision OIS_f1 AUC AP".split(), .5)
x = dict(threshold=.5, recall=.25, precision=.75, f1=.375)
with scratch() as t:
    for k in range(2):
        f(t, [dict(x, name="a")], [x], o)
    check(len(open(t + "/eval_bdry_thr.txt").read().splitlines()) == 1)
''')
bug("c19-class-two-digits", "C19", "a category number of three digits, or the documented three digit directory name",
    "negative and long category numbers are cut to three characters",
    [(MIO, '    cat_name = "class_" + str(category).zfill(3)', '    cat_name = "class_" + str(category % 16).zfill(3)')],
    '''
from pyEdgeEval.common.multi_label import save_category_results as f
o = dict.fromkeys("ODS_threshold ODS_recall ODS_precision ODS_f1 OIS_recall OIS_precision OIS_f1 AUC AP".split(), .5)
x = dict(threshold=.5, recall=.25, precision=.75, f1=.375)
with scratch() as t:
    f(t, 19, [dict(x, name="a")], [x], o)
    check(os.path.isfile(t + "/class_019/eval_bdry.txt"))
''')
bug("c19-mean-of-positive", "C19", "a category whose score is 0",
    "categories with a zero score are left out of the mean of the overall file",
    [(BASE, "                    ret_metric: np.round(np.nanmean(ret_metric_value), 6)\n", "                    ret_metric: np.round(np.nanmean([v for v in ret_metric_value if v] or [0]), 6)\n")],
    '''
from pyEdgeEval.evaluators.base import BaseMultilabelEvaluator as B
class E(B):
    CLASSES = list("abc")
    eval_params = {}
    def set_sample_names(self): pass
    def set_eval_params(self): pass
    def _before_evaluation(self): pass
    def evaluate_category(self, category, **k):
        v = [0., .5, .25][category - 1]
        return dict.fromkeys("ODS_threshold ODS_recall ODS_precision ODS_f1 OIS_recall OIS_precision OIS_f1 AUC AP".split(), v)
with scratch() as t:
    quiet(E().evaluate, None, [.5], 1, t)
    check(float(open(t + "/overall_eval_bdry.txt").read().split()[3]) == .25)
''')
bug("c19-names-sorted", "C19", "categories given in another than ascending order",
    "the class names of the table are those of the sorted categories, the scores are in the given order",
    [(BASE, "        class_names = [self.CLASSES[i - 1] for i in categories]\n", "        class_names = [c for i, c in enumerate(self.CLASSES, 1) if i in categories]\n")],
    '''
from pyEdgeEval.evaluators.base import BaseMultilabelEvaluator as B
class E(B):
    CLASSES = ["ant", "bee", "cat"]
    eval_params = {}
    def set_sample_names(self): pass
    def set_eval_params(self): pass
    def _before_evaluation(self): pass
    def evaluate_category(self, category, **k):
        v = [.125, .5, .25][category - 1]
        return dict.fromkeys("ODS_threshold ODS_recall ODS_precision ODS_f1 OIS_recall OIS_precision OIS_f1 AUC AP".split(), v)
with scratch() as t:
    quiet(E().evaluate, [3, 1], [.5], 1, t)
    row = [l for l in open(t + "/results.txt") if "cat" in l]
    check(len(row) == 1 and "25.0" in row[0] and "12.5" not in row[0], row)
''')

# --- C20
PLOT = '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from pyEdgeEval.visualization.pr_curve import plot_pr_curve, AlgorithmInfo
def algs(t, spec):
    out = []
    for name, f1, rows in spec:
        np.savetxt(f"{t}/{name}_thr.txt", rows, fmt="%.6f"); np.savetxt(f"{t}/{name}.txt", [[.5, .5, .5, f1, .5, .5, f1, .5, .5]], fmt="%.6f")
        out.append(AlgorithmInfo(name, f"{t}/{name}_thr.txt", f"{t}/{name}.txt"))
    return out
def curves(t, *a, **k):
    plt.close("all")
    quiet(plot_pr_curve, *a, **k)
    ax = plt.gcf().axes[0]; leg = ax.get_legend()
    return {x.get_text(): (h.get_color(), None) for x, h in zip(leg.get_texts(), leg.legend_handles)}, [l for l in ax.lines if l.get_linewidth() == 3]
R = lambda v: [[.2, .9, v, .5], [.5, .6, v, .5], [.8, .3, v, .5]]
'''
bug("c20-colours", "C20", "given colours and algorithms not listed by descending score",
    "the colours are sorted twice",
    [(PR, "            color=colors[i],\n", "            color=colors[o[i]],\n")],
    PLOT + '''
with scratch() as t:
    leg, _ = curves(t, algs(t, [("a", .3, R(.3)), ("b", .8, R(.8))]), colors=[(1, 0, 0, 1), (0, 0, 1, 1)])
    check(tuple(leg["[F=0.30] a"][0]) == (1, 0, 0, 1), leg)
''')
bug("c20-small-recall", "C20", "curves with a row whose recall is small but above the cut",
    "rows with a recall below one percent are left out",
    [(PR, "    pr = pr[pr[:, 1] >= 1e-3]\n", "    pr = pr[pr[:, 1] >= 1e-2]\n")],
    PLOT + '''
with scratch() as t:
    _, ls = curves(t, algs(t, [("a", .3, [[.2, .9, .5, .5], [.5, .6, .5, .5], [.9, .004, .5, .5]])]))
    check(any(len(l.get_xdata()) == 3 and min(l.get_xdata()) < .005 for l in ls))
''')
bug("c20-ois-legend", "C20", "algorithms whose OIS and ODS F1 rank differently",
    "the legend is ordered by OIS F1",
    [(PR, "    o = np.argsort(res[:, 3])[::-1]\n", "    o = np.argsort(res[:, 6])[::-1]\n")],
    PLOT + '''
with scratch() as t:
    al = algs(t, [("a", .3, R(.3)), ("b", .8, R(.8))])
    np.savetxt(t + "/a.txt", [[.5, .5, .5, .3, .5, .5, .9, .5, .5]])
    leg, _ = curves(t, al)
    check(list(leg) == ["[F=0.80] b", "[F=0.30] a"], list(leg))
''')
