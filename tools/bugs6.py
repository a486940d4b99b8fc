"""Planted changes that need an unusual size, count or spelling, written after the Python mutation campaign."""
import os

from bugs5 import *  # the paths

B = []


def bug(id, prop, needs, what, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


UTIL = "pyEdgeEval/common/multi_label/utils.py"

bug("c08-scene-approx", "C08", "a mask of more than 300 000 pixels",
    "the distances of large masks are approximated, boundaries of slanted shapes are off by pixels",
    [(DT, '''    outer = cv2.distanceTransform(
        ((1.0 - m) > 0).astype(np.uint8), cv2.DIST_L2, quality
    )''', '''    outer = cv2.distanceTransform(
        ((1.0 - m) > 0).astype(np.uint8),
        cv2.DIST_L2,
        quality if m.size < 300000 else 3,
    )''')], '''
from pyEdgeEval.utils import mask2bdry
yy, xx = np.mgrid[:600, :700]
m = ((yy - 300) ** 2 + (xx - 350) ** 2 < 200 ** 2).astype(np.uint8)
big = mask2bdry(m, np.zeros_like(m), 6)
d = np.sqrt(((yy - 300) ** 2 + (xx - 350) ** 2).astype(float))
from scipy.ndimage import distance_transform_edt as edt
s = edt(m) + edt(1 - m)
want = (s <= 6).astype(np.uint8)
check(np.array_equal(big, want), int((big != want).sum()))
''')
bug("c13-repeated-label", "C13", "the same label requested twice",
    "a repeated label loses its second channel",
    [(CF, "    _mask = [mask == i for i in labels]", "    _mask = [mask == i for i in dict.fromkeys(labels)]")], '''
from pyEdgeEval.utils import mask2onehot
m = np.array([[1, 2], [3, 1]], np.uint8)
o = mask2onehot(m, labels=[1, 2, 1])
check(o.shape == (3, 2, 2) and np.array_equal(o[2], m == 1), o.shape)
''')
bug("c14-sum-16-bits", "C14", "more than 65 535 ground-truth edge pixels in one image",
    "the number of ground-truth pixels wraps, recall exceeds 1",
    [(MLB, "            sum_r[i_t] = gt.sum()\n", "            sum_r[i_t] = np.sum(gt > 0, dtype=np.uint16)\n")], '''
from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as f
g = np.ones((260, 260), np.uint8)
c, s, _, _ = f(np.array([.5]), np.zeros((260, 260)), g, max_dist=.005, apply_thinning=False)
check(s[0] == g.sum(), s)
''')
bug("c14-nan-confident", "C14", "predictions with strengths that are not numbers",
    "pixels without a strength are taken for edges",
    [(BLB, "        _pred = pred >= thresh\n\n        acc", "        _pred = ~(pred < thresh)\n\n        acc")], '''
import warnings; warnings.simplefilter("ignore")
from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold_multiple_gts as f
g = np.zeros((40, 40), np.uint8); g[20] = 1
p = np.where(g, .9, 0.); p[5, :] = np.nan
_, _, c, s = f(np.array([.5]), p, [g], max_dist=.02, apply_thinning=False)
check(s[0] == 40 and c[0] == 40, (c, s))
''')
bug("c23-crowd-of-256", "C23", "an annotation with more than 255 instances",
    "the instances from the 256th on are background",
    [(UTIL, "            if present_cat == cat:", "            if present_cat == cat and i < 255:")], '''
from pyEdgeEval.common.multi_label import convert_inst_seg as f
seg = np.arange(300, dtype=np.uint16).reshape(15, 20)
out = f(seg, np.full(299, 7, np.uint8), np.array([7], np.uint8))
check(out[14, 19] == 7298, out[14, 19])
''')
bug("c32-capitals", "C32", "files whose extension is the asked one in capitals",
    "files of another format (.MAT beside .mat) are processed",
    [(NM, "            if os.path.splitext(file)[-1] != file_format:", "            if os.path.splitext(file)[-1].lower() != file_format:")], '''
from pyEdgeEval.preprocess.nms.fast_nms import nms_all_results as f
with scratch() as d:
    os.makedirs(d + "/in")
    np.save(d + "/in/a.npy", rng().random((20, 20)))
    shutil.copy(d + "/in/a.npy", d + "/in/b.NPY")
    f("m", d + "/in", d + "/out", file_format=".npy")
    check(os.listdir(d + "/out/m") == ["a.png"], os.listdir(d + "/out/m"))
''')
bug("c17-numpy-count", "C17", "a number of thresholds that is a numpy integer",
    "np.int64(5) makes 5 thresholds instead of being rejected",
    [(CU, "    if isinstance(thresholds, int):", "    if isinstance(thresholds, (int, np.integer)):")], '''
from pyEdgeEval.common.utils import check_thresholds as f
try:
    f(np.int64(5))
except Exception:
    pass
else:
    check(False, "np.int64(5) accepted")
''')
bug("c10-mp-quality", "C10", "approximate distances, instances and several processes",
    "the multiprocess converter measures the instances' boundaries exactly, unlike the loop",
    [(MP, '''            dist = dist | mask2bdry(
                mask=_mask,
                ignore_mask=ignore_mask,
                **mask2bdry_kwargs,
            )''', '''            dist = dist | mask2bdry(
                mask=_mask,
                ignore_mask=ignore_mask,
                radius=mask2bdry_kwargs["radius"],
                use_cv2=mask2bdry_kwargs["use_cv2"],
            )''')], '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge as loop, mp_instance_mask2edge as mp
yy, xx = np.mgrid[:60, :60]
inst = np.where((yy - 30) ** 2 + (xx - 25) ** 2 < 150, 1001, np.where((yy - 30) ** 2 + (xx - 40) ** 2 < 250, 1002, 0)).astype(np.int32)
m = np.stack([inst == 0, inst > 0]).astype(np.uint8)
kw = dict(inst_labelIds=[1], ignore_indices=[], radius=6, quality=3)
check(np.array_equal(loop(m, inst, **kw), mp(m, inst, nproc=2, **kw)))
''')
bug("c27-open-directory", "C27", "a directory made with restricted permissions",
    "the mode is ignored: the directory is readable to everyone",
    [(PA, "    os.makedirs(dir_name, mode=mode, exist_ok=True)", "    if not osp.isdir(dir_name):\n        os.makedirs(dir_name)")], '''
from pyEdgeEval.utils import mkdir_or_exist
with scratch() as d:
    mkdir_or_exist(d + "/a/b", 0o700)
    check(os.stat(d + "/a/b").st_mode & 0o777 == 0o700, oct(os.stat(d + "/a/b").st_mode))
''')
bug("c09-scene-half", "C09", "a scene of more than 2^19 pixels",
    "large scenes are traced with approximate distances",
    [(LOOP, '''        edge = mask2bdry(
            mask=m,
            ignore_mask=ignore_mask,
            radius=radius,
            use_cv2=use_cv2,
            quality=quality,
''', '''        edge = mask2bdry(
            mask=m,
            ignore_mask=ignore_mask,
            radius=radius,
            use_cv2=use_cv2,
            quality=quality if h * w <= 2**19 else 3,
''')], '''
from pyEdgeEval.edge_tools import loop_mask2edge as f
yy, xx = np.mgrid[:800, :700]
m = ((yy - 400) ** 2 + (xx - 350) ** 2 < 300 ** 2).astype(np.uint8)
got = f(np.stack([1 - m, m]), ignore_indices=[], radius=7)[1]
from scipy.ndimage import distance_transform_edt as edt
check(np.array_equal(got, edt(m) + edt(1 - m) <= 7))
''')
bug("c10-few-large", "C10", "an instance in a scene of more than 2^18 pixels",
    "instances of fewer pixels than a ten-thousandth of the scene have no boundary of their own",
    [(LOOP, '''                _mask = inst_mask == iid
''', '''                _mask = inst_mask == iid
                if np.count_nonzero(_mask) < h * w // 10000:
                    continue
''')], '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge as f
inst = np.zeros((512, 1024), np.int32); inst[100:300, 100:300] = 1; inst[200:205, 200:205] = 1001
m = np.stack([inst == 0, inst > 0]).astype(np.uint8)
got = f(m, inst, inst_labelIds=[1], ignore_indices=[], radius=1)[1]
check(got[202, 200] == 1)
''')
bug("c11-batch-quality", "C11", "a mask of more than 500 000 pixels",
    "the transform approximates large masks, unlike the converter it wraps",
    [(TR, '''            mask=onehot_mask,
            ignore_indices=self.ignore_indices,
            **self._mask2bdry_kwargs,
        )
''', '''            mask=onehot_mask,
            ignore_indices=self.ignore_indices,
            **(
                self._mask2bdry_kwargs
                if mask.size <= 500000
                else dict(self._mask2bdry_kwargs, quality=3)
            ),
        )
''', 0)], '''
from pyEdgeEval.edge_tools import Mask2Edge, loop_mask2edge as f
yy, xx = np.mgrid[:800, :700]
m = ((yy - 400) ** 2 + (xx - 350) ** 2 < 300 ** 2).astype(np.uint8)
got = Mask2Edge(labelIds=[0, 1], radius=7)(m)["edge"]
check(np.array_equal(got, f(np.stack([m == 0, m == 1]).astype(np.uint8), ignore_indices=[], radius=7)))
''')
bug("c06-table-sums", "C06", "an image whose set pixels are not 1",
    "the neighbourhood indices of images with values other than 0 and 1 overflow",
    [], "") if 0 else None
bug("c25-bilinear-other", "C25", "a prediction whose resolution is not the annotation's",
    "such predictions are blended instead of sampled when they are brought to the evaluated size",
    [(DOTF, '''    pred = pred.resize((width, height), Image.Resampling.NEAREST)''', '''    same = pred.size == (w, h)
    pred = pred.resize(
        (width, height),
        Image.Resampling.NEAREST if same else Image.Resampling.BILINEAR,
    )''')], '''
from pyEdgeEval.datasets import otf_cityscapes_eval_single as f
with scratch() as d:
    lab = np.full((40, 60), 4, np.uint8); lab[5:35, 10:50] = 26
    p = np.zeros((20, 30), np.uint8); p[::2] = 255
    save(d + "/l.png", lab); save(d + "/p.png", p)
    r = f(dict(seg_path=d + "/l.png", inst_path=None, pred_path=d + "/p.png", category=14, scale=1, max_dist=.02, thresholds=[.9],
               apply_thinning=False, apply_nms=False, kill_internal=False, skip_if_nonexistent=False, radius=2))
    check(r[3][0] == 40 * 60 // 2, r[3])
''')
bug("c30-names-shared", "C30", "a caller that edits the list it got from sample_names",
    "the evaluator hands out its own list of sample names",
    [(EBASE, "            return deepcopy(self._sample_names)", "            return self._sample_names")], '''
from pyEdgeEval.evaluators.base import BaseEvaluator
class E(BaseEvaluator):
    def set_sample_names(self): self._sample_names = ["a", "b"]
    set_eval_params = eval_params = evaluate = _before_evaluation = evaluate_category = lambda self, **k: None
e = E()
e.set_sample_names(); e.sample_names.pop()
check(e.sample_names == ["a", "b"], e.sample_names)
''')
bug("c23-list-dots", "C23", "a sample whose name has a dot in it",
    "sample names of the list are cut at their first dot",
    [(HSBD, '''        sample_names = [line.rstrip("\\n") for line in f]''', '''        sample_names = [line.rstrip("\\n").split(".")[0] for line in f]''')], '''
from pyEdgeEval.helpers.convert_sbd import get_samples as f
with scratch() as d:
    open(d + "/l.txt", "w").write("2008_000001\\nstreet.v2\\n")
    check(f(d + "/l.txt") == ["2008_000001", "street.v2"])
''')
bug("c23-reanno-11", "C23", "re-annotated samples whose names are not 11 characters long",
    "names of the re-annotated list are cut to the length of the published ones",
    [(HSBD, '''        test = [t.tolist()[0] for t in test.ravel()]''', '''        test = [t.tolist()[0][:11] for t in test.ravel()]''')], '''
from scipy.io import savemat
from pyEdgeEval.helpers.convert_sbd import load_reanno_samples as f
with scratch() as d:
    c = np.empty((2, 1), object); c[0, 0] = "2008_000001"; c[1, 0] = "2008_000002_flip"
    savemat(d + "/test.mat", dict(listTest=c))
    check(f(d + "/test.mat") == ["2008_000001", "2008_000002_flip"])
''')
bug("c36-high-bits", "C36", "edges that differ in the categories of the third byte only",
    "differences of categories 16 and up are not counted",
    [(HCS, '''        edge = np.array(edge).astype(np.uint32)
        test = np.array(test).astype(np.uint32)
''', '''        edge = np.array(edge).astype(np.uint16)
        test = np.array(test).astype(np.uint16)
''')], open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", "c36-carried", "demo.py")).read().replace("from seedlib import *\n", "").rsplit("with scratch", 1)[0] + '''
with scratch() as d:
    a = np.zeros((20, 30), np.int32); a[5, 5] = 1 << 18
    try:
        for n in ("train", "val"): pass
        pair(d, "train", 1, a, a * 0, "tif"); pair(d, "val", 1, a, a * 0, "tif")
    except OSError:
        sys.exit(0)
    got = report(d, ext="tif")[0]
    check(got == dict(train=1, val=1), got)
''')
bug("c28-strip-letters", "C28", "an image whose name starts with letters of its split",
    "the split's letters are stripped from the image names, not the split's folder",
    [(EBS, '''_sample_name = sample_name.replace(f"{self.split}/", "")''', '''_sample_name = sample_name.lstrip(f"{self.split}/")''')],
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", "c28-flat-prefix", "demo.py")).read().replace("from seedlib import *\n", "").replace("007", "set7").replace('print("demo ok")\n', ""))

FNMS = "pyEdgeEval/preprocess/nms/fast_nms.py"
bug("c05-faint", "C05", "an image whose strengths are below about 1e-7",
    "vanishing second derivatives are recognised by an absolute bound, so faint images get other orientations",
    [(FNMS, "    oxx[np.where(oxx == 0)] = 1e-5", "    oxx[np.abs(oxx) < 1e-9] = 1e-5")], """
from pyEdgeEval.preprocess import fast_nms
e = rng(3).random((40, 50))
a, b = fast_nms(e, s=0) > 0, fast_nms(e * 2.0 ** -30, s=0) > 0
check((a != b).mean() < .02, f"{(a != b).mean():.1%} of the pixels depend on the scale")
""")
bug("c07-byte-count", "C07", "a skeleton of more than 255 pixels from which an iteration removes a multiple of 256",
    "the pixel counts that decide whether thinning goes on are kept in a byte",
    [("pyEdgeEval/preprocess/thin/bwmorph_thin.py", "        before = np.sum(skel)", "        before = np.sum(skel, dtype=np.uint8)"),
     ("pyEdgeEval/preprocess/thin/bwmorph_thin.py", "        after = np.sum(skel)", "        after = np.sum(skel, dtype=np.uint8)")], """
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin as f
r = rng(1)
for k in range(20, 120):
    # two bars: what one pass removes grows by a few pixels with k
    m = np.zeros((30, 140), np.uint8); m[3:8, 2:2 + k] = 1; m[14:21, 4:4 + k] = 1
    a = f(m); check((f(a) == a).all(), k)
""")
bug("c08-int-radius", "C08", "radii that are no whole numbers",
    "the radius is cut to a whole number",
    [(DT, "    dist[dist > radius] = 0\n", "    dist[dist > int(radius)] = 0\n", 0)], """
from pyEdgeEval.utils import mask2bdry
yy, xx = np.mgrid[:40, :40]
m = ((yy - 20) ** 2 + (xx - 20) ** 2 < 150).astype(np.uint8)
check(mask2bdry(m, np.zeros_like(m), 2.5).sum() != mask2bdry(m, np.zeros_like(m), 2).sum())
""")
bug("c16-coarse-many", "C16", "an evaluation with a hundred thresholds or more",
    "the best F1 between two thresholds is looked for on a coarser grid",
    [("pyEdgeEval/common/metrics.py", "np.linspace(0, 1, num=101)", "np.linspace(0, 1, num=101 if len(thresholds) < 100 else 51)")], """
from pyEdgeEval.common.metrics import interpolated_max_scores as f
for n in (99, 120):
    t = np.linspace(0, 1, n + 2)[1:-1]
    rec = np.where(t < .5, 1., .2); pre = np.where(t < .5, .31, .9)
    best = max(2 * r * p / (r + p) for d in np.linspace(0, 1, 101) for r, p in [(1 - .8 * d, .31 + .59 * d)])
    check(abs(f(t, rec, pre)[3] - best) < 1e-9, n)
""")
bug("c17-long-unique", "C17", "a list of more than twenty thresholds with repeated or unsorted values",
    "long lists are sorted and repeated values dropped",
    [("pyEdgeEval/common/utils.py", "        thresholds = np.array(thresholds)", "        thresholds = np.unique(thresholds) if len(thresholds) > 20 else np.array(thresholds)")], """
from pyEdgeEval.common.utils import check_thresholds as f
t = [.9, .1, .1] + [i / 40 for i in range(1, 30)]
check(list(f(t)) == t)
""")
bug("c18-set-of-tasks", "C18", "more than a thousand tasks, some equal, whose order does not matter",
    "equal tasks are worked on once",
    [("pyEdgeEval/utils/progressbar.py", "        gen = pool.imap_unordered(func, tasks, chunksize)",
      "        gen = pool.imap_unordered(func, set(tasks) if task_num > 1000 else tasks, chunksize)")], """
from pyEdgeEval.utils import track_parallel_progress
def f(i): return i
r = quiet(track_parallel_progress, f, [i % 7 for i in range(1400)], 2, keep_order=False, chunksize=50, no_bar=True)
check(sorted(r) == sorted(i % 7 for i in range(1400)), len(r))
""")
bug("c25-instance-256", "C25", "instances whose numbers are 256 or more",
    "instance numbers wrap at 256, their common border is lost",
    [("pyEdgeEval/datasets/otf_cityscapes.py", "        _inst = int(str(inst_label)[2:])", "        _inst = int(inst_label) % 1000 % 256")], """
from pyEdgeEval.datasets import otf_cityscapes_eval_single as f
with scratch() as d:
    lab = np.full((40, 60), 7, np.uint8); lab[10:30, 10:50] = 26
    ins = np.full((40, 60), 7, np.int32)
    p = np.full((40, 60), 255, np.uint8)
    save(d + "/l.png", lab); save(d + "/p.png", p)
    n = []
    for one in (26002, 26257):
        ins[10:30, 10:30] = one; ins[10:30, 30:50] = one + 1
        save(d + "/i.png", ins.astype(np.uint16))
        r = f(dict(seg_path=d + "/l.png", inst_path=d + "/i.png", pred_path=d + "/p.png", category=14, scale=1, max_dist=.02, thresholds=[.5],
                   apply_thinning=False, apply_nms=False, kill_internal=False, skip_if_nonexistent=False, radius=1))
        n.append(float(r[1][0]))
    check(n[0] == n[1], n)
""")
bug("c27-comment-lines", "C27", "a sample whose name starts with #",
    "lines of a list that start with # are left out as comments",
    [("pyEdgeEval/evaluators/cityscapes.py", "                sample_names = f.read().splitlines()", "                sample_names = [n for n in f.read().splitlines() if not n.startswith('#')]")], """
from pyEdgeEval.evaluators import CityscapesEvaluator as E
with scratch() as d:
    open(d + "/val.txt", "w").write("aachen/a_0\\n#1/b_1\\n")
    e = quiet(E, d, d); e.set_sample_names(split_file=d + "/val.txt")
    check(e.sample_names == ["aachen/a_0", "#1/b_1"], e.sample_names)
""")
bug("c29-ascii-log", "C29", "a message with letters that are not ASCII",
    "log files are written in ASCII, other letters become question marks",
    [("pyEdgeEval/utils/logger.py", "        file_handler = logging.FileHandler(log_file, file_mode)",
      '        file_handler = logging.FileHandler(log_file, file_mode, encoding="ascii", errors="replace")')], """
import locale
from pyEdgeEval.utils import get_logger
with scratch() as d:
    get_logger("letters", d + "/log").info("Straße")
    check("Straße".encode(locale.getpreferredencoding(False), "backslashreplace") in open(d + "/log", "rb").read() or locale.getpreferredencoding(False).lower() in ("ascii", "us-ascii", "ansi_x3.4-1968"))
""")
bug("c32-small-files", "C32", "a prediction whose file has fewer than a hundred bytes",
    "small files are taken for broken ones and passed over",
    [(FNMS, "        img_path = os.path.join(result_dir, file)\n", """        img_path = os.path.join(result_dir, file)
        if os.path.getsize(img_path) < 100:
            continue
""")], """
from pyEdgeEval.preprocess.nms.fast_nms import nms_results as f
with scratch() as d:
    save(d + "/in/small.png", np.zeros((8, 8), np.uint8)); save(d + "/in/big.png", (rng().random((60, 60)) * 255).astype(np.uint8))
    quiet(f, d + "/in", d + "/out", load)
    check(sorted(os.listdir(d + "/out")) == ["big.png", "small.png"], os.listdir(d + "/out"))
""")
B = [b for b in B if b["edits"]]
