"""Planted changes for C21-C28."""
B = []


def bug(id, prop, needs, what, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


ESBD = "pyEdgeEval/evaluators/sbd.py"
ECS = "pyEdgeEval/evaluators/cityscapes.py"
EHALF = "pyEdgeEval/evaluators/half_cityscapes.py"
EOTF = "pyEdgeEval/evaluators/otf_cityscapes.py"
EBS = "pyEdgeEval/evaluators/bsds.py"
EBASE = "pyEdgeEval/evaluators/base.py"
DSBD = "pyEdgeEval/datasets/sbd.py"
DCS = "pyEdgeEval/datasets/cityscapes.py"
DOTF = "pyEdgeEval/datasets/otf_cityscapes.py"
DBS = "pyEdgeEval/datasets/bsds.py"
HSBD = "pyEdgeEval/helpers/convert_sbd.py"
HCS = "pyEdgeEval/helpers/convert_cityscapes.py"
HEB = "pyEdgeEval/helpers/evaluate_bsds500.py"
HEC = "pyEdgeEval/helpers/evaluate_cityscapes.py"
HES = "pyEdgeEval/helpers/evaluate_sbd.py"
MLU = "pyEdgeEval/common/multi_label/utils.py"
MLE = "pyEdgeEval/common/multi_label/edge_decoding.py"
PATH = "pyEdgeEval/utils/path.py"

EV = '''
import pyEdgeEval.evaluators as E, pyEdgeEval.evaluators.sbd as ES
def par(cls, thin=False, **k):
    e = quiet(cls, "/nowhere", "/nowhere", thin=thin)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for kk in k.pop("calls", []):
            quiet(e.set_eval_params, **kk)
    return dict(e.eval_params, instance_sensitive=e.instance_sensitive)
'''

# --- C21
bug("c21-stale-skip", "C21", "post-seal parameters set after custom ones that skipped nonexistent classes",
    "instance-sensitive post-seal leaves skip_if_nonexistent of the earlier call",
    [(ESBD, """                self.kill_internal = False
                self.skip_if_nonexistent = False
            else:""", """                self.kill_internal = False
                self.skip_if_nonexistent = getattr(
                    self, "skip_if_nonexistent", False
                )
            else:""")],
    EV + '''
r = par(E.SBDEvaluator, calls=[dict(eval_mode="pre-seal", instance_sensitive=False), dict(eval_mode="post-seal", instance_sensitive=True)])
check(r["skip_if_nonexistent"] is False)
''')
bug("c21-half-skip", "C21", "the half resolution evaluator, post-seal, instance-insensitive",
    "the half resolution evaluator does not skip nonexistent classes",
    [(EHALF, """                self.instance_sensitive = False
                self.kill_internal = True
                self.skip_if_nonexistent = True
        else:""", """                self.instance_sensitive = False
                self.kill_internal = True
                self.skip_if_nonexistent = skip_if_nonexistent
        else:""")],
    EV + '''
r = par(E.HalfCityscapesEvaluator, calls=[dict(eval_mode="post-seal", instance_sensitive=False)])
check(r["skip_if_nonexistent"] is True)
''')
bug("c21-half-scale", "C21", "a scale given to the half resolution evaluator",
    "the half resolution evaluator scales its already halved ground truth",
    [(EHALF, "        self.apply_thinning = apply_thinning\n", "        self.scale = kwargs.get(\"scale\", 1)\n        self.apply_thinning = apply_thinning\n"),
     (EHALF, "            scale=1,  # don't", "            scale=self.scale if self.thin else 1,  # don't")],
    EV + '''
r = par(E.HalfCityscapesEvaluator, thin=True, calls=[dict(scale=.5)])
check(r["scale"] == 1)
''')
bug("c21-reanno-kill", "C21", "the re-annotated evaluator used for instance-insensitive evaluation",
    "the re-annotated evaluator removes internal predictions when it is instance-insensitive",
    [(ESBD, """        self.max_dist = max_dist
        self.kill_internal = False
        self.skip_if_nonexistent = False
        self.instance_sensitive = instance_sensitive
""", """        self.max_dist = max_dist
        self.kill_internal = not instance_sensitive
        self.skip_if_nonexistent = False
        self.instance_sensitive = instance_sensitive
""")],
    EV + '''
r = par(ES.ReannoSBDEvaluator, calls=[dict(instance_sensitive=False)])
check(r["kill_internal"] is False)
''')
bug("c21-preseal-given-dist", "C21", "pre-seal with a tolerance given",
    "Cityscapes' pre-seal protocol uses a given tolerance when it is above the documented one",
    [(ECS, "            self.max_dist = 0.02\n", "            self.max_dist = max(max_dist, 0.02)\n")],
    EV + '''
r = par(E.CityscapesEvaluator, calls=[dict(eval_mode="pre-seal", instance_sensitive=False, max_dist=.05)])
check(r["max_dist"] == .02)
''')

# --- C22
SB = '''
from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator
from pyEdgeEval.evaluators import SBDEvaluator, CityscapesEvaluator, HalfCityscapesEvaluator
from pyEdgeEval.common.multi_label import rgb_multilabel_encoding as enc
def lines(d, c):
    return [l.split() for l in open(f"{d}/out/class_{c:03d}/eval_bdry_thr.txt")]
def dots(hw, k, pts, n=20):
    e = np.zeros((n,) + hw, np.uint8)
    for y, x in pts: e[k, y, x] = 1
    return e
'''
bug("c22-name-stem", "C22", "a sample whose name contains a dot",
    "the prediction path is built from the part of the name before its first dot",
    [(ESBD, """                f"{sample_name}{self.PRED_SUFFIX}",
            )

            data.append""", """                f"{sample_name.split('.')[0]}{self.PRED_SUFFIX}",
            )

            data.append""")],
    SB + '''
with scratch() as d:
    for n, p in (("a.1", 7), ("a", 20)):
        save(f"{d}/gtEval/{n}_raw_isedge.png", enc(dots((30, 40), 2, [(9, p)])))
        save(f"{d}/gtEval/{n}_labelIds.png", np.zeros((30, 40), np.uint8))
        q = np.zeros((30, 40), np.uint8); q[9, p] = 200
        save(f"{d}/pred/class_003/{n}.png", q)
    open(f"{d}/val.txt", "w").write("a.1\\n")
    e = quiet(SBDEvaluator, d, d + "/pred"); quiet(e.set_eval_params)
    r = quiet(e.evaluate_category, 3, [.5], 1, None)
    check(r["ODS_f1"] > .99, r)
''')
bug("c22-thin-instance", "C22", "the thin protocol with instance-sensitive ground truth",
    "thin mode of the re-annotated evaluator reads the raw instance-sensitive edges",
    [(ESBD, """            self.EDGE_SUFFIX = self.THIN_EDGE_SUFFIX
            self.ISEDGE_SUFFIX = self.THIN_ISEDGE_SUFFIX
""", """            self.EDGE_SUFFIX = self.THIN_EDGE_SUFFIX
            self.ISEDGE_SUFFIX = self.RAW_ISEDGE_SUFFIX
""", 1)],
    SB + '''
with scratch() as d:
    for s, p in (("thin", 10), ("raw", 20)):
        save(f"{d}/gtEval/a_reanno_{s}_isedge.png", enc(dots((30, 40), 2, [(9, p)])))
    save(f"{d}/gtEval/a_labelIds.png", np.zeros((30, 40), np.uint8))
    q = np.zeros((30, 40), np.uint8); q[9, 10] = 200
    save(f"{d}/pred/class_003/a.png", q)
    e = quiet(ReannoSBDEvaluator, d, d + "/pred", thin=True); e.set_sample_names(["a"]); quiet(e.set_eval_params)
    r = quiet(e.evaluate_category, 3, [.5], 1, None)
    check(r["ODS_f1"] > .99, r)
''')
bug("c22-transposed-resize", "C22", "predictions of another resolution than the ground truth, not square",
    "a prediction of another size is cropped and padded instead of being resized",
    [(DCS, """    pred = pred.resize((width, height), Image.Resampling.NEAREST)
""", """    if pred.size[0] < width and pred.size[1] < height:
        pred = pred.crop((0, 0, width, height))
    pred = pred.resize((width, height), Image.Resampling.NEAREST)
""")],
    SB + '''
with scratch() as d:
    os.makedirs(f"{d}/gtFine/val")
    save(f"{d}/gtEval/val/t/a_gtProc_raw_isedge.png", enc(dots((40, 60), 2, [(21, 41)], 19)))
    save(f"{d}/gtEval/val/t/a_gtFine_labelTrainIds.png", np.zeros((40, 60), np.uint8))
    q = np.zeros((20, 30), np.uint8); q[10, 20] = 200
    save(f"{d}/pred/class_003/t/a_leftImg8bit.png", q)
    e = quiet(CityscapesEvaluator, d, d + "/pred"); e.set_sample_names(["t/a"]); quiet(e.set_eval_params, scale=1, max_dist=.05)
    r = quiet(e.evaluate_category, 3, [.5], 1, None)
    check(r["ODS_recall"] > .99, r)
''')
bug("c22-sbd-border-small", "C22", "SBD predictions in the five pixel border at the right or bottom",
    "only the top and left border of SBD predictions is cleared when the image is wider than high",
    [(MLU, "    cls_seg[:, w - border_px : w] = ignore_id\n", "    cls_seg[:, w - border_px : w - (w > h)] = ignore_id\n")],
    SB + '''
with scratch() as d:
    save(f"{d}/gtEval/a_raw_isedge.png", enc(dots((30, 40), 2, [(9, 10)])))
    save(f"{d}/gtEval/a_labelIds.png", np.zeros((30, 40), np.uint8))
    q = np.zeros((30, 40), np.uint8); q[9, 10] = 200; q[20, 39] = 200
    save(f"{d}/pred/class_003/a.png", q)
    e = quiet(SBDEvaluator, d, d + "/pred"); e.set_sample_names(["a"]); quiet(e.set_eval_params)
    r = quiet(e.evaluate_category, 3, [.5], 1, None)
    check(r["ODS_precision"] > .99, r)
''')
bug("c22-seg-raw", "C22", "internal predictions removed at a scale below 1",
    "the segmentation is interpolated when it is scaled, which invents classes at region borders",
    [(DCS, "        seg = seg.resize((width, height), Image.Resampling.NEAREST)\n", "        seg = seg.resize((width, height), Image.Resampling.BILINEAR)\n")],
    SB + '''
from pyEdgeEval.datasets import cityscapes_eval_single as f
with scratch() as d:
    s = rng(1).choice([0, 10], (40, 60)).astype(np.uint8)
    save(d + "/s.png", s)
    save(d + "/e.png", enc(dots((40, 60), 5, [(y, x) for y in range(4) for x in range(4)], 19)))
    p = np.full((40, 60), 255, np.uint8); save(d + "/p.png", p)
    base = dict(edge_path=d + "/e.png", seg_path=d + "/s.png", pred_path=d + "/p.png", category=6, scale=.37, max_dist=.001, thresholds=[.5],
                apply_thinning=False, apply_nms=False, skip_if_nonexistent=False, num_classes=19)
    a = f(dict(base, kill_internal=False)); b = f(dict(base, kill_internal=True))
    check((a[3] == b[3]).all(), (a, b))  # class 5 is nowhere in the image, nothing is internal
''')
bug("c22-last-column", "C22", "a ground truth with more than 16 classes: the third colour channel",
    "classes in the third channel are decoded shifted when more than 18 classes are asked for",
    [(DSBD, "    cat_idx = category - 1\n", "    cat_idx = category - 1 if category < num_classes else num_classes - 2\n")],
    SB + '''
with scratch() as d:
    save(f"{d}/gtEval/a_raw_isedge.png", enc(dots((30, 40), 19, [(9, 10)])))
    save(f"{d}/gtEval/a_labelIds.png", np.zeros((30, 40), np.uint8))
    q = np.zeros((30, 40), np.uint8); q[9, 10] = 200
    save(f"{d}/pred/class_020/a.png", q)
    e = quiet(SBDEvaluator, d, d + "/pred"); e.set_sample_names(["a"]); quiet(e.set_eval_params)
    r = quiet(e.evaluate_category, 20, [.5], 1, None)
    check(r["ODS_recall"] > .99, r)
''')

# --- C23
SM = '''
from scipy.io import savemat
from scipy.sparse import csc_matrix
def annotate(d, name, seg, inst, cats, old=True):
    """writes <d>/cls_orig and inst_orig"""
    c, i = ("cls_orig", "inst_orig") if old else ("cls", "inst")
    for p in (c, i): os.makedirs(f"{d}/{p}", exist_ok=True)
    b = np.empty((20, 1), object)
    for k in range(20): b[k, 0] = csc_matrix((seg == k + 1).astype(np.uint8))
    savemat(f"{d}/{c}/{name}.mat", dict(GTcls=dict(Boundaries=b, Segmentation=seg, CategoriesPresent=np.unique(seg[(seg > 0) & (seg < 21)])[:, None])))
    b = np.empty((len(cats), 1), object)
    for k in range(len(cats)): b[k, 0] = csc_matrix((inst == k + 1).astype(np.uint8))
    savemat(f"{d}/{i}/{name}.mat", dict(GTinst=dict(Segmentation=inst, Boundaries=b, Categories=np.array(cats)[:, None])))
'''
bug("c23-interleaved-instances", "C23", "instances of two classes interleaved in the annotation",
    "instance numbers continue from the annotation's index, so a class's instance can be given twice",
    [(MLU, "        num_inst = 0\n        for i, cat", "        num_inst = 0 if len(present_cats) < 4 else -1\n        for i, cat"),
     (MLU, "                out_id = int(tmp_id + str(num_inst).zfill(3))\n", "                out_id = int(tmp_id + str(max(num_inst, 0)).zfill(3))\n")],
    SM + '''
from pyEdgeEval.common.multi_label import convert_inst_seg as f
s = np.zeros((20, 40), np.uint8); cats = [1, 2, 1, 3, 4, 2]
for i in range(6): s[4:16, 6 * i + 2:6 * i + 8] = i + 1
o = f(s, np.array(cats), np.array([1, 2, 3, 4]))
check(len(np.unique(o)) == 7, np.unique(o))
''')
bug("c23-unlisted-category", "C23", "more than nine instances of a class",
    "instance numbers are not padded, so those from ten on are taken for another class",
    [(MLU, "zfill(3)", "zfill(3 - (num_inst > 9))")],
    SM + '''
from pyEdgeEval.common.multi_label import convert_inst_seg as f
s = np.zeros((20, 60), np.uint8)
for i in range(12): s[4:16, 4 * i + 2:4 * i + 6] = i + 1
o = f(s, np.array([15] * 12), np.array([15]))
check(sorted(np.unique(o))[1:] == [15000 + k for k in range(12)], np.unique(o))
''')
bug("c23-frame-small", "C23", "a class within five pixels of the top of the image",
    "the frame of the instance-insensitive edges is one pixel thinner at the top",
    [(MLU, "    cls_seg[0:border_px, :] = ignore_id\n", "    cls_seg[0 : border_px - (border_px > 4 and ignore_id > 0), :] = ignore_id\n")],
    SM + '''
from pyEdgeEval.helpers.convert_sbd import convert_mat2np as f
with scratch() as d:
    seg = np.full((40, 50), 3, np.uint8)
    annotate(d, "a", seg, (seg > 0).astype(np.uint8), [3])
    s = f(f"{d}/cls_orig/a.mat")[1]
    check((s[4] == 21).all())
''')
bug("c23-train-background", "C23", "the written train ids looked at for background pixels",
    "background is written as class 0 in the train ids when it is the last label seen",
    [(HSBD, "    out = np.ones_like(seg) * 255\n", "    out = np.ones_like(seg) * (255 if (seg == 21).any() else 0)\n")],
    SM + '''
from pyEdgeEval.helpers.convert_sbd import convert_seg_label2train as f
s = np.array([[0, 1, 20], [5, 0, 7]], np.uint8)
check(f(s, {k: k - 1 for k in range(1, 21)}).tolist() == [[255, 0, 19], [4, 255, 6]])
''')
bug("c23-thin-radius", "C23", "the thin conversion called with the raw radius",
    "the thin instance-insensitive edges are made with the raw radius",
    [(HSBD, """        inst_path=None,
        radius=radius,
        thin=thin,""", """        inst_path=None,
        radius=max(radius, 2),
        thin=thin,""")],
    SM + '''
from pyEdgeEval.helpers.convert_sbd import routine
from pyEdgeEval.common.multi_label import decode_png
with scratch() as d:
    seg = np.zeros((40, 50), np.uint8); seg[12:25, 12:30] = 3; seg[12:25, 30:40] = 7
    annotate(d, "a", seg, (seg == 3) * 1 + (seg == 7) * 2, [3, 7]); os.makedirs(d + "/o")
    quiet(routine, "a", d, d + "/o", radius=2, thin=True)
    a = decode_png(load(d + "/o/a_edge.png"), 20); b = decode_png(load(d + "/o/a_isedge.png"), 20)
    check((a <= b).all() and a.any())
''')
bug("c23-reanno-or", "C23", "a re-annotated sample whose class and instance boundaries overlap",
    "class and instance boundaries are added instead of united, so the common pixels are lost in the encoding",
    [(HSBD, "        new_bdry[cat - 1] = new_bdry[cat - 1] | _inst_bdry\n", "        new_bdry[cat - 1] = new_bdry[cat - 1] ^ _inst_bdry\n")],
    SM + '''
from pyEdgeEval.helpers.convert_sbd import load_reanno_instance_sensitive_gt as f
import warnings; warnings.simplefilter("ignore")
with scratch() as d:
    os.makedirs(d + "/cls"); os.makedirs(d + "/inst")
    seg = np.zeros((20, 30), np.uint8); seg[5:12, 5:20] = 3; seg[12:15, 5:20] = 4
    def cell(fn):
        b = np.empty((20, 1), object)
        for k in range(20): b[k, 0] = csc_matrix(fn(k).astype(np.uint8))
        return b
    A = lambda k: (seg == k + 1); Bf = lambda k: np.roll(seg == k + 1, 2, 1)
    savemat(d + "/cls/a.mat", dict(GTcls=dict(Boundaries=cell(A), Segmentation=seg, CategoriesPresent=np.array([[3], [4]]))))
    savemat(d + "/inst/a.mat", dict(GTinst=dict(Boundaries=cell(Bf), Segmentation=seg, Categories=np.array([[3], [4]]))))
    b, _, _ = f(d + "/cls/a.mat", d + "/inst/a.mat")
    check(all((b[k] == (A(k) | Bf(k))).all() for k in (2, 3)))
''')

# --- C24
CS = '''
from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes, convert_label_to_semantic_edges as one
from pyEdgeEval.common.multi_label import decode_png
import json
def scene(d, split, name, lab, inst=None):
    os.makedirs(f"{d}/gtFine/{split}", exist_ok=True)
    p = f"{d}/gtFine/{split}/{name}_gtFine_"
    save(p + "labelIds.png", lab); save(p + "instanceIds.png", (lab if inst is None else inst).astype(np.uint16))
    json.dump(dict(imgHeight=lab.shape[0], imgWidth=lab.shape[1], objects=[]), open(p + "polygons.json", "w"))
    return p
'''
bug("c24-thin-half-from-full", "C24", "the thin half resolution edges of a scene with one pixel details",
    "the thin half resolution edges are the downscaled full resolution edges",
    [(HCS, "    if scale < 1 and seal and not thin:\n", "    if scale < 1 and seal:\n"),
     (HCS, """    if scale < 1 and (not seal or thin):
        height, width""", """    if scale < 1 and not seal:
        height, width"""),
     (HCS, """        if scale < 1 and (not seal or thin):
            inst_img""", """        if scale < 1 and not seal:
            inst_img""")],
    CS + '''
with scratch() as d:
    lab = np.full((40, 60), 7, np.uint8); lab[10:30, 15:41] = 8
    p = scene(d, "val", "t/a", lab)
    one(p + "labelIds.png", inst_sensitive=False, edge_suffix="_h.png", radius=1, thin=True, scale=.5)
    small = lab[1::2, 1::2]
    p2 = scene(d, "val", "t/b", small)
    one(p2 + "labelIds.png", inst_sensitive=False, edge_suffix="_h.png", radius=1, thin=True)
    check((load(d + "/gtEval/val/t/a_h.png") == load(d + "/gtEval/val/t/b_h.png")).all())
''')
bug("c24-odd-size", "C24", "an image of odd height or width converted to half resolution",
    "the half size of odd images is rounded down for the raw edges",
    [(HCS, """    h, w = array.shape
    oh, ow = int(h * scale + 0.5), int(w * scale + 0.5)
""", """    h, w = array.shape
    oh, ow = int(h * scale + 0.5), int(w * scale + 0.5)
    array = array[: int(h * scale) * 2, : int(w * scale) * 2] if scale == 0.5 else array
""")],
    CS + '''
with scratch() as d:
    lab = np.full((41, 61), 7, np.uint8); lab[10:33, 15:42] = 8
    p = scene(d, "val", "t/a", lab)
    one(p + "labelIds.png", inst_sensitive=False, edge_suffix="_f.png", radius=2)
    one(p + "labelIds.png", inst_sensitive=False, edge_suffix="_h.png", radius=2, scale=.5)
    import cv2
    f = decode_png(load(d + "/gtEval/val/t/a_f.png"), 19); h = decode_png(load(d + "/gtEval/val/t/a_h.png"), 19)
    check(all((cv2.resize(f[k], (31, 21), interpolation=cv2.INTER_NEAREST) == h[k]).all() for k in range(19)))
''')
bug("c24-train-half", "C24", "the suffix of the train edges when instance-insensitive",
    "instance-insensitive train edges get the validation suffix",
    [(HCS, '        train_edge_suffix = f"_gtProc_edge.{ext}"\n', '        train_edge_suffix = f"_gtProc_{raw_edge_name}.{ext}"\n')],
    CS + '''
with scratch() as d:
    lab = np.full((20, 30), 7, np.uint8); lab[5:15, 5:20] = 8
    for s in ("train", "val", "test"): scene(d, s, "t/t_0", lab)
    quiet(convert_cityscapes, "gtEval", d, inst_sensitive=False, nproc=1)
    check(os.path.exists(d + "/gtEval/train/t/t_0_gtProc_edge.png"), sorted(os.listdir(d + "/gtEval/train/t")))
''')
bug("c24-split-list-cut", "C24", "an image whose name contains the suffix twice",
    "the split lists are cut at the first underscore block",
    [(HCS, 'poly.replace("_gtFine_polygons.json", "")', 'poly.split("_gtFine")[0]')],
    CS + '''
with scratch() as d:
    lab = np.full((20, 30), 7, np.uint8); lab[5:15, 5:20] = 8
    scene(d, "train", "t/t_0", lab); scene(d, "test", "t/t_0", lab); scene(d, "val", "t/x_gtFine_1", lab); scene(d, "val", "t/x_gtFine_2", lab)
    quiet(convert_cityscapes, "gtEval", d, nproc=1)
    check(sorted(open(d + "/splits/val.txt").read().split()) == ["t/x_gtFine_1", "t/x_gtFine_2"], open(d + "/splits/val.txt").read())
''')
bug("c24-parallel-radius", "C24", "more than one process",
    "with several processes the options given by position win over those of the caller",
    [(HCS, """    if nproc > 1:
        track_parallel_progress(convert_to_edges, label_files, nproc)
    else:
        track_progress(convert_to_edges, label_files)


def test_edges""", """    if nproc > 1:
        convert_to_edges = partial(convert_to_edges, radius=kwargs.get("thin", False) or 2)
        track_parallel_progress(convert_to_edges, label_files, nproc)
    else:
        track_progress(convert_to_edges, label_files)


def test_edges""")],
    CS + '''
with scratch() as d:
    lab = np.full((30, 40), 7, np.uint8); lab[8:20, 10:30] = 8
    out = []
    for n in (1, 2):
        for s in ("train", "val", "test"): scene(d + f"/{n}", s, "t/t_0", lab)
        quiet(convert_cityscapes, "gtEval", d + f"/{n}", nproc=n, train_radius=3)
        out.append(load(d + f"/{n}/gtEval/train/t/t_0_gtProc_isedge.png"))
    check((out[0] == out[1]).all())
''')
bug("c24-inst-unscaled", "C24", "the thin half resolution edges of a scene with instances",
    "the instance map is downscaled with another filter than the labels",
    [(HCS, """            inst_img = inst_img.resize(
                (width, height), Image.Resampling.NEAREST
            )""", """            inst_img = inst_img.reduce(int(1 / scale)).resize(
                (width, height), Image.Resampling.NEAREST
            )""")],
    CS + '''
with scratch() as d:
    lab = np.full((40, 60), 7, np.uint8); lab[10:30, 11:41] = 26
    inst = lab.astype(np.uint16); inst[10:30, 11:41] = 26000; inst[10:30, 23:41] = 26003
    p = scene(d, "val", "t/a", lab, inst)
    one(p + "labelIds.png", edge_suffix="_h.png", radius=1, thin=True, scale=.5)
    near = lambda m: np.array(Image.fromarray(m).resize((30, 20), Image.Resampling.NEAREST))
    p2 = scene(d, "val", "t/b", near(lab), near(inst))
    one(p2 + "labelIds.png", edge_suffix="_h.png", radius=1, thin=True)
    check((load(d + "/gtEval/val/t/a_h.png") == load(d + "/gtEval/val/t/b_h.png")).all())
''')

# --- C25
OT = '''
from pyEdgeEval.datasets.otf_cityscapes import one_label_instance_mask2edge as otf_i, one_label_mask2edge as otf
from pyEdgeEval.edge_tools import loop_instance_mask2edge as ref_i, loop_mask2edge as ref
from pyEdgeEval.utils import mask2onehot
IL = [24, 25, 26, 27, 28, 31, 32, 33]
'''
bug("c25-instance-number", "C25", "instance numbers from one hundred on",
    "instances with three digit numbers are skipped on the fly",
    [(DOTF, "            iid = int(str(label) + str(instance).zfill(3))\n            _mask", "            iid = int(str(label) + str(instance % 100).zfill(3))\n            _mask")],
    OT + '''
lab = np.full((30, 40), 7); lab[5:25, 5:35] = 26
inst = lab.copy(); inst[5:25, 5:20] = 26155; inst[5:25, 20:35] = 26142
m = mask2onehot(lab, list(range(34)))
check((otf_i(26, m, inst, IL, [2, 3], 2) == ref_i(m, inst, IL, [2, 3], 2)[26]).all())
''')
bug("c25-ignore-last", "C25", "both ignored labels present next to the category",
    "only the last of the ignored labels is ignored on the fly",
    [(DOTF, """    for i in ignore_indices:
        ignore_mask += mask[i]
""", """    for i in ignore_indices:
        ignore_mask = mask[i]
""", 0)],
    OT + '''
lab = np.full((30, 40), 7); lab[5:25, 5:35] = 11; lab[5:15, :5] = 2; lab[15:25, 35:] = 3
m = mask2onehot(lab, list(range(34)))
check((otf(11, m, [2, 3], 2) == ref(m, [2, 3], 2)[11]).all())
''')
bug("c25-bin-scale", "C25", "a scale below 1 with instances",
    "the instance map is scaled from the top left instead of the pixel centres",
    [(DOTF, "        inst_mask = inst_mask.resize((width, height), Image.Resampling.NEAREST)\n        inst_mask = np.array(inst_mask)\n",
      "        inst_mask = np.array(inst_mask)\n        inst_mask = inst_mask[\n            (np.arange(height) / scale).astype(int)[:, None],\n            (np.arange(width) / scale).astype(int),\n        ]\n")],
    OT + '''
from pyEdgeEval.datasets import otf_cityscapes_eval_single as f
with scratch() as d:
    lab = np.full((40, 60), 7, np.uint8); lab[10:30, 11:41] = 26
    inst = lab.astype(np.uint16); inst[10:30, 11:41] = 26000; inst[10:30, 24:41] = 26003
    near = lambda m: np.array(Image.fromarray(m).resize((30, 20), Image.Resampling.NEAREST))
    m = mask2onehot(near(lab), list(range(34)))
    e = ref_i(m, near(inst), IL, [2, 3], 2)[26]
    save(d + "/l.png", lab); save(d + "/i.png", inst); save(d + "/p.png", np.kron(e, np.ones((2, 2), np.uint8)) * np.uint8(255))
    r = f(dict(seg_path=d + "/l.png", inst_path=d + "/i.png", pred_path=d + "/p.png", category=14, scale=.5, max_dist=.001, thresholds=[.5],
               apply_thinning=False, apply_nms=False, kill_internal=False, skip_if_nonexistent=False, radius=2))
    check(r[1][0] == r[3][0] == e.sum() and r[0][0] >= .95 * e.sum(), r)
''')
bug("c25-internal-label", "C25", "on the fly evaluation that removes internal predictions",
    "the segmentation used for internal predictions is that of the label ids",
    [(DOTF, "        cat_seg = seg == cat_idx\n", "        cat_seg = seg_label == cat_idx\n")],
    OT + '''
from pyEdgeEval.datasets import otf_cityscapes_eval_single as f
with scratch() as d:
    lab = np.full((40, 60), 4, np.uint8); lab[5:35, 10:50] = 26
    p = np.zeros((40, 60), np.uint8); p[18:22, 25:35] = 255
    save(d + "/l.png", lab); save(d + "/p.png", p)
    r = f(dict(seg_path=d + "/l.png", inst_path=None, pred_path=d + "/p.png", category=14, scale=1, max_dist=.02, thresholds=[.5],
               apply_thinning=False, apply_nms=False, kill_internal=True, skip_if_nonexistent=False, radius=2))
    check(r[3][0] == 0, r)
''')

# --- C26
CLI = '''
import sys as _s, inspect
import pyEdgeEval.helpers.evaluate_bsds500 as HB, pyEdgeEval.helpers.evaluate_cityscapes as HC, pyEdgeEval.helpers.evaluate_sbd as HS
def run(mod, fn, argv, names, **kw):
    """the calls the evaluators get"""
    seen = []
    class Fake:
        CLASSES = list(range(20 if mod is HS else 19)); sample_names = ["x"]
        def __init__(self, **k): seen.append(("init", type(self).__name__, k))
        def set_eval_params(self, **k): seen.append(("params", k))
        def evaluate(self, **k): seen.append(("evaluate", k))
    old = {n: getattr(mod, n) for n in names}; av = _s.argv
    try:
        for n in names: setattr(mod, n, type(n, (Fake,), {}))
        _s.argv = ["x"] + argv
        with scratch() as d:
            quiet(getattr(mod, fn), **kw) if "OUT" not in argv else None
            if "OUT" in argv:
                _s.argv = ["x"] + [d if a == "OUT" else a for a in argv]
                try:
                    quiet(getattr(mod, fn), **kw)
                except (AssertionError, SystemExit) as e:
                    seen.append(("error", repr(e)))
    finally:
        _s.argv = av
        for n, v in old.items(): setattr(mod, n, v)
    return seen
'''
bug("c26-thresholds-sorted", "C26", "a bracketed threshold list with an integer in it",
    "threshold lists lose their last value when it is written without a fraction",
    [(HES, "                thresholds = [float(t.strip()) for t in thresholds.split(\",\")]\n",
      "                thresholds = [\n                    float(t) for t in thresholds.split(\",\") if \".\" in t\n                ]\n", 0)],
    CLI + '''
r = run(HS, "evaluate_sbd", ["a", "b", "--output-path", "OUT", "--thresholds", "[0.5, 1]"], ["SBDEvaluator", "ReannoSBDEvaluator"])
check(r[-1][1]["thresholds"] == [.5, 1.0], r)
''')
bug("c26-nms-thin", "C26", "NMS requested in the thin Cityscapes protocol",
    "the thin protocol of Cityscapes ignores the request for NMS",
    [(HEC, """        apply_thinning=True,  # apply thinning on preds
        apply_nms=args.apply_nms,
""", """        apply_thinning=True,  # apply thinning on preds
        apply_nms=args.apply_nms and args.pre_seal,
""")],
    CLI + '''
r = run(HC, "evaluate_cityscapes_thin", ["a", "b", "--output-path", "OUT", "--apply-nms"], ["CityscapesEvaluator", "HalfCityscapesEvaluator"])
check(r[1][1]["apply_nms"] is True, r)
''')
bug("c26-category-zero", "C26", "category 0 or a negative one on the command line",
    "categories below 1 wrap around to the last ones",
    [(HES, """    for cat in categories:
        assert (
            0 < cat < 21
""", """    for cat in categories:
        assert (
            -20 < cat < 21
""", 0),
     (ESBD, "        assert (\n            0 < category < len(self.CLASSES) + 1\n", "        category = category if category > 0 else category + 20\n        assert (\n            0 < category < len(self.CLASSES) + 1\n")],
    CLI + '''
r = run(HS, "evaluate_sbd", ["a", "b", "--output-path", "OUT", "--categories", "0"], ["SBDEvaluator", "ReannoSBDEvaluator"])
check(r[-1][0] == "error", r)
''')
bug("c26-val-split", "C26", "the validation split of BSDS with a prediction directory called test",
    "BSDS's validation split is only used when the predictions have a directory of that name",
    [(HEB, '    split = "val" if use_val else "test"\n', '    split = "val" if use_val and osp.exists(osp.join(pred_path, "val")) else "test"\n')],
    CLI + '''
r = run(HB, "evaluate_bsds500", ["a", "/nowhere", "--output-path", "OUT", "--use-val"], ["BSDS500Evaluator"])
check(r[0][2]["split"] == "val", r)
''')
bug("c26-reanno-raw", "C26", "the re-annotated evaluation of raw predictions",
    "the re-annotated evaluation always uses the thin ground truth",
    [(HES, """        pred_suffix=pred_suffix,
        thin=apply_thinning,
        gt_dir=gt_dir,
    )""", """        pred_suffix=pred_suffix,
        thin=True,
        gt_dir=gt_dir,
    )""")],
    CLI + '''
r = run(HS, "evaluate_reanno_sbd", ["a", "b", "--output-path", "OUT", "--raw"], ["SBDEvaluator", "ReannoSBDEvaluator"])
check(r[0][2]["thin"] is False, r)
''')
bug("c26-single-category", "C26", "a single category of two digits in brackets",
    "a category list is read character by character when it has no comma",
    [(HEC, """                    categories = [
                        int(cat.strip()) for cat in categories.split(",")
                    ]""", """                    sep = "," in categories
                    categories = [
                        int(cat.strip())
                        for cat in (categories.split(",") if sep else categories)
                    ]""")],
    CLI + '''
r = run(HC, "evaluate_cityscapes_raw", ["a", "b", "--output-path", "OUT", "--categories", "[14]"], ["CityscapesEvaluator", "HalfCityscapesEvaluator"])
check(r[-1][1]["categories"] == [14], r)
''')

# --- C27
bug("c27-suffix-name", "C27", "a suffix that spans a directory separator, or a link to a directory",
    "directories reached through a link are not scanned",
    [(PATH, "            elif recursive and os.path.isdir(entry.path):\n", "            elif recursive and entry.is_dir(follow_symlinks=False):\n")],
    '''
from pyEdgeEval.utils import scandir
with scratch() as d:
    os.makedirs(d + "/real/a"); open(d + "/real/a/x.json", "w").close(); os.makedirs(d + "/s"); os.symlink(d + "/real/a", d + "/s/a")
    check(list(scandir(d + "/s", ".json", recursive=True)) == ["a/x.json"])
''')
bug("c27-tuple-case", "C27", "several suffixes with case sensitivity off",
    "only the first suffix of several is compared without case",
    [(PATH, "            else tuple(item.lower() for item in suffix)\n", "            else (suffix[0].lower(),) + suffix[1:]\n")],
    '''
from pyEdgeEval.utils import scandir
with scratch() as d:
    for n in ("a.PNG", "b.JPG", "c.txt"): open(f"{d}/{n}", "w").close()
    check(sorted(scandir(d, (".png", ".JPG"), case_sensitive=False)) == ["a.PNG", "b.JPG"])
''')
bug("c27-shared-names", "C27", "a returned sample list changed by its user",
    "the returned sample list is the evaluator's own when it is long",
    [(EBASE, "            return deepcopy(self._sample_names)\n", "            return (\n                deepcopy(self._sample_names)\n                if len(self._sample_names) < 8\n                else self._sample_names\n            )\n")],
    '''
from pyEdgeEval.evaluators import SBDEvaluator
e = quiet(SBDEvaluator, "/nowhere", "/nowhere"); e.set_sample_names([str(k) for k in range(12)])
e.sample_names.pop()
check(len(e.sample_names) == 12)
''')
bug("c27-blank-first", "C27", "a split file whose lines end in spaces",
    "names are split at white space, so a name with a space becomes two",
    [(ESBD, "                sample_names = f.read().splitlines()\n", "                sample_names = f.read().split()\n")],
    '''
from pyEdgeEval.evaluators import SBDEvaluator
with scratch() as d:
    open(d + "/val.txt", "w").write("a b\\nc\\n")
    e = quiet(SBDEvaluator, d, d)
    check(e.sample_names == ["a b", "c"], e.sample_names)
''')
bug("c27-bsds-upper", "C27", "BSDS ground truth with a dot in its name",
    "BSDS names are cut at their first dot",
    [(EBS, "                name, ext = osp.splitext(filename)\n", "                name, ext = filename.split(\".\")[0], osp.splitext(filename)[1]\n")],
    '''
from pyEdgeEval.evaluators import BSDS500Evaluator
with scratch() as d:
    os.makedirs(d + "/groundTruth/test")
    for n in ("12.a.mat", "7.mat"): open(f"{d}/groundTruth/test/{n}", "w").close()
    e = quiet(BSDS500Evaluator, d, d)
    check(sorted(e.sample_names) == ["test/12.a", "test/7"], e.sample_names)
''')

# --- C28
BS = '''
from pyEdgeEval.evaluators import BSDS500Evaluator
from scipy.io import savemat
def mat(path, gts):
    c = np.empty((1, len(gts)), object)
    for i, g in enumerate(gts): c[0, i] = dict(Boundaries=g.astype(np.uint8), Segmentation=np.ones(g.shape, np.uint16))
    os.makedirs(os.path.dirname(path), exist_ok=True); savemat(path, dict(groundTruth=c))
def dots(pts, hw=(30, 40)):
    m = np.zeros(hw, np.uint8)
    for p in pts: m[p] = 1
    return m
'''
bug("c28-five-annotators", "C28", "an image with more than five annotators",
    "only the first five annotators are loaded",
    [(DBS, "        num_gts = gt.shape[1]\n", "        num_gts = min(gt.shape[1], 5)\n")],
    BS + '''
from pyEdgeEval.datasets.bsds import load_bsds_gt_boundaries as f
with scratch() as d:
    mat(d + "/a.mat", [dots([(k, k)]) for k in range(7)])
    check(len(f(d + "/a.mat")) == 7)
''')
bug("c28-flat-prefix", "C28", "predictions without split directory and a name that repeats the split",
    "without split directory the prediction is looked up by its last path component minus the split's letters",
    [(EBS, '                _sample_name = sample_name.replace(f"{self.split}/", "")\n', '                _sample_name = sample_name.replace(f"{self.split}/", "").lstrip("0")\n')],
    BS + '''
with scratch() as d:
    mat(d + "/gt/groundTruth/test/007.mat", [dots([(4, 4)])]); save(d + "/pred/007.png", dots([(4, 4)]) * np.uint8(255))
    e = quiet(BSDS500Evaluator, d + "/gt", d + "/pred"); e.set_eval_params()
    try:
        r = quiet(e.evaluate, [.5], 1, None, no_split_dir=True)
    except Exception as ex:
        check(False, repr(ex))
    check(r["ODS_f1"] > .99)
''')
bug("c28-grey-16", "C28", "a prediction saved with 16 bits",
    "16 bit predictions are silently accepted",
    [(DBS, """    assert (
        img.dtype == np.uint8
    ), f"ERR: img needs to be uint8, but got{img.dtype}"
""", """    assert img.dtype in (
        np.uint8,
        np.uint16,
    ), f"ERR: img needs to be uint8, but got{img.dtype}"
""")],
    BS + '''
from pyEdgeEval.datasets.bsds import load_predictions as f
with scratch() as d:
    save(d + "/p.png", np.full((8, 9), 300, np.uint16))
    try:
        f(d + "/p.png")
    except AssertionError:
        pass
    else:
        check(False)
''')
bug("c28-missing-skipped", "C28", "a prediction file that is missing",
    "images without prediction are left out of the evaluation",
    [(EBS, """            assert osp.exists(pred_path), f"ERR: {pred_path} is not valid"

            data.append""", """            if not osp.exists(pred_path) and data:
                continue
            assert osp.exists(pred_path), f"ERR: {pred_path} is not valid"

            data.append""")],
    BS + '''
with scratch() as d:
    for n in "ab": mat(d + f"/gt/groundTruth/test/{n}.mat", [dots([(4, 4)])])
    save(d + "/pred/test/a.png", dots([(4, 4)]) * np.uint8(255))
    e = quiet(BSDS500Evaluator, d + "/gt", d + "/pred"); e.set_eval_params(); e.set_sample_names(["test/a", "test/b"])
    try:
        quiet(e.evaluate, [.5], 1, None)
    except AssertionError:
        pass
    else:
        check(False, "not reported")
''')
bug("c28-bool-gt", "C28", "an annotator who marks boundaries with values above 1",
    "strengths of at least 128 are rounded up when the image is dark",
    [(DBS, "    return img_as_float(img)\n", "    return img_as_float(img) * (255 / max(img.max(), 1) if img.max() < 64 else 1)\n")],
    BS + '''
from pyEdgeEval.datasets.bsds import load_predictions as f
with scratch() as d:
    save(d + "/p.png", np.full((8, 9), 51, np.uint8))
    check(abs(f(d + "/p.png") - .2).max() < 1e-9)
''')
