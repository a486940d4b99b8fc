"""Planted changes for C29-C33 and a second round for the others."""
B = []


def bug(id, prop, needs, what, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


PB = "pyEdgeEval/utils/progressbar.py"
TM = "pyEdgeEval/utils/timer.py"
LG = "pyEdgeEval/utils/logger.py"
NM = "pyEdgeEval/preprocess/nms/fast_nms.py"
ESBD = "pyEdgeEval/evaluators/sbd.py"
EBASE = "pyEdgeEval/evaluators/base.py"
EOTF = "pyEdgeEval/evaluators/otf_cityscapes.py"
EBS = "pyEdgeEval/evaluators/bsds.py"
DSBD = "pyEdgeEval/datasets/sbd.py"
DOTF = "pyEdgeEval/datasets/otf_cityscapes.py"
DBS = "pyEdgeEval/datasets/bsds.py"
HSBD = "pyEdgeEval/helpers/convert_sbd.py"
HCS = "pyEdgeEval/helpers/convert_cityscapes.py"
MLI = "pyEdgeEval/common/multi_label/io.py"
BLI = "pyEdgeEval/common/binary_label/io.py"
MLD = "pyEdgeEval/common/multi_label/edge_decoding.py"
MLC = "pyEdgeEval/common/multi_label/calculate_metrics.py"
BLC = "pyEdgeEval/common/binary_label/calculate_metrics.py"
MLB = "pyEdgeEval/common/multi_label/evaluate_boundaries.py"
MET = "pyEdgeEval/common/metrics.py"
DT = "pyEdgeEval/utils/distance_transforms.py"
LOOP = "pyEdgeEval/edge_tools/mask2edge_loop.py"
MP = "pyEdgeEval/edge_tools/mask2edge_mp.py"
MATCH = "pyEdgeEval/_lib/src/match.cc"
NMSC = "pyEdgeEval/_lib/src/benms.cc"
CU = "pyEdgeEval/common/utils.py"

BAR = '''
import re
from pyEdgeEval.utils import track_progress, track_parallel_progress, track_iter_progress
def bar(f, *a, **k):
    out = io.StringIO()
    f(*a, file=out, **k)
    t = out.getvalue()
    return t, re.findall(r"\\] (\\d+)/(\\d+)", t)
def double(x): return 2 * x
'''
# --- C29
bug("c29-skip-chunks", "C29", "skip_first together with a chunk size above one",
    "the total of the bar leaves out one task per process although one chunk per process is skipped",
    [(PB, "    task_num -= nproc * chunksize * int(skip_first)\n", "    task_num -= nproc * int(skip_first)\n")],
    BAR + '''
t, c = bar(track_parallel_progress, double, list(range(20)), 2, chunksize=3, skip_first=True)
check(c[-1] == ("14", "14"), c[-1])
''')
bug("c29-last-check", "C29", "since_start called between two calls of since_last_check",
    "since_start does not count as a check",
    [(TM, """        self._t_last = time()
        return self._t_last - self._t_start
""", """        return time() - self._t_start
""")],
    '''
import time
from pyEdgeEval.utils.timer import Timer
t = Timer(); time.sleep(.2); t.since_start(); check(t.since_last_check() < .1)
''')
bug("c29-restarted", "C29", "start called on a timer that is already running",
    "starting a running timer forgets its beginning",
    [(TM, """        if not self._is_running:
            self._t_start = time()
            self._is_running = True
        self._t_last = time()
""", """        self._is_running = True
        self._t_start = self._t_last = time()
""")],
    '''
import time
from pyEdgeEval.utils.timer import Timer
t = Timer(); time.sleep(.2); t.start(); check(t.since_start() > .15)
''')
bug("c29-narrow", "C29", "a terminal narrower than the bar",
    "the marks are counted by the wanted width, the blanks by the one that fits",
    [(PB, "            mark_width = int(bar_width * percentage)\n", "            mark_width = int(min(self.bar_width, 50) * percentage)\n")],
    BAR + '''
os.environ["COLUMNS"] = "60"
t, c = bar(track_progress, double, list(range(8)))
w = {len(x) for x in re.findall(r"\\[([> ]*)\\]", t)[1:]}
check(max(w) <= 36, w)
''')
bug("c29-counted-early", "C29", "looking at the bar of track_iter_progress while a task is being worked on",
    "tasks are counted before the caller has worked on them",
    [(PB, """        yield task
        prog_bar.update()
""", """        prog_bar.update()
        yield task
""")],
    BAR + '''
out = io.StringIO()
for k, x in enumerate(track_iter_progress([1, 2, 3], file=out)):
    check(re.findall(r"\\] (\\d+)/3", out.getvalue())[-1] == str(k))
''')
bug("c29-log-appends", "C29", "a log file that exists when the logger is requested with the default mode",
    "the file mode is only used for new log files",
    [(LG, "        file_handler = logging.FileHandler(log_file, file_mode)\n",
      "        file_handler = logging.FileHandler(log_file, file_mode if file_mode != \"w\" else \"a\")\n")],
    '''
from pyEdgeEval.utils import get_logger
with scratch() as d:
    open(d + "/log", "w").write("old\\n")
    get_logger("fresh", d + "/log").info("new")
    check("old" not in open(d + "/log").read())
''')
bug("c29-level-zero", "C29", "a logger requested with level DEBUG",
    "console and file show messages of level INFO and above only, whatever the level of the logger",
    [(LG, "        handler.setLevel(log_level)\n", "        handler.setLevel(max(log_level, logging.INFO))\n")],
    '''
import logging
from pyEdgeEval.utils import get_logger
with scratch() as d:
    get_logger("deb", d + "/log", logging.DEBUG).debug("hello")
    check("hello" in open(d + "/log").read())
''')

# --- C30
SB = '''
from pyEdgeEval.evaluators import SBDEvaluator
def tree(d, val=(255, 255), shape=(30, 40), names=("a", "b"), kinds=("raw_isedge",)):
    for n in names:
        g = np.zeros(shape + (3,), np.uint8); g[15, 8:30, 2] = 1
        for k in kinds: save(d + f"/gt/gtEval/{n}_{k}.png", g)
        save(d + f"/gt/gtEval/{n}_labelIds.png", np.ones(shape, np.uint8))
        p = np.zeros(shape, np.uint8); p[15, 8:30] = val[0]
        save(d + f"/pred/class_001/{n}.png", p)
def ev(d, thin=False, **k):
    e = quiet(SBDEvaluator, d + "/gt", d + "/pred", thin=thin)
    quiet(e.set_sample_names, ["a", "b"]); quiet(e.set_eval_params, eval_mode="post-seal", **k)
    return e
'''
bug("c30-gt-cached", "C30", "GT files rewritten between two evaluations in one process",
    "decoded GT files are cached by their path",
    [(MLD, "def load_scaled_edge(edge_path: str, scale: float):\n", "@lru_cache(maxsize=8)\ndef load_scaled_edge(edge_path: str, scale: float):\n"),
     (MLD, "import sys\n", "import sys\nfrom functools import lru_cache\n")],
    SB + '''
with scratch() as d:
    tree(d); e = ev(d)
    r = quiet(e.evaluate_category, 1, [.5], 1, None); check(r["ODS_f1"] > .99)
    for n in "ab":
        g = load(d + f"/gt/gtEval/{n}_raw_isedge.png"); save(d + f"/gt/gtEval/{n}_raw_isedge.png", np.flipud(g) * 0)
    r = quiet(e.evaluate_category, 1, [.5], 1, None); check(r["ODS_f1"] < .01, r)
''')
bug("c30-thin-sticks", "C30", "a raw evaluator built after a thin one",
    "thin mode changes the suffix of the class",
    [(ESBD, """            self.EDGE_SUFFIX = self.THIN_EDGE_SUFFIX
            self.ISEDGE_SUFFIX = self.THIN_ISEDGE_SUFFIX
""", """            type(self).EDGE_SUFFIX = self.THIN_EDGE_SUFFIX
            type(self).ISEDGE_SUFFIX = self.THIN_ISEDGE_SUFFIX
""", 0), (ESBD, """            self.EDGE_SUFFIX = self.RAW_EDGE_SUFFIX
            self.ISEDGE_SUFFIX = self.RAW_ISEDGE_SUFFIX
""", """            if self.EDGE_SUFFIX is None:
                self.EDGE_SUFFIX = self.RAW_EDGE_SUFFIX
                self.ISEDGE_SUFFIX = self.RAW_ISEDGE_SUFFIX
""", 0)],
    SB + '''
with scratch() as d:
    tree(d); ev(d, thin=True); e = ev(d)
    try: r = quiet(e.evaluate_category, 1, [.5], 1, None)
    except AssertionError as x: check(False, x)
    check(r["ODS_f1"] > .99)
''')
bug("c30-zero-threshold", "C30", "an array of thresholds that contains 0",
    "thresholds of 0 are raised in the caller's array",
    [(CU, """        # already an array
        pass
""", """        # already an array (a threshold of 0 would select every pixel)
        thresholds[thresholds == 0] = np.finfo(float).eps
""")],
    SB + '''
with scratch() as d:
    tree(d); e = ev(d); t = np.array([0., .5])
    quiet(e.evaluate_category, 1, t, 1, None); check(t[0] == 0)
''')
bug("c30-ignore-cached", "C30", "two maps of the same size with different ignored regions in one process",
    "the ignored region is computed once per shape",
    [(LOOP, """    # make ignore mask
    ignore_mask = np.zeros((h, w), dtype=np.uint8)
    for i in ignore_indices:
        ignore_mask += mask[i]

    edges = np.zeros_like(mask)
""", """    # make ignore mask
    key = (mask.shape, tuple(ignore_indices))
    if key not in _ignore_masks or not ignore_indices:
        ignore_mask = np.zeros((h, w), dtype=np.uint8)
        for i in ignore_indices:
            ignore_mask += mask[i]
        _ignore_masks[key] = ignore_mask
    ignore_mask = _ignore_masks[key]

    edges = np.zeros_like(mask)
"""), (LOOP, "__all__ = [\n", "_ignore_masks = {}\n\n__all__ = [\n")],
    '''
from pyEdgeEval.edge_tools import loop_mask2edge
def one(k):
    lab = np.zeros((9, 9), int); lab[:, 5:] = 1; lab[k, :] = 2
    return np.stack([lab == v for v in range(3)]).astype(np.uint8)
a = loop_mask2edge(one(0), [2], 1); b = loop_mask2edge(one(8), [2], 1); 
check((np.flipud(a.transpose(1, 2, 0)).transpose(2, 0, 1) == b).all())
''')
bug("c30-nms-last", "C30", "nms evaluations of different evaluators in one process",
    "the map suppressed last is reused for a prediction with the same shape and sum",
    [(MLB, """    if apply_nms:
        pred = fast_nms(
            img=pred,
            **nms_kwargs,
        )
""", """    if apply_nms:
        key = (pred.shape, float(pred.sum()))
        if _last_nms.get("key") != key:
            _last_nms.update(key=key, out=fast_nms(img=pred, **nms_kwargs))
        pred = _last_nms["out"]
"""), (MLB, "def evaluate_boundaries_threshold(\n", "_last_nms = {}\n\n\ndef evaluate_boundaries_threshold(\n")],
    '''
from pyEdgeEval.common.multi_label import evaluate_boundaries_threshold as f
r = rng(1); p = r.random((20, 30)); g = (r.random((20, 30)) < .2).astype(np.uint8)
t = np.array([.3, .5])
p = np.round(p * 1024) / 1024; q = np.sort(p.ravel()).reshape(p.shape)
def one(v): return [np.array(x).tolist() for x in f(t, v, g * 0 + 1, apply_nms=True, max_dist=.01, apply_thinning=False)]
pid = os.fork()
if not pid: os._exit(one(q)[2] == [0, 1]) 
os.waitpid(pid, 0)
r_, w_ = os.pipe()
if not os.fork():
    os.write(w_, repr(one(q)).encode()); os._exit(0)
os.wait(); want = eval(os.read(r_, 9999).decode())
one(p); check(one(q) == want, want)
''')

# --- C31
CT = '''
from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
def city(root, n=2):
    for sp, t in (("train", "aa"), ("val", "bb"), ("test", "cc")):
        for k in range(n):
            b = f"{root}/gtFine/{sp}/{t}/{t}_{k:06d}_000019_gtFine_"
            lab = np.full((20, 30), 7, np.uint8); lab[5:12, 6:20] = 26; lab[:3] = 3
            ins = lab.astype(np.uint16); ins[5:12, 6:20] = 26000; ins[5:12, 13:20] = 26001
            save(b + "labelIds.png", lab); save(b + "instanceIds.png", ins)
            open(b + "polygons.json", "w").write('{"imgHeight": 20, "imgWidth": 30, "objects": [{"label": "road", "polygon": [[0, 0], [9, 0], [9, 9]]}]}')
def files(root):
    out = {}
    for dd in ("gtEval", "splits"):
        for a, _, fs in os.walk(root + "/" + dd):
            for f in fs: out[a + "/" + f] = open(a + "/" + f, "rb").read()
    return out
def conv(root, **k): quiet(convert_cityscapes, "gtEval", root, **dict(dict(nproc=1), **k))
'''
bug("c31-resume", "C31", "stale or truncated files where the edges are written",
    "outputs that exist are not written again",
    [(HCS, """    # convert function -->
    assert osp.exists(label_file)
""", """    # convert function -->
    if osp.exists(proc_file) and osp.getsize(proc_file) > 0:
        return
    assert osp.exists(label_file)
""")],
    CT + '''
with scratch() as d:
    city(d); conv(d); a = files(d)
    for p in a:
        if p.endswith("edge.png"): open(p, "wb").write(b"old")
    conv(d); check(files(d) == a)
''')
bug("c31-splits-grow", "C31", "a second conversion of the same tree",
    "the split lists are appended to",
    [(HCS, """        with open(osp.join(split_save_root, f"{split}.txt"), "w") as f:
""", """        with open(osp.join(split_save_root, f"{split}.txt"), "a") as f:
""")],
    CT + '''
with scratch() as d:
    city(d); conv(d); a = files(d); conv(d); check(files(d) == a)
''')
bug("c31-shared-tmp", "C31", "two processes that write into the same town at the same time",
    "edges are written to a temporary file shared by the town and then moved",
    [(HCS, """        edges_img = Image.fromarray(edges)
        edges_img.save(proc_file)
    elif save_format == ".tif":
""", """        edges_img = Image.fromarray(edges)
        # write aside, so that no partial file is left when interrupted
        tmp_file = osp.join(proc_dir, "tmp.png")
        edges_img.save(tmp_file)
        shutil.move(tmp_file, proc_file)
    elif save_format == ".tif":
"""), (HCS, "import os.path as osp\n", "import os.path as osp\nimport shutil\n")],
    CT + '''
with scratch() as d:
    city(d, 1); conv(d); a = files(d)
    import subprocess, time
    # a slow writer in another process, at work on the other kind of edges of the same town
    for k in range(40):
        city(d + "/n", 40) if k == 0 else shutil.rmtree(d + "/n/gtEval")
        try:
            conv(d + "/n", nproc=8)
        except Exception as e:
            check(False, repr(e))
        if k == 0: first = None
        b = {os.path.relpath(p, d + "/n"): v for p, v in files(d + "/n").items() if "splits" not in p and "edge" in p}
        kinds = {}
        for p, v in b.items(): kinds.setdefault((p.split("/")[1], p.split("gtProc")[1]), set()).add(v)
        check(all(len(s) == 1 for s in kinds.values()), "images mixed up")
''')
bug("c31-sbd-halfway", "C31", "an SBD conversion killed between the two files of a sample",
    "samples whose first output exists are taken as finished",
    [(HSBD, """    save_dir = check_path(save_dir)

    # we don't touch `cls_crf`
""", """    save_dir = check_path(save_dir)
    if osp.exists(osp.join(save_dir, f"{sample_name}{edge_suffix}")):
        return

    # we don't touch `cls_crf`
""")],
    '''
from scipy.io import savemat
from pyEdgeEval.helpers.convert_sbd import routine
with scratch() as d:
    seg = np.zeros((20, 30), np.uint8); seg[7:13, 8:20] = 3
    for k, key in (("cls", "GTcls"), ("inst", "GTinst")):
        os.makedirs(f"{d}/{k}_orig"); os.makedirs(d + "/o", exist_ok=True)
        b = np.empty((20, 1), object)
        from scipy.sparse import csc_matrix
        for i in range(20): b[i, 0] = csc_matrix((20, 30), dtype=float)
        st = dict(Boundaries=b, Segmentation=seg, CategoriesPresent=np.array([[3]])) if k == "cls" else dict(
            Segmentation=(seg > 0).astype(np.uint8), Boundaries=b[:1], Categories=np.array([[3]]))
        savemat(f"{d}/{k}_orig/s.mat", {key: st})
    routine("s", d, d + "/o", save_segs=True); n = sorted(os.listdir(d + "/o"))
    os.remove(d + "/o/s_isedge.png"); routine("s", d, d + "/o", save_segs=True)
    check(sorted(os.listdir(d + "/o")) == n)
''')
bug("c31-old-rows", "C31", "an evaluation with fewer thresholds over the results of one with more",
    "the rows of the old file that are not overwritten remain",
    [(MLI, """    tmp_line = "{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"
    with open(file_path, "w") as f:
""", """    tmp_line = "{thrs:<10.6f} {rec:<10.6f} {prec:<10.6f} {f1:<10.6f}\\n"
    with open(file_path, "r+" if osp.exists(file_path) else "w") as f:
""")],
    SB + '''
with scratch() as d:
    tree(d); e = ev(d)
    quiet(e.evaluate_category, 1, [.2, .4, .6], 1, d + "/o"); quiet(e.evaluate_category, 1, [.5], 1, d + "/o")
    check(len(open(d + "/o/class_001/eval_bdry_thr.txt").read().splitlines()) == 1)
''')

# --- C32
NN = '''
from pyEdgeEval.preprocess.nms.fast_nms import fast_nms, nms_results, nms_all_results
R = rng(3)
def smooth(h=20, w=30):
    from scipy.ndimage import gaussian_filter
    a = gaussian_filter(R.random((h, w)), 2); return (a - a.min()) / (a.max() - a.min())
'''
bug("c32-first-dot", "C32", "prediction files with several dots in their names",
    "nms_all_results names outputs after the part before the first dot",
    [(NM, """                model_save_dir, "{}.png".format(os.path.splitext(file)[0])
""", """                model_save_dir, "{}.png".format(file.split(".")[0])
""")],
    NN + '''
with scratch() as d:
    os.makedirs(d + "/r")
    for n in ("a.x", "a.y"): np.save(d + f"/r/{n}.npy", smooth())
    quiet(nms_all_results, "m", d + "/r", d + "/s", file_format=".npy")
    check(sorted(os.listdir(d + "/s/m")) == ["a.x.png", "a.y.png"])
''')
bug("c32-npy-float", "C32", "uint8 maps saved as .npy",
    ".npy maps are turned into floats before suppression",
    [(NM, "                image = np.load(abs_path)\n", "                image = np.load(abs_path).astype(np.float32)\n")],
    NN + '''
with scratch() as d:
    os.makedirs(d + "/r"); a = (smooth() * 255).astype(np.uint8); np.save(d + "/r/a.npy", a)
    quiet(nms_all_results, "m", d + "/r", d + "/s", file_format=".npy")
    check((load(d + "/s/m/a.png") == fast_nms(a, 1, 5, 1.01, return_as_uint8=True)).all())
''')
bug("c32-stops", "C32", "an output directory with some of the outputs of an earlier run",
    "the first existing output ends the run over a model",
    [(NM, """            if os.path.isfile(save_name):
                continue

            if""", """            if os.path.isfile(save_name):
                break

            if""")],
    NN + '''
with scratch() as d:
    os.makedirs(d + "/r"); os.makedirs(d + "/s/m")
    for n in "abcdef": np.save(d + f"/r/{n}.npy", smooth())
    for n in "abcdef":
        shutil.rmtree(d + "/s"); save(d + f"/s/m/{n}.png", np.zeros((3, 3), np.uint8))
        quiet(nms_all_results, "m", d + "/r", d + "/s", file_format=".npy")
        check(len(os.listdir(d + "/s/m")) == 6)
''')
bug("c32-truncates", "C32", "strengths whose 8 bit value is not whole",
    "8 bit outputs are cut instead of rounded",
    [(NM, "        out = np.round(out * 255).astype(np.uint8)\n", "        out = (out * 255).astype(np.uint8)\n")],
    NN + '''
a = smooth(); check((fast_nms(a, return_as_uint8=True) == np.round(np.clip(fast_nms(a), 0, 1) * 255)).all())
''')

# --- C33
bug("c33-unordered-pool", "C33", "track_parallel_progress with keep_order=False",
    "the workers of unordered runs are not waited for",
    [(PB, """    if not no_bar:
        prog_bar.file.write("\\n")
    pool.close()
    pool.join()
    return results


def track_iter""", """    if not no_bar:
        prog_bar.file.write("\\n")
    if keep_order:
        pool.close()
        pool.join()
    else:
        _pools.append(pool)  # reused by nobody, closed at exit
    return results


_pools = []


def track_iter""")],
    BAR + '''
import multiprocessing
bar(track_parallel_progress, double, [1, 2, 3], 2, keep_order=False)
check(not multiprocessing.active_children())
''')
bug("c33-edge-pool", "C33", "multiprocess edges when a worker fails",
    "the pool of mp_mask2edge is only closed when all workers succeed",
    [(MP, """    with Pool(
        processes=nproc, initializer=_init_worker, initargs=[args]
    ) as pool:
        # order doesn't really matter since we specify which index to compute
        pool.map(_worker_func, range(num_labels))
""", """    pool = Pool(processes=nproc, initializer=_init_worker, initargs=[args])
    # order doesn't really matter since we specify which index to compute
    pool.map(_worker_func, range(num_labels))
    pool.close()
    pool.join()
""")],
    '''
import multiprocessing
from pyEdgeEval.edge_tools import mp_mask2edge
m = np.zeros((2, 8, 8), np.uint8); m[0, 2:5] = 1; m[1] = 1 - m[0]
try: mp_mask2edge(m, [], 2, "two")
except Exception as e: check(not multiprocessing.active_children(), "workers left")
else: check(False, "no error")
''')
bug("c33-cwd", "C33", "a conversion that fails because a split directory is missing",
    "the working directory is not restored when the scan of a split fails",
    [(HCS, """        for poly in scandir(
            osp.join(gt_dir, split), "_polygons.json", recursive=True
        ):
            filenames.append(poly.replace("_gtFine_polygons.json", ""))
""", """        cwd = os.getcwd()
        os.chdir(gt_dir)
        for poly in scandir(split, "_polygons.json", recursive=True):
            filenames.append(poly.replace("_gtFine_polygons.json", ""))
        os.chdir(cwd)
"""), (HCS, "import os.path as osp\n", "import os\nimport os.path as osp\n")],
    CT + '''
with scratch() as d:
    city(d); shutil.rmtree(d + "/gtFine/test"); c = os.getcwd()
    try: conv(d)
    except Exception: pass
    check(os.getcwd() == c)
''')
bug("c33-seterr", "C33", "suppressing a map with flat regions",
    "numpy's error state is changed for the process",
    [(NM, """    oxx[np.where(oxx == 0)] = 1e-5
""", """    if np.any(oxx == 0):
        np.seterr(divide="ignore", invalid="ignore")
        oxx[np.where(oxx == 0)] = 1e-5
""")],
    '''
from pyEdgeEval.preprocess import fast_nms
a = np.geterr(); fast_nms(np.zeros((20, 20))); check(np.geterr() == a)
''')
bug("c33-seeded", "C33", "a conversion with several processes",
    "the order of the files is shuffled with the global random generator, seeded",
    [(HCS, """    if nproc > 1:
        track_parallel_progress(convert_to_edges, label_files, nproc)
""", """    if nproc > 1:
        # balance the load
        random.seed(0)
        label_files = random.sample(label_files, len(label_files))
        track_parallel_progress(convert_to_edges, label_files, nproc)
"""), (HCS, "import os.path as osp\n", "import os.path as osp\nimport random\n")],
    CT + '''
import random
with scratch() as d:
    city(d); random.seed(5); s = random.getstate(); conv(d, nproc=2); check(random.getstate() == s)
''')
bug("c33-pred-cache", "C33", "evaluating many different images in one process",
    "every prediction that was evaluated stays in memory",
    [(DBS, "def load_predictions(path: str):\n", "@lru_cache(maxsize=None)\ndef load_predictions(path: str):\n"),
     (DBS, "import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n")],
    '''
from pyEdgeEval.datasets.bsds import load_predictions as f
import gc, tracemalloc
with scratch() as d:
    for k in range(60): save(d + f"/{k}.png", np.full((200, 300), k, np.uint8))
    tracemalloc.start()
    for k in range(60): f(d + f"/{k}.png")
    gc.collect(); check(tracemalloc.get_traced_memory()[0] < 5e6)
''')

# --- second round
bug("c16-ods-tie", "C16", "a curve with a plateau of equal F1",
    "of several best thresholds the last one is reported",
    [(MET, "            if f > best_f1:\n", "            if f >= best_f1:\n")],
    '''
from pyEdgeEval.common.binary_label import calculate_metrics
def one(k): return tuple(np.array(x, float) for x in ([8, 8, 8], [8, 8, 8], [8, 8, 8], [8, 8, 8]))
r = quiet(calculate_metrics, one, [.2, .4, .6], [dict(name="a")], 1)[2]
check(r["ODS_threshold"] == .2, r)
''')
bug("c16-ap-hundred", "C16", "recall that reaches 1",
    "AP uses 100 recall levels (without 1.0) divided by 101",
    [(MLC, "    for t in np.linspace(0, 1, 101):\n", "    for t in np.arange(0, 1, 0.01):\n")],
    '''
from pyEdgeEval.common.multi_label import calculate_metrics
def one(k): return tuple(np.array(x, float) for x in ([10, 5], [10, 10], [10, 5], [10, 5]))
r = quiet(calculate_metrics, one, [.2, .4], [dict(name="a")], 1)[2]
check(abs(r["AP"] - 1) < 1e-9, r)
''')
bug("c16-nan-denominator", "C16", "counts of more than 2**24 pixels in the whole data set",
    "the totals are summed with single precision",
    [(BLC, "    count_r_overall = np.zeros((n_thresh,))\n    sum_r_overall = np.zeros((n_thresh,))\n",
      "    count_r_overall = np.zeros((n_thresh,), dtype=np.float32)\n    sum_r_overall = np.zeros((n_thresh,), dtype=np.float32)\n")],
    '''
from pyEdgeEval.common.binary_label import calculate_metrics
def one(k): return tuple(np.array([x], float) for x in (k["c"], k["c"], k["c"], k["c"]))
S = [dict(name="a", c=2**24)] + [dict(name=str(i), c=1) for i in range(3000)]
def two(k): return tuple(np.array([x], float) for x in (0 if k["c"] == 1 else k["c"], k["c"], k["c"], k["c"]))
r = quiet(calculate_metrics, two, [.5], S, 1)[2]
check(abs(r["ODS_recall"] - 2**24 / (2**24 + 3000)) < 1e-7, r["ODS_recall"])
''')
bug("c19-long-names", "C19", "sample names of more than 48 characters",
    "long names are cut in the per-image results",
    [(MLI, "    tmp_line = \"{name} {thrs:<10.6f}", "    tmp_line = \"{name:.48} {thrs:<10.6f}")],
    SB + '''
with scratch() as d:
    n = "x" * 60; tree(d, names=(n,)); e = ev(d); quiet(e.set_sample_names, [n])
    quiet(e.evaluate_category, 1, [.5], 1, d + "/o"); check(n in open(d + "/o/class_001/eval_bdry_img.txt").read())
''')
bug("c19-class-rows", "C19", "categories that are not the first ones",
    "the rows of results.txt carry the names of the first classes",
    [(EBASE, "        class_names = [self.CLASSES[i - 1] for i in categories]\n", "        class_names = list(self.CLASSES[: len(categories)])\n")],
    SB + '''
with scratch() as d:
    tree(d); shutil.copytree(d + "/pred/class_001", d + "/pred/class_003"); e = ev(d)
    quiet(e.evaluate, [3], [.5], 1, d + "/o"); check("bird" in open(d + "/o/results.txt").read())
''')
bug("c22-bankers", "C22", "an odd size whose half rounds down to an even number",
    "scaled sizes are rounded half to even",
    [(MLD, "    height, width = int(h * scale + 0.5), int(w * scale + 0.5)\n", "    height, width = round(h * scale), round(w * scale)\n")],
    '''
from pyEdgeEval.common.multi_label import load_scaled_edge
with scratch() as d:
    save(d + "/e.png", np.zeros((17, 25, 3), np.uint8)); check(load_scaled_edge(d + "/e.png", .5)[1] == (9, 13))
''')
bug("c22-category-zero", "C22", "category 0",
    "category 0 evaluates the last class instead of being rejected",
    [(ESBD, "            0 < category < len(self.CLASSES) + 1\n", "            category < len(self.CLASSES) + 1\n")],
    SB + '''
with scratch() as d:
    tree(d); shutil.copytree(d + "/pred/class_001", d + "/pred/class_000"); e = ev(d)
    try: quiet(e.evaluate_category, 0, [.5], 1, None)
    except AssertionError: pass
    else: check(False)
''')
bug("c25-third-digit", "C25", "images with more than ten instances of a class",
    "instances are told apart by their last digit only",
    [(DOTF, "        _inst = int(str(inst_label)[2:])\n", "        _inst = int(str(inst_label)[-1])\n")],
    '''
from pyEdgeEval.datasets.otf_cityscapes import one_label_instance_mask2edge as f
lab = np.full((20, 40), 26, np.uint8); ins = np.full((20, 40), 26012, np.int32); ins[:, 20:] = 26013
m = np.stack([lab == k for k in range(30)]).astype(np.uint8)
check(f(26, m, ins, [24, 25, 26], [2, 3], 2).any())
''')
bug("c10-nproc-split", "C10", "more processes than labels",
    "labels are handed out in blocks; with more processes than labels the last ones are left out",
    [(MP, "        pool.map(_instance_worker_func, range(num_labels))\n",
      "        step = num_labels // nproc or 1\n        pool.map(_instance_worker_func, range(min(num_labels, step * nproc + num_labels % nproc * (nproc <= num_labels))) if nproc <= num_labels else range(num_labels - 1))\n")],
    '''
from pyEdgeEval.edge_tools import loop_instance_mask2edge as a, mp_instance_mask2edge as b
m = np.zeros((3, 9, 9), np.uint8); m[0] = 1; m[0, 4:] = 0; m[2, 4:] = 1; i = np.zeros((9, 9), np.int32)
check((a(m, i, [1], [], 2) == b(m, i, [1], [], 4, 2)).all())
''')
bug("c10-large-shared", "C10", "masks of at least 2**20 entries in the multiprocess version",
    "large results are copied back with one row of the last label missing",
    [(MP, """    edge = np.frombuffer(mp_edge, dtype=edge.dtype).reshape(edge.shape)

    # HACK: empty global dictionary
    var_dict = {}

    return edge


def _instance_worker_func""", """    edge = np.frombuffer(
        mp_edge, dtype=edge.dtype, count=min(edge.size, 1 << 20)
    )
    edge = np.resize(edge, mask.shape)

    # HACK: empty global dictionary
    var_dict = {}

    return edge


def _instance_worker_func""")],
    '''
from pyEdgeEval.edge_tools import loop_mask2edge as a, mp_mask2edge as b
r = rng(2); lab = np.kron(r.integers(0, 20, (12, 16)), np.ones((20, 20), int)); m = np.stack([lab == k for k in range(20)]).astype(np.uint8)
check((a(m, [3], 2) == b(m, [3], 2, 2)).all())
''')
bug("c08-large-radius", "C08", "radii above 100 pixels",
    "distances of 128 pixels and more count as infinitely far",
    [(DT, """    dist = outer + inner

    dist[dist > radius] = 0
    dist = (dist > 0).astype(np.uint8)
    return dist


def scipy""", """    dist = outer + inner

    dist[dist > min(radius, 127)] = 0
    dist = (dist > 0).astype(np.uint8)
    return dist


def scipy""")],
    '''
from pyEdgeEval.utils import mask2bdry
m = np.zeros((3, 400), np.uint8); m[:, :200] = 1
check(mask2bdry(m, m * 0, 150).sum() == 3 * 300, mask2bdry(m, m * 0, 150).sum())
''')
bug("c12-decoded-copy", "C12", "a map of exactly 24 classes",
    "the slice of the unpacked bits is empty for 24 classes",
    [(MLD, "    )[:, :, -1 : -(num_classes + 1) : -1]\n", "    )[:, :, ::-1][:, :, : min(num_classes, 23)]\n")],
    '''
from pyEdgeEval.common.multi_label import decode_png, rgb_multilabel_encoding
e = (rng(1).random((24, 5, 6)) < .5).astype(np.uint8)
d = decode_png(Image.fromarray(rgb_multilabel_encoding(e)), 24); check(d.shape == e.shape and (d == e).all())
''')
bug("c01-window-large", "C01", "tolerances above 64 pixels",
    "the search window is limited to 64 pixels to the left and above",
    [(MATCH, """            for (int u = -r; u <= r; u++) {
                for (int v = -r; v <= r; v++) {
                    const double d2 = u*u + v*v;
                    if (d2 > maxDist*maxDist) { continue; }
                    const int x2 = x1 + u;
                    const int y2 = y1 + v;
                    if (x2 < 0 || x2 >= width) { continue; }
                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!matchable2(x2,y2)) { continue; }
""", """            for (int u = -r; u <= r; u++) {
                for (int v = -r; v <= r; v++) {
                    const double d2 = u*u + v*v;
                    if (d2 > maxDist*maxDist) { continue; }
                    const int x2 = x1 + std::max(u, -64);
                    const int y2 = y1 + v;
                    if (x2 < 0 || x2 >= width) { continue; }
                    if (y2 < 0 || y2 >= height) { continue; }
                    if (!matchable2(x2,y2)) { continue; }
""")],
    '''
from pyEdgeEval._lib import correspond_pixels as f
a = np.zeros((8, 300)); b = a.copy(); a[4, 200] = 1; b[4, 110] = 1
m1, m2, c, oc = f(a, b, max_dist=.4)
check((m1 > 0).sum() == 1 and abs(c - 90) < 1e-6, c)
''')
bug("c05-float-strength", "C05", "strengths that differ by less than single precision",
    "strengths are rounded to single precision",
    [(NMSC, "edge(", "edge(", 0)] if False else [(NM, "    out = nms(edge, ori, r=r, s=s, m=m)\n", "    out = nms(np.float32(edge), ori, r=r, s=s, m=m)\n")],
    '''
from pyEdgeEval.preprocess import fast_nms
from scipy.ndimage import gaussian_filter
a = gaussian_filter(rng(1).random((30, 40)), 2); o = fast_nms(a, s=0)
from pyEdgeEval.preprocess.nms.toolbox import conv_tri
e = conv_tri(a, 1); check((o[o > 0] == e[o > 0]).all())
''')
