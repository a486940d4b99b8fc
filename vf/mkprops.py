#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=["pyEdgeEval/" + f if not f.startswith(("scripts", "setup")) else f for f in files],
                     state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
I, C, S, H, F = "inputs", "configurations", "schedules", "histories", "fault_sequences"

p("C01", "Pixel correspondence is a valid one-to-one matching within the tolerance",
  "For any two equally shaped edge maps, correspond_pixels returns two float maps of the same shape in which every non-zero entry sits on an edge pixel of its own map and holds the 1-based column-major index (x*height + y + 1) of an edge pixel of the other map. The two maps are mutual inverses, so no pixel is ever used twice and both match the same number of pixels. Every matched pair is at most max_dist times the image diagonal apart (inclusive), and a pixel with no partner within that distance stays 0.",
  [I, C], "every image size and aspect ratio, every density and arrangement of edge pixels, every tolerance, every non-zero pixel value/dtype/memory layout, every seed of the internal random generator",
  "test_bsds500 looks at eight aggregate numbers of five images with a tolerance of 1e-2; a duplicated, out-of-range or out-of-tolerance match changes none of them visibly.",
  ["_lib/correspond_pixels.pyx", "_lib/src/match.cc", "_lib/include/csa.hh", "_lib/src/kofn.cc"],
  [("assignment problem over pixels within the tolerance", "pyEdgeEval/_lib/src/match.cc:matchEdgeMaps"), ("column-major index of the partner", "pyEdgeEval/_lib/src/match.cc")],
  ["return value of correspond_pixels"])
p("C02", "Pixel correspondence is optimal and reports its true cost",
  "The number of matched pixels never exceeds, and when at most six pixels of each map can be matched and outlier_cost is at least 10 equals, the maximum possible one-to-one matching within the tolerance; among those maximum matchings the total distance is then minimal (up to rounding each distance to 0.01), and for larger maps, with the default outlier cost, the matching stays within 3% (plus two pixels) of the maximum. The reported outlier cost equals outlier_cost * max_dist * diagonal, and the reported cost equals the sum of the matched distances plus that outlier cost for every unmatched edge pixel of either map.",
  [I, C], "every pair of edge maps, tolerance and outlier cost, and every seed of the internal random generator (it is seeded from the clock)",
  "Optimality needs an independent assignment solver on many inputs; the tests compare only final scores with a tolerance that hides a 1% loss of matches.",
  ["_lib/correspond_pixels.pyx", "_lib/src/match.cc", "_lib/include/csa.hh", "_lib/src/kofn.cc", "_lib/src/Random.cc"],
  [("outlier graph + CSA min-cost assignment", "pyEdgeEval/_lib/src/match.cc"), ("cost accumulation", "pyEdgeEval/_lib/src/match.cc")])
p("C03", "Native matching and NMS code is free of memory errors and undefined behaviour",
  "For every valid input, including images one pixel wide or high, empty, full, sparse or very elongated ones, the native correspondence and non-maximum-suppression code never reads or writes outside its buffers, reads uninitialised memory, executes undefined behaviour, trips an internal assertion or leaks memory, and it always terminates.",
  [I, H], "every shape, edge density, tolerance, radius and long sequences of calls in one process",
  "The release build has assertions off and no sanitizer; a silent out-of-bounds read or leak passes every test.",
  ["_lib/src/match.cc", "_lib/src/benms.cc", "_lib/src/kofn.cc", "_lib/src/Random.cc", "_lib/src/Matrix.cc", "_lib/include/Array.hh", "_lib/include/csa.hh", "_lib/correspond_pixels.pyx", "_lib/nms.pyx"],
  [("bounds handled by hand in the C++ port", "pyEdgeEval/_lib/src"), ("interpolation clamps", "pyEdgeEval/_lib/src/benms.cc")])
p("C04", "Core functions leave inputs untouched, ignore layout and reject bad calls",
  "correspond_pixels, nms, fast_nms, both thinning functions, the boundary-evaluation functions and the mask-to-edge functions never modify their array arguments, and their result does not depend on the memory layout (C, Fortran, strided view, read-only) of the arguments or, for binary maps, on the dtype (bool, integer, float). correspond_pixels raises ValueError for differently shaped maps, max_dist <= 0 or outlier_cost <= 1, and nms raises ValueError for differently shaped maps.",
  [I, C, H], "every layout, dtype and call sequence; every invalid parameter value",
  "The tests only pass freshly loaded C-contiguous arrays and never look at them again.",
  ["_lib/correspond_pixels.pyx", "_lib/nms.pyx", "preprocess/nms/fast_nms.py", "preprocess/thin/thin.py", "preprocess/thin/bwmorph_thin.py", "common/binary_label/evaluate_boundaries.py", "common/multi_label/evaluate_boundaries.py", "edge_tools/mask2edge_loop.py"],
  [("Fortran-ordered copies", "pyEdgeEval/_lib/*.pyx"), ("argument checks", "pyEdgeEval/_lib/correspond_pixels.pyx")])
p("C05", "Non-maximum suppression follows its definition",
  "nms keeps a pixel's exact strength, except that it is set to 0 when m times the strength is below the bilinearly interpolated (border-clamped) strength at any of the offsets -r..r (0 excluded) along the given orientation, and strengths within s pixels of each image border (s limited to half the size) are scaled by distance/s for each border they are near. fast_nms equals this nms applied to the triangle-smoothed image with the orientation of the smoothed image's second derivatives; its result has the input's shape, accepts uint8 (as value/255) and float images, and as uint8 is the rounded 255-fold clipped value. The triangle filter itself is, for every radius above 0 (fractional below 1 included) and every step, the separable normalised filter of MATLAB's convTri with mirrored borders, and the gradients are MATLAB's.",
  [I, C], "every image, orientation field, radius, border width and multiplier",
  "No test calls nms or fast_nms.",
  ["_lib/nms.pyx", "_lib/src/benms.cc", "preprocess/nms/fast_nms.py", "preprocess/nms/toolbox.py"],
  [("benms", "pyEdgeEval/_lib/src/benms.cc"), ("conv_tri / grad2 / orientation", "pyEdgeEval/preprocess/nms")])
p("C06", "Thinning is a topology-preserving fixpoint of Guo-Hall thinning",
  "binary_thin returns a bool mask that is a subset of the (non-zero) input, equal to the Guo-Hall two-subiteration parallel thinning run until a full iteration changes nothing, hence idempotent. It keeps exactly the 8-connected components of the input (each keeps at least one pixel, none is split or joined) and never opens or closes a hole. With an iteration limit k the result is that of exactly k full iterations (or the fixpoint if it is reached earlier). The 3x3 neighbourhood tables it is built from act on any image as documented.",
  [I, C], "every binary image of every size, including pixels on the border, and every iteration limit",
  "Thinning is only exercised on five natural predictions through aggregate scores.",
  ["preprocess/thin/thin.py"],
  [("Guo-Hall lookup tables", "pyEdgeEval/preprocess/thin/thin.py"), ("fixpoint loop", "pyEdgeEval/preprocess/thin/thin.py:binary_thin")])
p("C07", "The two thinning implementations agree",
  "bwmorph_thin and binary_thin return the same mask for every binary image, and for every iteration limit k >= 1 they agree after k iterations. bwmorph_thin raises ValueError for images that are not two-dimensional, contain values other than 0 and 1, or for n_iter <= 0.",
  [I, C], "every binary image, dtype and iteration limit", "bwmorph_thin is never called by a test.",
  ["preprocess/thin/bwmorph_thin.py", "preprocess/thin/thin.py"],
  [("lookup tables written out by hand vs generated", "pyEdgeEval/preprocess/thin")])
p("C08", "Masks become boundaries by the distance definition",
  "For a binary mask and no ignored pixels, mask2bdry marks exactly the pixels inside the mask within radius of a pixel outside it and the pixels outside the mask within radius of a pixel inside it (Euclidean, inclusive), as uint8 0/1; with internal_only it marks only the inside ones. A mask covering the whole image has no boundary, and the cv2 (precise) and scipy back ends return identical maps.",
  [I, C], "every mask shape and content, radius, and back end", "No test calls the edge tools.",
  ["utils/distance_transforms.py"], [("inner + outer distance transforms", "pyEdgeEval/utils/distance_transforms.py")])
p("C09", "Ignored regions create no boundaries",
  "When some labels are ignored, their own edge maps are all zero and the edges of another label are measured as if the ignored pixels belonged to that label from the inside: an inside pixel is an edge only if a pixel that is neither in the mask nor ignored lies within radius, and an ignored outside pixel only if its distance to the mask plus its distance to the nearest pixel that is neither in the mask nor ignored is within radius; with internal_only only inside pixels are edges. A label absent from the image has an all-zero edge map, and the edge maps of different labels do not influence each other.",
  [I, C], "every label map, set of ignored labels and radius, with and without thinning and internal_only, both back ends, the loop, multiprocess and single-label implementations", "No test calls the edge tools.",
  ["utils/distance_transforms.py", "edge_tools/mask2edge_loop.py", "edge_tools/mask2edge_mp.py"], [("ignore mask added to the inner distance transform", "pyEdgeEval/utils/distance_transforms.py")])
p("C10", "Instance-sensitive edges add every instance's boundary, in loop and mp mode",
  "Instance-sensitive edges of a label are the union of the label's semantic edges and the boundaries of each of its instances (ids label*1000 + k), so they contain the instance-insensitive ones and ignore instances of other labels, of ignored labels and plain (non-instance) ids. The multiprocess implementations return exactly the loop implementations' result for every number of processes.",
  [I, C, S], "every label and instance map, instance numbering, set of instance labels, radius and process count", "No test calls the edge tools.",
  ["edge_tools/mask2edge_loop.py", "edge_tools/mask2edge_mp.py", "edge_tools/transforms.py"], [("instance lookup by decimal id", "pyEdgeEval/edge_tools"), ("shared-memory pool", "pyEdgeEval/edge_tools/mask2edge_mp.py")])
p("C11", "Mask2Edge transforms equal the functional pipeline and are reusable",
  "Mask2Edge and InstanceMask2Edge return, for any label map, the edges of the one-hot map of their label ids in order, and with a label-to-train-id mapping both the edges and the mask reindexed by train id (other pixels 255). A transform object gives the same answer on every call, whatever it was called with before, and leaves its inputs unchanged.",
  [I, C, H], "every label map, label list, mapping, radius, and sequence of calls on one object", "No test calls the edge tools.",
  ["edge_tools/transforms.py", "utils/convert_formats.py"], [("composition of mask2onehot, mask2edge and the train-id mappings", "pyEdgeEval/edge_tools/transforms.py")])
p("C12", "Multi-label edge encodings round-trip without loss",
  "Encoding up to 24 binary edge maps as an RGB image and decoding it returns the same maps, directly and through a PNG file; encoding up to 32 as 32-bit integers and decoding returns the same maps, directly and through TIFF and raw binary files. Class k occupies bit k%8 of the blue, green, red channel for k in 0-7, 8-15, 16-23 (bit k of the integer), whatever the edge dtype; more than 24 classes are rejected by the RGB encoding.",
  [I, C], "every number of classes, combination of overlapping classes per pixel, image size and edge dtype", "No test encodes or decodes edges in isolation.",
  ["common/multi_label/edge_encoding.py", "common/multi_label/edge_decoding.py", "utils/convert_formats.py"], [("bit packing", "pyEdgeEval/common/multi_label/edge_encoding.py"), ("unpackbits", "pyEdgeEval/common/multi_label/edge_decoding.py")])
p("C13", "Label conversions map every pixel by its own label",
  "Converting a label map to one-hot gives, for each requested label in order, exactly the pixels with that label; converting labels to train ids gives every mapped pixel its train id and every other pixel 255 (also for 3-d single-channel maps); converting edges by label to edges by train id moves each label's map to its train id's slot and drops unmapped labels. Collapsing multi-label edges marks exactly the pixels with at least one class, however many classes overlap.",
  [I, C], "every label map, label list (any order, any ids), mapping and image size", "No test calls the conversions in isolation.",
  ["utils/convert_formats.py"], [("per-label masks", "pyEdgeEval/utils/convert_formats.py")])
p("C14", "Per-threshold counts are the precision and recall counts of the definition",
  "At each threshold the predicted edges are the pixels with strength >= threshold (thinned if requested, after NMS if requested); sum_p is their number, sum_r the number of GT edge pixels, and count_r and count_p the numbers of GT and predicted pixels matched by the correspondence, with count_r = count_p for one GT. With several annotators sum_r and count_r add up over them and a predicted pixel counts once if any annotator matches it; with an empty GT every predicted pixel stays a false positive, unless skipping nonexistent classes was requested, when all four are 0.",
  [I, C], "every prediction, GT (empty, full, several annotators), threshold list in any order, tolerance and combination of options", "The test compares aggregates on five images at five thresholds with 1e-2.",
  ["common/binary_label/evaluate_boundaries.py", "common/multi_label/evaluate_boundaries.py"], [("threshold loop", "pyEdgeEval/common/*/evaluate_boundaries.py")])
p("C15", "Internal predictions are removed exactly where the protocol says",
  "With kill_internal, exactly the predicted pixels that lie inside the evaluated category's segment and farther than max_dist times the diagonal from every GT edge pixel are dropped before matching, after thresholding and thinning; all others are kept. It applies only when the GT has at least one edge pixel, and for each dataset the segment is that of the evaluated category.",
  [I, C], "every prediction, GT, segmentation, category and tolerance", "kill_internal needs the SBD data, which the test tree does not have.",
  ["common/multi_label/options.py", "common/multi_label/evaluate_boundaries.py", "datasets/sbd.py", "datasets/cityscapes.py", "datasets/otf_cityscapes.py"], [("distance transform of the GT", "pyEdgeEval/common/multi_label/options.py")])
p("C16", "Aggregate metrics are the benchmark's ODS, OIS, AUC and AP of the counts",
  "Given per-image counts, dataset precision and recall at each threshold come from the counts summed over images (0/0 = 0); ODS is the best F1 over the curve linearly interpolated in 100 steps between consecutive thresholds, OIS comes from summing the counts of each image at its own best-F1 threshold (the first on ties), AUC is 0.01 times the sum of the interpolated precision at recall 0, 0.01 ... 0.99 (0 outside the curve or with a single recall value), and AP is the mean over the 101 recall levels 0, 0.01 ... 1 of the best precision at that recall or more. All are finite and within [0, 1], ODS F1 is at least every threshold's F1, and the binary and multi-label implementations agree.",
  [I, C], "every table of counts (zeros, ties, single image, single threshold, unsorted thresholds) and every number of images", "The tests see one table of counts, within 1e-2.",
  ["common/binary_label/calculate_metrics.py", "common/multi_label/calculate_metrics.py", "common/metrics.py"], [("accumulation over samples", "pyEdgeEval/common/*/calculate_metrics.py"), ("interpolated_max_scores", "pyEdgeEval/common/metrics.py")])
p("C17", "Threshold specifications mean the same everywhere",
  "An integer n means the n equally spaced thresholds i/(n+1), a float that single threshold, a list or one-dimensional array exactly its values in order; anything else (other types, more dimensions) is rejected with ValueError. A list and the equal array give the same evaluation, and evaluating a list of thresholds gives at each threshold the counts of evaluating it alone.",
  [I, C], "every threshold specification", "The tests only use the integer 5.",
  ["common/utils.py", "common/binary_label/evaluate_boundaries.py", "common/multi_label/evaluate_boundaries.py"], [("check_thresholds", "pyEdgeEval/common/utils.py")])
p("C18", "Parallel execution is exactly-once and order-preserving, like the serial loop",
  "For any list of tasks and any number of processes, chunk size and skip_first setting, every task is executed exactly once and the results are those of the serial loop: in task order when order is kept, the same multiset otherwise, with or without a progress bar, and whatever order workers finish in. An exception raised by a task reaches the caller instead of being dropped, and per-image results of an evaluation stay attached to their own image for every process count.",
  [S, I, F, C], "every schedule of the worker processes, task durations, failing tasks, process counts above and below the number of tasks", "The test runs one list with 1 and 8 processes and compares aggregates.",
  ["utils/progressbar.py", "common/binary_label/calculate_metrics.py", "common/multi_label/calculate_metrics.py"], [("Pool.imap / imap_unordered", "pyEdgeEval/utils/progressbar.py:track_parallel_progress")])
p("C19", "Result files say what was computed",
  "The saved per-image file has one line per image, in evaluation order, with its name, best threshold, recall, precision and F1; the per-threshold file one line per threshold with threshold, recall, precision and F1; the overall file ODS threshold, recall, precision, F1, OIS recall, precision, F1, AUC and AP: all equal to the returned values to six decimals. Multi-label results go to class_XXX per category, the overall file holds the mean over categories, and the summary table lists each category under its own name with its own scores; saving again replaces the old files.",
  [I, C, H], "every result table, number of categories and sequence of saves", "The tests run with save_dir=None or never read the files.",
  ["common/binary_label/io.py", "common/multi_label/io.py", "evaluators/base.py", "evaluators/bsds.py", "evaluators/sbd.py", "evaluators/cityscapes.py"], [("save_results / save_category_results", "pyEdgeEval/common/*/io.py"), ("summary over categories", "pyEdgeEval/evaluators/base.py")])
p("C20", "PR-curve plots show the saved results",
  "For any set of algorithms whose result files were written by the evaluation, plotting succeeds and draws for each algorithm the curve of its saved (recall, precision) rows with recall of at least 1e-3 under its own name, colour and ODS F1, with the legend ordered by decreasing ODS F1, over labelled axes from 0 to 1 with contours of equal F1, and writes the requested figure; for each algorithm it prints the saved ODS and OIS F1 and the recall interpolated at 50% precision (or the lowest precision above that).",
  [I, C], "every number of algorithms, curve lengths and score orders", "Nothing calls the plots.",
  ["visualization/pr_curve.py", "common/binary_label/visualize.py"], [("plot_pr_curve", "pyEdgeEval/visualization/pr_curve.py")])
p("C21", "Evaluation protocols select their documented parameters",
  "Pre-SEAL always means max_dist 0.02, kill_internal, skipping nonexistent classes and instance-insensitive GT (Cityscapes rejects it with instance-sensitive); post-SEAL means the given max_dist and, instance-sensitive, neither kill_internal nor skipping, otherwise both; without a mode exactly the given values are used, and the re-annotated SBD evaluator always uses neither. Scale outside (0, 1] is rejected where it can be set, the half-resolution evaluator always evaluates at scale 1, and parameters set later fully replace the earlier ones.",
  [C, H], "every combination of mode, instance sensitivity, thinning and values, for every evaluator, and every sequence of calls", "The runnable test only uses BSDS500 defaults.",
  ["evaluators/sbd.py", "evaluators/cityscapes.py", "evaluators/half_cityscapes.py", "evaluators/otf_cityscapes.py", "evaluators/bsds.py"], [("set_eval_params / eval_params", "pyEdgeEval/evaluators")])
p("C22", "Each evaluator scores the right prediction against the right ground truth",
  "For every evaluator, category, protocol (raw/thin, instance-sensitive or not, full or half resolution) and image, the scores are those of that category's class of that image's matching GT file against the prediction file of the same image in that category's class_XXX directory, using exactly the selected parameters (scale by nearest neighbour, 5-pixel border of SBD predictions cleared). A missing GT file or an out-of-range category is reported, not skipped.",
  [I, C], "every dataset layout, category, evaluator and parameter combination", "test_sbd cannot run without the dataset; the Cityscapes evaluators have no test.",
  ["evaluators/sbd.py", "evaluators/cityscapes.py", "evaluators/half_cityscapes.py", "datasets/sbd.py", "datasets/cityscapes.py"], [("suffix and directory selection", "pyEdgeEval/evaluators"), ("class selection", "pyEdgeEval/datasets")])
p("C23", "SBD conversion writes the dataset's semantic and instance boundaries",
  "Converting an SBD annotation gives, per class 1-20, the boundaries of that class's segmentation with a 5-pixel ignored frame (label 21), without and with every instance of the class's boundaries, raw or thinned, and saves them RGB-encoded with the framed segmentation, its train ids and the instance ids under the sample's name. Both .mat loaders return the same boundaries, segmentation and categories, also for annotations with a single class or instance, and the re-annotated conversion stores exactly the annotated boundaries.",
  [I, C], "every segmentation, number of classes and instances, image size and radius", "Nothing calls the conversion.",
  ["helpers/convert_sbd.py", "common/multi_label/utils.py", "utils/mat_utils.py", "scripts/convert_datasets/sbd.py"], [("convert_mat2np / routine / reanno_routine", "pyEdgeEval/helpers/convert_sbd.py")])
p("C24", "Cityscapes conversion writes every split's edges in the documented files",
  "Converting a Cityscapes tree writes, for every annotated image and only under the output directory and the splits directory, the train edges (radius 2), the full- and half-resolution raw (radius 2) and thin (radius 1, thinned) validation edges under their documented names, encoded by train id in the requested format (png, tif, bin), and the split lists with every image exactly once. Half-resolution raw edges are the nearest-neighbour downscaled full edges, thin ones are computed from the downscaled labels, and the result does not depend on the number of processes.",
  [I, C, S], "every label and instance map, tree layout, format, option and process count", "Nothing calls the conversion.",
  ["helpers/convert_cityscapes.py", "scripts/convert_datasets/cityscapes.py", "datasets/cityscapes_attributes.py"], [("convert_label_to_semantic_edges", "pyEdgeEval/helpers/convert_cityscapes.py")])
p("C25", "On-the-fly Cityscapes evaluation equals evaluating converted ground truth",
  "At scale 1 in raw mode, evaluating Cityscapes on the fly from label and instance maps gives the same GT edge pixels, and hence the same scores, as converting the dataset first and evaluating the converted files, for every category and instance sensitivity; at a smaller scale the GT is that of the nearest-neighbour downscaled label and instance maps. Predictions of another size are resized to that of the GT by nearest neighbour.",
  [I, C], "every label and instance map, category, scale and option", "Nothing calls the on-the-fly evaluator.",
  ["datasets/otf_cityscapes.py", "evaluators/otf_cityscapes.py", "helpers/convert_cityscapes.py"], [("one_label_mask2edge / one_label_instance_mask2edge", "pyEdgeEval/datasets/otf_cityscapes.py")])
p("C26", "Command-line evaluation equals the API with the same options",
  "The evaluation scripts and helper entry points evaluate exactly the requested categories (one, a bracketed list, or all by default), thresholds (count or bracketed list), tolerance, prediction suffix, split, raw/thin mode, NMS, protocol and instance sensitivity, and write to the output path the same results as the evaluator called directly with those options. Malformed category or threshold strings produce no results, and categories outside the dataset's range are rejected.",
  [C, I], "every combination of command-line options and every spelling of the lists", "No test runs the scripts.",
  ["helpers/evaluate_bsds500.py", "helpers/evaluate_cityscapes.py", "helpers/evaluate_sbd.py", "scripts/evaluate/bsds500.py", "scripts/evaluate/sbd.py", "scripts/evaluate/cityscapes_raw.py", "scripts/evaluate/cityscapes_thin.py"], [("evaluate()", "pyEdgeEval/helpers")])
p("C27", "Directory scans and sample lists contain every matching file exactly once",
  "Scanning a directory yields exactly the visible regular files (recursively if asked, through links) whose relative path ends with one of the suffixes (case-sensitive unless disabled), each once and relative to the scanned directory, and rejects wrong argument types. Sample names come from the given list, the given file or the split's default location, in that order of preference; BSDS samples are all .mat files of the split; an empty list is rejected, and changing a returned list never changes the evaluator. The path helpers make directories with their parents and leave existing ones alone, report a missing file, and replace what is at a link's place only if allowed to.",
  [I, C, H], "every directory tree, suffix and option; every split file", "Nothing tests the scans or the sample lists.",
  ["utils/path.py", "evaluators/base.py", "evaluators/bsds.py", "evaluators/sbd.py", "evaluators/cityscapes.py"], [("scandir", "pyEdgeEval/utils/path.py"), ("set_sample_names", "pyEdgeEval/evaluators")])
p("C28", "BSDS500 evaluation scores every image against all of its annotators",
  "Evaluating a BSDS500 tree scores each image's 8-bit prediction (strength = value/255) against every annotator's boundary map in its .mat file at every threshold, and the returned and saved metrics are those of these counts for every image of the split, with predictions found under the split directory or, if requested, directly in the prediction root. Missing prediction or GT files and predictions that are not 8-bit are reported, not skipped.",
  [I, C], "every number of annotators, image size, prediction and option", "One data set with five images is compared within 1e-2.",
  ["datasets/bsds.py", "evaluators/bsds.py", "common/binary_label/evaluate_boundaries.py"], [("load_bsds_gt_boundaries / load_predictions", "pyEdgeEval/datasets/bsds.py")])
K = "crash_points"
p("C29", "Progress bars, timers and logs report what happened",
  "With a bar, tracking N tasks writes the counts 0/N to N/N once each in order, none before that many results exist, the bar full exactly at N, with the true elapsed time, rate and remaining time and one final newline (tasks left out by skip_first are not counted), and nothing at all without a bar. A timer reports the time since its start or its last check of either kind, rejects readings while not running, and prints its template when its block ends. A logger writes each message of at least its level exactly once to the console and once to its log file (appended or overwritten as asked), however often it is requested and also from child loggers.",
  [I, C, H], "every number and duration of tasks, terminal width and option; every sequence of timer calls; every sequence of logger requests and messages",
  "Nothing tests progress, timers or loggers.",
  ["utils/progressbar.py", "utils/timer.py", "utils/logger.py"], [("ProgressBar.update", "pyEdgeEval/utils/progressbar.py"), ("Timer", "pyEdgeEval/utils/timer.py"), ("get_logger / print_log", "pyEdgeEval/utils/logger.py")])
p("C30", "Results do not depend on what was called before",
  "The scores of an evaluation depend only on the files, the sample names and the parameters in force, not on earlier evaluations, other evaluators, failures or process counts, and evaluating leaves the evaluator's parameters, categories and sample names, the caller's thresholds and lists and the working directory unchanged. The deterministic functions (thinning, NMS, edges, transforms, conversions) return the same result for the same arguments at any point of a process's life, even after the caller wrote on earlier results.",
  [H, I], "every sequence of calls of the library in one process", "Each test makes one call in a fresh process.",
  ["evaluators/base.py", "utils/distance_transforms.py", "edge_tools/transforms.py", "preprocess/thin/thin.py", "common/binary_label/calculate_metrics.py", "common/multi_label/calculate_metrics.py"], [("evaluator attributes", "pyEdgeEval/evaluators/base.py"), ("distance transforms", "pyEdgeEval/utils/distance_transforms.py")])
p("C31", "Conversions and evaluations can be rerun over whatever is there",
  "Running a conversion or an evaluation again over complete, truncated, stale, foreign or missing outputs, after a run killed at any point, or while another conversion writes other outputs of the same tree, gives the same files as a fresh run. Damaged inputs are reported, and after repairing them a rerun gives the files of a fresh run.",
  [H, K, "fault_sequences", S], "every state of the output directories and every point at which an earlier run was killed", "Nothing calls the conversions; no test evaluates into a used directory.",
  ["helpers/convert_cityscapes.py", "helpers/convert_sbd.py", "common/binary_label/io.py", "common/multi_label/io.py"], [("saving of outputs", "pyEdgeEval/helpers"), ("save_results", "pyEdgeEval/common")])
p("C32", "Batch NMS writes every prediction's suppressed map once under its own name",
  "The batch NMS helpers write, for every prediction image (or .mat / .npy map) of the given directory and for no other file, the fast_nms map (r=1, s=5, m=1.01) of that prediction as an 8-bit PNG named after the prediction's whole stem, in each model's own directory. Existing outputs are left untouched, and wrong calls are rejected.",
  [I, C], "every directory content, file name, format and image size", "Nothing calls the helpers.",
  ["preprocess/nms/fast_nms.py"], [("nms_process_one_image / nms_results", "pyEdgeEval/preprocess/nms/fast_nms.py")])
p("C33", "Calls leave nothing behind",
  "When a tracking, edge, evaluation or conversion call returns, raises or is interrupted, no worker process or thread of it is left and no file is left open. Repeated calls do not accumulate memory, and the working directory, environment, random state, warning filters, signal handlers and numpy's error state are as before.",
  [H, S, "fault_sequences"], "every outcome (result, exception, interruption), number of processes and number of repetitions", "The test process ends before leftovers show.",
  ["utils/progressbar.py", "evaluators/base.py", "helpers/convert_cityscapes.py", "edge_tools/mask2edge_mp.py"], [("worker pools", "pyEdgeEval/utils/progressbar.py"), ("opening and saving of files", "pyEdgeEval/helpers")])
p("C34", "Calls made at the same time by several threads do not disturb each other",
  "Threads of one process that match edge maps, thin, suppress, compute or encode edges, convert labels, use one shared Mask2Edge object, aggregate metrics, evaluate (with different evaluators, or different categories of one) in one process, save results or convert samples into different files, or track progress on different streams, at the same time get the results, scores and files that the same calls give one after the other, without errors. Calls that start worker processes are left out.",
  [S, H], "every interleaving of calls of the library by the threads of a process", "Tests run one call at a time.",
  ["common/multi_label/calculate_metrics.py", "common/binary_label/calculate_metrics.py", "evaluators/cityscapes.py", "evaluators/sbd.py", "edge_tools/transforms.py", "preprocess/thin/thin.py", "utils/distance_transforms.py", "common/multi_label/io.py", "_lib/correspond_pixels.pyx"],
  [("state on evaluators and transforms", "pyEdgeEval/evaluators, pyEdgeEval/edge_tools/transforms.py"), ("saving of files", "pyEdgeEval/helpers, pyEdgeEval/common")])
p("C35", "Predictions made from the ground truth get the scores they deserve",
  "When ground truth is converted by this tool (SBD, re-annotated SBD, Cityscapes at full and half resolution), made on the fly, or given (BSDS500, equal annotators), a prediction equal to a category's ground-truth edges scores precision, recall and F1 of 1; one that keeps a fraction of them keeps precision 1 and has that fraction as its recall; one with graded strengths scores at each threshold as its part at or above it; pixels out of reach of every edge lower precision by their share (unless the protocol removes them as internal); one shifted within the tolerance loses nothing; an empty one scores 0. This holds at every threshold, for images up to the datasets' sizes, with the benchmark's approximate matching missing at most 3% (and two pixels per image), and the returned and saved numbers are those of the matchings.",
  [H, S], "every annotation, category, protocol, threshold and prediction", "Tests compare two images' numbers with a stored result.",
  ["evaluators/sbd.py", "evaluators/cityscapes.py", "evaluators/half_cityscapes.py", "evaluators/otf_cityscapes.py", "evaluators/bsds.py", "datasets/*.py", "helpers/convert_sbd.py", "helpers/convert_cityscapes.py", "common/*/evaluate_boundaries.py", "_lib/src/match.cc"],
  [("conversion to evaluation", "pyEdgeEval/helpers, pyEdgeEval/evaluators, pyEdgeEval/datasets"), ("matching", "pyEdgeEval/_lib")])
p("C36", "Converted Cityscapes edges are compared faithfully with a reference tree",
  "In test mode the Cityscapes conversion compares every reference edge file (gtProc, train and val) with the converted file of the same scene and split (non-instance-sensitive edges; the raw ones for val), whatever the dataset root is called, serially or in parallel, for png and tif edges: it reports, per split, exactly how many files differ in any value, and names every file with more than three differing values together with their number; it changes no file, ignores other files, and refuses the instance-sensitive comparison.",
  [H, S], "every pair of trees, root, file format, number of processes and set of differing values",
  "No test runs the comparison.",
  ["helpers/convert_cityscapes.py", "scripts/convert_datasets/cityscapes.py"],
  [("comparison of edge trees", "pyEdgeEval/helpers/convert_cityscapes.py:test_edges, test_against_matlab")])
p("C37", "The bundled MATLAB benchmark results are reproduced",
  "For the images, ground truth and MATLAB results shipped with the repository (BSDS500's boundary benchmark and SBD's single-category benchmark), evaluation yields MATLAB's recall, precision and F1 for every threshold, MATLAB's best threshold and scores for every image, and MATLAB's ODS, OIS, AUC, within the differences the matching's random seed explains (about 0.001 of unaltered images; SBD with its images padded by the frame the evaluators ignore). This holds for every subset of the images and of the thresholds, every order of images and annotators, every number of processes, and, within about 0.01, for the mirrored, rotated or transposed images.",
  [H, S], "every subset and order of images, annotators and thresholds, number of processes and orientation",
  "The stable test compares BSDS500's eight overall numbers to 0.01 with all images and thresholds; the SBD test does not run.",
  ["evaluators/bsds.py", "evaluators/sbd.py", "datasets/bsds.py", "datasets/sbd.py", "common/*/evaluate_boundaries.py", "common/*/calculate_metrics.py", "common/metrics.py", "preprocess/thin/thin.py", "_lib/src/match.cc"],
  [("evaluation to metrics", "pyEdgeEval/evaluators, pyEdgeEval/common"), ("matching and thinning", "pyEdgeEval/_lib, pyEdgeEval/preprocess/thin")])
p("C38", "Class numbers and names are the datasets' own, from annotation to score table",
  "An object annotated under one of the datasets' class names (the 19 evaluated Cityscapes labels, given by name in the polygons; the 20 PASCAL VOC classes of the SBD, by number) gives edges of that class only, with borders between its instances exactly if the class has instances, and its scores appear in the row of that name and no other, from converted ground truth as well as on the fly; objects of other labels give no edges. The published tables (label ids, train ids, names, labels with instances, evaluators' class names) are those of the datasets, and the VOC colour map gives every number the devkit's colour, as bytes or normalized.",
  [I, C], "every set, order and placement of named objects; every size of colour map", "No test names a class.",
  ["datasets/cityscapes_attributes.py", "datasets/sbd_attributes.py", "evaluators/cityscapes.py", "evaluators/sbd.py", "evaluators/base.py", "helpers/convert_cityscapes.py", "helpers/convert_sbd.py", "scripts/other/pascal_voc_colormap.py"],
  [("class tables", "pyEdgeEval/datasets/cityscapes_attributes.py, sbd_attributes.py"), ("CLASSES", "pyEdgeEval/evaluators")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
