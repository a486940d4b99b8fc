#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitor of every returned matching (validity invariants) under generated edge maps",
    "C02": "differential oracle (independent exact assignment / maximum matching) over executions of the native matcher",
    "C03": "ASan+UBSan build of the native code under stress workloads, valgrind memcheck, CPU-time watchdog",
    "C04": "monitor of argument snapshots and metamorphic layout/dtype executions",
    "C05": "reference-model monitor of NMS outputs",
    "C06": "reference-model and topology monitor of thinning outputs",
    "C07": "differential monitor of the two thinning implementations",
    "C08": "reference-model monitor (brute-force distances), differential back ends",
    "C09": "reference-model monitor of per-label edges with ignored regions",
    "C10": "reference-model monitor; loop against multiprocess runs",
    "C11": "metamorphic monitor over histories of transform calls",
    "C12": "round-trip monitor with independent bit decoding, in memory and through files",
    "C13": "reference-model monitor of label conversions",
    "C14": "reference counts on determined inputs; observed native matchings on larger ones",
    "C15": "probe at the native matching call: every predicted pixel compared with the removal rule",
    "C16": "independent recomputation of all metrics from recorded counts",
    "C17": "monitor of resolved thresholds; metamorphic evaluations",
    "C18": "event logs of tasks checked offline for exactly-once and order under injected delays and failures",
    "C19": "offline checker of the written result files against recomputed and returned metrics",
    "C20": "monitor of the drawn figure (curves, legend, file) against the saved results",
    "C21": "monitor of the effective parameters over sequences of settings; probe at the native matching call",
    "C22": "end-to-end score oracle on generated dataset trees; probe at the native matching call",
    "C23": "file-level oracle over generated SBD annotations; differential loaders",
    "C24": "file-level oracle and write monitor over generated Cityscapes trees",
    "C25": "differential monitor: on-the-fly against converted ground truth at the native call",
    "C26": "differential monitor: scripts and helpers against the API and the score oracle",
    "C27": "model-based monitor of scans and sample lists over generated directory trees",
    "C28": "end-to-end score oracle on generated BSDS trees; probe at the native matching call",
    "C29": "time-stamped recording of everything written to bars, consoles and log files, checked offline against event logs of the tasks",
    "C30": "differential monitor: the same call at different points of generated histories, snapshots of the caller's state",
    "C31": "fault injection (killed runs, damaged and foreign files) with byte-level comparison against fresh runs",
    "C32": "file-level oracle over generated prediction directories",
    "C33": "monitor of processes, threads, descriptors, memory and ambient state around calls with every outcome",
    "C34": "concurrent threads with injected pauses at random lines of the library; every result judged by the oracles or the sequential result",
    "C35": "end-to-end monitor: converted datasets with predictions of known scores, bounded per threshold and recomputed from the recorded matchings",
    "C36": "offline report checker: the comparison's printed report against the differences of the generated trees",
    "C37": "reference-result monitor: per-threshold, per-image and overall scores against the bundled MATLAB results",
    "C38": "end-to-end monitor: named objects through official label drawing, conversion and evaluation to the named row; tables against cityscapesscripts and VOC",
}
NOTE = {
    "C03": "sanitizer-clean on everything executed; leaks and uninitialised reads by valgrind on a native driver; trusts the sanitizers",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(V, "vf", "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="its check is not built yet"))
        continue
    checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid}", thorough_cmd=f"./check.sh {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=TECH[pid], level="exploration",
                       level_note=NOTE.get(pid, "held on every execution observed; executions are generated from VERIF_SEED, the oracle is "
                                                "independent of the code under test (vf/refs.py, vf/trees.py)")))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks in /repo: the checks build /repo's native code themselves and wrap the native entry "
                                         "points at import time (vf/native.py, vf/probe.py)", source_commits=[]),
         checks=checks, not_applicable=na, notes="./check.sh ID [--tier quick|thorough] [--seed N] [--replay FILE]; see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
