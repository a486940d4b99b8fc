"""line coverage of /repo's Python code over a check's executions (only with VF_COV=directory; see tools/cov.sh)"""
import json
import os
import sys

from vf.framework import REPO

SEEN = {}


def start():
    m = sys.monitoring
    m.use_tool_id(3, "vf")
    root = os.path.realpath(REPO) + "/"

    def line(code, n):
        f = code.co_filename
        if f.startswith(root):
            SEEN.setdefault(f[len(root):], set()).add(n)
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def dump():
    with open(os.path.join(os.environ["VF_COV"], f"{os.getpid()}.json"), "w") as f:
        json.dump({k: sorted(v) for k, v in SEEN.items()}, f)
