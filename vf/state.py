"""Snapshots of process-wide state, to see what a call leaves behind."""
import decimal
import gc
import locale
import logging
import os
import pickle
import random
import resource
import signal
import sys
import threading
import time
import warnings

import numpy as np


def children():
    """pids of the child processes (zombies included)"""
    me, out = os.getpid(), []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    if int(f.read().rsplit(")", 1)[1].split()[1]) == me:
                        out.append(int(p))
            except (OSError, IndexError, ValueError):
                pass
    return set(out)


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink(f"/proc/self/fd/{f}")
            if "/pym-" not in to and "/pymp-" not in to:  # the shared-memory heap of multiprocessing stays for its next user
                out[int(f)] = to
        except OSError:
            pass
    return out


def ambient():
    """process-wide settings a library call has no business changing"""
    import PIL.Image
    import cv2
    mask = os.umask(0)
    os.umask(mask)
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ), "umask": mask, "numpy error state": np.geterr(),
        "numpy print options": repr(np.get_printoptions()), "numpy random state": pickle.dumps(np.random.get_state()),
        "random state": pickle.dumps(random.getstate()), "warning filters": list(warnings.filters), "stdout": id(sys.stdout),
        "stderr": id(sys.stderr), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "SIGINT handler": signal.getsignal(signal.SIGINT), "SIGTERM handler": signal.getsignal(signal.SIGTERM),
        "SIGCHLD handler": signal.getsignal(signal.SIGCHLD), "locale": locale.setlocale(locale.LC_ALL), "sys.argv": list(sys.argv),
        "import path": list(sys.path), "root logger": (logging.root.level, list(logging.root.handlers)), "logging": logging.root.manager.disable,
        "image size limit": PIL.Image.MAX_IMAGE_PIXELS, "OpenCV threads": cv2.getNumThreads(), "excepthook": sys.excepthook,
        "decimal precision": decimal.getcontext().prec, "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "file limit": resource.getrlimit(resource.RLIMIT_NOFILE), "niceness": os.getpriority(os.PRIO_PROCESS, 0),
    }


def threads():
    return {t for t in threading.enumerate() if t.is_alive()}


def wait_until(fn, seconds=6.0):
    end = time.time() + seconds
    while True:
        v = fn()
        if not v or time.time() > end:
            return v
        time.sleep(0.02)


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


class Watch:
    """with Watch(ctx, what): call   -- the call leaves nothing behind"""

    def __init__(self, ctx, what, descriptors=True):
        self.ctx, self.what, self.descriptors = ctx, what, descriptors

    def __enter__(self):
        gc.collect()
        self.children, self.threads, self.fds, self.ambient = children(), threads(), fds(), ambient()
        return self

    def check_processes(self):
        """directly after the call, while its result or exception is still held"""
        left = wait_until(lambda: children() - self.children)
        self.ctx.require(not left, f"{self.what}: {len(left)} worker processes are left")
        self.ctx.see("calls whose processes were counted")

    def check_rest(self):
        ctx, what = self.ctx, self.what
        now = ambient()
        for k, v in self.ambient.items():
            ctx.require(now[k] == v, f"{what}: {k} changed", **({"before": v, "after": now[k]} if "state" not in k else {}))
        gc.collect()
        left = wait_until(lambda: threads() - self.threads)
        ctx.require(not left, f"{what}: {len(left)} threads are left", threads=[repr(t) for t in left])
        if self.descriptors:
            def opened():
                gc.collect()
                return {f: t for f, t in fds().items() if self.fds.get(f) != t}
            extra = wait_until(opened)
            ctx.require(not extra, f"{what}: {len(extra)} files are left open", files=sorted(extra.values()))
            ctx.see("calls whose open files were compared")
        ctx.see("calls whose settings were compared")

    def __exit__(self, et, ev, tb):
        if et is None:
            self.check_processes()
            self.check_rest()
