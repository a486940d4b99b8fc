"""Calls in a process that has made none before.

A server that has imported the library but never called it forks a child for every request, so every answer is the
one a fresh process gives."""
import atexit
import os
import pickle
import struct
import subprocess
import sys

from vf import native

SERVER = r"""
import importlib, os, pickle, struct, sys
sys.path.insert(0, sys.argv[1])
from vf import native
native.install(sys.argv[2])
import numpy, pyEdgeEval.edge_tools, pyEdgeEval.preprocess, pyEdgeEval.utils, pyEdgeEval.common.multi_label, pyEdgeEval.common.binary_label
import pyEdgeEval._lib
inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
null = os.open(os.devnull, os.O_RDWR)
os.dup2(null, 0); os.dup2(null, 1)
while True:
    head = inp.read(4)
    if len(head) < 4:
        break
    data = inp.read(struct.unpack("<I", head)[0])
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            (mod, name), args = pickle.loads(data)
            ans = pickle.dumps(("ok", getattr(importlib.import_module(mod), name)(*args)))
        except Exception as e:
            ans = pickle.dumps(("raised", type(e).__name__ + ": " + str(e)))
        with os.fdopen(w, "wb") as f:
            f.write(ans)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        ans = f.read()
    os.waitpid(pid, 0)
    out.write(struct.pack("<I", len(ans)) + ans)
    out.flush()
"""
_server = None


def call(mod, name, args):
    """("ok", result) or ("raised", text) of mod.name(*args) in a process of its own"""
    global _server
    if _server is None:
        _server = subprocess.Popen([sys.executable, "-c", SERVER, native.VERIF, native.get("plain")], stdin=subprocess.PIPE,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=native.base_env())
        atexit.register(_server.kill)
    data = pickle.dumps(((mod, name), args))
    _server.stdin.write(struct.pack("<I", len(data)) + data)
    _server.stdin.flush()
    head = _server.stdout.read(4)
    if len(head) < 4:
        raise RuntimeError("the fresh process server ended")
    ans = _server.stdout.read(struct.unpack("<I", head)[0])
    if not ans:
        return "died", None
    return pickle.loads(ans)
