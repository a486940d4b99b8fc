"""C29: progress bars, timers and logs report what happened."""
import contextlib
import io
import logging
import os
import re
import subprocess
import sys
import time

from vf import native
from vf.checks.c18 import given

ID = "C29"
RULE = ("a distinct non-trivial evaluation is one distinct (function, number of tasks, options) whose written output was checked, one "
        "history of timer calls, or one sequence of logger requests and messages")
PLAN = {"quick": [("serial", 240), ("iterated", 160), ("parallel", 120), ("rejected", 16), ("timer", 400), ("check", 64), ("logger", 240), ("kin", 60),
                  ("printed", 64), ("root", 8)],
        "thorough": [("serial", 3000), ("iterated", 2000), ("parallel", 1600), ("rejected", 16), ("timer", 6000), ("check", 600),
                     ("logger", 3000), ("kin", 600), ("printed", 600), ("root", 64)]}
MUST_SEE = ["counts read", "counts read while tasks ran", "bars without output", "empty task lists", "first tasks left out", "narrow terminals",
            "elapsed times bracketed", "rates bracketed", "timer readings", "timers stopped", "readings of stopped timers rejected",
            "printed timings", "checkpoints", "messages in log files", "messages on the console", "messages below the level",
            "loggers requested again", "child loggers", "appended log files", "printed messages", "silenced messages",
            "wrong loggers rejected", "wrong tasks rejected", "root loggers", "long runs", "loggers whose names start alike", "parents requested after their children"]
ASSUMPTIONS = ["the system clock does not jump while a timer runs (slack 5 ms)",
               "a logger is a child of another if its name continues the other's after a dot, as in the logging module"]
SLACK = 0.005


class Tape:
    """a file that remembers when what was written"""

    def __init__(self):
        self.parts, self.times = [], []

    def write(self, s):
        self.times.append(time.time())
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    @property
    def text(self):
        return "".join(self.parts)


BAR = re.compile(r"\[([> ]*)\] (\d+)/(\d+)")
FULL = re.compile(r"\[([> ]*)\] (\d+)/(\d+), +(inf|[\d.]+) task/s, elapsed: (\d+)s, ETA: *(\d+)s")


@contextlib.contextmanager
def terminal(width):
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = str(width)
    try:
        yield
    finally:
        if old is None:
            del os.environ["COLUMNS"]
        else:
            os.environ["COLUMNS"] = old


def check_tape(ctx, text, n, width, cols, what):
    """the counts 0..n, each once and in order"""
    info = dict(text=text[-600:], n=n)
    ctx.require(text.endswith("\n"), f"{what}: the output does not end with a new line", **info)
    ctx.require(text.count("\n") == 1, f"{what}: {text.count(chr(10))} new lines", **info)
    found = BAR.findall(text)
    ctx.require([int(k) for _, k, _ in found] == list(range(n + 1)), f"{what}: counts {[int(k) for _, k, _ in found]} instead of 0..{n}", **info)
    ctx.require(all(int(m) == n for _, _, m in found), f"{what}: totals {sorted({int(m) for _, _, m in found})} instead of {n}", **info)
    last = 0
    for bar, k, _ in found:
        k = int(k)
        full = bar.count(">")
        ctx.require(bar == ">" * full + " " * (len(bar) - full), f"{what}: bar {bar!r}", **info)
        ctx.require((full == len(bar)) == (k == n), f"{what}: bar {bar!r} at {k}/{n}", **info)
        ctx.require(full >= last - 1 and full / len(bar) <= k / n + 1e-9 and full / len(bar) >= k / n - 1 / len(bar) - 1e-9,
                    f"{what}: {full} of {len(bar)} marks at {k}/{n}", **info)
        ctx.require(len(bar) <= max(2, width), f"{what}: bar of {len(bar)} instead of at most {width} columns", **info)
        last = full
    if cols >= 90:
        lines = text.rstrip("\n").split("\r")[1:]
        ctx.require(all(len(l) <= cols for l in lines), f"{what}: a line is wider than the terminal", cols=cols, **info)
    ctx.see("counts read", len(found))


def case_serial(ctx, i):
    from pyEdgeEval.utils import track_progress
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, 3, 7, 30, 101])) if rng.random() < 0.95 else 1000
    ctx.see("long runs", int(n >= 100))
    tape, seen, ends, starts = Tape(), [], [], []
    width, cols = int(rng.choice([1, 2, 10, 50, 50, 100])), int(rng.choice([20, 40, 80, 120, 250]))
    ctx.see("narrow terminals", int(cols < 60))
    slow = n <= 7 and rng.random() < 0.15

    def task(k, add=0):
        starts.append(time.time())
        seen.append([int(m[1]) for m in BAR.findall(tape.text)][-1:])
        if slow:
            time.sleep(float(rng.choice([0.02, 0.3, 0.55])))
        ends.append(time.time())
        return k + add
    kw = {}
    if rng.random() < 0.5:
        kw["add"] = 5
    bare = rng.random() < 0.2
    if bare:
        kw["no_bar"] = True
    tasks = list(range(n))
    with terminal(cols):
        got = track_progress(task, given(ctx, tasks), bar_width=width, file=tape, **kw)
    ctx.require(got == [k + kw.get("add", 0) for k in tasks], "results", got=got)
    if bare:
        ctx.require(tape.text == "", "something was written without a bar", text=tape.text)
        ctx.see("bars without output")
        return
    if n == 0:
        ctx.require(tape.text.startswith("completed: 0, elapsed: 0s") and tape.text.endswith("\n"), "no tasks", text=tape.text)
        ctx.see("empty task lists")
        return
    check_tape(ctx, tape.text, n, width, cols, "track_progress")
    # when a task runs, exactly the earlier ones are counted
    ctx.require(seen == [[k] for k in range(n)], "counts that were shown while the tasks ran", got=seen[:40])
    ctx.see("counts read while tasks ran", n)
    lines = [(t, FULL.search(p)) for t, p in zip(tape.times, tape.parts)]
    lines = [(t, m) for t, m in lines if m]
    ctx.require(len(lines) == n, f"{len(lines)} progress lines of {n} tasks", text=tape.text[:600])
    for k, (t, m) in enumerate(lines, 1):
        lo, hi = max(0, ends[k - 1] - starts[0] - SLACK), t - tape.times[0] + SLACK
        ctx.require(int(lo + 0.5) <= int(m[5]) <= int(hi + 0.5), f"elapsed {m[5]} s, really {lo:.3f} to {hi:.3f} s")
        rate = float(m[4])
        ctx.require(rate >= k / hi - 0.051 and (lo == 0 or rate <= k / lo + 0.051), f"{rate} task/s after {k} tasks in {lo:.3f} to {hi:.3f} s")
        left = (n - k) / k
        ctx.require(int(lo * left + 0.5 - 1e-6) <= int(m[6]) <= int(hi * left + 0.5 + 1e-6), f"ETA {m[6]} s after {k} of {n} tasks in {lo:.3f} to {hi:.3f} s")
        ctx.see("rates bracketed", int(lo > 0))
    ctx.see("elapsed times bracketed", n)
    ctx.sig("serial", n, width, cols, slow)
    ctx.sample(tasks=n, bar_width=width, terminal=cols, last=tape.text[-120:])


def case_iterated(ctx, i):
    from pyEdgeEval.utils import track_iter_progress
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, 5, 40]))
    tape, pulled = Tape(), []
    width, cols = int(rng.choice([2, 10, 50])), int(rng.choice([40, 80, 120]))

    def source():
        for k in range(n):
            pulled.append(k)
            yield k
    how = i % 3
    tasks = [list(range(n)), (list(range(n)), n), (source(), n)][how]
    got = []
    with terminal(cols):
        it = track_iter_progress(tasks, bar_width=width, file=tape)
        for k in it:
            got.append(k)
            if how == 2:
                ctx.require(pulled == list(range(k + 1)), f"{len(pulled)} items were taken from the source when item {k} was handed out")
            now = [int(m[1]) for m in BAR.findall(tape.text)]
            ctx.require(now[-1:] == [k], f"the bar shows {now[-1:]} while item {k} is processed")
            ctx.see("counts read while tasks ran")
    ctx.require(got == list(range(n)), "iterated items", got=got)
    if n:
        check_tape(ctx, tape.text, n, width, cols, "track_iter_progress")
        ctx.sig("iter", n, width, cols, how)
    else:
        ctx.require(tape.text.startswith("completed: 0") and tape.text.endswith("\n"), "no items", text=tape.text)
        ctx.see("empty task lists")


def double(k):
    return 2 * k


def case_parallel(ctx, i):
    from pyEdgeEval.utils import track_parallel_progress
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, 5, 12, 40]))
    tape = Tape()
    width, cols = int(rng.choice([2, 10, 50])), int(rng.choice([40, 80, 120]))
    nproc = int(rng.choice([1, 2, 3]))
    kw = {}
    if rng.random() < 0.4:
        kw["chunksize"] = int(rng.choice([1, 2, 3]))
    if rng.random() < 0.4:
        kw["skip_first"] = True
    if rng.random() < 0.2:
        kw["no_bar"] = True
    if rng.random() < 0.3:
        kw["keep_order"] = False
    with terminal(cols):
        got = track_parallel_progress(double, given(ctx, list(range(n))), nproc, bar_width=width, file=tape, **kw)
    ctx.require(sorted(got) == [2 * k for k in range(n)], "results", got=got)
    if kw.get("no_bar"):
        ctx.require(tape.text == "", "something was written without a bar", text=tape.text)
        ctx.see("bars without output")
        return
    total = n - (nproc * kw.get("chunksize", 1) if kw.get("skip_first") else 0)
    if total > 0:
        check_tape(ctx, tape.text, total, width, cols, f"track_parallel_progress of {n} tasks with {nproc} processes, {kw}")
        ctx.sig("parallel", n, nproc, repr(kw), width, cols)
        ctx.see("first tasks left out", int(total < n))
    else:
        ctx.require(tape.text.endswith("\n") and not BAR.search(tape.text), "output without counted tasks", text=tape.text)
        ctx.see("empty task lists", int(n == 0))


def case_rejected(ctx, i):
    from pyEdgeEval.utils import track_iter_progress, track_parallel_progress, track_progress
    bad = [5, None, 1.5, object()][i % 4]
    ctx.raises(TypeError, lambda: track_progress(double, bad, file=Tape()), f"tasks {bad!r}")
    ctx.raises(TypeError, lambda: track_parallel_progress(double, bad, 2, file=Tape()), f"tasks {bad!r}")
    ctx.raises(TypeError, lambda: list(track_iter_progress(bad, file=Tape())), f"tasks {bad!r}")
    short = [([1, 2],), ([1, 2], 2.0), (3, 3), ([1], 1, 1)][i // 4]
    for f in (lambda: track_progress(double, short, file=Tape()), lambda: track_parallel_progress(double, short, 2, file=Tape()),
              lambda: list(track_iter_progress(short, file=Tape()))):
        ctx.raises((AssertionError, TypeError, ValueError), f, f"tasks {short!r}")
    if i % 4 == 0:
        ctx.raises((TypeError, AssertionError), lambda: track_parallel_progress(double, [1, 2], 2, initializer=double, initargs=[1], file=Tape()),
                   "initargs that are not a tuple")
    ctx.see("wrong tasks rejected", 6)
    ctx.sig("rejected", i)


class Model:
    """what a timer must report, as intervals of the outside clock"""

    def __init__(self):
        self.running, self.t0, self.last = False, None, None


def between(fn):
    a = time.time()
    v = fn()
    return v, a, time.time()


def case_timer(ctx, i):
    from pyEdgeEval.utils.timer import Timer, TimerError
    rng = ctx.rng
    start = bool(rng.random() < 0.7)
    tmpl = str(rng.choice(["", "{:.3f}", "it takes {:.6f} seconds", "<{:.9f}>"])) or None
    timer, a, b = between(lambda: Timer(start=start, print_tmpl=tmpl) if tmpl else Timer(start))
    m = Model()
    if start:
        m.running, m.t0, m.last = True, (a, b), (a, b)
    hist = [("new", start)]

    def reading(v, a, b, frm, what):
        lo, hi = a - frm[1] - SLACK, b - frm[0] + SLACK
        ctx.require(lo <= v <= hi, f"{what} is {v:.6f} s, really {lo:.6f} to {hi:.6f} s", history=hist)
        ctx.see("timer readings")
    for _ in range(int(rng.integers(2, 14))):
        if rng.random() < 0.5:
            time.sleep(float(rng.choice([0.012, 0.02, 0.035])))
        op = str(rng.choice(["start", "since_start", "since_start", "since_last_check", "since_last_check", "with", "running"]))
        hist.append(op)
        if op == "running":
            ctx.require(bool(timer.is_running) == m.running, f"is_running is {timer.is_running}", history=hist)
        elif op == "start":
            _, a, b = between(timer.start)
            if not m.running:
                m.running, m.t0 = True, (a, b)
            m.last = (a, b)
        elif op == "with":
            out = io.StringIO()
            nap = float(rng.choice([0, 0.015]))
            with contextlib.redirect_stdout(out):
                a = time.time()
                with timer as same:
                    b = time.time()
                    time.sleep(nap)
                    ctx.require(same is timer and timer.is_running, "entering does not give the running timer", history=hist)
                    if rng.random() < 0.4:
                        (v, c, d) = between(timer.since_last_check)
                        reading(v, c, d, (a, b), "time in the block")
                        a, b = c, d
                        time.sleep(nap)
                    c = time.time()
                d = time.time()
            pat = re.escape(tmpl or "{:.3f}")
            pat = re.sub(r"\\\{:\\\.\df\\\}", r"([0-9.]+)", pat)
            mt = re.fullmatch(pat + "\n", out.getvalue())
            ctx.require(mt is not None, f"printed {out.getvalue()!r} with the template {tmpl!r}", history=hist)
            reading(float(mt[1]), c - 0.0006, d + 0.0006, (a, b), "printed time")
            m.running = False
            ctx.see("printed timings")
            ctx.see("timers stopped")
        else:
            f = getattr(timer, op)
            if not m.running:
                ctx.raises(TimerError, f, f"{op} of a timer that is not running", history=hist)
                ctx.see("readings of stopped timers rejected")
            else:
                v, a, b = between(f)
                reading(v, a, b, m.t0 if op == "since_start" else m.last, op)
                m.last = (a, b)
    ctx.sig("timer", tuple(hist))


def case_check(ctx, i):
    from pyEdgeEval.utils.timer import check_time
    rng = ctx.rng
    ids = [f"t{ctx.seed}-{i}-{k}" for k in range(int(rng.integers(1, 4)))]
    last = {}
    for _ in range(int(rng.integers(3, 14))):
        if rng.random() < 0.5:
            time.sleep(float(rng.choice([0.012, 0.02])))
        k = ids[int(rng.integers(0, len(ids)))]
        v, a, b = between(lambda: check_time(k))
        if k not in last:
            ctx.require(v == 0, f"first checkpoint gives {v}")
        else:
            lo, hi = a - last[k][1] - SLACK, b - last[k][0] + SLACK
            ctx.require(lo <= v <= hi, f"checkpoint after {v:.6f} s, really {lo:.6f} to {hi:.6f} s")
        last[k] = (a, b)
        ctx.see("checkpoints")
    ctx.sig("check", i)


LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


def case_logger(ctx, i):
    from pyEdgeEval.utils import get_logger, print_log
    rng = ctx.rng
    d = ctx.tmp()
    base = f"q{ctx.seed}x{i}z"
    path = f"{d}/log.txt"
    mode = [None, "w", "a"][int(rng.integers(0, 3))]
    level = int(rng.choice(LEVELS[:4])) if rng.random() < 0.7 else None
    old = str(rng.choice(["", "earlier line\n"]))
    if old:
        open(path, "w").write(old)
    to_file = rng.random() < 0.8
    kw = {}
    if to_file:
        kw["log_file"] = path
    if level is not None:
        kw["log_level"] = level
    if mode:
        kw["file_mode"] = mode
    console = io.StringIO()
    with contextlib.redirect_stderr(console):
        log = get_logger(base, **kw)
        ctx.require(isinstance(log, logging.Logger) and log.name == base, f"logger {log!r}")
        level = logging.INFO if level is None else level
        names, hist, want, n = [base], [], [], 0
        for _ in range(int(rng.integers(3, 16))):
            op = int(rng.integers(0, 6))
            if op == 0:
                again = get_logger(base, **(kw if rng.random() < 0.5 else {}))
                ctx.require(again is log, "the same name gives another logger")
                hist.append("again")
                ctx.see("loggers requested again")
            elif op == 1:
                child = base + "." + "ab"[int(rng.integers(0, 2))] + str(rng.choice(["", ".c"]))
                ctx.require(get_logger(child, **(kw if rng.random() < 0.5 else {})).name == child, "child logger")
                names.append(child)
                hist.append(child)
                ctx.see("child loggers")
            else:
                name = names[int(rng.integers(0, len(names)))]
                lv = int(rng.choice(LEVELS))
                n += 1
                msg = f"message {n} " + str(rng.choice(["plain", "100%", "%s %d", "{}", "two words", "- x -", "größer → 中"]))
                hist.append((name, lv, msg))
                if op == 2:
                    print_log(msg, name, lv)
                elif op == 3:
                    print_log(msg, logger=get_logger(name), level=lv)
                elif op == 4:
                    print_log(msg, logging.getLogger(name), level=lv)
                else:
                    lv = logging.INFO
                    print_log(msg, name)
                if lv >= level:
                    want.append(f" - {name} - {logging.getLevelName(lv)} - {msg}")
                else:
                    ctx.see("messages below the level")
    handlers = list(log.handlers)
    for h in handlers:
        h.flush()

    def check(lines, what):
        ctx.require(len(lines) == len(want) and all(a.endswith(b) for a, b in zip(lines, want)), f"{what}: {len(lines)} lines instead of {len(want)}",
                    got=lines, want=want, history=hist, options=kw)
    check(console.getvalue().splitlines(), "console")
    ctx.see("messages on the console", len(want))
    if to_file:
        text = open(path, encoding="utf-8").read()
        if mode == "a" and old:
            ctx.require(text.startswith(old), "an appended log file loses its old lines")
            text = text[len(old):]
            ctx.see("appended log files")
        check(text.splitlines(), f"log file (mode {mode})")
        ctx.see("messages in log files", len(want))
    else:
        ctx.require(os.listdir(d) == ([] if not old else ["log.txt"]), "a log file was written without being asked for")
    for h in handlers:
        log.removeHandler(h)
        h.close()
    if want:
        ctx.sig("logger", level, mode, to_file, repr(hist).replace(base, ""))
    ctx.sample(options={k: v for k, v in kw.items() if k != "log_file"}, history=hist[:6], lines=want[:3])


def case_kin(ctx, i):
    """loggers whose names merely start alike, and (i % 4 == 3) a parent requested after its child"""
    from pyEdgeEval.utils import get_logger, print_log
    rng = ctx.rng
    d = ctx.tmp()
    base = f"k{ctx.seed}y{i}z"
    adopted = i % 4 == 3
    names = [base + ".part", base] if adopted else [base, base + str(rng.choice(["2", "_val", "-x", "x.y", " b"]))]
    if not adopted and i % 4 == 1:
        names.reverse()
    console = io.StringIO()
    want, per, hist = [], {n: [] for n in names}, []
    opened = []
    with contextlib.redirect_stderr(console):
        for k, n in enumerate(names):
            opened.append(get_logger(n, log_file=f"{d}/{k}.txt"))
        for k in range(int(rng.integers(4, 12))):
            n = names[int(rng.integers(0, 2))] if k > 1 else names[k]
            msg = f"message {k} of {n}"
            hist.append(n)
            [lambda: print_log(msg, n), lambda: get_logger(n).info(msg), lambda: logging.getLogger(n).error(msg)][int(rng.integers(0, 3))]()
            want.append(msg)
            per[n].append(msg)
    for log in opened:
        for h in list(log.handlers):
            h.flush()
            log.removeHandler(h)
            h.close()
    got = [l.split(" - ", 3)[-1] for l in console.getvalue().splitlines()]
    files = [[l.split(" - ", 3)[-1] for l in open(f"{d}/{k}.txt").read().splitlines()] if os.path.exists(f"{d}/{k}.txt") else None for k in range(2)]
    if adopted:
        ctx.require([m for k, m in enumerate(got) if k == 0 or got[k - 1] != m] == want, "console of a parent requested after its child", got=got, want=want)
        ctx.require(files[0] == per[names[0]], "log file of the child", got=files[0], want=per[names[0]])
        ctx.require(files[1] == want, "log file of the parent", got=files[1], want=want)
        if got != want:
            ctx.finding("parent-logger-after-child", "messages of a child logger appear twice on the console when its parent is requested after it",
                        history=hist, got=got)
        ctx.see("parents requested after their children")
    else:
        ctx.require(got == want, "console of loggers whose names start alike", got=got, want=want, names=names)
        for k, n in enumerate(names):
            ctx.require(files[k] == per[n], f"log file of {n!r} next to {names[1 - k]!r}", got=files[k], want=per[n])
        ctx.see("loggers whose names start alike")
    ctx.sig("kin", tuple(hist).__repr__().replace(base, ""), adopted)


def case_printed(ctx, i):
    from pyEdgeEval.utils import print_log
    rng = ctx.rng
    msg = ["hello", "a\nb", 5, None, {"a": 1}][int(rng.integers(0, 5))]
    lv = int(rng.choice(LEVELS))
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        print_log(msg, level=lv) if i % 2 else print_log(msg)
    ctx.require(out.getvalue() == f"{msg}\n", f"printed {out.getvalue()!r} for {msg!r}")
    ctx.see("printed messages")
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        print_log(msg, "silent", lv)
    ctx.require(out.getvalue() == "", f"printed {out.getvalue()!r} when silenced")
    ctx.see("silenced messages")
    bad = [0, 1.5, ["silent"], b"silent", object()][i % 5]
    ctx.raises(TypeError, lambda: print_log(msg, bad), f"logger {bad!r}")
    ctx.see("wrong loggers rejected")
    ctx.sig("printed", repr(msg), lv)


ROOT = """
import os, sys
sys.path.insert(0, {verif!r})
from vf import native
native.install({nat!r})
from pyEdgeEval.utils import get_root_logger, get_logger, print_log
log = get_root_logger({path!r}, {level})
get_root_logger()
get_root_logger({path!r}.replace("log", "other"))
child = get_logger("pyEdgeEval.part")
log.info("one"); child.info("two"); log.debug("three"); child.error("four"); print_log("five", "pyEdgeEval", 40)
print(log.name)
"""


def case_root(ctx, i):
    d = ctx.tmp()
    level = [10, 20, 30, 40][i % 4]
    code = ROOT.format(verif=native.VERIF, nat=native.get("plain"), path=f"{d}/log.txt", level=level)
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ), timeout=200)
    ctx.require(p.returncode == 0, "the root logger cannot be used", stderr=p.stderr[-1500:])
    want = [w for w, lv in ((" - pyEdgeEval - INFO - one", 20), (" - pyEdgeEval.part - INFO - two", 20), (" - pyEdgeEval - DEBUG - three", 10),
                            (" - pyEdgeEval.part - ERROR - four", 40), (" - pyEdgeEval - ERROR - five", 40)) if lv >= level]
    ctx.require(p.stdout.splitlines()[-1] == "pyEdgeEval", "name of the root logger", stdout=p.stdout)
    for what, lines in (("console", [l for l in p.stderr.splitlines() if " - " in l]), ("log file", open(f"{d}/log.txt").read().splitlines())):
        ctx.require(len(lines) == len(want) and all(a.endswith(b) for a, b in zip(lines, want)), f"root logger, {what}", got=lines, want=want)
    ctx.see("root loggers")
    ctx.sig("root", level)
