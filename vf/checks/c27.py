"""C27: directory scans and sample lists."""
import os
from pathlib import Path

import numpy as np

from vf import trees
from vf.checks.c21 import build

ID = "C27"
RULE = ("a distinct non-trivial scan is one distinct (directory tree, arguments) with at least one matching and one non-matching file; "
        "a distinct sample list is one distinct (evaluator, sources, list)")
PLAN = {"quick": [("scan", 1200), ("large", 12), ("lists", 480), ("bsds", 240), ("paths", 160)],
        "thorough": [("scan", 8000), ("large", 120), ("lists", 3000), ("bsds", 1500), ("paths", 1000)]}
MUST_SEE = ["files found", "files left out", "recursive", "flat", "case ignored", "several suffixes", "hidden files", "links to files",
            "links to directories", "broken links", "special files", "directories named like files", "wrong types rejected",
            "suffix over a directory name", "default list", "split file preferred", "given list preferred", "bad lists rejected",
            "returned lists changed", "BSDS samples", "lists kept after a rejected one", "missing default list",
            "directories of a thousand files", "deep trees", "long lists", "directories made", "existing directories", "missing files reported", "links made", "links replaced", "links kept"]
ASSUMPTIONS = ["files inside hidden directories are neither required nor forbidden"]

SUFFIXES = [".png", ".PNG", "_labelIds.png", "_a.Png", ".tar.gz", ".mat", "", ".txt"]
STEMS = ["a", "b c", "köln", "x.png", "UPPER", "n" * 60, "-dash", "1", "line\nbreak", "[z]*"]


def grow(rng, path, rel, depth, files, hidden, ctx, everything):
    """random tree; files: {relative path} of the visible regular files outside hidden directories"""
    os.makedirs(path, exist_ok=True)
    for _ in range(int(rng.integers(0, 5))):
        name = STEMS[rng.integers(0, len(STEMS))] + SUFFIXES[rng.integers(0, len(SUFFIXES))]
        k = rng.random()
        if k < 0.1:
            name = "." * int(rng.integers(1, 3)) + name
        p = os.path.join(path, name)
        r = os.path.join(rel, name) if rel else name
        if os.path.lexists(p):
            continue
        what = rng.choice(["file"] * 12 + ["link", "broken", "fifo", "dir", "empty"])
        if what in ("file", "empty"):
            open(p, "w").write("" if what == "empty" else "x")
        elif what == "link":
            os.symlink(everything, p)
            ctx.see("links to files")
        elif what == "broken":
            os.symlink(p + ".nowhere", p)
            ctx.see("broken links")
            continue
        elif what == "fifo":
            os.mkfifo(p)
            ctx.see("special files")
            continue
        else:
            if name.startswith("."):
                continue
            ctx.see("directories named like files")
            grow(rng, p, r, depth - 1, files, hidden, ctx, everything)
            continue
        if name.startswith("."):
            ctx.see("hidden files")
        elif hidden:
            hidden.append(r)
        else:
            files.append(r)
    if depth > 0:
        for _ in range(int(rng.integers(0, 3))):
            name = ["sub", "Sub", "gt.png", "deep dir", ".hidden", "a"][rng.integers(0, 6)]
            p, r = os.path.join(path, name), os.path.join(rel, name) if rel else name
            if not os.path.lexists(p):
                if name.startswith("."):
                    hidden.append(r)
                    mark = []
                    grow(rng, p, r, depth - 1, mark, [""], ctx, everything)
                    hidden.extend(mark)
                else:
                    grow(rng, p, r, depth - 1, files, hidden if hidden and hidden[0] == "" else [], ctx, everything)


def truth(root, recursive):
    """(required, optional) relative paths, by walking the tree"""
    need, may = [], []

    def walk(d, rel, hid):
        for n in os.listdir(d):
            p, r = os.path.join(d, n), os.path.join(rel, n)
            if os.path.isdir(p):
                if recursive:
                    walk(p, r, hid or n.startswith("."))
            elif os.path.isfile(p) and not n.startswith("."):
                (may if hid else need).append(r)
    walk(root, "", False)
    return need, may


def matches(rel, suffix, case):
    if suffix is None:
        return True
    s = (suffix,) if isinstance(suffix, str) else suffix
    if not case:
        rel, s = rel.lower(), tuple(x.lower() for x in s)
    return any(rel[len(rel) - len(x):] == x for x in s if len(x) <= len(rel))


def case_scan(ctx, i):
    from pyEdgeEval.utils import scandir
    rng = ctx.rng
    d = ctx.tmp()
    outside = d + "/outside"
    os.makedirs(outside + "/far/er")
    for n in ("a.png", "far/b.png", "far/er/c_labelIds.png", "far/.d.png"):
        open(f"{outside}/{n}", "w").write("x")
    root = d + "/root" + ["", ".png", " dir", "[1]"][rng.integers(0, 4)]
    grow(rng, root, "", 3, [], [], ctx, outside + "/a.png")
    for n in ("linked", "linked.png"):
        if rng.random() < 0.4 and not os.path.lexists(f"{root}/{n}"):
            os.symlink(outside + "/far", f"{root}/{n}")
            ctx.see("links to directories")
    for _ in range(4):
        k = rng.integers(0, 8)
        suffix = [None, ".png", (".png", ".mat"), "_labelIds.png", ("_A.png", ".TXT"), (), "", "sub/a.png"][k]
        if isinstance(suffix, tuple) and len(suffix) > 1:
            ctx.see("several suffixes")
        if rng.random() < 0.15:
            suffix = "ub/" + STEMS[rng.integers(0, 4)] + ".png"
        recursive = bool(rng.random() < 0.6)
        case = bool(rng.random() < 0.6)
        need, may = truth(root, recursive)
        want = sorted(r for r in need if matches(r, suffix, case))
        opt = {r for r in may if matches(r, suffix, case)}
        arg = root if rng.random() < 0.4 else root + "/" if rng.random() < 0.4 else Path(root)
        cwd = os.getcwd()
        try:
            if rng.random() < 0.3:
                os.chdir(d)
                arg = os.path.relpath(root, d)
                if rng.random() < 0.5:
                    arg = "./" + arg
            kw = {}
            if suffix is not None or rng.random() < 0.5:
                kw["suffix"] = suffix
            if recursive or rng.random() < 0.5:
                kw["recursive"] = recursive
            if not case or rng.random() < 0.5:
                kw["case_sensitive"] = case
            got = list(scandir(arg, **kw))
        finally:
            os.chdir(cwd)
        info = dict(argument=str(arg), **kw)
        ctx.require(all(isinstance(g, str) for g in got), "paths are not strings", got=got, **info)
        ctx.require(len(got) == len(set(got)), "a file was found twice", got=sorted(got), **info)
        have = sorted(g for g in got if g not in opt)
        ctx.require(have == want, f"found {[g for g in have if g not in want][:5]} too many, missed {[w for w in want if w not in have][:5]}",
                    got=have, want=want, **info)
        ctx.see("files found", len(have))
        ctx.see("files left out", len(need) - len(want))
        ctx.see("recursive" if recursive else "flat")
        ctx.see("case ignored", int(not case))
        if any("/" in r and isinstance(suffix, str) and suffix.startswith(("sub/", "ub/")) for r in want):
            ctx.see("suffix over a directory name")
        if want and len(need) > len(want):
            ctx.sig(tuple(sorted(need)), repr(suffix), recursive, case)
    for a, kw in ((123, {}), (b"x", {}), (None, {}), ([root], {}), (root, dict(suffix=[".png"])), (root, dict(suffix=1)),
                  (root, dict(suffix={".png"}))):
        ctx.raises(TypeError, lambda: list(scandir(a, **kw)), f"scandir({type(a).__name__}, {kw})")
        ctx.see("wrong types rejected")
    ctx.raises(OSError, lambda: list(scandir(root + "/does not exist")), "scanning a directory that does not exist")
    # suffix over a directory boundary, always present
    os.makedirs(f"{d}/x/sub", exist_ok=True)
    for n in ("sub/a.png", "a.png", "sub/ba.png"):
        open(f"{d}/x/{n}", "w").close()
    ctx.require(sorted(scandir(d + "/x", "sub/a.png", recursive=True)) == ["sub/a.png"], "suffix with a directory name")
    ctx.see("suffix over a directory name")
    ctx.sample(files=sorted(need)[:8], **info)


def case_large(ctx, i):
    """a directory of many files, or a long chain of directories"""
    from pyEdgeEval.utils import scandir
    rng = ctx.rng
    d = ctx.tmp()
    if i % 2:
        rel, want = "", []
        for k in range(int(rng.integers(30, 60))):
            rel = os.path.join(rel, str(rng.choice(["d", "sub", "e.png", "UP"])) + str(k))
            os.makedirs(f"{d}/{rel}")
            for n in ("a.png", "b.txt"):
                if rng.random() < 0.6:
                    open(f"{d}/{rel}/{n}", "w").close()
                    want += [f"{rel}/{n}"] if n == "a.png" else []
        ctx.see("deep trees")
    else:
        want = []
        for k in range(int(rng.integers(1030, 2100))):
            n = f"{k:05d}{rng.choice(['.png', '.PNG', '_x.png', '.txt'])}"
            s = str(rng.choice(["", "", "a/", "b/c/"]))
            os.makedirs(f"{d}/{s}", exist_ok=True)
            open(f"{d}/{s}{n}", "w").close()
            want += [s + n] if n.endswith(".png") else []
        ctx.see("directories of a thousand files")
    for rec in (True, False):
        w = sorted(r for r in want if rec or "/" not in r)
        got = sorted(scandir(d, ".png", recursive=rec))
        ctx.require(got == w, f"{len(got)} files found instead of {len(w)}", recursive=rec, differ=sorted(set(got) ^ set(w))[:5])
        ctx.see("files found", len(got))
    ctx.sig(len(want), i)


def names(rng, n=None):
    n = int(rng.integers(1, 30)) if n is None else n
    if rng.random() < 0.03:
        n = int(rng.integers(1001, 3000))
    v = [f"2008_{k:06d}" if rng.random() < 0.5 else f"town/town_{k:06d}_{k % 7:06d}" for k in rng.choice(10 ** 5, n, replace=False)]
    if rng.random() < 0.2:
        v += v[:2]  # a list is taken as it is
    if rng.random() < 0.2:
        v.append("has space é.v2")
    if rng.random() < 0.2:
        v.insert(int(rng.integers(0, len(v) + 1)), str(rng.choice(["#1 street", "-x", "%d", "a,b", "'quoted'", "class_001", "0"])))
    return v


def write(path, v, rng):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    end = "\r\n" if rng.random() < 0.15 else "\n"
    text = end.join(v) + (end if rng.random() < 0.7 else "")
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text)


def case_lists(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    kind = ["sbd", "reanno", "city", "half", "otf"][i % 5]
    split = str(rng.choice(["val", "test"]))
    default = (lambda s: f"{d}/{s}.txt") if kind in ("sbd", "reanno") else (lambda s: f"{d}/splits/{s}.txt")
    lists = {s: names(rng) for s in ("val", "test", "file", "given")}
    other = "test" if split == "val" else "val"
    write(default(other), lists[other], rng)
    with_default = rng.random() < 0.75
    if with_default:
        write(default(split), lists[split], rng)
    # decoys at the other family's location
    decoy = f"{d}/splits/{split}.txt" if kind in ("sbd", "reanno") else f"{d}/{split}.txt"
    write(decoy, ["decoy"], rng)
    write(d + "/file.txt", lists["file"], rng)
    ev = build(kind, d, d, **(dict(split=split) if split != "val" or rng.random() < 0.5 else {}))
    now = lists[split] if with_default else None
    check(ctx, ev, now, f"{kind} after construction")
    ctx.see("default list" if with_default else "missing default list")
    for _ in range(int(rng.integers(2, 7))):
        op = rng.choice(["given", "file", "both", "default", "bad", "mutate", "badfile"])
        if op == "given":
            now = names(rng)
            ev.set_sample_names(list(now) if rng.random() < 0.5 else now) if rng.random() < 0.5 else ev.set_sample_names(sample_names=list(now))
        elif op == "file":
            ev.set_sample_names(split_file=d + "/file.txt")
            now = lists["file"]
            ctx.see("split file preferred")
        elif op == "both":
            now = names(rng)
            ev.set_sample_names(sample_names=list(now), split_file=d + ("/file.txt" if rng.random() < 0.5 else "/missing.txt"))
            ctx.see("given list preferred")
        elif op == "default":
            if with_default:
                ev.set_sample_names()
                now = lists[split]
            else:
                ctx.raises((AssertionError, OSError), lambda: ev.set_sample_names(), f"{kind}: default list is missing")
                ctx.see("missing default list")
        elif op in ("bad", "badfile"):
            open(d + "/empty.txt", "w").close()
            if op == "badfile":
                f = str(rng.choice(["/empty.txt", "/missing.txt"]))
                ctx.raises((AssertionError, ValueError, OSError), lambda: ev.set_sample_names(split_file=d + f), f"{kind}: split file {f}")
            else:
                bad = [[], (), ("a", "b"), "abc", {"a": 1}, 5][rng.integers(0, 6)]
                ctx.raises((AssertionError, ValueError, TypeError), lambda: ev.set_sample_names(sample_names=bad), f"{kind}: sample names {bad!r}")
            ctx.see("bad lists rejected")
            ctx.see("lists kept after a rejected one")
        elif now is not None:
            got = ev.sample_names
            got.append("extra")
            got.reverse()
            if rng.random() < 0.5:
                got.clear()
            ctx.see("returned lists changed")
        check(ctx, ev, now, f"{kind} after {op}")
    # the list of one evaluator never leaks into another
    fresh = build(kind, d, d, split=split)
    check(ctx, fresh, lists[split] if with_default else None, f"another {kind} evaluator")
    ctx.see("long lists", int(any(len(v) > 1000 for v in lists.values())))
    if now:
        ctx.sig(kind, split, tuple(now))
    ctx.sample(evaluator=kind, split=split, names=now)


def check(ctx, ev, want, what):
    got = ev.sample_names
    if want is None:
        ctx.require(got is None, f"{what}: sample names {got!r:.200} without a list")
        return
    ctx.require(isinstance(got, list) and got == list(want), f"{what}: wrong sample names", got=got, want=list(want))


def case_bsds(ctx, i):
    rng = ctx.rng
    d = ctx.tmp()
    split = str(rng.choice(["val", "test"]))
    want = set()
    for s in ("val", "test", "train"):
        os.makedirs(f"{d}/groundTruth/{s}")
        for k in rng.choice(10 ** 5, int(rng.integers(0 if s != split else 1, 12)), replace=False):
            ext = str(rng.choice([".mat", ".mat", ".mat", ".MAT", ".txt", ".mat.bak", ".png", ".mat~"]))
            name = f"{k}" if rng.random() < 0.9 else f"{k}.v2"
            open(f"{d}/groundTruth/{s}/{name}{ext}", "w").close()
            if s == split and ext.lower() == ".mat":
                want.add(f"{split}/{name}")
    ev = build("bsds", d, d, **(dict(split=split) if split != "test" or rng.random() < 0.5 else {}))
    if not want:
        ctx.require(not ev.sample_names, "samples without a .mat file", got=ev.sample_names)
        ctx.raises((AssertionError, ValueError), lambda: ev.set_sample_names(), "BSDS: no .mat file in the split")
        ctx.see("bad lists rejected")
        return
    got = ev.sample_names
    ctx.require(sorted(got) == sorted(want), "BSDS samples", got=sorted(got), want=sorted(want))
    ctx.see("BSDS samples", len(want))
    now = names(rng)
    ev.set_sample_names(sample_names=list(now))
    check(ctx, ev, now, "BSDS after a given list")
    ev.sample_names.clear()
    check(ctx, ev, now, "BSDS after clearing the returned list")
    ctx.see("returned lists changed")
    for bad in ([], ("a",), "abc"):
        ctx.raises((AssertionError, ValueError, TypeError), lambda: ev.set_sample_names(sample_names=bad), f"BSDS: sample names {bad!r}")
    ev.set_sample_names()
    ctx.require(sorted(ev.sample_names) == sorted(want), "BSDS samples after resetting", got=ev.sample_names)
    ctx.raises((AssertionError, ValueError), lambda: build("bsds", d, d, split="train"), "BSDS: unknown split")
    ctx.sig("bsds", split, tuple(sorted(want)))


def case_paths(ctx, i):
    """making directories, looking for files, linking"""
    from pyEdgeEval.utils import check_file_exist, mkdir_or_exist, symlink
    rng = ctx.rng
    d = ctx.tmp()
    cwd, home = os.getcwd(), os.environ.get("HOME")
    os.chdir(d)
    os.environ["HOME"] = d
    try:
        pick = lambda: STEMS[rng.integers(0, len(STEMS))]
        # directories
        parts = [pick() + str(k) for k in range(int(rng.integers(1, 5)))]
        have = int(rng.integers(0, len(parts) + 1))
        rel = os.path.join(*parts)
        if have:
            os.makedirs(os.path.join(d, *parts[:have]))
            open(os.path.join(d, parts[0], "kept.txt"), "w").write("kept")
        way = [os.path.join(d, rel), rel, "./" + rel, rel + "/", "~/" + rel][rng.integers(0, 5)]
        mode = int(rng.choice([0o777, 0o750, 0o700, 0o711]))
        mkdir_or_exist(way) if mode == 0o777 else mkdir_or_exist(way, mode)
        if have < len(parts):
            mask = os.umask(0o022)
            os.umask(mask)
            ctx.equal(oct(os.stat(os.path.join(d, rel)).st_mode & 0o777), oct(mode & ~mask), "permissions of a new directory", asked=oct(mode))
        ctx.require(os.path.isdir(os.path.join(d, rel)), f"{way!r} was not made", existed=have)
        made = [p for p, _, _ in os.walk(d)]
        ctx.require(sorted(made) == sorted(os.path.join(d, *parts[:k]) for k in range(len(parts) + 1)) or have == 0 and len(made) == len(parts) + 1,
                    f"directories made for {way!r}", made=made)
        if have:
            ctx.equal(open(os.path.join(d, parts[0], "kept.txt")).read(), "kept", "contents of an existing directory")
        ctx.see("existing directories" if have == len(parts) else "directories made")
        mkdir_or_exist(way)
        mkdir_or_exist("")
        ctx.equal(sorted(p for p, _, _ in os.walk(d)), sorted(made), "directories after asking again")
        where = os.path.join(d, parts[0])
        f = os.path.join(where, "file")
        open(f, "w").write("content")
        ctx.raises(OSError, lambda: mkdir_or_exist(f), "a directory over a file")
        # files
        os.symlink(f, where + "/ln")
        os.symlink(where + "/void", where + "/dead")
        for p in (f, os.path.relpath(f, d), where + "/ln"):
            check_file_exist(p)
        for p in (where, where + "/void", where + "/dead", f + "x", f + "/x", d):
            ctx.raises(FileNotFoundError, lambda: check_file_exist(p), f"missing file {p!r}")
            try:
                check_file_exist(p, "no {} here")
            except FileNotFoundError as e:
                ctx.require(str(e) == f"no {p} here", "message for a missing file", got=str(e))
            ctx.see("missing files reported")
        # links
        other = os.path.join(where, "other")
        open(other, "w").write("other")
        ln = os.path.join(where, "link")
        kw = [{}, dict(overwrite=True), dict(overwrite=False)][rng.integers(0, 3)]
        old = ["nothing", "file", "link", "dead link"][rng.integers(0, 4)]
        if old == "file":
            open(ln, "w").write("old")
        elif old == "link":
            os.symlink(other, ln)
        elif old == "dead link":
            os.symlink(where + "/void", ln)
        if old != "nothing" and kw.get("overwrite") is False:
            before = os.readlink(ln) if "link" in old else open(ln).read()
            ctx.raises(FileExistsError, lambda: symlink(f, ln, **kw), f"a link over a {old} with overwrite=False")
            ctx.equal(os.readlink(ln) if "link" in old else open(ln).read(), before, f"{old} not to be replaced")
            ctx.see("links kept")
        else:
            symlink(f, ln, **kw)
            ctx.require(os.path.islink(ln) and os.readlink(ln) == f and open(ln).read() == "content", f"link over {old}", options=kw)
            ctx.see("links made" if old == "nothing" else "links replaced")
        ctx.equal((open(f).read(), open(other).read()), ("content", "other"), "files linked to")
        ctx.sig(way, have, old, repr(kw))
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
