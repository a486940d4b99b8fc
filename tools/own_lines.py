"""planted changes that only touch lines which our own commits in /repo added (they would not count)"""
import difflib
import glob
import re
import subprocess

BASE = "10cc8bf"


def show(rev, f):
    return subprocess.run(["git", "-C", "/repo", "show", f"{rev}:{f}"], capture_output=True, text=True, errors="replace").stdout.splitlines()


cache = {}
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, counts = None, 0
    for l in open(p, errors="replace", newline="\n").read().split("\n"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            if f not in cache:
                new = show("HEAD", f)
                added = set()
                for tag, _, _, a, b in difflib.SequenceMatcher(None, show(BASE, f), new, False).get_opcodes():
                    if tag in ("replace", "insert"):
                        added |= set(range(a + 1, b + 1))
                cache[f] = added
        elif re.match(r"@@ -(\d+)", l):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l[:1] == "-" and not l.startswith("---"):
            counts += line not in cache[f]
            line += 1
        elif f and l[:1] == " ":
            line += 1
        elif f and l[:1] == "+" and not l.startswith("+++"):
            # an insertion next to original lines
            counts += line not in cache[f] or line - 1 not in cache[f]
    if not counts:
        print(p.split("/")[3])
