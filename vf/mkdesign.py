#!/usr/bin/env python3
"""DESIGN.md from design/*.md, the checks' plans, known_findings.txt and seeded/*/meta.json"""
import glob, importlib, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def read(f):
    return open(os.path.join(V, f)).read()


text = dict(re.findall(r"^### (C\d+)\n(.*?)(?=^### |\Z)", read("design/properties.md"), re.S | re.M))
out = [read("design/head.md"), "## 2. Properties\n"]
for l in read("properties.jsonl").splitlines():
    d = json.loads(l)
    m = importlib.import_module("vf.checks." + d["id"].lower())
    out.append(f"### {d['id']} {d['title']}\n\n{text.pop(d['id']).strip()}\n")
    plan = ", ".join(f"{k} {n}/{dict(m.PLAN['thorough']).get(k, 0)}" for k, n in m.PLAN["quick"])
    out.append(f"Cases (quick/thorough): {plan}.")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("Bounds: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append("")
assert not text, text
tail = read("design/tail.md")
fixes = [l for l in read("known_findings.txt").splitlines() if l.startswith("fixed:")]
tail = tail.replace("FIXES", f"There are {len(fixes)}:\n\n" + "\n".join(
    "* {1} ({2}): {3}".format(*re.match(r"(fixed): property=(\S+) (\S+) (.*)", l).groups()) for l in fixes))
metas = sorted(glob.glob(os.path.join(V, "seeded/*/meta.json")))
tab = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for f in metas:
    m = json.load(open(f))
    tab.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
tail = tail.replace("SEEDED", str(len(metas))).replace("MISSED", read("design/missed.md").strip()).replace("TABLE", "\n".join(tab))
out.append(tail)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
