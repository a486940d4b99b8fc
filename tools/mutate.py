"""mutate.py COVDIR OUT.jsonl [--n N] [--seed S] [--files substr,..] [--par P]
Random syntactic mutants of /repo's Python code, each tried against the checks that execute its line (COVDIR/<check>/*.json, recorded with
VF_COV), the quickest first, until one of them reports a violation. Survivors are to be read: equivalent, outside every property, or missed."""
import argparse, ast, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*"}


def mutants(path, rel):
    src = open(path).read()
    tree = ast.parse(src)
    offs = [0]
    for l in src.encode().split(b"\n"):
        offs.append(offs[-1] + len(l) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, why):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append(dict(file=rel, line=n.lineno, a=a, b=b, new=new, old=raw[a:b].decode(), why=why))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        # messages and annotations
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip |= set(ast.walk(n.msg))
        if isinstance(n, ast.Raise):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Call) and re.match(r"(print|print_log|warn|warnings\.warn|logger\.\w+)$", seg(n.func)):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(r"(print|print_log|warn|warnings\.warn|logger\.\w+)$", seg(n.value.func)):
            skip.add(n)
        if isinstance(n, ast.arg) and n.annotation:
            skip |= set(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip |= set(ast.walk(n.returns))
        if isinstance(n, ast.JoinedStr):
            skip |= set(ast.walk(n)) - {n}
    for n in ast.walk(tree):
        if n in docs or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f"({seg(n.left)}) {CMP[type(n.ops[0])]} ({seg(n.comparators[0])})", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
            put(n, f"(({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)}))", "operator")
            put(n, f"({seg(n.left)})", "left operand only")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")", "and/or")
            put(n, f"({seg(n.values[0])})", "first condition only")
            put(n, f"({seg(n.values[-1])})", "last condition only")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, f"({seg(n.operand)})", "unary dropped")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
            if isinstance(n.value, bool):
                put(n, str(not n.value), "constant")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "constant")
                if n.value > 0:
                    put(n, str(n.value - 1), "constant")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 1.1 + (n.value == 0)), "constant")
        elif isinstance(n, ast.If):
            put(n.test, f"(not ({seg(n.test)}))", "condition negated")
            put(n.test, "False", "condition never")
            put(n.test, "True", "condition always")
        elif isinstance(n, ast.IfExp):
            put(n, seg(n.body), "always body")
            put(n, seg(n.orelse), "always else")
        elif isinstance(n, (ast.Expr, ast.AugAssign)):
            put(n, "pass", "statement dropped")
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                put(n, "pass", "assignment dropped")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "jump dropped")
        elif isinstance(n, ast.Call):
            if n.keywords and n.keywords[-1].arg and (n.args or len(n.keywords) > 1):
                for k in n.keywords:
                    if k.arg:
                        a, b = offs[k.lineno - 1] + k.col_offset, offs[k.end_lineno - 1] + k.end_col_offset
                        while b < len(raw) and raw[b:b + 1] in b" \n":
                            b += 1
                        if raw[b:b + 1] == b",":
                            b += 1
                        out.append(dict(file=rel, line=k.lineno, a=a, b=b, new="", old=raw[a:b].decode(), why="keyword dropped"))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
                put(n, f"({seg(n.args[0])})", "call dropped")
            elif not n.args and not n.keywords and isinstance(n.func, ast.Attribute):
                put(n, seg(n.func.value), "method dropped")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            put(n.value, f"({seg(n.value.elts[1])}, {seg(n.value.elts[0])})", "swapped")
    # the lines of the innermost statement (for compound ones: of its head)
    sts = []
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt):
            sts.append((n.lineno, n.body[0].lineno - 1 if getattr(n, "body", None) and isinstance(n.body, list) else n.end_lineno))
    for m in out:
        m["lines"] = max(((x, y) for x, y in sts if x <= m["line"] <= max(x, y)), default=(m["line"], m["line"]))
    good = []
    for m in out:
        text = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            compile(text, rel, "exec")
        except (SyntaxError, ValueError):
            continue
        good.append(m)
    return good


SLOW = {"C03", "C30", "C31", "C33", "C34", "C35", "C37"}
NATIVE = {"match.cc": ["C01", "C02", "C37", "C03"], "benms.cc": ["C05", "C03"], "csa.cc": ["C01", "C02", "C03"], "csa_defs.h": ["C01", "C02", "C03"], "csa_types.h": ["C01", "C02", "C03"],
          "csa.hh": ["C01", "C02", "C03"], "kofn.cc": ["C01", "C02", "C03"], "Random.cc": ["C01", "C02", "C03"], "correspond_pixels.pyx": ["C01", "C02", "C04", "C03"], "nms.pyx": ["C05", "C04", "C03"]}
SWAP = [(r"(?<![<>=!-])<(?![<=>])", "<="), (r"<=", "<"), (r"(?<![<>=!-])>(?![>=<])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"(?<![+])\+(?![+=])", "-"), (r"(?<![-])-(?![-=>])", "+"), (r"(?<![*/(, ])\s\*\s", " / "), (r"(?<![/*])/(?![/*])", "*"), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"),
        (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\b(x|w)\b", "y"), (r"\b(y|h)\b", "x"),
        (r"\b(\d+)\b(?!\.)", "+1"), (r"\b(\d+)\b(?!\.)", "-1"), (r"\b\d+\.\d+\b", "float"), (r"^\s+[\w\[\](),. ]+ [+-]?= .*;$", "drop"), (r"\bif ?\((?=.*\) ?[{]?$)", "if (!")]


def native_mutants(path, rel):
    raw = open(path, newline="").read()
    out, at = [], 0
    for no, line in enumerate(raw.split("\n"), 1):
        code = re.sub(r"//.*|/\*.*?\*/|^\s*\*.*", "", line.rstrip("\r"))
        if not re.match(r"\s*(#|assert|cdef extern|import|from|using|\"\"\"|static void)", code):
            for pat, new in SWAP:
                for m in re.finditer(pat, code):
                    o, t = m.group(), new
                    if new in ("+1", "-1"):
                        t = str(int(o) + int(new))
                        if t == "-1":
                            continue
                    elif new == "float":
                        t = repr(float(o) * 1.1)
                    elif new == "drop":
                        t = ";"
                    elif new == "if (!":
                        t = "if (!"
                        end = code.rstrip(" {").rstrip()
                        out.append(dict(file=rel, line=no, a=at + m.start(), b=at + len(end), old=end[m.start():], new="if (!(" + end[m.end():-1] + "))", why="condition negated"))
                        continue
                    out.append(dict(file=rel, line=no, a=at + m.start(), b=at + m.end(), old=o, new=t, why=pat))
        at += len(line) + 1
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cov")
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--native", action="store_true")
    ap.add_argument("--par", type=int, default=3)
    ap.add_argument("--until", type=float, default=1e9, help="seconds")
    a = ap.parse_args()
    cov, cost = {}, {}
    for d in sorted(os.listdir(a.cov)):
        for f in glob.glob(f"{a.cov}/{d}/*.json"):
            for k, v in json.load(open(f)).items():
                cov.setdefault(k, {}).setdefault(d, set()).update(v)
        try:
            cost[d] = json.load(open(f"{V}/evidence/{d}.json"))["wall_s"]
        except OSError:
            cost[d] = 60
    every = []
    for f in subprocess.run(["git", "-C", "/repo", "ls-files", "*.py"], capture_output=True, text=True).stdout.split():
        if f.startswith(("tests/", "docs/")) or f == "setup.py" or (a.files and not any(s in f for s in a.files.split(","))):
            continue
        every += mutants("/repo/" + f, f)
    if a.native:
        every = []
        for f in subprocess.run(["git", "-C", "/repo", "ls-files", "pyEdgeEval/_lib"], capture_output=True, text=True).stdout.split():
            if os.path.basename(f) in NATIVE and (not a.files or any(x in f for x in a.files.split(","))):
                every += native_mutants("/repo/" + f, f)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            m = json.loads(l)
            done.add((m["file"], m["a"], m["b"], m["new"]))
    rnd = random.Random(a.seed)
    rnd.shuffle(every)
    every = [m for m in every if (m["file"], m["a"], m["b"], m["new"]) not in done]
    # one line is enough for now
    lines, pick = set(), []
    for m in every:
        if (m["file"], m["line"]) in lines:
            continue
        lines.add((m["file"], m["line"]))
        pick.append(m)
    print(len(every), "mutants,", len(pick), "lines", flush=True)
    pick = pick[:a.n]
    kills = {c: 1 for c in cov}
    lock = threading.Lock()
    os.makedirs("/tmp/mut", exist_ok=True)
    free = list(range(a.par))
    t0 = time.time()

    def one(m):
        if time.time() - t0 > a.until:
            return
        with lock:
            k = free.pop()
        try:
            d = f"/tmp/mut/{k}"
            subprocess.run(["rm", "-rf", d], check=True)
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            raw = open(f"{d}/{m['file']}", "rb").read()
            open(f"{d}/{m['file']}", "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
            subprocess.run(["find", d + "/pyEdgeEval", "-name", "__pycache__", "-prune", "-exec", "rm", "-rf", "{}", "+"])
            lo, hi = m.get("lines", (m["line"], m["line"]))
            near = {c for c, ls in cov.get(m["file"], {}).items() if any(lo <= x <= max(lo, hi) for x in ls)}
            near = near or set(cov.get(m["file"], {}))
            # rarely executed lines: those checks that execute few of them know the file best
            order = sorted(near, key=lambda c: cost.get(c, 60) * (1 + len(cov[m["file"]]) * 0) / (1 + sum(m["file"] in x for x in (json.dumps(props.get(c, [])),)) * 3))
            if a.native:
                order = NATIVE[os.path.basename(m["file"])]
            few = [c for c in order if c not in SLOW]
            order = (few or order)[:6]
            m["checks"] = order
            m["killed"] = None
            for c in order:
                env = dict(os.environ, VF_REPO=d, VF_STOP="1", VERIF_SEED="1", VERIF_TIER="quick", VF_EVIDENCE="/tmp/mut/ev%d" % k)
                env.pop("VF_COV", None)
                try:
                    r = subprocess.run([f"{V}/check.sh", c, "--jobs", str(max(2, 8 // a.par))], env=env, capture_output=True, text=True, timeout=500)
                    rc, text = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, text = 124, ""
                if "native build" in text and "failed" in text:
                    m["killed"] = "compiler"
                    break
                if rc not in (0, 1) or rc == 1 and "VIOLATION property" not in text:
                    m.setdefault("odd", []).append((c, rc, text[-300:]))
                    continue
                if rc == 1:
                    m["killed"], m["rc"] = c, rc
                    m["msg"] = next((l.strip() for l in text.splitlines() if re.match(r"  \w+:-?\d+: ", l)), text[-200:])[:200]
                    break
        finally:
            with lock:
                free.append(k)
                open(a.out, "a").write(json.dumps(m) + "\n")
                print(("killed by %s" % m["killed"]) if m.get("killed") else "SURVIVED", f"{m['file']}:{m['line']}", m["why"], repr(m["old"][:60]), "->", repr(m["new"][:60]), f"[{time.time() - t0:.0f} s]", flush=True)
    props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
    with cf.ThreadPoolExecutor(a.par) as ex:
        list(ex.map(one, pick))


main()
