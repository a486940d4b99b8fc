#!/usr/bin/env python3
"""python -m vf.run ID [--tier T] [--seed N] [--replay FILE] [--only KIND:INDEX] [--jobs N]"""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vf import framework, native  # noqa: E402


def known(pid):
    """{mechanism: text} of the findings listed for pid"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: ") and f"property={pid} " in line:
                mech = [w for w in line.split() if w.startswith("mechanism=")][0][len("mechanism="):]
                out[mech] = line.split("mechanism=" + mech, 1)[1].strip()
    return out


def libasan():
    return [subprocess.run(["/usr/bin/g++", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip()
            for n in ("libasan.so", "libubsan.so")]


class Worker:
    def __init__(self, n, cfg, cases, env, wall):
        self.n, self.cfg, self.env, self.wall = n, cfg, env, wall
        self.cases = list(cases)
        self.results, self.skipped = [], []
        self.retried = 0
        self.spawn(self.cases)

    def spawn(self, cases):
        self.todo = list(cases)
        self.log = os.path.join(self.cfg["scratch"], f"w{self.n}-{time.time_ns()}.log")
        self.err = self.log + ".err"
        cfg = dict(self.cfg, cases=cases, log=self.log)
        open(self.log, "w").close()
        with open(self.log + ".cfg", "w") as f:
            json.dump(cfg, f)  # a case list can be longer than an argument may be
        self.p = subprocess.Popen([native.PY, "-m", "vf.worker", self.log + ".cfg"], cwd=VERIF, env=self.env,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"),
                                  start_new_session=True)

    def lines(self):
        out = []
        for l in open(self.log):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
        return out

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def poll(self):
        """-> True when finished"""
        rc = self.p.poll()
        if rc is None:
            ls = self.lines()
            if ls and "start" in ls[-1] and time.time() - ls[-1]["t"] > self.wall:
                self.kill()
                if self.once_more(ls):
                    return False
                k, i = ls[-1]["start"]
                self.finish(ls, dict(kind=k, index=i, result="inconclusive",
                                     msg=f"no answer within {self.wall} s of wall time"))
                return self.again(ls)
            return False
        ls = self.lines()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)  # stray children
        except OSError:
            pass
        if ls and ls[-1].get("done"):
            self.finish(ls, None)
            return True
        err = open(self.err, errors="replace").read()
        if ls and "start" in ls[-1]:
            k, i = ls[-1]["start"]
            tail = err[-6000:]
            if "Sanitizer" in err or "runtime error:" in err:
                first = [l for l in err.splitlines() if "ERROR: " in l or "runtime error:" in l][:1]
                bad = dict(kind=k, index=i, result="violation", msg="sanitizer report: " + (first[0] if first else "?"),
                           data={"stderr": tail})
            elif rc == -signal.SIGPROF:
                bad = dict(kind=k, index=i, result="violation", msg="did not terminate within its CPU-time limit", data={})
            elif rc == -signal.SIGKILL:
                if self.once_more(ls):
                    return False
                bad = dict(kind=k, index=i, result="inconclusive", msg="worker was killed from outside (memory?)")
            elif rc < 0:
                bad = dict(kind=k, index=i, result="violation", data={"stderr": tail},
                           msg=f"process died with signal {signal.Signals(-rc).name}")
            else:
                bad = dict(kind=k, index=i, result="error", msg=f"worker exited {rc}\n{tail}")
            self.finish(ls, bad)
            return self.again(ls)
        self.finish(ls, dict(kind="?", index=-1, result="error", msg=f"worker exited {rc} before its first case\n{err[-4000:]}"))
        return True

    def once_more(self, ls):
        """a case without an answer is run once more, in a fresh process: a crowded machine is no answer either"""
        if self.retried or self.wall > 300:
            return False
        self.retried = 1
        self.finish(ls, None)
        self.spawn(self.todo[sum("result" in l or "skipped" in l for l in ls):])
        return True

    def again(self, ls):
        """go on after the case that ended the worker"""
        if sum(r["result"] != "ok" for r in self.results) >= 3:
            return True
        n = sum("result" in l or "skipped" in l for l in ls) + 1
        rest = self.todo[n:]
        if not rest:
            return True
        self.spawn(rest)
        return False

    def finish(self, ls, extra):
        self.results += [l for l in ls if "result" in l] + ([extra] if extra else [])
        self.skipped += [l["skipped"] for l in ls if "skipped" in l]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("vf.checks." + a.id.lower())
    pid = mod.ID
    tier, seed = a.tier, a.seed
    if a.replay:
        r = json.load(open(a.replay))
        tier, seed = r["tier"], r["seed"]
        cases = [(r["kind"], r["index"])]
    elif a.only:
        k, i = a.only.split(":")
        cases = [(k, int(i))]
    else:
        cases = framework.plan_cases(mod, tier)
    flavour = getattr(mod, "FLAVOUR", "plain")
    ndir = native.get(flavour)
    env = native.base_env()
    env["PYTHONPATH"] = VERIF
    if flavour == "asan":
        env["LD_PRELOAD"] = " ".join(libasan())
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    jobs = a.jobs or getattr(mod, "JOBS", 8)
    jobs = max(1, min(jobs, len(cases)))
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    budget = getattr(mod, "BUDGET_S", {"quick": 300, "thorough": 3000})[tier]
    results, skipped = [], []
    try:
        cfg = dict(id=pid, tier=tier, seed=seed, native=ndir, scratch=scratch, deadline=time.time() + budget)
        ws = [Worker(n, cfg, cases[n::jobs], env, getattr(mod, "CASE_WALL_S", 240)) for n in range(jobs)]
        live = list(ws)
        # mutation runs (tools/mutate.py) end with the first violation
        stop = bool(os.environ.get("VF_STOP"))
        try:
            while live:
                time.sleep(0.1)
                live = [w for w in live if not w.poll()]
                if stop and any('"violation"' in open(w.log).read() for w in live if os.path.exists(w.log)):
                    for w in live:
                        w.kill()
                        w.results += [l for l in w.lines() if "result" in l]
                    break
        finally:
            for w in ws:
                if w.p.poll() is None:
                    w.kill()
        for w in ws:
            results += w.results
            skipped += w.skipped
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    extra = {}
    if hasattr(mod, "offline") and not a.only and not a.replay:
        # a further monitor that runs outside of the workers
        extra, more = mod.offline(tier, seed)
        results += more
    return report(mod, pid, tier, seed, cases, results, skipped, extra, t0, bool(a.only or a.replay))


def report(mod, pid, tier, seed, cases, results, skipped, extra, t0, single):
    obs, sigs, samples = {}, set(), []
    listed = known(pid)
    seen_known = {}
    bad, errors, incon = [], [], []
    for r in results:
        for k, v in r.get("obs", {}).items():
            obs[k] = obs.get(k, 0) + v
        sigs.update(r.get("sigs", []))
        if len(samples) < 6:
            samples += [dict(case=f"{r['kind']}:{r['index']}", **s) for s in r.get("samples", [])][:1]
        for f in r.get("findings", []):
            if f["mechanism"] in listed:
                seen_known[f["mechanism"]] = seen_known.get(f["mechanism"], 0) + 1
            else:
                bad.append(dict(r, result="violation", msg=f["msg"], data=f["data"]))
        if r["result"] == "violation":
            bad.append(r)
        elif r["result"] == "error":
            errors.append(r)
        elif r["result"] == "inconclusive":
            incon.append(r)
    kinds = {}
    for r in results:
        kinds[r["kind"]] = kinds.get(r["kind"], 0) + 1
    missing = [e for e in getattr(mod, "MUST_SEE", []) if not obs.get(e)] if not single else []
    absent = obs.get("helpers not found under their name", 0)
    if absent and absent < 0.8 * len(results):
        missing = []  # the cases that call those helpers directly fell away
    cov = dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples[:6] or [dict(cases=kinds)],
               cases_by_kind=kinds, observed=dict(sorted(obs.items())), skipped_for_time=len(skipped), **extra)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    if not single and not os.environ.get("VF_STOP"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    for mech, n in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {listed[mech]} ({n} observed)")
    print(f"{pid} {tier} seed={seed}: {len(results)} cases, {len(sigs)} distinct, {len(skipped)} skipped, "
          f"{len(bad)} violations, {len(incon)} inconclusive, {len(errors)} errors, {ev['wall_s']} s; observed {obs}")
    if bad:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, r in enumerate(bad[:5]):
            rp = os.path.join(rd, f"{pid}-{n}.json")
            json.dump(dict(property=pid, tier=tier, seed=seed, kind=r["kind"], index=r["index"], message=r["msg"],
                           data=r.get("data")), open(rp, "w"), indent=1)
            print(f"  {r['kind']}:{r['index']}: {r['msg']}")
            if r.get("data"):
                print("    " + json.dumps(r["data"])[:1500])
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        print("ERROR of the check:\n" + errors[0]["msg"])
        return 2
    if incon:
        print("INCONCLUSIVE: " + incon[0]["msg"])
        return 3
    if missing:
        print(f"INCONCLUSIVE: never observed {missing}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
