"""Workload driver, monitor context and verdicts.

A check module (vf/checks/cNN.py) defines
    ID, RULE, PLAN = {"quick": [(kind, count), ...], "thorough": [...]}
    FLAVOUR = "plain" | "asan"     (optional)
    def case_<kind>(ctx, i): ...   drives the real code; reports to ctx
Every case gets its own random generator derived from (VERIF_SEED, check, kind,
index), so any case replays alone.  Cases are spread over worker processes; the
parent watches the workers for signals, sanitizer reports and CPU-time limits.
"""
import json, os, signal, sys, time, traceback, types, zlib

REPO = os.environ.get("VF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, /, **data):
        super().__init__(msg)
        self.msg, self.data = msg, data


class Inconclusive(Exception):
    pass


def jsonable(o, depth=0):
    import numpy as np
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"shape": list(o.shape), "dtype": str(o.dtype), "nonzero": int(np.count_nonzero(o))}
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o if not isinstance(o, str) else o[:2000]
    return repr(o)[:500]


class Ctx:
    """The monitor: counts what it observed and raises on what must not happen."""

    def __init__(self, check, kind, index, seed, tier, scratch):
        import numpy as np
        self.check, self.kind, self.index, self.seed, self.tier = check, kind, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(check.encode()), zlib.crc32(kind.encode()), index])
        self.scratch = scratch
        self.obs = {}
        self.sigs = []
        self.samples = []
        self.findings = []
        self._n = 0

    def tmp(self):
        self._n += 1
        d = os.path.join(self.scratch, f"{self.kind}-{self.index}-{self._n}")
        os.makedirs(d)
        return d

    def see(self, event, n=1):
        """an event was observed by the monitor"""
        self.obs[event] = self.obs.get(event, 0) + n

    def sig(self, *parts):
        """signature of a distinct, non-trivial case"""
        self.sigs.append(zlib.crc32(repr(parts).encode()))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def require(self, cond, msg, /, **data):
        self.obs["assertions"] = self.obs.get("assertions", 0) + 1
        if not cond:
            raise Violation(msg, **data)

    def equal(self, got, want, msg, /, **data):
        import numpy as np
        self.obs["assertions"] = self.obs.get("assertions", 0) + 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}", **data)
        if not np.array_equal(got, want):
            bad = np.argwhere(got != want)
            k = tuple(bad[0]) if len(bad) else ()
            raise Violation(f"{msg}: {len(bad)} of {got.size} values differ, first at {tuple(int(v) for v in k)}: "
                            f"{got[k]!r} instead of {want[k]!r}", **data)

    def close(self, got, want, msg, /, tol=1e-9, **data):
        import numpy as np
        self.obs["assertions"] = self.obs.get("assertions", 0) + 1
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}", **data)
        ok = np.abs(got - want) <= tol
        if not np.all(ok):
            k = tuple(np.argwhere(~ok)[0])
            raise Violation(f"{msg}: {got[k]!r} instead of {want[k]!r} at {tuple(int(v) for v in k)}", **data)

    def raises(self, exc, fn, msg, /, **data):
        self.obs["assertions"] = self.obs.get("assertions", 0) + 1
        try:
            fn()
        except exc:
            return
        except Violation:
            raise
        except BaseException as e:
            raise Violation(f"{msg}: raised {type(e).__name__}({e}) instead of {exc}", **data)
        raise Violation(f"{msg}: accepted", **data)

    def finding(self, mechanism, msg, /, **data):
        """a violation classified by mechanism; the parent decides whether it is a listed one"""
        self.findings.append(dict(mechanism=mechanism, msg=msg, data=jsonable(data)))


def in_repo(tb):
    for fr in traceback.extract_tb(tb):
        fn = fr.filename
        if fn.startswith(REPO + "/") or fn.startswith("pyEdgeEval/") or "/pyEdgeEval/_lib/" in fn:
            return True
    return False


def remote_in_repo(exc):
    """exceptions of pool workers carry their traceback as text"""
    seen = set()
    e = exc
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if REPO + "/pyEdgeEval" in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def renamed(e):
    """the check asks for a helper that a module of the library has under another name now (what packages export and `__all__` keep their
    names: asking for those is what users do)"""
    name, owner = getattr(e, "name", None), None
    if isinstance(e, ImportError) and "cannot import name" in str(e):
        owner, name = sys.modules.get(str(e.name)), (str(e).split("'") + ["", ""])[1]
    elif isinstance(e, AttributeError) and isinstance(e.obj, types.ModuleType):
        owner = e.obj
    if owner is None or not owner.__name__.startswith("pyEdgeEval.") or hasattr(owner, "__path__"):
        return False
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return os.path.join("vf", "") in tb.tb_frame.f_code.co_filename and name not in getattr(owner, "__all__", ())


def run_case(mod, kind, index, seed, tier, scratch):
    """-> dict(result='ok'|'violation'|'error'|'inconclusive', ...)"""
    ctx = Ctx(mod.ID, kind, index, seed, tier, scratch)
    out = dict(kind=kind, index=index, result="ok")
    t0 = time.time()
    try:
        getattr(mod, "case_" + kind)(ctx, index)
    except Violation as v:
        out.update(result="violation", msg=v.msg, data=jsonable(v.data))
    except Inconclusive as v:
        out.update(result="inconclusive", msg=str(v))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        if renamed(e):
            ctx.see("helpers not found under their name")
        elif in_repo(e.__traceback__) or (remote_in_repo(e) and not isinstance(e, ImportError)):
            out.update(result="violation", msg=f"raised {type(e).__name__}: {str(e)[:300]} on a valid input",
                       data={"traceback": tb[-3000:]})
        elif isinstance(e, (FileNotFoundError, IndexError, KeyError, ValueError)):
            # the monitor cannot interpret what the code produced: a missing file, an array of another shape, ...
            out.update(result="violation", msg=f"unusable result: {type(e).__name__}: {str(e)[:300]}", data={"traceback": tb[-3000:]})
        else:
            out.update(result="error", msg=tb[-4000:])
    out.update(obs=ctx.obs, sigs=ctx.sigs, samples=ctx.samples, findings=ctx.findings, wall=round(time.time() - t0, 3))
    return out


def plan_cases(mod, tier):
    cases = []
    for kind, count in mod.PLAN[tier]:
        cases += [(kind, i) for i in range(count)]
    return cases
