"""One worker process: runs its share of the cases of one check."""
import importlib, json, os, resource, signal, sys, time


def main():
    cfg = json.load(open(sys.argv[1]))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vf import native, framework
    native.install(cfg["native"])
    log = open(cfg["log"], "a", buffering=1)
    # what the code prints is not ours
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if os.environ.get("VF_COV"):
        from vf import cov
        cov.start()
    mod = importlib.import_module("vf.checks." + cfg["id"].lower())
    cpu = getattr(mod, "CASE_CPU_S", 150)
    if hasattr(mod, "setup"):
        mod.setup(cfg["tier"])
    for kind, i in cfg["cases"]:
        if time.time() > cfg["deadline"]:
            log.write(json.dumps(dict(skipped=[kind, i])) + "\n")
            continue
        log.write(json.dumps(dict(start=[kind, i], t=time.time())) + "\n")
        # CPU time, not wall time: a case that burns it all does not terminate
        signal.setitimer(signal.ITIMER_PROF, cpu)
        out = framework.run_case(mod, kind, i, cfg["seed"], cfg["tier"], cfg["scratch"])
        signal.setitimer(signal.ITIMER_PROF, 0)
        log.write(json.dumps(out) + "\n")
    log.write(json.dumps(dict(done=True)) + "\n")
    log.close()
    if os.environ.get("VF_COV"):
        cov.dump()
    os._exit(0)


main()
