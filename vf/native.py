"""Builds pyEdgeEval's two native extensions from /repo's current tree, outside /repo.

Flavours:
  plain  the flags setup.py uses (what users run)
  asan   -fsanitize=address,undefined with the C++ assertions on (-UNDEBUG)
The build is keyed by the contents of everything it is made of, so a changed
source is always rebuilt.  When /repo already holds extensions built by
/opt/vp/build.sh from exactly these contents, `plain` uses those.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CACHE = os.path.join(VERIF, ".cache", "native")
EXT = sysconfig.get_config_var("EXT_SUFFIX") or ".so"
MODS = ("correspond_pixels", "nms")

FLAGS = {
    "plain": ("", ""),
    "asan": ("-UNDEBUG -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr",
             "-fsanitize=address,undefined"),
}


def base_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", CC="/usr/bin/gcc", CXX="/usr/bin/g++", PIP_NO_INDEX="1")
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


def _stamp_hash():
    """The hash /opt/vp/build.sh stamps its products with."""
    cmd = r"""cd "$1" && { find pyEdgeEval/_lib -type f \( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.cc' -o -name '*.h' -o -name '*.hh' \)
         ls setup.py pyproject.toml setup.cfg MANIFEST.in 2>/dev/null || true; } | LC_ALL=C sort | xargs -r -d '\n' sha256sum | sha256sum"""
    return subprocess.run(["bash", "-c", cmd, "x", REPO], capture_output=True, text=True, check=True).stdout.strip()


def _native_files():
    out = []
    lib = os.path.join(REPO, "pyEdgeEval", "_lib")
    for d, dn, fn in os.walk(lib):
        for f in fn:
            if f.endswith((".so", ".pyc", ".o")) or f in ("correspond_pixels.cpp", "nms.cpp"):
                continue
            out.append(os.path.relpath(os.path.join(d, f), REPO))
    for f in ("setup.py", "pyproject.toml", "setup.cfg", "MANIFEST.in", "README.md", "requirements.txt",
              "pyEdgeEval/__init__.py", "pyEdgeEval/info.py"):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return sorted(set(out))


def get(flavour="plain"):
    """Directory that holds correspond_pixels*.so and nms*.so of that flavour."""
    if flavour == "plain":
        stamp = os.path.join(REPO, "build", ".vp-ext-hash")
        lib = os.path.join(REPO, "pyEdgeEval", "_lib")
        if os.path.exists(stamp) and all(glob.glob(f"{lib}/{m}*.so") for m in MODS):
            if open(stamp).read().strip() == _stamp_hash():
                return lib
    files = _native_files()
    h = hashlib.sha256(repr(FLAGS[flavour]).encode())
    for f in files:
        h.update(f.encode() + b"\0" + open(os.path.join(REPO, f), "rb").read())
    key = f"{flavour}-{h.hexdigest()[:20]}"
    dest = os.path.join(CACHE, key)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.isdir(dest):
            return dest
        tmp = tempfile.mkdtemp(prefix="vf-native-")
        try:
            for f in files:
                os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
                shutil.copy(os.path.join(REPO, f), os.path.join(tmp, f))
            # setup.py may look for packages
            env = base_env()
            cf, lf = FLAGS[flavour]
            env["CFLAGS"] = (env.get("CFLAGS", "") + " " + cf).strip()
            env["CXXFLAGS"] = cf
            env["LDFLAGS"] = (env.get("LDFLAGS", "") + " " + lf).strip()
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=tmp, env=env,
                               capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-3000:] + r.stderr[-6000:])
                raise RuntimeError(f"native build ({flavour}) failed")
            stage = dest + ".tmp"
            shutil.rmtree(stage, ignore_errors=True)
            os.makedirs(stage)
            for m in MODS:
                so = glob.glob(f"{tmp}/pyEdgeEval/_lib/{m}*.so")
                assert so, f"no {m} extension was built"
                shutil.copy(so[0], stage)
            os.rename(stage, dest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dest


class _Finder:
    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery, importlib.util
        pre = "pyEdgeEval._lib."
        if name.startswith(pre) and name[len(pre):] in MODS:
            so = sorted(glob.glob(f"{self.d}/{name[len(pre):]}*.so"))[0]
            from vf import probe

            class Loader(importlib.machinery.ExtensionFileLoader):
                def exec_module(self, module):
                    super().exec_module(module)
                    if hasattr(module, "correspond_pixels"):
                        module.correspond_pixels = probe.wrap(module.correspond_pixels)

            return importlib.util.spec_from_file_location(name, so, loader=Loader(name, so))
        return None


def install(native_dir):
    """Import pyEdgeEval from REPO with the extensions of native_dir."""
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(native_dir))


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        print(fl, get(fl))
