"""Fresh build of the two Cython extensions of /repo's *current* working tree.

Nothing is written under /repo.  The products go to a scratch directory keyed by the
content of every source that takes part (so a stale .so can never be picked up), and
are registered in sys.modules before pystatsm imports them.  `sanitize=True` builds the
same extension with AddressSanitizer + UBSan for the memory-safety facets.
"""
import hashlib, importlib.machinery, importlib.util, os, pathlib, re, shutil, subprocess, sys, sysconfig, tempfile

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
CACHE = pathlib.Path(__file__).resolve().parent.parent / ".cache"
EXTS = ("ordered_indices", "cython_wrappers")


class BuildError(Exception):
    pass


def _sources():
    u = REPO / "pystatsm" / "utilities"
    fs = [REPO / "setup.py"] + sorted(u.glob("*.pyx")) + sorted(u.glob("*.pxd")) + sorted((u / "src").glob("*.[ch]"))
    return [f for f in fs if f.is_file()]


def source_hash():
    h = hashlib.sha256()
    for f in _sources():
        h.update(str(f.relative_to(REPO)).encode() + b"\0" + f.read_bytes() + b"\0")
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def _csources_from_setup():
    """C sources listed for cython_wrappers in setup.py (the set the real build compiles)."""
    txt = (REPO / "setup.py").read_text()
    return sorted(set(re.findall(r'"(pystatsm/utilities/src/[\w]+\.c)"', txt)))


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(map(str, cmd)) + "\n" + p.stdout[-4000:])


def _build_one(name, out, work, sanitize):
    import numpy as np
    u = REPO / "pystatsm" / "utilities"
    c = work / (name + ".c")
    # cython records the source path in comments/tracebacks only; work on a private copy
    _run([sys.executable, "-m", "cython", "-3", "--module-name", "pystatsm.utilities." + name,
          str(u / (name + ".pyx")), "-o", str(c)])
    srcs = [str(c)]
    if name == "cython_wrappers":
        srcs += [str(REPO / s) for s in _csources_from_setup()]
    inc = ["-I" + np.get_include(), "-I" + str(u / "src"), "-I" + sysconfig.get_paths()["include"]]
    base = ["gcc", "-fPIC", "-fwrapv", "-w", "-std=gnu17"] + inc
    opt = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-fno-sanitize-recover=undefined"] if sanitize else ["-O2", "-DNDEBUG"]
    procs = []
    objs = []
    for i, s in enumerate(srcs):
        o = work / f"{name}_{i}.o"
        # sanitizer instrumentation only for the hand-written kernels, not for cython's own glue
        flags = opt if (s != str(c) or not sanitize) else ["-O1"]
        procs.append((s, subprocess.Popen(base + flags + ["-c", s, "-o", str(o)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(str(o))
    for s, p in procs:
        txt, _ = p.communicate()
        if p.returncode:
            raise BuildError(s + "\n" + txt[-4000:])
    tmp = work / (name + ".so")
    _run(["gcc", "-shared"] + (["-fsanitize=address,undefined"] if sanitize else []) + objs + ["-o", str(tmp)])
    os.replace(tmp, out)


def build(sanitize=False):
    """Return {ext name: path of .so} built from the current tree."""
    key = source_hash() + ("-asan" if sanitize else "")
    d = CACHE / ("ext-" + key)
    d.mkdir(parents=True, exist_ok=True)
    res = {}
    for name in EXTS:
        if sanitize and name != "cython_wrappers":
            continue
        out = d / (name + ".so")
        if not out.exists():
            work = pathlib.Path(tempfile.mkdtemp(prefix="b-", dir=d))
            try:
                _build_one(name, out, work, sanitize)
            finally:
                shutil.rmtree(work, ignore_errors=True)
        res[name] = str(out)
    # keep the cache small: drop other keys
    for other in CACHE.glob("ext-*"):
        if source_hash() not in other.name:
            shutil.rmtree(other, ignore_errors=True)
    return res


class _Finder:
    """Meta-path finder that serves the freshly built extensions under their real names."""
    def __init__(self, paths):
        self.paths = {"pystatsm.utilities." + k: v for k, v in paths.items()}

    def find_spec(self, name, path=None, target=None):
        if name in self.paths:
            p = self.paths[name]
            loader = importlib.machinery.ExtensionFileLoader(name, p)
            return importlib.util.spec_from_file_location(name, p, loader=loader)
        return None


def install(paths):
    """Make `import pystatsm` use /repo's sources and the fresh extensions."""
    sys.path.insert(0, str(REPO))
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(paths))
    import pystatsm
    if not pystatsm.__file__.startswith(str(REPO) + "/"):
        raise BuildError("pystatsm imported from " + pystatsm.__file__)
