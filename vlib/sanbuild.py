"""Instrumented builds of the project's native code, and re-execution of a check under the sanitizer's runtime.

The four extension modules are compiled from /repo's working tree into a scratch directory outside it (removed at the end), with the
sanitizer's instrumentation, and a finder placed in front of Python's own makes `import` use those instead of the normal binaries."""
import atexit, glob, importlib.machinery, importlib.util, os, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import nbuild

REPO = nbuild.REPO
SUF = nbuild.SUF
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fsanitize-recover=all"]
TSAN = ["-O1", "-fsanitize=thread", "-fopenmp"]


def units():
    o = os.path.join(REPO, "torch_harmonics")
    out = {}
    for pkg in ("disco", "attention"):
        b = os.path.join(o, pkg, "optimized")
        cpp = sorted(f for f in glob.glob(b + "/**/*.cpp", recursive=True) if "/kernels_cuda/" not in f)
        helpers = [f for f in cpp if os.path.basename(f) == pkg + "_helpers.cpp"]
        out[pkg + "_helpers"] = helpers
        out[f"torch_harmonics.{pkg}._C"] = [f for f in cpp if f not in helpers]
    return out


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise nbuild.BuildError("instrumented build failed: " + " ".join(cmd)[:300] + "\n" + r.stdout[-3000:])
    return r.stdout


def build(dst, flags, link=(), extra=()):
    """compile and link every module in parallel; `extra`: further objects linked into the _C modules"""
    import torch

    t = os.path.dirname(torch.__file__)
    inc = [f"-I{t}/include", f"-I{t}/include/torch/csrc/api/include", "-I" + sysconfig.get_paths()["include"]]
    base = ["g++", "-std=c++20", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-w", "-DTORCH_API_INCLUDE_EXTENSION_H", "-DBUILD_CPP=1", "-DBUILD_CUDA=0", "-DBUILD_KPACKED_SM90=0", "-DBUILD_KPACKED_SM100=0"] + list(flags) + inc
    U = units()
    jobs = []
    for mod, srcs in U.items():
        for i, s in enumerate(srcs):
            jobs.append((mod, s, os.path.join(dst, f"{mod}.{i}.o")))
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(base + ["-DTORCH_EXTENSION_NAME=" + j[0].split(".")[-1], "-c", j[1], "-o", j[2]]), jobs))

        def lk(mod):
            objs = [o for m, _, o in jobs if m == mod]
            sh(["g++", "-shared", "-o", os.path.join(dst, mod + SUF)] + objs + (list(extra) if mod.endswith("_C") else []) + [f for f in flags if f.startswith("-fsanitize")] + list(link) + [f"-L{t}/lib", "-lc10", "-ltorch", "-ltorch_cpu", "-ltorch_python", f"-Wl,-rpath,{t}/lib"])

        list(ex.map(lk, U))
    for _, _, o in jobs:
        os.remove(o)


class Finder:
    def __init__(self, dst):
        self.dst = dst
        self.used = set()

    def find_spec(self, name, path=None, target=None):
        if name in nbuild.EXT_MODULES:
            f = os.path.join(self.dst, name + SUF)
            self.used.add(name)
            return importlib.util.spec_from_file_location(name, f, loader=importlib.machinery.ExtensionFileLoader(name, f))
        return None


def lib(n):
    p = subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.realpath(p)


CANARY = """
extern "C" float canary_read(const float *p, long n) { float s = 0; for (long i = 0; i < n; i++) s += p[i]; return s; }
extern "C" int canary_overflow(int x) { return x + 2147483647; }
extern "C" void canary_add(long *p) { for (int i = 0; i < 1000; i++) *p += 1; }
"""


def canary(dst, flags):
    """a tiny library with known faults, to show in every run that the detectors are alive"""
    src = os.path.join(dst, "canary.cpp")
    with open(src, "w") as fh:
        fh.write(CANARY)
    sh(["g++", "-shared", "-fPIC", "-g1"] + list(flags) + [src, "-o", os.path.join(dst, "canary.so")])


def enter(kind, flags, preload, env, make_extra=None, link=()):
    """First pass: build and re-run this very command under the sanitizer runtime. Second pass: load the instrumented modules."""
    d = os.environ.get("VERIF_SAN")
    if d is None:
        d = tempfile.mkdtemp(prefix=f"verif-{kind}-")
        try:
            extra = make_extra(d) if make_extra else ()
            build(d, flags, link, extra)
            canary(d, flags)
        except BaseException:
            shutil.rmtree(d, ignore_errors=True)
            raise
        e = dict(os.environ, VERIF_SAN=d, LD_PRELOAD=" ".join(lib(x) for x in preload), **{k: v.replace("@", d) for k, v in env.items()})
        sys.stdout.flush()
        rc = subprocess.call([sys.executable, "-m", "vlib.run"] + sys.argv[1:], env=e)
        shutil.rmtree(d, ignore_errors=True)
        sys.exit(rc if rc >= 0 else 2)
    f = Finder(d)
    sys.meta_path.insert(0, f)
    os.environ.pop("LD_PRELOAD", None)
    import torch_harmonics  # noqa
    import disco_helpers, attention_helpers  # noqa

    if f.used != set(nbuild.EXT_MODULES):
        raise RuntimeError(f"instrumented modules not in use: {set(nbuild.EXT_MODULES) - f.used}")
    return d


def brief(log, limit=1800):
    """headline of every report and its frames in the project's sources"""
    out = []
    for l in log.splitlines():
        if "runtime error" in l or "ERROR: " in l or "WARNING: " in l or "located" in l or "of size" in l or ("torch_harmonics/" in l and "#" in l):
            l = l[:110] + " ... " + l[-90:] if len(l) > 210 else l
            out.append(l.strip())
    return "\n".join(out)[:limit] or log[:limit]


class Log:
    """this process's sanitizer log; `new()` returns what was added since the last look"""

    def __init__(self, prefix):
        self.prefix, self.pos = prefix, {}

    def redirect(self):
        """send this process's standard error (where the sanitizer runtimes write) to its own file"""
        fd = os.open(f"{self.prefix}.{os.getpid()}", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(fd, 2)
        os.close(fd)

    def new(self):
        p = f"{self.prefix}.{os.getpid()}"
        if not os.path.exists(p):
            return ""
        with open(p, errors="replace") as fh:
            fh.seek(self.pos.get(p, 0))
            s = fh.read()
            self.pos[p] = fh.tell()
        return s
