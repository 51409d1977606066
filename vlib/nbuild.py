"""Keep the native extensions of /repo in step with its working tree.

The extensions are built in place (git-ignored files of /repo only), with the
same steps as the project's own build, and only when the recorded checksums of
the native sources differ from the current ones or a binary is missing."""
import fcntl, glob, hashlib, os, subprocess, sys, sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
SUF = sysconfig.get_config_var("EXT_SUFFIX")
EXT_MODULES = {
    "disco_helpers": "disco_helpers" + SUF,
    "attention_helpers": "attention_helpers" + SUF,
    "torch_harmonics.disco._C": "torch_harmonics/disco/_C" + SUF,
    "torch_harmonics.attention._C": "torch_harmonics/attention/_C" + SUF,
}


def native_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "torch_harmonics")):
        for f in files:
            if f.endswith((".cpp", ".h", ".cc", ".hpp")):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


def sums():
    d = {}
    for f in native_sources():
        with open(os.path.join(REPO, f), "rb") as fh:
            d[f] = hashlib.sha256(fh.read()).hexdigest()
    return d


def recorded():
    d = {}
    try:
        with open(os.path.join(REPO, "build/.sources.sha256")) as fh:
            for line in fh:
                h, f = line.rstrip("\n").split("  ", 1)
                d[f] = h
    except (OSError, ValueError):
        return None
    return d


def binaries_present():
    return all(os.path.exists(os.path.join(REPO, p)) for p in EXT_MODULES.values())


def build_env():
    e = dict(os.environ)
    e.update(SETUPTOOLS_SCM_PRETEND_VERSION="0.9.3", MAX_JOBS="8", USE_NINJA="1", CUDA_VISIBLE_DEVICES="",
             OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1")
    e.pop("PYTHONPATH", None)
    e.pop("PYTHONWARNINGS", None)
    e.pop("TORCHDYNAMO_DISABLE", None)
    return e


class BuildError(Exception):
    pass


def ensure(verbose=True):
    """Bring /repo's in-place extensions up to date; returns what was done."""
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    with open(os.path.join(REPO, "build/.verif.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cur, rec = sums(), recorded()
        if rec == cur and binaries_present():
            return "current"
        if verbose:
            print("building native extensions from /repo's working tree ...", flush=True)
        if rec is not None:
            for f, h in cur.items():
                if rec.get(f) != h:
                    os.utime(os.path.join(REPO, f))
            for f in rec:
                if f not in cur:  # a removed header: rebuild everything that could include it
                    for g in cur:
                        os.utime(os.path.join(REPO, g))
                    break
        log = os.path.join(REPO, "build/verif_build.log")
        with open(log, "w") as fh:
            rc = subprocess.call([PY, "setup.py", "build_ext", "--inplace"], cwd=REPO, env=build_env(), stdout=fh, stderr=subprocess.STDOUT)
        if rc != 0:
            for p in EXT_MODULES.values():
                try:
                    os.remove(os.path.join(REPO, p))
                except OSError:
                    pass
            with open(log) as fh:
                raise BuildError("native extensions do not build:\n" + fh.read()[-4000:])
        with open(os.path.join(REPO, "build/.sources.sha256"), "w") as fh:
            for f in sorted(cur):
                fh.write(f"{cur[f]}  {f}\n")
        return "rebuilt"
