"""Planted bugs: author (add), confirm in a scratch copy (verify), and run checks against the copy (hunt).

python3 tools/seed.py verify [ids...]     builds, stable tests, demo with and without the change
python3 tools/seed.py hunt [ids...] [--props C01,C02] [--all]
"""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="",
           OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", SETUPTOOLS_SCM_PRETEND_VERSION="0.9.3", MAX_JOBS="4", USE_NINJA="1", PIP_NO_INDEX="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def add(id, prop, edits, demo, needs, breaks):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="seedadd") as t:
        for f in {e[0] for e in edits}:
            for side in "ab":
                os.makedirs(os.path.dirname(os.path.join(t, side, f)), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), os.path.join(t, side, f))
        for f, old, new in edits:
            p = os.path.join(t, "b", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write('#!/bin/bash\n# exits 0 when the property holds on this input, nonzero otherwise\nexport CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def copy_of(id):
    c = f"/tmp/seedw/{id}"
    if os.path.exists(c):
        shutil.rmtree(c)
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", c])
    r = sh(["git", "-C", c, "apply", os.path.join(SEEDED, id, "patch.diff")])
    if r.returncode:
        shutil.rmtree(c)
        raise RuntimeError("patch does not apply: " + r.stdout)
    return c


def build(c):
    env = dict(ENV, VERIF_REPO=c, PYTHONPATH=HERE)
    return sh([sys.executable if "venv" in sys.executable else "/opt/venv/bin/python", "-c", "from vlib import nbuild; print(nbuild.ensure())"], env=env, cwd=HERE)


def verify(id, tests=True):
    c = copy_of(id)
    out = []
    try:
        b = build(c)
        if b.returncode:
            return id, False, "BUILD " + b.stdout[-1500:]
        env = dict(ENV, PYTHONPATH=c)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if tests:
            with tempfile.TemporaryDirectory(prefix="seedt") as w:
                env2 = dict(env, TORCHINDUCTOR_CACHE_DIR=w + "/i", TRITON_CACHE_DIR=w + "/t", TMPDIR=w)
                r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "--continue-on-collection-errors", "--ignore-glob=**/test_distributed_*", "-o", "junit_family=xunit2", "--junitxml=" + w + "/j.xml", "tests"], cwd=c, env=env2)
                ok = set()
                for t in ET.parse(w + "/j.xml").getroot().iter("testcase"):
                    if t.find("skipped") is None and t.find("failure") is None and t.find("error") is None:
                        ok.add(t.get("classname") + "::" + t.get("name"))
                bad = sorted(base - ok)
                if bad:
                    return id, False, f"TESTS fail: {len(bad)} {bad[:6]}"
        d = os.path.join(SEEDED, id, "demo.sh")
        w = sh(["timeout", "300", "bash", d], cwd=c, env=env)
        o = sh(["timeout", "300", "bash", d], cwd="/repo", env=dict(ENV, PYTHONPATH=""))
        if w.returncode == 0:
            out.append("DEMO passes with the bug: " + w.stdout[-800:])
        if o.returncode != 0:
            out.append("DEMO fails without the bug: " + o.stdout[-800:])
        return id, not out, "; ".join(out) or "ok (demo: " + w.stdout.strip().splitlines()[-1][:120] + ")" if w.stdout.strip() else "; ".join(out) or "ok"
    finally:
        shutil.rmtree(c, ignore_errors=True)


def hunt(id, props, tier="quick"):
    c = copy_of(id)
    try:
        res = {}
        for p in props:
            r = sh(["timeout", "900", os.path.join(HERE, "bin/check"), p, tier], env=dict(os.environ, VERIF_REPO=c), cwd=HERE)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            o = [l for l in r.stdout.splitlines() if l.startswith("observed")]
            res[p] = "CAUGHT " + (o[0][:150] if o else "") if r.returncode == 1 and v else ("quiet" if r.returncode == 0 else f"rc={r.returncode} " + r.stdout[-300:])
        return id, res
    finally:
        shutil.rmtree(c, ignore_errors=True)


def all_ids():
    return sorted(d for d in os.listdir(SEEDED) if os.path.exists(os.path.join(SEEDED, d, "patch.diff")))


if __name__ == "__main__":
    a = sys.argv[1:]
    cmd = a.pop(0)
    props = None
    tier = "quick"
    if "--props" in a:
        i = a.index("--props")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    if "--thorough" in a:
        a.remove("--thorough")
        tier = "thorough"
    if "--all" in a:
        a.remove("--all")
        props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    ids = a or all_ids()
    if cmd == "verify":
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(verify, ids):
                print(r, flush=True)
    elif cmd == "hunt":
        for i in ids:
            ps = props or [json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]]
            print(*hunt(i, ps, tier), flush=True)
