"""python -m vlib.run <property> [quick|thorough] [--seed N] [--replay FILE] [--jobs N] [--limit N]"""
import argparse, collections, glob, importlib, json, os, sys, time

from . import core, nbuild

HERE = core.HERE


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(known, res, case):
    for k in known:
        if k["key"] == res.get("key") and all(case.get(a) == b for a, b in k.get("when", {}).items()):
            return k
    return None


def find_module(prop):
    c = glob.glob(os.path.join(HERE, "checks", f"{prop}_*.py"))
    if len(c) != 1:
        raise SystemExit(f"no check for {prop}")
    return "checks." + os.path.basename(c[0])[:-3]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property

    try:
        built = nbuild.ensure()
    except nbuild.BuildError as e:
        print(e)
        print(f"ERROR property={prop}: cannot build /repo's working tree")
        return 2

    sys.path.insert(0, HERE)
    try:
        mod = importlib.import_module(find_module(prop))
        if hasattr(mod, "prepare"):
            mod.prepare(a.tier)
    except Exception:
        import traceback

        traceback.print_exc()
        print(f"ERROR property={prop}: the check could not start")
        return 2

    import torch_harmonics

    assert os.path.realpath(torch_harmonics.__file__).startswith(os.path.realpath(nbuild.REPO) + "/"), torch_harmonics.__file__

    if a.replay:
        case = json.load(open(a.replay))["case"]
        import torch

        torch.set_num_threads(1)
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        res = core.run_one(mod, case)
        print(json.dumps({k: v for k, v in res.items() if k != "keys"}, indent=1))
        if res["status"] == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if res["status"] == "ok" else 2

    known = load_known(prop)
    rng = core.rng_for(prop, a.tier, a.seed)
    cases = []
    seen = set()
    for _ in range(getattr(mod, "ROUNDS", 1) if a.tier == "quick" else 1):
        for c in mod.cases(rng, a.tier):
            cid = core.case_id(c)
            if cid not in seen:
                seen.add(cid)
                cases.append(c)
    if a.limit:
        cases = cases[: a.limit]

    stat = collections.Counter()
    events, worst, keys = collections.Counter(), {}, set()
    samples, violations, knownhit, problems, crashes = [], [], {}, [], []
    walls = []

    def on_result(i, case, res):
        stat[res["status"]] += 1
        walls.append((res["wall"], case))
        events.update(res["events"])
        keys.update(res["keys"])
        for k, v in res["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        if res["status"] == "ok" and len(samples) < 6:
            samples.append({"case": case, "observed": res["events"]})
        if res["status"] == "violation":
            k = match_known(known, res, case)
            if k is not None:
                knownhit.setdefault(k["id"], (k, case, res))
            else:
                violations.append((case, res))
                if a.v or a.keep_going:
                    print("violation:", json.dumps(case), res["msg"], "key=" + res.get("key", ""), flush=True)
        elif res["status"] == "crash":
            crashes.append((case, res))
        elif res["status"] in ("inconclusive", "timeout"):
            problems.append((case, res))
            if a.v:
                print(res["status"], json.dumps(case), res["msg"], res.get("trace", ""), flush=True)

    jobs = a.jobs or min(getattr(mod, "JOBS", 8), os.cpu_count() or 1)
    pool = core.Pool(mod, jobs, threads=getattr(mod, "THREADS", 1))
    pool.run(cases, getattr(mod, "CASE_TIMEOUT", 400), on_result, lambda: (bool(violations) or len(crashes) >= 3) and not a.keep_going)

    # a process that died: run its case again, alone, to tell a native crash from a stray kill
    for case, res in crashes:
        again = []
        p2 = core.Pool(mod, 1, threads=getattr(mod, "THREADS", 1))
        p2.run([case] * 2, getattr(mod, "CASE_TIMEOUT", 400), lambda i, c, r: again.append(r), lambda: False)
        if res["signal"] in (4, 6, 7, 8, 11) and any(r["status"] == "crash" for r in again):
            res = dict(res, status="violation", key=f"crash:signal{res['signal']}", msg=f"the process was killed by signal {res['signal']} while running the case (reproduced)", detail={})
            violations.append((case, res))
        elif res["signal"] == 0 and res["exit"] not in (None, 0, 99) and any(r["status"] == "crash" and r.get("exit") == res["exit"] for r in again):
            res = dict(res, status="violation", key=f"exit:{res['exit']}", msg=f"the process was ended with exit code {res['exit']} by the code under test (reproduced)", detail={})
            violations.append((case, res))
        elif any(r["status"] == "violation" for r in again):
            violations.append((case, [r for r in again if r["status"] == "violation"][0]))
        else:
            problems.append((case, res))

    # extra verdicts over the whole run (aggregates)
    if hasattr(mod, "finish") and not violations:
        r = mod.finish(events, keys)
        if r:
            problems.append(({}, {"status": "inconclusive", "msg": r}))

    need = getattr(mod, "REQUIRED_EVENTS", [])
    missing = [n for n in need if not events.get(n)] if not a.limit else []
    if hasattr(mod, "cleanup"):
        mod.cleanup()

    replay = None
    if violations:
        case, res = violations[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", f"{prop}-{core.case_id(case)}.json")
        with open(replay, "w") as fh:
            json.dump({"property": prop, "seed": a.seed, "tier": a.tier, "case": case, "result": res}, fh, indent=1, default=str)

    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(sum(stat.values())),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples,
            "monitor_events": dict(sorted(events.items())),
            "worst_error_over_tolerance": {k: round(v, 6) for k, v in sorted(worst.items())},
            "verdicts": dict(stat),
            "known_findings_seen": sorted(knownhit),
            "native_build": built,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)

    print(f"{prop} {a.tier} seed={a.seed}: {dict(stat)}; {len(keys)} distinct situations; monitor events {sum(events.values())}; {time.time()-t0:.1f} s")
    if a.v:
        print(" worst error/tolerance:", {k: round(v, 4) for k, v in sorted(worst.items())})
        print(" events:", dict(events))
        walls.sort(key=lambda x: -x[0])
        for w, c in walls[:3]:
            print(f" slow: {w:.1f}s {json.dumps(c)}")
    for kid, (k, case, res) in sorted(knownhit.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        case, res = violations[0]
        print("case:", json.dumps(case))
        print("observed:", res["msg"])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if problems or missing:
        for case, res in problems[:5]:
            print("INCONCLUSIVE:", res["status"], json.dumps(case), res["msg"], res.get("trace", ""))
        if missing:
            print("INCONCLUSIVE: monitors that never fired:", missing)
        print(f"ERROR property={prop}: no verdict")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
