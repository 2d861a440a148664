"""Runs the check of one property: seeded search, shrinking, replay, evidence.

usage: run.py CID [--tier quick|thorough] [--seed N] [--n COUNT] [--jobs J] [--from I]
       run.py --replay FILE
"""
import argparse
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
perf = time.perf_counter     # the simulator replaces time.* for code under test only


def load(cid):
    sys.path.insert(0, ROOT)
    from dst import env       # noqa: F401  pylint: disable=unused-import
    return importlib.import_module("dst.props." + cid.lower())


def canon(s):
    return json.loads(json.dumps(s))


def scenario(P, cid, seed, tier, i):
    return canon(P.gen(random.Random("%s/%s/%d" % (seed, cid, i)), tier))


SCEN_ALARM = 60.0


def _alarm(signum, frame):
    from dst.world import SimHang
    raise SimHang()


def execute(P, s):
    """Run one scenario; returns Res or raises (harness error)."""
    from dst.world import SimHang
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, SCEN_ALARM)
    try:
        try:
            R = P.run(s)
        except SimHang:
            from dst.base import Res
            R = Res()
            R.V("hang", "no end within %d s" % SCEN_ALARM)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        from dst import simos
        simos.set_world(None)
    return R


_P = None
_ARGS = None


def work(i):
    cid, seed, tier = _ARGS
    try:
        s = scenario(_P, cid, seed, tier, i)
        R = execute(_P, s)
        again = None
        if i % 61 == 0:
            again = execute(_P, scenario(_P, cid, seed, tier, i)).hash.hexdigest()
    except BaseException as e:      # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"i": i, "harness": traceback.format_exc()[-3000:]}
    gc.collect() if i % 16 == 0 else None
    return {"i": i, "viol": R.violations, "runs": R.runs, "simtime": R.simtime, "ops": R.ops, "fired": R.fired,
            "states": R.states, "probes": R.probes, "hash": R.hash.hexdigest(), "again": again, "nontrivial": R.nontrivial}


# ------------------------------------------------------------------ shrinking
def variants(x):
    """Smaller versions of a JSON value."""
    if isinstance(x, list):
        n = len(x)
        if n > 3:
            yield x[:n // 2]
            yield x[n // 2:]
        for i in range(n):
            yield x[:i] + x[i + 1:]
        for i in range(n):
            for v in variants(x[i]):
                yield x[:i] + [v] + x[i + 1:]
    elif isinstance(x, dict):
        for k in list(x):
            if k in ("files", "src", "meta") and isinstance(x[k], dict):
                for p in list(x[k]):
                    d = dict(x[k])
                    del d[p]
                    y = dict(x)
                    y[k] = d
                    yield y
                    if k != "meta":
                        m = re.match(r"(\d+):(\d+)$", str(x[k][p]))
                        if m and int(m.group(2)) > 1:
                            d = dict(x[k])
                            d[p] = "%s:1" % m.group(1)
                            y = dict(x)
                            y[k] = d
                            yield y
            elif k == "cfg":
                for ck, dv in (("backend", "local"), ("norm", "uri"), ("fd", True), ("dedupe", True), ("cd", "content"),
                               ("fixity", None), ("alg", "sha512"), ("spec", "1.1"), ("id", "x:a")):
                    if x[k].get(ck) != dv and ck in x[k]:
                        y = dict(x)
                        y[k] = dict(x[k], **{ck: dv})
                        yield y
            elif k == "order" and x[k] not in (0, None):
                yield dict(x, order=0)
            elif k in ("steps", "versions", "edits", "faults", "muts", "ops", "sched", "points", "clients", "objects", "files_list"):
                for v in variants(x[k]):
                    y = dict(x)
                    y[k] = v
                    yield y
            elif k in ("plan",):
                for v in variants(x[k]):
                    yield dict(x, plan=v)


def shrink(P, s, cls, budget=400, secs=45.0):
    """Greedy minimisation keeping the violation class."""
    t0 = perf()
    used = 0

    def bad(c):
        try:
            return [v for v in execute(P, c).violations if v["cls"] == cls]
        except BaseException as e:      # pylint: disable=broad-except
            if isinstance(e, KeyboardInterrupt):
                raise
            return []
    progress = True
    while progress and used < budget and perf() - t0 < secs:
        progress = False
        for c in variants(s):
            c = canon(c)
            used += 1
            if used > budget or perf() - t0 > secs:
                break
            if bad(c):
                s = c
                progress = True
                break
    v = bad(s)
    foc = v[0].get("focus") if v else None
    if foc:
        c = canon(dict(s, **foc))
        vv = bad(c)
        if vv:
            s, v = c, vv
            # schedule / fault list of the focused run
            progress = True
            while progress and used < budget + 100 and perf() - t0 < secs + 15:
                progress = False
                for c in variants(s):
                    c = canon(c)
                    used += 1
                    if bad(c):
                        s, progress = c, True
                        break
            v = bad(s) or v
    return s, v, used


# ------------------------------------------------------------- known findings
def known(cid):
    """Known findings of this property (open ones)."""
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8") as fh:
            for line in fh:
                if line.startswith("finding: "):
                    f = json.loads(line[len("finding: "):])
                    if f["property"] == cid:
                        out.append(f)
    except FileNotFoundError:
        pass
    return out


def is_known(findings, v):
    return any(f["cls"] == v["cls"] and re.search(f.get("msg", ""), v["msg"]) for f in findings)


# --------------------------------------------------------------------- replay
def replay(path):
    with open(path, encoding="utf-8") as fh:
        r = json.load(fh)
    P = load(r["property"])
    R = execute(P, r["scenario"])
    same = [v for v in R.violations if v["cls"] == r["cls"]]
    print("replay of %s (seed %s, index %s)" % (path, r["seed"], r["index"]))
    print("event log hash %s, recorded %s" % (R.hash.hexdigest(), r["hash"]))
    for v in R.violations:
        print("  %s: %s" % (v["cls"], v["msg"]))
    if same:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--n", type=int)
    ap.add_argument("--from", dest="start", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS") or 0) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--noshrink", action="store_true")
    ap.add_argument("--hashes", help="write 'index hash' lines here (determinism test)")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    global _P, _ARGS
    cid = a.cid.upper()
    P = _P = load(cid)
    _ARGS = (cid, a.seed, a.tier)
    n = a.n if a.n is not None else P.N[a.tier]
    limit = 600.0 if a.tier == "quick" else 4 * 3600.0
    print("property=%s tier=%s VERIF_SEED=%d scenarios=%d jobs=%d" % (cid, a.tier, a.seed, n, a.jobs))
    sys.stdout.flush()
    findings = known(cid)
    t0 = perf()
    gc.collect()
    gc.freeze()
    tot = {"runs": 0, "simtime": 0.0, "ops": 0}
    fired, probes, states, harness, viol, hashes = {}, {}, set(), [], {}, {}
    nontriv = done = recheck = 0
    extra = [canon(x) for x in getattr(P, "CANNED", [])]
    results = []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(a.jobs, initializer=gc.disable) as pool:
        it = pool.imap_unordered(work, range(a.start, a.start + n), chunksize=max(1, min(8, n // (a.jobs * 4) or 1)))
        for r in it:
            results.append(r)
            done += 1
            if "harness" in r:
                harness.append(r)
                continue
            for k in tot:
                tot[k] += r[k]
            for k, c in r["fired"].items():
                fired[k] = fired.get(k, 0) + c
            for k, c in r["probes"].items():
                probes[k] = probes.get(k, 0) + c
            states |= r["states"]
            nontriv += bool(r["nontrivial"])
            hashes[r["i"]] = r["hash"]
            if r["again"] is not None:
                recheck += 1
                if r["again"] != r["hash"]:
                    harness.append({"i": r["i"], "harness": "same seed, different event log"})
            for v in r["viol"]:
                if not is_known(findings, v):
                    viol.setdefault(v["cls"], []).append((r["i"], v))
            nviol = sum(len(x) for x in viol.values())
            if nviol >= 200 or perf() - t0 > limit:
                pool.terminate()
                break
    for s in extra:
        R = execute(P, s)
        tot["runs"] += R.runs
        for v in R.violations:
            if not is_known(findings, v):
                viol.setdefault(v["cls"], []).append((-1, v))
    search_s = perf() - t0
    if a.hashes:
        with open(a.hashes, "w", encoding="utf-8") as fh:
            for i in sorted(hashes):
                fh.write("%d %s\n" % (i, hashes[i]))
    for f in findings:
        R = execute(P, f["scenario"])
        if any(is_known([f], v) for v in R.violations):
            print("KNOWN-FINDING: property=%s %s" % (cid, f["what"]))
    # ------------------------------------------------ report
    reported = []
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    for cls in sorted(viol, key=lambda c: -len(viol[c]))[:3]:
        i, v = min(viol[cls], key=lambda x: x[0])
        s = scenario(P, cid, a.seed, a.tier, i) if i >= 0 else next(x for x in extra if any(y["cls"] == cls for y in execute(P, x).violations))
        used = 0
        if not a.noshrink:
            s2, v2, used = shrink(P, s, cls)
            if v2:
                s, v = s2, v2[0]
        R = execute(P, s)
        path = os.path.join(ROOT, "out", "%s-%s-%d.json" % (cid, re.sub(r"\W+", "_", cls)[:40], a.seed))
        with open(path, "w", encoding="utf-8") as fh:
            json.dump({"property": cid, "seed": a.seed, "tier": a.tier, "index": i, "cls": cls, "msg": v["msg"],
                       "hash": R.hash.hexdigest(), "shrink_runs": used, "scenario": s}, fh, indent=1, sort_keys=True)
        reported.append((cls, v["msg"], path, len(viol[cls])))
    wall = perf() - t0
    samples = []
    for r in sorted((x for x in results if "harness" not in x), key=lambda x: x["i"])[:3]:
        js = json.dumps(scenario(P, cid, a.seed, a.tier, r["i"]), ensure_ascii=True)
        samples.append({"index": r["i"], "scenario": js[:1500], "simulated_runs": r["runs"], "event_log_hash": r["hash"], "faults_fired": r["fired"]})
    ev = {
        "property": cid, "tier": a.tier, "seed": a.seed, "level": getattr(P, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(states), "rule": P.RULE, "samples": samples,
            "scenarios": done, "scenarios_nontrivial": nontriv,
            "simulated_runs_per_hour": int(tot["runs"] / max(search_s, 0.001) * 3600),
            "seeds_per_hour": int(done / max(search_s, 0.001) * 3600),
            "simulated_seconds": round(tot["simtime"], 3), "simulated_storage_operations": tot["ops"],
            "faults_fired": dict(sorted(fired.items())), "probes": dict(sorted(probes.items())),
            "distinct_states_measure": getattr(P, "STATES", P.RULE),
            "determinism_rechecks": recheck,
            "real_components": "all of ocfl/*.py%s, bagit, fsspec, pairtree and the CPython standard library"
                               % (", the command line scripts" if cid == "C25" else ""),
            "stub_components": "operating system files and directories, object store, clock, entropy, directory order, process scheduler (dst/simos.py, dst/store.py, dst/world.py)",
            "known_findings": [f["what"] for f in findings],
        },
        "assumptions": getattr(P, "ASSUME", []) + ["the simulated disk behaves like a POSIX local filesystem without symbolic links"],
        "wall_s": round(wall, 2), "violations": sum(len(x) for x in viol.values()),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print("%d scenarios, %d simulated runs, %d distinct, %.1f s simulated, %.1f s wall" % (done, tot["runs"], len(states), tot["simtime"], wall))
    if fired:
        print("faults fired: %s" % json.dumps(dict(sorted(fired.items()))))
    if probes:
        print("probes: %s" % json.dumps(dict(sorted(probes.items()))))
    for cls, msg, path, cnt in reported:
        print("%s (%d times): %s" % (cls, cnt, msg))
        print("VIOLATION property=%s replay=%s" % (cid, path))
    for h in harness[:3]:
        print("HARNESS-ERROR index=%s\n%s" % (h["i"], h["harness"]))
    sys.stdout.flush()
    if reported:
        return 1
    if harness:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
