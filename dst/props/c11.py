"""C11 full validation detects every alteration of stored object data."""
from .. import damage, gen as G, lib, refocfl
from ..base import Res
from ..gen import blob
from ..world import outcome
import ocfl
from ocfl.validator import Validator

RULE = "a scenario is a valid object from a random history or an independent writer; an evaluation alters its stored files in one seeded way (sometimes two or three) and validates it under a random listing order and read sizes; distinct = (kind of damage, class of file, backend, settings)"
N = {"quick": 3200, "thorough": 30000}


def gen(rng, tier):
    g = G.G(rng, big=0.04)
    s = g.history(nmax=4, foreign=0.5)
    laxly(s, g, rng)
    s["order"] = rng.randrange(1000)
    s["points"] = []
    for _ in range(16 if tier == "quick" else 60):
        p = {"muts": [damage.gen(rng)], "order": rng.randrange(1000)}
        while rng.random() < 0.15:
            p["muts"].append(damage.gen(rng))
        if rng.random() < 0.3:
            p["short"] = rng.choice([0.001, 0.1, 0.5])
        p["how"] = rng.choice(["object", "object", "validator", "fs", "reused"])
        s["points"].append(p)
    return s


def laxly(s, g, rng):
    """Now and then an object only a lax validator accepts, or judged by one."""
    if rng.random() < 0.12:
        s["lax"] = True
        if rng.random() < 0.8:
            plan = g.plan(s["cfg"], nmax=5)
            algs = rng.sample(sorted(set(refocfl.ALGS) - {"sha512/256"}), 2) + ["sha512"]
            for v in plan["versions"]:
                v["alg"] = rng.choice(algs)
            s["steps"] = [{"op": "foreign", "plan": plan}]


def verdict(h, w, p, lax=False, before=None):
    """outcome of full validation of the object -> ('ok', bool)."""
    if p.get("short"):
        w.arm([{"nth": 0, "sticky": True, "kinds": ["read"], "act": "short", "part": p["short"]}])
    w.order_seed = p["order"]
    if p["how"] == "reused" and before is not None:
        # A validator that has judged the intact object, or others, before
        r = outcome(lambda: before.validate_object(h.url))
    elif p["how"] == "object":
        r = outcome(lambda: ocfl.Object(lax_digests=lax).validate(h.url)[0])
    elif p["how"] in ("validator", "reused"):
        r = outcome(lambda: Validator(lax_digests=lax).validate_object(h.url))
    else:
        from ocfl.fsw import fsw_openfs
        r = outcome(lambda: Validator(log_warnings=True, lax_digests=lax).validate_object(fsw_openfs(h.url)))
    w.disarm()
    return r


def run(s):
    R = Res()
    lax = bool(s.get("lax"))
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return R
        base = h.snap()
        if refocfl.validate(base, lax):
            R.probe("base-invalid")
            return R
        R.runs -= 1
        before = Validator(lax_digests=lax)
        outcome(lambda: before.validate_object(h.url))
        for p in s["points"]:
            snap, desc = damage.several(base, p["muts"])
            if not desc:
                continue
            probs = refocfl.validate(snap, lax)
            harm = damage.harmless(base, snap)
            if h.store:
                snap = (snap[0], damage.dirs_of(snap[0]))
                probs = refocfl.validate(snap, lax)
            h.put(snap)
            r = verdict(h, w, p, lax, before)
            R.runs += 1
            if harm:
                continue
            ok = r[0] == "ok" and r[1]
            if not probs:
                R.probe("damage-still-conforms")
                if len(p["muts"]) == 1 and p["muts"][0]["kind"] == "flip":
                    R.probe("flip-still-conforms")
                continue
            R.nontrivial = True
            for d in desc[:1]:
                R.state(p["muts"][0]["kind"], p["muts"][0]["cls"], s["cfg"]["backend"], len(m.versions), p["how"], probs[0][:4])
                R.fired[p["muts"][0]["kind"]] = R.fired.get(p["muts"][0]["kind"], 0) + 1
            if ok:
                R.V("damage-undetected", "%s: conflicts with %s" % (desc, probs[:3]), {"points": [p]})
            elif r[0] == "err":
                R.V("no-verdict", "%s: %s" % (desc, r[1:]), {"points": [p]})
            elif r[0] != "ok":
                R.V("no-outcome", "%s: %s" % (desc, r), {"points": [p]})
    return R
