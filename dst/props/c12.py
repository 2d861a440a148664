"""C12 inventories that contradict the specification are rejected."""
import ocfl
from ocfl.validator import Validator

from .. import gen as G, invmut, lib, refocfl
from ..base import Res
from ..simos import MNT
from ..world import outcome
from .c11 import laxly, verdict

RULE = "a scenario is a valid object from a random history or an independent writer; an evaluation rewrites one of its inventories (or all, so that they disagree) by one seeded rule (sometimes two), recomputes the sidecars, validates the inventory by itself and the object under a random listing order and read sizes; distinct = (rule, parameters, which inventory, first conflict)"
N = {"quick": 1800, "thorough": 30000}


def gen(rng, tier):
    g = G.G(rng, big=0.0)
    s = g.history(nmax=rng.choice([3, 3, 5]), foreign=0.6, hi=3)
    laxly(s, g, rng)
    s["order"] = rng.randrange(1000)
    s["points"] = []
    for _ in range(24 if tier == "quick" else 90):
        p = {"muts": [invmut.gen(rng)], "order": rng.randrange(1000)}
        if rng.random() < 0.1:
            p["muts"].append(invmut.gen(rng))
        if rng.random() < 0.3:
            p["short"] = rng.choice([0.001, 0.01, 0.5])
        p["how"] = rng.choice(["object", "validator", "fs", "reused"])
        s["points"].append(p)
    return s


def run(s):
    R = Res()
    lax = bool(s.get("lax"))
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return R
        base = h.snap()
        if refocfl.validate(base, lax):
            R.probe("base-invalid")
            return R
        R.runs -= 1
        before = Validator(lax_digests=lax)
        outcome(lambda: before.validate_object(h.url))
        for p in s["points"]:
            files = dict(base[0])
            desc = [x for x in (invmut.apply(files, q) for q in p["muts"]) if x]
            if not desc:
                continue
            alone(s, h, w, base[0], files, desc, p, R)
            snap = (files, base[1])
            probs = refocfl.validate(snap, lax)
            h.put(snap)
            r = verdict(h, w, p, lax, before)
            R.runs += 1
            if not probs:
                R.probe("rewrite-conforms")
                if r != ("ok", True):
                    R.probe("rewrite-conforms-but-rejected")
                continue
            R.nontrivial = True
            q = p["muts"][0]
            R.probe("rule-" + q["rule"])
            R.state(q["rule"], desc[0][:60], probs[0][:4])
            if r[0] == "ok" and r[1]:
                R.V("contradiction-accepted", "%s: conflicts with %s" % (desc, probs[:3]), {"points": [p]})
            elif r[0] != "ok":
                R.V("no-verdict", "%s: %s" % (desc, r), {"points": [p]})
    return R


def alone(s, h, w, old, files, desc, p, R):
    """Every rewritten inventory judged by itself, without the object around it."""
    for x in sorted(files):
        if not x.endswith("inventory.json") or files[x] == old.get(x):
            continue
        probs = []
        data = refocfl.load_inv(files[x])
        if data is None:
            probs.append("E033")
        else:
            refocfl.Inv(data, "1.1", probs, "alone")
        if not probs:
            continue
        w.disk.h_mkdirs(MNT + "/alone")
        w.disk.h_write(MNT + "/alone/inventory.json", files[x])
        r = outcome(lambda: ocfl.Object().validate_inventory(MNT + "/alone/inventory.json")[0])
        R.runs += 1
        R.probe("alone")
        R.state("alone", p["muts"][0]["rule"], desc[0][:60], probs[0][:4])
        if r[0] == "ok" and r[1]:
            R.V("contradiction-accepted-alone", "%s: conflicts with %s" % (desc, probs[:3]), {"points": [p]})
        elif r[0] != "ok":
            R.V("no-verdict-alone", "%s: %s" % (desc, r), {"points": [p]})
        return
