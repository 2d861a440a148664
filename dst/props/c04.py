"""C04 no success with a wrong result when I/O fails."""
from .. import gen as G, faults as F
from ..base import Res
from ..world import outcome

RULE = "a scenario is a target operation (create, build, update, edit, extract, extract_file, init, add, bag out, bag in) after a random history; an evaluation runs it once with one seeded set of failing calls or a shrinking quota or short transfers; distinct = (target kind, storage operation kind, call index, errno) combinations that fired"
N = {"quick": 2200, "thorough": 20000}
LIMIT = {"quick": 24, "thorough": 90}
KINDS = ["create", "build", "update", "update", "update", "extract", "extract_file", "init", "add", "add", "bagout", "bagin"]


def gen(rng, tier):
    g = G.G(rng, big=0.05)
    s = g.history(nmax=3)
    s["target"] = F.gen_target(rng, g, KINDS, s["cfg"], s["steps"])
    s["order"] = rng.randrange(1000)
    s["pseed"] = rng.randrange(1 << 30)
    s["points"] = "auto"
    s["limit"] = LIMIT[tier]
    return s


def auto(s, ops):
    rng = F.seeded(s, "points")
    pts = F.points(ops, rng, ("err",), s["limit"])
    out = []
    for p in pts:
        x = rng.random()
        if x < 0.12:
            p = p + [dict(p[0], nth=p[0]["nth"] + rng.randint(1, 6))]
        elif x < 0.2:
            p = [dict(p[0], sticky=True, kinds=[ops[p[0]["nth"]][0]])]
        out.append({"faults": p})
    total = sum(n for k, _p, n in ops if k in ("write", "put"))
    for _ in range(max(2, len(out) // 10)):
        out.append({"quota": rng.randrange(total + 1)})
    for _ in range(3):
        out.append({"faults": [{"nth": 0, "sticky": True, "kinds": ["read", "write"], "act": "short", "part": rng.choice([0.001, 0.01, 0.3, 0.5, 0.99])}],
                    "order": rng.randrange(1000)})
    return out


def run(s):
    R = Res()
    b = F.Bench(R, s)
    if not b.ok:
        R.probe("prefix-failed")
        return R
    ops, r, wrong, _ = b.pilot()
    k = s["target"]["k"] if s["target"]["k"] != "step" else s["target"]["st"]["op"]
    R.probe("target-" + k)
    if r[0] != "ok":
        R.probe("pilot-refused")
    pts = auto(s, ops) if s["points"] == "auto" else s["points"]
    for w_ in wrong:
        R.V("wrong-without-fault", "%s: %s" % (k, w_), focus={"points": []})
    for p in pts:
        with R.sim(1, order=p.get("order", s["order"])) as w:
            t = b.start(w)
            fn = t.prepare()
            w.arm([dict(f) for f in p.get("faults", ())], quota=p.get("quota"))
            r2 = outcome(fn)
            fired = list(w.fired)
            w.disarm()
            if fired:
                R.nontrivial = True
                for f in fired[:2]:
                    R.state(k, f[0], f[1], f[3])
            if r2[0] == "ok":
                bad = t.wrong(r2)
                if bad:
                    R.V("false-success-%s" % k, "after %s: %s" % (fired[:3], bad[:3]), focus={"points": [p]})
                if fired and fired[0][3] != "short":
                    R.probe("ok-despite-fault")
            elif r2[0] != "err":
                R.V("no-outcome", "%s %s" % (r2, fired[:3]), focus={"points": [p]})
            if r[0] == "ok" and r2[0] != "ok" and all(f[3] == "short" for f in fired):
                R.V("short-transfer-fails-%s" % k, "%s" % (r2[1:],), focus={"points": [p]})
    return R
