"""C05 committed versions survive an interrupted update."""
from .. import gen as G, faults as F, lib, refocfl
from ..base import Res
from ..world import outcome

RULE = "a scenario is an update or edit after a random history; an evaluation stops it at one storage operation by process kill, torn write, failing call, full disk or loss of power and checks what is left on storage; distinct = (storage operation kind, index, stop kind, files left) combinations"
N = {"quick": 1300, "thorough": 20000}
LEVEL = "fault_enumeration"
LIMIT = {"quick": 30, "thorough": 120}


def gen(rng, tier):
    g = G.G(rng, big=0.05)
    s = g.history(nmax=3, foreign=0.3)
    s["target"] = F.gen_target(rng, g, ["update"], s["cfg"], s["steps"])
    F.bare(rng, g, s)
    s["order"] = rng.randrange(1000)
    s["pseed"] = rng.randrange(1 << 30)
    s["points"] = "auto"
    s["limit"] = LIMIT[tier]
    return s


def auto(s, ops, power):
    rng = F.seeded(s, "c05")
    out = [{"faults": p} for p in F.points(ops, rng, ("crash_after", "torn", "err"), s["limit"])]
    total = sum(n for k, _p, n in ops if k in ("write", "put"))
    out += [{"quota": rng.randrange(total + 1)} for _ in range(3)]
    for p in out:
        if power and rng.random() < 0.4:
            p["power"] = rng.randrange(1 << 30)
    if power:
        out.append({"faults": [], "power": rng.randrange(1 << 30)})
    return out


def survives(before, after, m):
    """Problems with the committed versions of before in after."""
    old = refocfl.load_inv(before[0]["inventory.json"])
    pre = tuple(v + "/" for v in old["versions"])
    out = []
    a = {k: x for k, x in before[0].items() if k.startswith(pre)}
    b = {k: x for k, x in after[0].items() if k.startswith(pre) and k in a}
    d = lib.diff_state(a, b)
    if d:
        out.append("stored files: " + d)
    best = None
    for where, data in refocfl.intact_inventories(after):
        got = refocfl.read_inv(after, data)
        if got is None:
            continue
        w = F.seq_wrong(got, m, exact=False)
        if not w:
            return out
        best = "%s: %s" % (where, w[:2])
    out.append("no intact inventory describes the committed versions (%s)" % best)
    return out


def run(s):
    R = Res()
    b = F.Bench(R, s)
    if not b.ok or not b.m.versions:
        R.probe("prefix-failed")
        return R
    ops, r, _, _ = b.pilot()
    if r[0] != "ok":
        R.probe("pilot-refused")
    head_inv = None
    with b.world() as w:
        t = b.start(w)
        files = t.where()[0]
        head_inv = (lib.vname(t.h, len(b.m.versions)) + "/inventory.json") in files
    pts = auto(s, ops, head_inv and s["cfg"]["backend"] == "local") if s["points"] == "auto" else s["points"]
    for p in pts:
        with b.world() as w:
            t = b.start(w)
            fn = t.prepare()
            before = t.where()
            w.arm([dict(f) for f in p.get("faults", ())], quota=p.get("quota"))
            r = outcome(fn)
            fired = list(w.fired)
            w.disarm()
            if p.get("power") is not None:
                import random
                w.restart()
                w.power_loss(random.Random(p["power"]))
                w.fired_kinds["power"] = w.fired_kinds.get("power", 0) + 1
            elif r[0] == "crash":
                w.restart()
            after = t.where()
            R.nontrivial = True
            R.probe("result-" + r[0])
            R.state([(f[0], f[1], f[3]) for f in fired][:2], sorted(set(after[0]) - set(before[0])), "power" in p)
            bad = survives(before, after, t.m)
            if bad:
                R.V("committed-version-damaged", "%s after %s%s: %s" % (r[0], fired[:2], " and power loss" if "power" in p else "", bad[:3]), {"points": [p]})
    return R
