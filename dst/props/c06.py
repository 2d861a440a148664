"""C06 unfinished work never passes validation."""
import random

import ocfl

from .. import gen as G, faults as F, lib, refocfl
from ..base import Res
from ..world import outcome

RULE = "a scenario is a create, build, update, edit or add after a random history; an evaluation stops it at one storage operation (kill, torn write, failing call, full disk, power loss) and validates what is left with a fresh process; distinct = (operation, storage call index, stop kind, verdict) combinations"
N = {"quick": 1300, "thorough": 20000}
LEVEL = "fault_enumeration"
LIMIT = {"quick": 26, "thorough": 120}


def gen(rng, tier):
    g = G.G(rng, big=0.05)
    s = g.history(nmax=3, foreign=0.3)
    s["target"] = F.gen_target(rng, g, ["create", "build", "update", "update", "add"], s["cfg"], s["steps"])
    s["order"] = rng.randrange(1000)
    s["pseed"] = rng.randrange(1 << 30)
    s["points"] = "auto"
    s["limit"] = LIMIT[tier]
    return s


def auto(s, ops):
    rng = F.seeded(s, "c06")
    out = [{"faults": p} for p in F.points(ops, rng, ("crash_after", "torn", "err"), s["limit"])]
    total = sum(n for k, _p, n in ops if k in ("write", "put"))
    out += [{"quota": rng.randrange(total + 1)} for _ in range(3)]
    for p in out:
        if s["cfg"]["backend"] == "local" and rng.random() < 0.3:
            p["power"] = rng.randrange(1 << 30)
    return out


def run(s):
    R = Res()
    b = F.Bench(R, s)
    if not b.ok:
        R.probe("prefix-failed")
        return R
    k = s["target"]["k"] if s["target"]["k"] != "step" else s["target"]["st"]["op"]
    ops, r0, _, _ = b.pilot()
    R.probe("target-" + k)
    pts = auto(s, ops) if s["points"] == "auto" else s["points"]
    for p in pts:
        with b.world() as w:
            t = b.start(w)
            fn = t.prepare()
            w.arm([dict(f) for f in p.get("faults", ())], quota=p.get("quota"))
            r = outcome(fn)
            fired = list(w.fired)
            w.disarm()
            if p.get("power") is not None:
                w.restart()
                w.power_loss(random.Random(p["power"]))
                w.fired_kinds["power"] = w.fired_kinds.get("power", 0) + 1
            elif r[0] == "crash":
                w.restart()
            foc = {"points": [p]}
            what = "%s %s after %s%s" % (k, r[0], fired[:2], " and power loss" if "power" in p else "")
            verdict = judge(s, t, r0, b.final, what, R, foc)
            R.nontrivial = True
            R.state(k, [(f[0], f[1], f[3]) for f in fired][:2], verdict)
            R.probe("accepted" if verdict else "rejected")
    return R


def judge(s, t, r0, final, what, R, foc):
    """Validate what is stored; returns the verdict."""
    if s["target"]["k"] == "add":
        if r0[0] != "ok":
            return False
        path = r0[1][1]
        url = F.root_url(s)
        full = t.where()
        pre = path + "/"
        snap = ({f[len(pre):]: d for f, d in full[0].items() if f.startswith(pre)},
                {"" if d == path else d[len(pre):] for d in full[1] if d == path or d.startswith(pre)})
        src = t.h.snap()
        v = outcome(lambda: lib.mkobj({}).validate(url + "/" + path)[0])
        if v == ("ok", True):
            bad = refocfl.validate(snap) + F.logical_wrong(snap, t.m)
            if bad:
                R.V("partial-object-accepted", "%s: %s" % (what, bad[:3]), foc)
            elif set(snap[0]) != set(src[0]):
                R.V("incomplete-copy-accepted", "%s: %s" % (what, lib.diff_snap(src, snap)[:4]), foc)
        rv = outcome(lambda: ocfl.StorageRoot(root=url).validate())
        if rv == ("ok", True):
            if snap[0] and (refocfl.validate(snap) or F.logical_wrong(snap, t.m)):
                R.V("partial-root-accepted", what, foc)
            if not snap[0] and snap[1]:
                R.V("leftover-directory-accepted", what, foc)
        return v == ("ok", True)
    v = t.h.validate()
    if v[0] != "ok" or not v[1][0]:
        return False
    snap = t.h.snap()
    bad = refocfl.validate(snap)
    if bad:
        R.V("nonconforming-accepted", "%s: %s" % (what, bad[:3]), foc)
    new = F.logical_wrong(snap, t.m2)
    if new and (not t.m.versions or F.logical_wrong(snap, t.m)):
        R.V("unfinished-accepted", "%s: not the new state %s" % (what, new[:3]), foc)
    elif not new:
        # The new state is there: with everything that the undisturbed operation leaves
        if set(snap[0]) != set(final[0]):
            R.V("incomplete-accepted", "%s: missing %s extra %s" % (what, sorted(set(final[0]) - set(snap[0]))[:3],
                                                                   sorted(set(snap[0]) - set(final[0]))[:3]), foc)
    return True
