"""C07 working on after an interruption never builds on leftovers."""
import ocfl

from .. import gen as G, faults as F, lib, refocfl
from ..base import Res
from ..model import Model
from ..world import outcome

RULE = "a scenario is a create, build, update, edit or add stopped at one storage operation by a kill, torn write, failing call or full disk, followed by a retry or another update by a fresh process; distinct = (operation, call index, stop kind, follow-up, its result) combinations"
N = {"quick": 1150, "thorough": 20000}
LEVEL = "fault_enumeration"
LIMIT = {"quick": 24, "thorough": 120}


def gen(rng, tier):
    g = G.G(rng, big=0.04)
    s = g.history(nmax=3, foreign=0.25)
    s["target"] = F.gen_target(rng, g, ["create", "build", "update", "update", "update", "add"], s["cfg"], s["steps"])
    st = s["target"]
    if st["k"] in ("step", "add"):
        m = Model.of({"cfg": s["cfg"], "steps": s["steps"] + ([st["st"]] if st["k"] == "step" else [])})
        prev = m.head_state() if rng.random() < 0.5 or len(m.versions) < 2 else m.versions[-2]["state"]
        s["second"] = g.update(prev)
    s["order"] = rng.randrange(1000)
    s["pseed"] = rng.randrange(1 << 30)
    s["points"] = "auto"
    s["limit"] = LIMIT[tier]
    return s


def auto(s, ops):
    rng = F.seeded(s, "c07")
    out = [{"faults": p} for p in F.points(ops, rng, ("crash_after", "torn", "err"), s["limit"])]
    total = sum(n for k, _p, n in ops if k in ("write", "put"))
    out += [{"quota": rng.randrange(total + 1)} for _ in range(2)]
    for p in out:
        p["then"] = "retry" if rng.random() < 0.5 else "second"
        p["same"] = rng.random() < 0.4      # the process that saw an error goes on itself
    return out


def run(s):
    R = Res()
    b = F.Bench(R, s)
    if not b.ok:
        R.probe("prefix-failed")
        return R
    k = s["target"]["k"] if s["target"]["k"] != "step" else s["target"]["st"]["op"]
    ops, r0, _, _ = b.pilot()
    path = r0[1][1] if s["target"]["k"] == "add" and r0[0] == "ok" else None
    pts = auto(s, ops) if s["points"] == "auto" else s["points"]
    for p in pts:
        with b.world() as w:
            t = b.start(w)
            if s["target"]["k"] != "add":
                t.h.reuse = p["same"]
            fn = t.prepare()
            w.arm([dict(f) for f in p.get("faults", ())], quota=p.get("quota"))
            r = outcome(fn)
            fired = list(w.fired)
            w.disarm()
            if r[0] == "crash":
                w.restart()
                if s["target"]["k"] != "add":
                    t.h.obj = None
            foc = {"points": [p]}
            if s["target"]["k"] == "add":
                r2 = readd(s, p, t, w, r, fired, R, foc, path)
            else:
                r2 = again(s, p, t, w, r, fired, k, R, foc)
            R.nontrivial = True
            R.probe("%s-then-%s" % (r[0], r2))
            R.state(k, [(f[0], f[1], f[3]) for f in fired][:2], p["then"], r2)
    return R


def again(s, p, t, w, r, fired, k, R, foc):
    st = s["target"]["st"] if p["then"] == "retry" or "second" not in s else s["second"]
    what = "%s %s after %s, then %s" % (k, r[0], fired[:2], p["then"])
    try:
        fn = t.h.prepare(dict(st))
    except (KeyError, TypeError, AttributeError):
        return "unprepared"
    before = F.everything(w)
    r2 = outcome(fn)
    if r2[0] == "ok":
        snap = t.h.snap()
        bad = refocfl.validate(snap)
        if bad:
            R.V("success-on-leftovers", "%s: %s" % (what, bad[:3]), foc)
        v = t.h.validate()
        if v[0] != "ok" or not v[1][0]:
            R.V("invalid-after-success", "%s: %s" % (what, v[1:]), foc)
        cands = []
        for base in (t.m, t.m2):
            if st["op"] in ("create", "build") and base.versions:
                continue
            m = base.clone()
            m.apply(s["cfg"], st)
            cands.append(m)
        bads = [F.logical_wrong(snap, m) for m in cands]
        if not bads or all(bads):
            R.V("wrong-versions-after-success", "%s: %s" % (what, bads[:1]), foc)
        elif r[0] == "ok" and len(bads) > 1 and bads[1]:
            R.V("earlier-success-lost", "%s: %s" % (what, bads[1][:2]), foc)
    elif r2[0] == "err":
        d = F.diff_everything(before, F.everything(w))
        if d:
            R.V("refusal-changed-storage", "%s refused with %s: %s" % (what, r2[1:], d), foc)
    else:
        R.V("no-outcome", "%s: %s" % (what, r2), foc)
    return r2[0]


def readd(s, p, t, w, r, fired, R, foc, path):
    url, src = F.root_url(s), t.h.url
    if p["then"] == "second" and path is not None and "second" in s:
        return update_added(s, t, w, r, fired, R, foc, url + "/" + path)
    what = "add %s after %s, then retry" % (r[0], fired[:2])
    before = F.everything(w)
    r2 = outcome(lambda: ocfl.StorageRoot(root=url).add(src))
    if r2[0] == "ok":
        bad = t.wrong(r2)
        if bad:
            R.V("add-success-on-leftovers", "%s: %s" % (what, bad[:3]), foc)
    elif r2[0] == "err":
        d = F.diff_everything(before, F.everything(w))
        if d:
            R.V("refusal-changed-storage", "%s refused with %s: %s" % (what, r2[1:], d), foc)
    return r2[0]


def update_added(s, t, w, r, fired, R, foc, where):
    """Update the object where the interrupted add was putting it."""
    h = lib.H(w, s["cfg"], where=where)
    h.nsrc = t.h.nsrc + 100
    what = "add %s after %s, then update there" % (r[0], fired[:2])
    st = dict(s["second"])
    st["alg"] = st.get("alg") or t.h.cur_alg()
    fn = h.prepare(st)
    before = F.everything(w)
    r2 = outcome(fn)
    if r2[0] == "ok":
        m = t.m.clone()
        m.apply(s["cfg"], st)
        bad = refocfl.validate(h.snap()) + F.logical_wrong(h.snap(), m)
        if bad:
            R.V("update-of-partial-copy", "%s: %s" % (what, bad[:3]), foc)
    elif r2[0] == "err":
        d = F.diff_everything(before, F.everything(w))
        if d:
            R.V("refusal-changed-storage", "%s refused with %s: %s" % (what, r2[1:], d), foc)
    return "update-" + r2[0]
