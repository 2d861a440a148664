"""C09 racing writers: one wins, the others do no harm."""
import json

import ocfl

from .. import gen as G, faults as F, lib, refocfl, sched
from ..base import Res
from ..gen import blob
from ..model import Model
from ..simos import MNT
from ..world import outcome

RULE = "a scenario races two to four writers (write_new_version from one base, create or build, initialize, add) under several seeded schedules of their storage operations, some with a writer killed or failing; distinct = distinct sequences of (writer, operation) actually executed"
N = {"quick": 2500, "thorough": 25000}
KINDS = ["write", "write", "write", "create", "init", "add"]
ASSUME = ["directory creation is atomic, as on a local filesystem; an object store without conditional writes offers nothing to build mutual exclusion on"]


def gen(rng, tier):
    g = G.G(rng, big=0.02)
    k = rng.choice(KINDS)
    cfg = g.cfg()
    cfg["backend"] = "local"
    s = g.history(nmax=2, cfg=cfg, foreign=0.3)
    s["kind"] = k
    n = rng.choice([2, 2, 2, 3, 4])
    prev = Model.of(s).head_state()
    s["clients"] = []
    for _ in range(n):
        if k == "write":
            st = g.update(prev)
            s["clients"].append(st)
        elif k == "create":
            b = rng.random() < 0.35
            st = g.history(nmax=1, cfg=cfg, foreign=0, build=1.0 if b else 0)["steps"][0]
            st["pad"] = rng.choice([0, 0, 2, 3])
            s["clients"].append(st)
        elif k == "init":
            s["clients"].append(F.gen_root(rng))
        else:
            p = g.plan(None, nmax=2)
            p["id"] = "http://example.org/raced"
            s["clients"].append({"plan": p})
    s["root"] = F.gen_root(rng, ["nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"])
    s["order"] = rng.randrange(1000)
    s["sched"] = None
    s["scheds"] = [sched.gen(rng) for _ in range(6 if tier == "quick" else 30)]
    for sc in s["scheds"]:
        if rng.random() < 0.25:
            sc["fault"] = {"client": "w%d" % rng.randrange(n), "nth": rng.randrange(60), "act": rng.choice(["crash", "crash_after", "err"]), "errno": "EIO"}
    return s


def run(s):
    R = Res()
    if s["sched"] is not None:
        one(s, R, s)
        return R
    for sc in s["scheds"]:
        one(dict(s, sched=sc, fault=sc.get("fault")), R, s)
    return R


def one(s, R, orig):
    k = s["kind"]
    with R.sim(1, order=s["order"]) as w:
        m = Model()
        h = None
        if k == "write":
            h, m, stop = lib.run_history(w, s)
            if stop:
                return
        ws = []
        for i, c in enumerate(s["clients"]):
            x = prepare(s, w, h, m, i, c)
            if x is None:
                return
            ws.append(x)
        before = F.everything(w)
        f = s.get("fault")
        w.arm([dict(f)] if f else [])
        res = w.run_clients([("w%d" % i, x[0]) for i, x in enumerate(ws)], sched.chooser(s))
        taken = list(w.schedule_taken)
        fired = list(w.fired)
        w.disarm()
        R.nontrivial = True
        R.state(k, taken, [x[:3] for x in fired])
        foc = {"sched": taken, "fault": f}
        wins = [i for i in range(len(ws)) if res["w%d" % i][0] == "ok"]
        R.probe("%s-%d-winners" % (k, len(wins)))
        desc = {a: b[:3] for a, b in sorted(res.items())}
        for a, b in res.items():
            if b[0] not in ("ok", "err", "crash"):
                R.V("no-outcome", "%s %s" % (a, b), foc)
        if len(wins) > 1:
            R.V("several-winners-%s" % k, "%s" % desc, foc)
            return
        if not wins:
            if k == "write" and not fired:
                R.V("no-winner", "%s" % desc, foc)
            return
        x = ws[wins[0]]
        bad = x[1](res["w%d" % wins[0]])
        if bad and not fired_other_damage(fired):
            R.V("winner-damaged-%s" % k, "%s: %s" % (bad[:3], desc), foc)
        if k == "write":
            v = h.validate()
            if v[0] != "ok" or not v[1][0]:
                R.V("invalid-after-race", "%s %s" % (v[1:], desc), foc)
        del before


def fired_other_damage(fired):
    return False


def prepare(s, w, h, m, i, c):
    """(fn, wrong(result)) of writer i."""
    k, cfg = s["kind"], s["cfg"]
    if k == "write":
        st = c
        src = h.stage(st["src"] if st["op"] == "edit" else st["files"])
        alg = st.get("alg")
        o = lib.mkobj(cfg, identifier=None)

        def start():
            nv = o.start_new_version(objdir=h.url, srcdir=src, digest_algorithm=alg, metadata=lib.mkmeta(st.get("meta")),
                                     carry_content_forward=st.get("carry", False))
            if st["op"] == "edit":
                lib.try_edits(nv, st)
            else:
                nv.add_from_srcdir()
            return nv
        r = outcome(start)
        if r[0] != "ok":
            return None
        m2 = m.clone()
        m2.apply(cfg, st)
        nv = r[1]
        return (lambda: o.write_new_version(nv)), (lambda r: F.object_wrong(h, m2))
    if k == "create":
        c = dict(c)
        h2 = lib.H(w, cfg)
        h2.nsrc = 10 * i
        m2 = Model()
        m2.apply(cfg, c)
        if c["op"] == "build" and c.get("pad"):
            src = "%s/src/p%d" % (MNT, i)
            md = {}
            for j, v in enumerate(c["versions"], 1):
                h2.stage(v["files"], "%s/v%0*d" % (src, c["pad"], j))
                md[j] = lib.mkmeta(v.get("meta"))
            return (lambda: lib.mkobj(cfg).build(src, versions_metadata=md, objdir=h2.url)), (lambda r: F.object_wrong(h2, m2))
        return h2.prepare(c), (lambda r: F.object_wrong(h2, m2))
    url = F.ROOT_LOCAL
    w.disk.h_mkdirs(url.rsplit("/", 1)[0])
    if k == "init":
        return ((lambda: ocfl.StorageRoot(root=url, layout_name=c["layout"], spec_version=c["spec"]).initialize(layout_params=c["params"])),
                (lambda r: F.root_wrong(F.root_snap(w, url), c, {})))
    t = s["root"]
    if i == 0:
        r = outcome(lambda: ocfl.StorageRoot(root=url, layout_name=t["layout"], spec_version=t["spec"]).initialize(layout_params=t["params"]))
        if r[0] != "ok":
            return None
    snap = refocfl.write_object(c["plan"], blob)
    at = "%s/cand/%d" % (MNT, i)
    w.disk.restore(at, snap)
    return (lambda: ocfl.StorageRoot(root=url).add(at)), (lambda r: F.root_wrong(F.root_snap(w, url), t, {r[1][1]: snap}))
