"""C10 readers during an update: exactly right or an error."""
from .. import gen as G, faults as F, lib, sched
from ..base import Res
from ..gen import blob
from ..model import Model
from ..simos import MNT

RULE = "a scenario runs one writer (update or edit, sometimes killed or failing) and one to three readers (extract, extract_file, listing versions; old versions and head) under several seeded schedules of their storage operations; distinct = distinct sequences of (client, operation) actually executed"
N = {"quick": 1500, "thorough": 25000}
READS = ["extract", "extract", "head", "file", "list"]


def gen(rng, tier):
    g = G.G(rng, big=0.03)
    s = g.history(nmax=3, foreign=0.3)
    prev = Model.of(s).head_state()
    s["writes"] = [g.update(prev)]
    if rng.random() < 0.4:
        s["writes"].append(g.update(Model.of({"cfg": s["cfg"], "steps": s["steps"] + s["writes"]}).head_state()))
    s["clients"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s["clients"].append([{"what": rng.choice(READS), "v": rng.randrange(8), "pick": rng.randrange(64)} for _ in range(rng.randint(1, 4))])
    s["order"] = rng.randrange(1000)
    s["sched"] = None
    s["scheds"] = [sched.gen(rng) for _ in range(6 if tier == "quick" else 30)]
    for sc in s["scheds"]:
        x = rng.random()
        if x < 0.25:
            sc["fault"] = {"client": "writer", "nth": rng.randrange(80), "act": rng.choice(["crash", "crash_after", "torn", "err"]), "errno": "EIO"}
        elif x < 0.35:
            sc["fault"] = {"nth": 0, "sticky": True, "kinds": ["read", "write"], "act": "short", "part": rng.choice([0.01, 0.3, 0.6])}
    return s


def run(s):
    R = Res()
    if s["sched"] is not None:
        one(s, R)
        return R
    for sc in s["scheds"]:
        one(dict(s, sched=sc, fault=sc.get("fault")), R)
    return R


def one(s, R):
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return
        ms = [m]
        for st in s["writes"]:
            m2 = ms[-1].clone()
            m2.apply(s["cfg"], st)
            ms.append(m2)
        got = []
        names = [lib.vname(h, i + 1) for i in range(len(m.versions))]
        w.disk.h_mkdirs(MNT + "/out")
        # inputs of later updates are staged beforehand
        fns = []
        for st in s["writes"]:
            st = dict(st)
            if not st.get("alg"):
                st["alg"] = ms[-1].alg if False else h.cur_alg()
            fns.append(h.prepare(st))

        def writer():
            for fn in fns:
                fn()

        def reader(ci, todo):
            def f():
                for k, r in enumerate(todo):
                    got.append((ci, k, r, read(s, h, m, names, r, "%s/out/c%d-%d" % (MNT, ci, k))))
            return f
        fault = s.get("fault")
        w.arm([dict(fault)] if fault else [])
        res = w.run_clients([("writer", writer)] + [("r%d" % i, reader(i, c)) for i, c in enumerate(s["clients"])], sched.chooser(s))
        taken = list(w.schedule_taken)
        fired = list(w.fired)
        w.disarm()
        R.nontrivial = True
        R.state(taken, [x[:3] for x in fired[:1]])
        R.probe("writer-" + res["writer"][0])
        foc = {"sched": taken, "fault": fault}
        for a, b in res.items():
            if b[0] not in ("ok", "err", "crash"):
                R.V("no-outcome", "%s %s" % (a, b), foc)
        for ci, k, r, out in got:
            R.probe("%s-%s" % (r["what"], out[0]))
            if out[0] == "ok":
                judge(s, w, ms, names, r, out[1], "%s/out/c%d-%d" % (MNT, ci, k), R, foc)


def read(s, h, m, names, r, dst):
    """One read by a reader: outcome."""
    from ..world import outcome
    i = r["v"] % len(m.versions)
    cfg, url = s["cfg"], h.url
    if r["what"] == "extract":
        return outcome(lambda: lib.mkobj(cfg).extract(url, names[i], dst))
    if r["what"] == "head":
        return outcome(lambda: lib.mkobj(cfg).extract(url, "head", dst))
    if r["what"] == "file":
        st = m.versions[i]["state"]
        lp = sorted(st)[r["pick"] % len(st)] if st else "none"
        return outcome(lambda: (lp, lib.mkobj(cfg).extract_file(url, names[i], dst, lp)))

    def listing():
        o = lib.mkobj(cfg)
        o.open_obj_fs(url)
        inv = o.parse_inventory()
        return inv.head, [(v.vdir, {p: v.digest_for_logical_path(p) for p in v.logical_paths}, v.message, v.user_name, v.user_address, v.created) for v in inv.versions()]
    return outcome(listing)


def judge(s, w, ms, names, r, val, dst, R, foc):
    i = r["v"] % len(names)
    mv = ms[0].versions[i]
    snap = w.disk.snapshot(dst)
    what = r["what"]
    bad = []
    if what in ("extract", "file") and (val[1] if what == "file" else val).version != names[i]:
        bad.append("metadata of version %r" % (val[1] if what == "file" else val).version)
    if what in ("extract", "head"):
        cands = [(mv)] if what == "extract" else [m.versions[-1] for m in ms]
        best = None
        for c in cands:
            b = []
            d = lib.diff_state(lib.expect_state(c), snap[0])
            if d:
                b.append(d)
            lib.check_meta(val, c, None, what, lambda k, t: b.append(t))
            if best is None or len(b) < len(best):
                best = b
        bad += best
    elif what == "file":
        lp = val[0]
        if lp not in mv["state"] or snap[0] != {lp.rsplit("/", 1)[-1]: blob(mv["state"][lp])}:
            bad += ["file %r of %s: %r" % (lp, names[i], sorted(snap[0]))]
        lib.check_meta(val[1], mv, None, names[i], lambda k, t: bad.append(t))
    else:
        from .. import refocfl
        head, vs = val
        if not any(len(vs) == len(m.versions) for m in ms):
            bad.append("%d versions" % len(vs))
        final = next((m for m in ms if len(vs) == len(m.versions)), ms[-1])
        for (vd, st, msg, name, addr, created), c in zip(vs, final.versions):
            digs = {lp: {refocfl.dig("sha512", blob(x)), refocfl.dig("sha256", blob(x))} for lp, x in c["state"].items()}
            if set(digs) != set(st) or any(st[p].lower() not in digs[p] for p in st):
                bad.append("%s state" % vd)
            meta = c["meta"]
            if (msg, name, addr) != (meta.get("message"), meta.get("name"), meta.get("address")) or (meta.get("created") and created != meta["created"]):
                bad.append("%s metadata %r" % (vd, (msg, name, addr, created)))
        if vs and head != vs[-1][0]:
            bad.append("head %r" % head)
    if bad:
        R.V("wrong-read-%s" % what, "%s of %s succeeded: %s" % (what, names[i] if what != "head" else "head", bad[:3]), foc)
