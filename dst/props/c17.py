"""C17 changing digests never hides corruption."""
from .. import damage, gen as G, lib, model, refocfl
from ..base import Res
from ..simos import File
from ..world import outcome
from ..lib import vname
from . import c13

RULE = "a scenario is an object (own history or another writer's) put through one to three updates that change digest algorithm, fixity types or nothing, with bit rot of stored content files striking before, between or during them at a seeded storage operation; distinct = (rot kind, moment, digest change, fixity setting, version inventories, outcome, verdict)"
N = {"quick": 2500, "thorough": 100000}
KINDS = ["flip", "flip", "flip", "truncate", "append", "empty", "zeros", "swap", "copyover"]
LAX = ["md5", "sha1", "blake2b-512", "sha512", "sha256"]


def gen(rng, tier):
    g = G.G(rng, big=0.03)
    cfg = g.cfg()
    s = g.history(nmax=3, cfg=cfg, foreign=0.5)
    s["lax"] = rng.random() < 0.15
    s["order"] = rng.randrange(1000)
    mig = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = g.update(model.Model.of(s).head_state(), allow_edit=True, alg_change=False)
        st["alg"] = rng.choice(LAX if s["lax"] else ["sha512", "sha256"])
        st["fixity"] = rng.choice([None, None, [], [], ["md5"], ["sha512"], ["sha1", "sha256"]])
        st["short"] = rng.choice([None] * 6 + [0.3, 0.05])
        mig.append(st)
    s["migrate"] = mig
    if s["steps"][0]["op"] == "foreign" and rng.random() < 0.4:
        for v in s["steps"][0]["plan"]["versions"]:
            v["inv"] = cfg["backend"] == "store"
    s["points"] = []
    for _ in range(5 if tier == "quick" else 20):
        p = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            d = damage.gen(rng)
            d["kind"], d["cls"] = rng.choice(KINDS), "content"
            p.append({"mig": rng.randrange(len(mig)), "at": None if rng.random() < 0.4 else rng.random(), "aim": rng.random() < 0.6, "damage": d})
        s["points"].append(p)
    return s


def strike(h, w, d, log, only=None):
    """Bit rot: one content file changes behind everybody's back."""
    before = h.snap()
    if only is None:
        r = damage.apply(before, d)
    elif only in before[0]:
        r = damage.apply(({only: before[0][only], **{k: v for k, v in before[0].items() if d["kind"] in ("swap", "copyover")}}, before[1]), d)
    else:
        return
    if r is None:
        return
    for f, c in r[0][0].items():
        if before[0].get(f) != c:
            if h.store:
                w.kv[h.key() + "/" + f] = File(c)
            else:
                w.disk.lookup(h.url + "/" + f).data[:] = c
    log.append(r[1])


def aim(h, r, ops):
    """(operation index, content file to hit or None) for rot r."""
    if r["aim"]:
        pre = h.key() + "/" if h.store else h.url + "/"
        hits = [(i, p.split(pre, 1)[1]) for i, (k, p, _n) in enumerate(ops) if k in ("open_r", "get", "read", "close") and pre in p and damage.cls(p.split(pre, 1)[1]) == "content"]
        if hits:
            return hits[int(r["at"] * len(hits))]
    return int(r["at"] * (len(ops) or 200)), None


def migrate(h, w, st, lax, rots, log, pilot_ops):
    """One update; rots strike before it or at a fraction of its operations."""
    cfg = dict(h.cfg, lax=lax)
    src = h.stage(st["files"] if st["op"] == "update" else st["src"])

    def fn():
        obj = lib.mkobj(cfg, digest_algorithm=st["alg"], fixity=st["fixity"], identifier=None)
        if st["op"] == "update":
            return obj.add_version_with_content(objdir=h.url, srcdir=src, metadata=lib.mkmeta(st["meta"]))
        nv = obj.start_new_version(objdir=h.url, srcdir=src, digest_algorithm=st["alg"], fixity=st["fixity"], metadata=lib.mkmeta(st["meta"]), carry_content_forward=st["carry"])
        lib.try_edits(nv, st)
        return obj.write_new_version(nv)
    faults, todo = [], []
    for r in rots:
        if r["at"] is None:
            strike(h, w, r["damage"], log)
        else:
            n, path = aim(h, r, pilot_ops or [])
            faults.append({"nth": n, "act": "rot"})
            todo.append((n, r["damage"], path))
    todo.sort(key=lambda x: x[0])

    def on_rot():
        if todo:
            _n, d, path = todo.pop(0)
            strike(h, w, d, log, path)
    w.on_rot = on_rot
    if st["short"]:
        faults.append({"nth": 0, "sticky": True, "kinds": ["read", "write"], "act": "short", "part": st["short"]})
    w.arm(faults, record=pilot_ops is None)
    r = outcome(fn)
    return r, w.disarm()


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return R
        base = h.snap()
        if refocfl.validate(base):
            R.probe("base-invalid")
            return R
        R.runs -= 1
        fz = (w.clock, h.nsrc)
        pilot = {}
        for n, p in enumerate([[]] + s["points"]):
            w.clock, h.nsrc = fz
            h.put(base)
            one(s, w, h, m.clone(), p, pilot, R)
    return R


def validate(h, lax):
    import ocfl
    return outcome(lambda: ocfl.Object(lax_digests=lax).validate(h.url)[0])


def one(s, w, h, m, p, pilot, R):
    lax = s["lax"]
    R.runs += 1
    log, hist = [], []
    rotted = False
    vinv = all(("%s/inventory.json" % vname(h, i + 1)) in h.snap()[0] for i in range(len(m.versions)))
    for k, st in enumerate(s["migrate"]):
        old = h.cur_alg()
        alg = st["alg"]
        before = h.snap()
        rots = [r for r in p if r["mig"] == k]
        r, ops = migrate(h, w, st, lax, rots, log, None if not p else pilot.get(k, []))
        if not p:
            pilot[k] = ops
        m.apply(s["cfg"], st)
        rotted = rotted or bool(log)
        hist.append("%s->%s fixity %s: %s" % (old, alg, st["fixity"], r[0] if r[0] == "ok" else r[1:]))
        R.probe("migrate-%s-%s" % ("rot" if rotted else "intact", r[0]))
        R.nontrivial = True
        for q in rots:
            R.fired["rot:" + q["damage"]["kind"]] = R.fired.get("rot:" + q["damage"]["kind"], 0) + 1
            R.state(q["damage"]["kind"], q["at"] is None or int(q["at"] * 12), old != alg, st["fixity"], vinv, r[0], s["cfg"]["backend"], st["op"], lax)
        snap = h.snap()
        if r[0] not in ("ok", "err"):
            R.V("no-outcome", "%s: %s" % (hist, r))
            return
        if not rotted:
            if r[0] != "ok":
                R.V("intact-refused", "%s" % hist, {"points": [p]})
                return
            check_intact(snap, alg, m, lax, hist, R, h)
            continue
        # content was corrupted: what counts is what is now stored, not what was
        bad = spoiled(snap, m)
        v = validate(h, lax)
        if v[0] == "ok" and v[1]:
            if bad:
                R.V("corruption-hidden", "%s; %s; %s: object validates but %s" % (log, hist, st["op"], bad[:2]), {"points": [p]})
            else:
                R.probe("rot-ineffective")
        else:
            R.probe("rot-visible")
        if r[0] == "err":
            return


def spoiled(snap, m):
    """Stored versions that no longer give what was put in (as far as stored)."""
    got = refocfl.read(snap)
    if got is None:
        return ["unreadable"]
    out = []
    for (v, st, _b), mv in zip(got, m.versions):
        d = lib.diff_state(lib.expect_state(mv), st)
        if d:
            out.append("%s: %s" % (v, d))
    return out


def check_intact(snap, alg, m, lax, hist, R, h):
    probs = refocfl.validate(snap, lax=lax)
    if probs:
        R.V("intact-nonconforming", "%s: %s" % (hist, probs[:3]))
    data = refocfl.load_inv(snap[0]["inventory.json"])
    if data.get("digestAlgorithm") != alg:
        R.V("algorithm-not-changed", "%s: %s" % (hist, data.get("digestAlgorithm")))
    for d, paths in data["manifest"].items():
        for f in paths:
            if refocfl.dig(alg, snap[0][f]) != d.lower():
                R.V("wrong-digest", "%s: %s" % (hist, f))
    bad = spoiled(snap, m)
    if bad:
        R.V("migration-changed-content", "%s: %s" % (hist, bad[:2]))
    v = validate(h, lax)
    if v != ("ok", True):
        R.V("intact-not-valid", "%s: %s" % (hist, v))
