"""C19 creation times reflect the clock unless given."""
import calendar
import re

import ocfl

from .. import gen as G, lib, model, refocfl
from ..base import Res
from ..simos import set_tz
from ..world import outcome

RULE = "a scenario sets the simulated system clock and time zone, runs a history of creates, builds, updates and edit sessions with and without explicit created times, lets the clock jump forwards or backwards between and during them at seeded operations and lets time pass between steps of a session; distinct = (operation, explicit or not, zone, jumps that struck, clock class)"
N = {"quick": 12000, "thorough": 150000}
ZONES = ["UTC0", "UTC0", "AAA-5:30", "NYC5EDT,M3.2.0,M11.1.0", "LHI-10:30LHD-11,M10.1.0,M4.1.0", "CHA-12:45", "NWF+11", "KIR-14"]
CLOCKS = [1700000000.0, 1.0, 951782399.9995, 1710054000.0 - 0.001, 1709251199.25, 1483228799.5, 946684799.9999999, 2147483647.6, 4102444799.0, 1711846800.0, 1730613600.0, 86399.99, 1600000000.5]
JUMPS = [-0.5, 0.5, -3600, 3600, -86400, 86400, -31536000, 31536000 * 3, -1e9, 12345.678, -1.0, 60]


def gen(rng, tier):
    g = G.G(rng, big=0.0)
    s = g.history(nmax=4, foreign=0.15, build=0.2)
    s["tz"] = rng.choice(ZONES)
    s["clock"] = rng.choice(CLOCKS) if rng.random() < 0.7 else rng.randrange(1, 4000000000) + rng.random()
    s["order"] = rng.randrange(1000)
    s["timing"] = []
    s["reuse"] = rng.random() < 0.4
    for st in s["steps"]:
        # the moments the clock is set, what passes before, how created is given
        t = {"before": rng.choice([0, 0, 0.3, 1.7, 3600] + JUMPS), "jumps": [[rng.random(), rng.choice(JUMPS)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]}
        t["linger"] = rng.choice([0, 0, 2.5, 86400.0, -7200.0])
        t["set"] = rng.choice(["metadata", "metadata", "setter", "none"])
        s["timing"].append(t)
        for v in st.get("versions", [st]):
            if v.get("meta") and rng.random() < 0.5:
                v["meta"].pop("created", None)
            if v.get("meta") is not None and rng.random() < 0.25:
                v["meta"]["created"] = rng.choice(["2020-01-02T03:04:05Z", "1969-12-31T23:59:59Z", "2999-12-31T23:59:59.999999Z", "2000-02-29T00:00:00.1+14:00", "2011-11-11T11:11:11-00:30", "0001-01-01T00:00:00Z", "2016-12-31T23:59:60Z" if rng.random() < 0 else "2016-12-31T23:59:59+00:00"])
    return s


def seconds(created):
    """Instant of a timestamp, independently computed."""
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)[Tt](\d\d):(\d\d):(\d\d)(\.\d+)?([Zz]|([+-])(\d\d):(\d\d))", created)
    if not m:
        return None
    t = calendar.timegm(tuple(int(x) for x in m.groups()[:6])) + float(m.group(7) or 0)
    if m.group(9):
        off = int(m.group(10)) * 3600 + int(m.group(11)) * 60
        t -= off if m.group(9) == "+" else -off
    return t


def perform(h, w, st, t):
    """fn for the step, with created given in the way t says."""
    cfg = h.cfg
    if st["op"] != "edit":
        if st["op"] in ("create", "update") and t["set"] == "none" and not st.get("meta"):
            src = h.stage(st["files"])
            if st["op"] == "create":
                return lambda: h.mk(cfg).create(src, objdir=h.url)
            alg = st.get("alg") or h.cur_alg()
            return lambda: h.mk(cfg, digest_algorithm=alg, fixity=None, identifier=None).add_version_with_content(objdir=h.url, srcdir=src)
        return h.prepare(st)
    src = h.stage(st["src"])

    def ed():
        obj = h.mk(cfg, identifier=None)
        md = lib.mkmeta(st.get("meta"))
        if t["set"] == "setter":
            md = None
        nv = obj.start_new_version(objdir=h.url, srcdir=src, digest_algorithm=st.get("alg"), metadata=md, carry_content_forward=st["carry"])
        if t["set"] == "setter":
            mm = st.get("meta") or {}
            for a, k in (("created", "created"), ("message", "message"), ("user_name", "name"), ("user_address", "address")):
                if k in mm:
                    setattr(nv, a, mm[k])
        lib.try_edits(nv, st)
        if t["linger"] > 0:
            w.clock += t["linger"]
        elif t["linger"]:
            w.jump(t["linger"])
        return obj.write_new_version(nv)
    return ed


def run(s):
    R = Res()
    ops = 120
    with R.sim(1, clock=s["clock"], order=s["order"]) as w:
        set_tz(s["tz"])
        h = lib.H(w, s["cfg"])
        h.reuse = s["reuse"]
        m = model.Model()
        told = {}
        for i, (st, t) in enumerate(zip(s["steps"], s["timing"])):
            if t["before"] >= 0:
                w.clock += t["before"]
            else:
                w.jump(t["before"])
            fn = perform(h, w, st, t)
            n0 = len(m.versions)
            w.mark()
            w.arm([{"nth": int(f * ops), "act": "jump", "delta": d} for f, d in t["jumps"]])
            r = outcome(fn)
            fired = [f for f in w.fired if f[3] == "jump"]
            ops = max(8, w.opn)
            shown = w.shown()
            w.disarm()
            m.apply(s["cfg"], st)
            snap = h.snap()
            ctx = "%s in zone %s, clock %s, %d jumps" % (st["op"], s["tz"], s["clock"], len(fired))
            R.nontrivial = True
            R.probe("%s-%s" % (st["op"], r[0]))
            R.state(st["op"], s["tz"], t["set"], [f[1] for f in fired], t["before"], t["linger"] if st["op"] == "edit" else 0, int(s["clock"] // 1e8))
            if r[0] != "ok":
                R.V("fails", "%s: %s" % (ctx, r[1:]))
                return R
            probs = refocfl.validate(snap)
            if probs:
                R.V("nonconforming", "%s: %s" % (ctx, probs[:3]))
                return R
            data = refocfl.load_inv(snap[0]["inventory.json"])
            seq = refocfl.version_seq(list(data["versions"]))
            for k, (v, mv) in enumerate(zip(seq, m.versions)):
                c = data["versions"][v]["created"]
                if k < n0:
                    if c != told[k]:
                        R.V("earlier-changed", "%s: version %s created was %s and is now %s" % (ctx, v, told[k], c))
                    continue
                told[k] = c
                want = mv["meta"].get("created")
                if st["op"] == "foreign":
                    continue
                if want is not None:
                    if c != want:
                        R.V("explicit-not-verbatim", "%s: %s given, %s stored" % (ctx, want, c))
                    continue
                at = seconds(c)
                if at is None:
                    R.V("malformed", "%s: %r" % (ctx, c))
                elif not any(a - 1 <= at <= b + 1 for a, b in shown):
                    R.V("wrong-time", "%s: %s is %r, the clock showed %s" % (ctx, c, at, shown[:4]))
            v = outcome(lambda: ocfl.Object().validate(h.url)[0])
            if v != ("ok", True):
                R.V("not-valid", "%s: %s" % (ctx, v))
    return R
