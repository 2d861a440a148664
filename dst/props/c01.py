"""C01 round trip."""
from .. import gen as G, lib
from ..base import Res
from ..model import Model
from ..world import outcome

RULE = "a scenario is a random history (create, build, update, edit or foreign object, settings, names, sizes); distinct states are distinct (settings, version contents) histories with at least one version, every version extracted and compared"
N = {"quick": 5000, "thorough": 30000}


def gen(rng, tier):
    g = G.G(rng, big=0.1)
    x = rng.random()
    s = g.history(nmax=5 if x < 0.9 else 2, hi=5 if x < 0.97 else 25)
    if 0.92 < x < 0.97:
        s = g.longer(s, rng.choice([6, 9, 11]))
    g.vary(s)
    s["order"] = rng.randrange(1000)
    s["pick"] = rng.randrange(1000)
    s["peek"] = [rng.choice([0, 0, "head", "any"]) for _ in s["steps"]]
    return s


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        def peek(h, i, st, before, r, m, m2):
            if r[0] == "ok" and m2.versions and i < len(s["peek"]) and s["peek"][i]:
                one(h, m2, s["peek"][i], s["pick"] % len(m2.versions), R)
        h, m, stop = lib.run_history(w, s, on_step=peek)
        if stop:
            R.probe("history-stopped")
        if m.versions:
            R.nontrivial = len(m.versions) > 1 or bool(m.head_state())
            lib.check_extract(h, m, R.V)
            single(h, m, s, R)
            ident = s["steps"][0].get("plan", {}).get("id", s["cfg"]["id"])
            r = one(h, m, "head", 0, R)
            if r[0] == "ok" and r[1].id != ident:
                R.V("meta-id", "%r not %r" % (r[1].id, ident))
            R.state(lib.jdump(s["cfg"]), [sorted(v["state"].items()) for v in m.versions])
            R.probe("versions", len(m.versions))
    return R


def one(h, m, which, i, R):
    """Extract the head or another version."""
    i = len(m.versions) - 1 if which == "head" else i
    vd = "head" if which == "head" else lib.vname(h, i + 1)
    r, snap = h.extract(vd)
    if r[0] != "ok":
        R.V("extract-failed", "%s: %s" % (vd, r[1:]))
        return r
    lib.check_meta(r[1], m.versions[i], h, vd, R.V)
    diff = lib.diff_state(lib.expect_state(m.versions[i]), snap[0])
    if diff:
        R.V("extract-differs", "%s of %d: %s" % (vd, len(m.versions), diff))
    return r


def single(h, m, s, R):
    """Extract one logical file of one version."""
    i = s["pick"] % len(m.versions)
    st = m.versions[i]["state"]
    if not st:
        return
    lp = sorted(st)[s["pick"] % len(st)]
    dst = h.fresh("f")
    vd = lib.vname(h, i + 1)
    r = outcome(lambda: h.mk(s["cfg"]).extract_file(h.url, vd, dst, lp))
    snap = h.w.disk.snapshot(dst)
    if r[0] != "ok":
        R.V("extract-file-failed", "%s %r: %s" % (vd, lp, r[1:]))
    elif snap[0] != {lp.rsplit("/", 1)[-1]: G.blob(st[lp])}:
        R.V("extract-file-differs", "%s %r gave %r" % (vd, lp, sorted(snap[0])))
    else:
        lib.check_meta(r[1], m.versions[i], h, vd, R.V)
    R.probe("single-file-extracts")
