"""C02 every successful write leaves a conforming object; legitimate writes succeed."""
from .. import gen as G, lib, refocfl
from ..base import Res
from ..model import clash, bad_path

RULE = "a scenario is a random history; a state is the set of stored file names after a successful step, each checked by the reference validator and the library"
N = {"quick": 8000, "thorough": 30000}


def gen(rng, tier):
    g = G.G(rng, big=0.04)
    x = rng.random()
    s = g.history(nmax=4 if x < 0.9 else 2, foreign=0.35, hi=5 if x < 0.97 else 25)
    if 0.94 < x < 0.97:
        s = g.longer(s, rng.choice([6, 9, 11]))
    g.vary(s)
    s["order"] = rng.randrange(1000)
    return s


def room(s, i):
    """False if the padding of a foreign object leaves no room for step i."""
    p = s["steps"][0].get("plan")
    if not p or not p.get("pad"):
        return True
    return len(p["versions"]) + i <= 10 ** (p["pad"] - 1) - 1


def lone(st):
    """True if metadata has an address without the name the specification demands."""
    return any("address" in m and "name" not in m for m in [st.get("meta") or {}] + [v.get("meta") or {} for v in st.get("versions", ())])


def bad_state(st):
    return any(bad_path(p) or clash({k: 1 for k in st if k != p}, p) for p in st)


def run(s):
    R = Res()

    def step(h, i, st, before, r, m, m2):
        if r[0] != "ok":
            if room(s, i) and not bad_state(m2.head_state()) and not lone(st):
                R.V("legit-%s-failed" % st["op"], "step %d: %s" % (i, r[1:]))
            return
        snap = h.snap()
        R.state(sorted(snap[0]))
        if bad_state(m2.head_state()):
            return                        # C20 decides those
        p = refocfl.validate(snap)
        if p:
            R.V("nonconforming-after-%s" % st["op"], "step %d: %s" % (i, p[:4]))
        v = h.validate()
        if v[0] != "ok" or not v[1][0]:
            R.V("library-rejects-own-%s" % st["op"], "step %d: %s" % (i, v[1]))
        R.nontrivial = True
        R.probe(st["op"])
        data = refocfl.load_inv(snap[0].get("inventory.json", b"")) or {}
        want_id = s["steps"][0].get("plan", {}).get("id", s["cfg"]["id"])
        if data.get("id") != want_id:
            R.V("wrong-id", "%r" % data.get("id"))
        if data.get("digestAlgorithm") != m2.alg:
            R.V("wrong-digest-algorithm", "%r not %r" % (data.get("digestAlgorithm"), m2.alg))
        if len(data.get("versions", ())) != len(m2.versions):
            R.V("wrong-version-count", "%r" % len(data.get("versions", ())))
    with R.sim(1, order=s["order"]) as w:
        h, _, _ = lib.run_history(w, s, on_step=step)
        if s.get("odd") and h.hurt():
            R.V("other-objects-touched", "next to %s: %s" % (h.url, h.hurt()))
    return R
