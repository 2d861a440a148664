"""C22 content is stored as often as the settings ask for."""
import ocfl

from .. import faults as F, gen as G, lib, model, refocfl
from ..base import Res
from ..model import Refused, edit
from ..world import outcome

RULE = "a scenario is a history over few distinct contents that repeat within and across versions, vanish and reappear, with forward delta and deduplication set anew for each step; after every step the stored content files of the new version are counted per content and compared with a count from the settings; distinct = (settings, repetition pattern per content, operation, backend)"
N = {"quick": 12000, "thorough": 150000}


class G2(G.G):
    """Few contents, many repetitions."""

    def __init__(self, rng, k):
        super().__init__(rng, big=0.0)
        self.pool = ["0:0"] + ["%d:%d" % (rng.randrange(1 << 30), rng.choice([5, 9, 100, 8193])) for _ in range(k)]

    def cid(self):
        return self.rng.choice(self.pool)


def gen(rng, tier):
    g = G2(rng, rng.choice([1, 2, 3, 5]))
    cfg = g.cfg()
    m = model.Model()
    s = {"cfg": cfg, "order": rng.randrange(1000), "steps": [], "reuse": rng.random() < 0.3, "short": rng.choice([None, None, None, 0.3, 0.01])}
    hi = rng.choice([3, 6, 9])

    def sets():
        return {"fd": rng.random() < 0.5, "dedupe": rng.random() < 0.5, "norm": rng.choice(["uri", None, "md5"])}
    x = rng.random()
    if x < 0.3:
        st = {"op": "foreign", "plan": g.plan(cfg, nmax=3)}
        for v in st["plan"]["versions"]:
            v["dup"] = rng.random() < 0.5
        if st["plan"]["pad"] == 2 and len(st["plan"]["versions"]) > 3:
            st["plan"]["pad"] = 0
    elif x < 0.6:
        base, vers = None, []
        for _ in range(rng.randint(1, 4)):
            base = g.tree(0, hi, base=base if rng.random() < 0.7 else None)
            vers.append({"files": base, "meta": {}})
        st = {"op": "build", "versions": vers}
    else:
        st = {"op": "create", "files": g.tree(0, hi), "meta": {}}
    st["set"] = sets()
    s["steps"].append(st)
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        m = model.Model.of(s)
        prev = m.head_state()
        if rng.random() < 0.4:
            src = g.tree(1, hi)
            st = {"op": "edit", "src": src, "carry": rng.random() < 0.6, "meta": {}, "edits": []}
            known = list(prev) if st["carry"] else []
            for _ in range(rng.randint(0, 9)):
                y = rng.random()
                if y < 0.7 or not known:
                    lp = g.name()
                    e = ["add", rng.choice(sorted(src)), lp]
                    if rng.random() < 0.2:
                        e.append("HEAD/" + g.name())
                    known.append(lp)
                elif y < 0.9:
                    e = ["del", rng.choice(known)]
                else:
                    e = ["ren", rng.choice(known), g.name()]
                st["edits"].append(e)
        else:
            if rng.random() < 0.2 and len(m.versions) > 1:
                base = rng.choice(m.versions)["state"]
                files = dict(base)
            else:
                files = g.tree(0, hi, base=prev if rng.random() < 0.7 else None)
            st = {"op": "update", "files": files, "meta": {}}
        st["alg"] = rng.choice(["sha512", "sha256"]) if rng.random() < 0.2 else None
        st["set"] = sets()
        s["steps"].append(st)
    return s


def want(m, adds, dels, prev, st, cid):
    """(least, most) content files to be stored for content."""
    n = adds.get(cid, 0)
    if not n:
        return 0, 0
    if st["fd"] and cid in prev:
        k = 0
    elif st["dedupe"]:
        k = 1
    else:
        k = n
    if cid in dels:
        return 0, n if k else 0
    return k, k


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        h = lib.H(w, s["cfg"])
        m = model.Model()
        one = lib.mkobj(s["cfg"])
        prev = set()            # contents stored so far
        for n, st in enumerate(s["steps"]):
            cfg = dict(s["cfg"], **st["set"])
            h.cfg = cfg
            before = h.snap()
            log = {"adds": {}, "dels": set()}
            if st["op"] == "edit":
                fn = editing(h, m, st, cfg, log, one if s["reuse"] else None, R)
            elif st["op"] == "update" and s["reuse"]:
                src = h.stage(st["files"])
                alg = st.get("alg") or h.cur_alg()
                one.forward_delta, one.dedupe, one.content_path_normalization, one.digest_algorithm, one.fixity = cfg["fd"], cfg["dedupe"], cfg["norm"], alg, None
                fn = (lambda src=src, st=st: one.add_version_with_content(objdir=h.url, srcdir=src, metadata=lib.mkmeta(st["meta"])))
            else:
                fn = h.prepare(st)
            if s["short"]:
                w.arm([{"nth": 0, "sticky": True, "kinds": ["read"], "act": "short", "part": s["short"]}])
            r = outcome(fn)
            w.disarm()
            if r[0] != "ok":
                R.V("refused", "step %d %s: %s" % (n, st["op"], r[1:]))
                return R
            m2 = m.clone()
            if st["op"] == "edit":
                m2.versions.append({"state": log["state"], "meta": {}})
            else:
                m2.apply(cfg, st)
            bad = F.object_wrong(h, m2)
            if bad:
                R.V("wrong", "step %d %s: %s" % (n, st["op"], bad[:3]))
                return R
            R.nontrivial = True
            snap = h.snap()
            data = refocfl.load_inv(snap[0]["inventory.json"])
            vs = refocfl.version_seq(list(data["versions"]))
            if st["op"] != "foreign":
                for i in range(len(m.versions) if st["op"] != "build" else 0, len(m2.versions)):
                    mv = m2.versions[i]
                    if st["op"] != "edit":
                        log = {"adds": {}, "dels": set()}
                        for c in mv["state"].values():
                            log["adds"][c] = log["adds"].get(c, 0) + 1
                    check(s, R, cfg, st, snap, data, vs[i], m2, log, prev)
                    prev |= {c for c, k in log["adds"].items() if k}
            else:
                prev |= {c for v in m2.versions for c in v["state"].values()}
            for f, b in before[0].items():
                if f.startswith("v") and snap[0].get(f) != b:
                    R.V("earlier-changed", f)
            m = m2
            # what is stored, whatever was deleted again
            stored = {snap[0][p] for ps in data["manifest"].values() for p in ps}
            prev = {c for c in {c for v in m.versions for c in v["state"].values()} | prev if G.blob(c) in stored}
    return R


def editing(h, m, st, cfg, log, one, R):
    src = h.stage(st["src"])

    def ed():
        obj = one or lib.mkobj(cfg, identifier=None)
        obj.forward_delta, obj.dedupe, obj.content_path_normalization = cfg["fd"], cfg["dedupe"], cfg["norm"]
        nv = obj.start_new_version(objdir=h.url, srcdir=src, digest_algorithm=st.get("alg"), metadata=lib.mkmeta(st["meta"]), carry_content_forward=st["carry"])
        state = m.head_state() if st["carry"] else {}
        cdir = nv.inventory.head + "/" + nv.inventory.content_directory_to_use
        for e in st["edits"]:
            e = list(e)
            if len(e) > 3:
                e[3] = e[3].replace("HEAD", cdir)
            was = dict(state)
            try:
                edit(state, st["src"], e)
                legit = True
            except Refused:
                legit = False
            try:
                lib.do_edit(nv, e)
                done = True
            except ocfl.NewVersionException:
                done = False
                if legit:
                    if len(e) > 3:          # content path may be taken
                        state.clear()
                        state.update(was)
                    else:
                        try:                # generated path may clash with a given one
                            lib.do_edit(nv, ["add", e[1], e[2], cdir + "/other %d" % len(log["adds"])] if e[0] == "add" else e)
                            done = True
                        except ocfl.NewVersionException:
                            raise
            if done and e[0] == "add":
                c = st["src"][e[1]]
                log["adds"][c] = log["adds"].get(c, 0) + 1
            elif done and e[0] == "del":
                log["dels"].add(was[e[1]])
        log["state"] = state
        return obj.write_new_version(nv)
    return ed


def check(s, R, cfg, st, snap, data, v, m, log, prev):
    cd = data.get("contentDirectory", "content")
    mine = {f: b for f, b in snap[0].items() if f.startswith(v + "/" + cd + "/")}
    listed = {p: d.lower() for d, ps in data["manifest"].items() for p in ps}
    for f, b in mine.items():
        if listed.get(f) != refocfl.dig(data["digestAlgorithm"], b):
            R.V("unlisted", "%s stored in %s: manifest has %s" % (f, v, listed.get(f)))
    count = {}
    for b in mine.values():
        count[b] = count.get(b, 0) + 1
    for c in set(log["adds"]):
        lo, hi = want(m, log["adds"], log["dels"], prev, cfg, c)
        got = count.pop(G.blob(c), 0)
        R.state(cfg["fd"], cfg["dedupe"], log["adds"][c], c in prev, c in log["dels"], c == "0:0", st["op"], s["cfg"]["backend"], bool(st.get("alg")), got)
        R.probe("fd%d-dd%d-%s-%s" % (cfg["fd"], cfg["dedupe"], "seen" if c in prev else "new", "many" if log["adds"][c] > 1 else "one"))
        if got < lo or got > hi:
            R.V("stored-%s" % ("more" if got > hi else "less"), "%s of %s with forward_delta %s dedupe %s: content %s added %d times%s%s is stored %d times, expected %s" % (
                v, st["op"], cfg["fd"], cfg["dedupe"], c, log["adds"][c], ", stored before" if c in prev else "", ", deleted" if c in log["dels"] else "", got, (lo, hi)))
    if count:
        R.V("unasked", "%s of %s stores contents that were not added: %s" % (v, st["op"], [f for f, b in mine.items() if b in count][:4]))
