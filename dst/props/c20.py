"""C20 editing a new version behaves like editing a set of files."""
import ocfl

from .. import faults as F, gen as G, lib, model, refocfl
from ..base import Res
from ..model import Refused, edit
from ..world import outcome

RULE = "a scenario opens edit sessions on an object (or a first version), applies seeded adds, deletes and renames with given and generated content paths, some hit by a read error, compares the logical map after every step with a plain dictionary, then commits and compares storage and difference; distinct = (carry, settings, edit kinds in order of outcome, faults, backend)"
N = {"quick": 12000, "thorough": 150000}
ODD = ["", "/", "a//b", "../x", "x/..", ".", "./a", "/abs", "a/", "..", "a/./b", "\u00e4/\u00f6", "a/b/c/d", "a", "a/b", "x", "x/y", "x/y/z"]
POOL = ["a", "a/b", "b", "c.txt", "x", "x/y", "x/y/z", "d/e", "d/f", "\u00fc", " s p ", "new\nline", ".h"]


def gen(rng, tier):
    g = G.G(rng, big=0.01)
    s = g.history(nmax=3, foreign=0.3, hi=4)
    s["order"] = rng.randrange(1000)
    s["sessions"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        src = {}
        for _ in range(rng.randint(1, 5)):
            G.add(src, rng.choice(POOL) if rng.random() < 0.7 else g.name(), g.cid())
        e = {"src": src, "carry": rng.random() < 0.7, "alg": rng.choice([None, None, None, "sha256", "sha512"]), "meta": g.meta(), "kind": rng.choice(["next"] * 9 + ["first"]),
             "edits": [], "all": rng.random() < 0.15, "twice": rng.random() < 0.1, "abandon": rng.random() < 0.1, "diff": rng.random() < 0.6}
        known = list(model.Model.of(s).head_state())
        for _ in range(rng.choice([1, 3, 6, 10, 16])):
            x = rng.random()
            here = known + POOL[:6]

            def path():
                y = rng.random()
                return rng.choice(ODD) if y < 0.12 else rng.choice(here) if y < 0.55 else rng.choice(POOL) if y < 0.8 else g.name()
            if x < 0.5:
                f = rng.choice(sorted(src)) if rng.random() < 0.95 else rng.choice(["missing", "a/missing", ""])
                if e["edits"] and e["edits"][-1]["e"][0] == "add" and rng.random() < 0.3:
                    f = e["edits"][-1]["e"][1]
                ed = ["add", f, path()]
                if rng.random() < 0.2:
                    ed.append(rng.choice(["HEAD/a", "HEAD/a/b", "HEAD/x", "HEAD/" + g.name(), "HEAD/../x", "HEAD/", "v1/content/f", "VDIR/x", "x", "HEADx/y", "HEAD/a//b", "/HEAD/a", "HEAD/.", "PREV/zz"]))
            elif x < 0.72:
                ed = ["del", rng.choice(known) if known and rng.random() < 0.7 else path()]
            else:
                ed = ["ren", rng.choice(known) if known and rng.random() < 0.7 else path(), path()]
            if x < 0.5 and len(ed) == 3 and rng.random() < 0.08:
                # the names a second and third copy of some file would be given
                ed.append("HEAD/" + rng.choice(sorted(src)) + rng.choice(["", "__2", "__3", "__4"]))
            known += [p for p in ed[2:3] if p]
            q = {"e": ed}
            if rng.random() < 0.06 and ed[0] == "add":
                q["fault"] = {"nth": rng.randrange(4), "act": "err", "errno": "EIO"}
            e["edits"].append(q)
        if rng.random() < 0.08:
            # the same source path over and over, rewritten in between, copies dropped
            e["abandon"] = True
            e["all"] = False
            f, live = rng.choice(sorted(src)), []
            for i in range(rng.randint(3, 9)):
                if live and rng.random() < 0.35:
                    e["edits"].append({"e": ["del", live.pop(rng.randrange(len(live)))]})
                else:
                    e["edits"].append({"e": ["add", f, "copy-%d" % i], "rewrite": g.cid() if rng.random() < 0.8 else None})
                    live.append("copy-%d" % i)
        s["sessions"].append(e)
    return s


def logical(nv):
    """{logical path: digest} the session shows."""
    out = {}
    for d, ps in (nv.inventory.current_version.state or {}).items():
        for p in ps:
            if p in out:
                out[p] = "twice"
            else:
                out[p] = d
    return out


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return R
        if refocfl.validate(h.snap()):
            R.probe("base-invalid")
            return R
        for e in s["sessions"]:
            if not session(s, w, h, m, e, R):
                break
    return R


def session(s, w, h, m, e, R):
    cfg = s["cfg"]
    src = h.stage(e["src"])
    before = h.snap()
    alg = e["alg"] or h.cur_alg()
    first = e["kind"] == "first"
    obj = lib.mkobj(cfg, identifier=None)

    def start():
        if first:
            return ocfl.NewVersion.first_version(srcdir=src, identifier="urn:x", digest_algorithm=alg, content_directory=cfg["cd"], dedupe=cfg["dedupe"], content_path_normalization=cfg["norm"])
        return obj.start_new_version(objdir=h.url, srcdir=src, digest_algorithm=e["alg"], metadata=lib.mkmeta(e["meta"]), carry_content_forward=e["carry"])
    r = outcome(start)
    R.runs += 1
    if r[0] != "ok":
        R.V("start-refused", "%s" % (r[1:],))
        return False
    nv = r[1]
    prev = {} if first else m.head_state()
    state = dict(prev) if e["carry"] and not first else {}
    src_now = dict(e["src"])
    head = nv.inventory.head
    cdir = head + "/" + nv.inventory.content_directory_to_use
    vers = list(nv.inventory.version_directories)
    prevdir = vers[-2] if len(vers) > 1 else "v0"
    given = False
    script = []
    if e["all"]:
        r = outcome(nv.add_from_srcdir)
        clash = any(p in state or model.clash(state, p) for p in src_now)
        script.append(["all", r[0]])
        if r[0] == "ok" and not clash:
            state.update(src_now)
        elif r[0] == "ok" or not clash:
            R.V("add-all", "%s onto %s gave %s" % (sorted(src_now), sorted(state), r[:3]))
            return False
        else:
            state = None        # partly added, order not promised
    if state is not None and not agree(R, nv, state, alg, script, "start"):
        return False
    for q in e["edits"]:
        if state is None:
            break
        ed = list(q["e"])
        if len(ed) > 3:
            given = True
            ed[3] = ed[3].replace("HEAD", cdir).replace("VDIR", head).replace("PREV", prevdir + "/" + nv.inventory.content_directory_to_use)
        if q.get("rewrite") is not None and ed[1] in src_now:
            src_now[ed[1]] = q["rewrite"]
            w.disk.h_write(src + "/" + ed[1], G.blob(q["rewrite"]))
        new = dict(state)
        try:
            edit(new, src_now, ed[:3])
            may = True
        except Refused:
            may = False
        w.arm([dict(q["fault"])] if q.get("fault") else [])
        r = outcome(lambda: lib.do_edit(nv, ed))
        hit = [f for f in w.fired]
        w.disarm()
        script.append(ed[:1] + [r[0]])
        R.probe("%s-%s-%s" % (ed[0], "legit" if may else "refusable", r[0]))
        ctx = "%s%s after %s" % (ed, " with %s" % hit if hit else "", script[-6:])
        if r[0] == "ok":
            if not may:
                R.V("accepted-%s" % ed[0], "%s on %s" % (ctx, sorted(state)[:8]))
                return False
            state = new
        elif r[0] == "err":
            if may and not hit and not (len(ed) > 3 or (given and ed[0] == "add")):
                R.V("refused-%s" % ed[0], "%s: %s" % (ctx, r[1:]))
                return False
        else:
            R.V("no-outcome", "%s: %s" % (ctx, r))
            return False
        if not agree(R, nv, state, alg, script, ctx):
            return False
    if state is None:
        return False
    R.nontrivial = True
    R.state(e["carry"], first, cfg["fd"], cfg["dedupe"], script, cfg["backend"])
    if e["diff"] or first:
        check_diff(R, nv, prev, state, alg, script)
    if lib.diff_snap(before, h.snap()):
        R.V("session-changed-object", "%s before writing" % lib.diff_snap(before, h.snap()))
    if first or e["abandon"]:
        return True
    r = outcome(lambda: obj.write_new_version(nv))
    if r[0] != "ok":
        R.V("commit-refused", "%s after %s" % (r[1:], script))
        return False
    m.versions.append({"state": state, "meta": dict(e["meta"])})
    snap = h.snap()
    bad = F.object_wrong(h, m)
    if bad:
        R.V("commit-wrong", "%s after %s" % (bad[:3], script))
        return False
    needed(R, snap, head, cfg, script)
    v = outcome(lambda: ocfl.Object().validate(h.url)[0])
    if v != ("ok", True):
        R.V("commit-not-valid", "%s after %s" % (v, script))
    if e["twice"]:
        r = outcome(lambda: obj.write_new_version(nv))
        if r[0] != "err" or lib.diff_snap(snap, h.snap()):
            R.V("written-twice", "%s %s" % (r[:3], lib.diff_snap(snap, h.snap())))
    return True


def agree(R, nv, state, alg, script, ctx):
    got = logical(nv)
    want = {p: refocfl.dig(alg, G.blob(c)) for p, c in state.items()}
    if got != want:
        R.V("map-differs", "%s: %s" % (ctx, {p: (got.get(p, "-")[:8], want.get(p, "-")[:8]) for p in set(got) | set(want) if got.get(p) != want.get(p)}))
        return False
    lp = list(nv.inventory.current_version.logical_paths)
    if sorted(lp) != sorted(want):
        R.V("paths-differ", "%s: %s" % (ctx, lp))
        return False
    for p in want:
        if nv.inventory.current_version.digest_for_logical_path(p) != want[p]:
            R.V("digest-differs", "%s: %s" % (ctx, p))
    return True


def check_diff(R, nv, prev, state, alg, script):
    d = outcome(nv.diff_with_previous)
    if d[0] != "ok":
        R.V("diff-fails", "%s" % (d[1:],))
        return
    want = [("A", refocfl.dig(alg, G.blob(c)), p) for p, c in state.items() if p not in prev or G.blob(prev[p]) != G.blob(c)]
    want += [("D", refocfl.dig(alg, G.blob(c)), p) for p, c in prev.items() if p not in state or G.blob(state[p]) != G.blob(c)]
    if sorted(tuple(x) for x in d[1]) != sorted(want):
        R.V("diff-wrong", "%s expected %s after %s" % ([(a, x[:6], p) for a, x, p in d[1]][:6], [(a, x[:6], p) for a, x, p in want][:6], script))


def needed(R, snap, head, cfg, script):
    """The new version's own content is all referenced by it, and not stored again
    without reason."""
    data = refocfl.load_inv(snap[0]["inventory.json"])
    st = {d.lower() for d in data["versions"][head]["state"]}
    listed = {p: d.lower() for d, ps in data["manifest"].items() for p in ps}
    mine = [f for f in snap[0] if f.startswith(head + "/" + data.get("contentDirectory", "content") + "/")]
    for f in mine:
        if listed.get(f) not in st:
            R.V("unneeded-content", "%s is stored but the version has nothing with that content; %s" % (f, script))
    ds = [listed.get(f) for f in mine]
    if cfg["dedupe"] and len(ds) != len(set(ds)):
        R.V("stored-twice", "%s; %s" % (sorted(mine), script))
    if cfg["fd"]:
        old = {d for p, d in listed.items() if not p.startswith(head + "/")}
        again = [f for f, d in zip(mine, ds) if d in old]
        if again:
            R.V("stored-again", "%s; %s" % (again, script))
