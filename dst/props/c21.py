"""C21 version numbering is continuous and keeps its padding."""
import copy

from .. import damage, faults as F, gen as G, lib, model, refocfl
from ..base import Res
from ..world import outcome

RULE = "a scenario is an object whose version count lies anywhere up to the limit of its zero padding (or around 9 and 99 unpadded), updated past that limit, or with its version sequence broken in a seeded way and then updated, or a build from version directories of seeded names; distinct = (padding, count, operation, defect of the sequence, backend, outcome)"
N = {"quick": 14000, "thorough": 120000}
BREAK = ["gap", "mixed", "head-earlier", "head-unknown", "extra-dir", "extra-dir-content", "no-dir", "zero", "restyle-dirs", "first-missing", "repad-head", "word", "overflow-style", "next-file"]
SRCNAMES = ["v1", "v2", "v3", "v4", "v01", "v02", "v03", "v001", "v002", "v0", "v00", "v10", "v9", "V2", "v2 ", "v-1", "v1.5", "version3", "x", "v\u0663", "v02x", "v1\n"]


def gen(rng, tier):
    g = G.G(rng, big=0.0)
    cfg = g.cfg()
    kind = rng.choice(["grow", "grow", "grow", "broken", "broken", "build"])
    s = {"cfg": cfg, "kind": kind, "order": rng.randrange(1000), "steps": []}
    if kind == "build":
        names = rng.sample(SRCNAMES, rng.randint(0, 5)) if rng.random() < 0.5 else [rng.choice(["v%d", "v%02d", "v%03d", "v%05d"]) % i for i in range(1, rng.choice([2, 3, 4, 11, 12]))]
        if rng.random() < 0.3 and names:
            names.pop(rng.randrange(len(names)))
        if rng.random() < 0.2:
            names.append(rng.choice(SRCNAMES))
        s["src"] = {n: g.tree(1, 2) for n in dict.fromkeys(names)}
        s["stray"] = rng.random() < 0.3
        return s
    pad = rng.choice([0, 0, 2, 2, 2, 3, 4, 5])
    n = rng.choice([1, 2, 5, 7, 8, 8, 9, 10, 11]) if pad == 0 else rng.choice([1, 6, 7, 8, 9, 9]) if pad == 2 else rng.choice([1, 8, 9, 10, 11])
    if rng.random() < 0.05 and pad in (0, 3):
        n = rng.choice([97, 98, 99])
    p = g.plan(cfg, nmax=1)
    one = p["versions"][0]
    p["pad"] = pad
    p["versions"] = []
    tree = g.tree(0, 2)
    for i in range(n):
        v = copy.deepcopy(one)
        if rng.random() < 0.3 and n < 20:
            tree = g.tree(0, 2, base=tree)
        v["files"] = tree
        v["created"] = "2020-01-%02dT00:00:%02dZ" % (i // 60 + 1, i % 60)
        v["inv"] = True if n < 20 else i > n - 3
        if n >= 20 and cfg["backend"] == "store":
            v["inv"] = True
        p["versions"].append(v)
    s["steps"] = [{"op": "foreign", "plan": p}]
    s["ups"] = []
    for _ in range(rng.randint(1, 3)):
        st = g.update(tree)
        s["ups"].append(st)
    if kind == "broken":
        s["break"] = {"kind": rng.choice(BREAK), "a": rng.randrange(1 << 20), "b": rng.randrange(1 << 20)}
    return s


def style(v):
    return len(v) if v[1] == "0" else 0


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        if s["kind"] == "build":
            build(s, w, R)
            return R
        h, m, stop = lib.run_history(w, s)
        if stop or refocfl.validate(h.snap()):
            R.probe("base-invalid")
            return R
        if s["kind"] == "grow":
            grow(s, w, h, m, R)
        else:
            broken(s, w, h, m, R)
    return R


def grow(s, w, h, m, R):
    pad = s["steps"][0]["plan"]["pad"]
    for st in s["ups"]:
        n = len(m.versions)
        room = pad == 0 or n + 1 < 10 ** (pad - 1)
        before = F.everything(w)
        fn = h.prepare(st)
        mid = F.everything(w)
        r = outcome(fn)
        snap = h.snap()
        R.nontrivial = True
        R.state("grow", pad, n, st["op"], s["cfg"]["backend"], r[0], bool(st.get("alg")))
        R.probe("grow-%s-%s" % ("room" if room else "full", r[0]))
        ctx = "%s from %d versions with padding %d" % (st["op"], n, pad)
        if not room:
            if r[0] != "err":
                R.V("padding-overflow", "%s: %s, now %s" % (ctx, r[0], sorted(snap[1] & set(snap[1]))[:20]))
            d = F.diff_everything(mid, F.everything(w))
            if d:
                R.V("overflow-left-traces", "%s: %s" % (ctx, d))
            return
        if r[0] != "ok":
            R.V("refused", "%s: %s" % (ctx, r[1:]))
            return
        want = "v%0*d" % (pad, n + 1) if pad else "v%d" % (n + 1)
        data = refocfl.load_inv(snap[0]["inventory.json"])
        if data["head"] != want:
            R.V("head", "%s: head %s, expected %s" % (ctx, data["head"], want))
        if want not in data["versions"] or len(data["versions"]) != n + 1:
            R.V("versions-block", "%s: %s" % (ctx, sorted(data["versions"])[-4:]))
        if want not in snap[1] or want + "/inventory.json" not in snap[0]:
            R.V("directory", "%s: %s" % (ctx, sorted(x for x in snap[1] if "/" not in x)[-4:]))
        if r[1].head != want:
            R.V("returned-head", "%s: %s" % (ctx, r[1].head))
        m.apply(s["cfg"], st)
        bad = F.object_wrong(h, m)
        if bad:
            R.V("wrong", "%s: %s" % (ctx, bad[:3]))
            return
        del before


def rename_versions(files, dirs, data, ren, content=True):
    """Rename versions consistently in directories and every inventory."""
    def rp(p):
        a, _, b = p.partition("/")
        return ren.get(a, a) + ("/" + b if b else "")
    nf = {rp(p): d for p, d in files.items()}
    nd = {rp(p) for p in dirs}
    for where in [p for p in nf if damage.INV.match(p)]:
        x = refocfl.load_inv(nf[where])
        x["head"] = ren.get(x["head"], x["head"])
        x["versions"] = {ren.get(k, k): v for k, v in x["versions"].items()}
        for blk in [x["manifest"]] + list(x.get("fixity", {}).values()):
            for k in blk:
                blk[k] = [rp(p) for p in blk[k]]
        damage.put_inv(nf, where, x, both=False)
    return nf, nd


def spoil(snap, b):
    files, dirs = dict(snap[0]), set(snap[1])
    data = refocfl.load_inv(files["inventory.json"])
    vs = refocfl.version_seq(list(data["versions"]))
    n, k = len(vs), b["kind"]
    width = style(vs[0])
    nxt = "v%0*d" % (width - 1, n + 1) if width else "v%d" % (n + 1)
    v = vs[b["a"] % n]
    other = (lambda x: "v%d" % int(x[1:])) if width else (lambda x: "v%0*d" % (b["b"] % 3 + 2, int(x[1:])))
    if k == "gap":
        files, dirs = rename_versions(files, dirs, data, {x: ("v%0*d" % (width - 1, int(x[1:]) + 1) if width else "v%d" % (int(x[1:]) + 1)) for x in vs[b["a"] % n:]})
    elif k == "mixed":
        if n < 2:
            return None
        files, dirs = rename_versions(files, dirs, data, {v: other(v)})
    elif k == "first-missing":
        files, dirs = rename_versions(files, dirs, data, {vs[0]: nxt})
    elif k == "zero":
        files, dirs = rename_versions(files, dirs, data, {vs[0]: "v0" if not width else "v" + "0" * (width - 1)})
    elif k == "word":
        files, dirs = rename_versions(files, dirs, data, {v: ["x1", "version1", "V1", "v1a", "v", "v-1", "v+1", "v\u0661", "v1.0", "1"][b["b"] % 10]})
    elif k == "overflow-style":
        files, dirs = rename_versions(files, dirs, data, {v: "v1" + v[1:]})
    elif k == "restyle-dirs":
        ren = {x: other(x) for x in vs}
        files = {ren.get(p.split("/")[0], p.split("/")[0]) + p[len(p.split("/")[0]):]: d for p, d in files.items()}
        dirs = damage.dirs_of(files)
    elif k in ("head-earlier", "head-unknown", "repad-head"):
        if k == "head-earlier" and n < 2:
            return None
        data["head"] = vs[b["a"] % (n - 1)] if k == "head-earlier" else nxt if k == "head-unknown" else other(vs[-1])
        damage.put_inv(files, "inventory.json", data)
    elif k == "extra-dir":
        dirs.add(nxt)
        files[nxt + "/junk"] = b"junk"
    elif k == "extra-dir-content":
        files["%s/%s/junk" % (nxt, data.get("contentDirectory", "content"))] = b"junk"
    elif k == "next-file":
        files[nxt] = b"a file in the way"
    elif k == "no-dir":
        for p in [p for p in files if p.startswith(v + "/")]:
            del files[p]
        dirs = {x for x in dirs if x != v and not x.startswith(v + "/")}
    return files, dirs | damage.dirs_of(files)


def broken(s, w, h, m, R):
    snap = spoil(h.snap(), s["break"])
    if snap is None:
        return
    h.put(snap)
    if h.store:
        snap = (snap[0], damage.dirs_of(snap[0]))
    probs = refocfl.validate(snap)
    if not probs:
        R.probe("still-valid")
        return
    k = s["break"]["kind"]
    for st in s["ups"][:2]:
        try:
            fn = h.prepare(st)
        except Exception:       # pylint: disable=broad-except
            R.probe("stage-failed")
            return
        before = F.everything(w)
        r = outcome(fn)
        d = F.diff_everything(before, F.everything(w))
        R.nontrivial = True
        R.state("broken", k, s["steps"][0]["plan"]["pad"], len(m.versions), st["op"], r[0], s["cfg"]["backend"], probs[0][:4])
        R.probe("broken-%s" % r[0])
        R.fired["sequence:" + k] = R.fired.get("sequence:" + k, 0) + 1
        if r[0] == "ok":
            R.V("invalid-sequence-accepted", "%s (%s): %s updated" % (k, probs[:3], st["op"]))
        elif d:
            R.V("refusal-left-traces", "%s: %s: %s" % (k, r[1:], d))
        if r[0] not in ("ok", "err"):
            R.V("no-outcome", "%s: %s" % (k, r))


def build(s, w, R):
    h = lib.H(w, s["cfg"])
    src = h.fresh("bsrc")
    w.disk.h_mkdirs(src)
    import re
    nums = {}
    bad = False
    for n, files in s["src"].items():
        h.stage(files, src + "/" + n)
        x = re.fullmatch(r"v([0-9]+)", n)
        if x:
            if int(x.group(1)) == 0 or n[1] == "0" and len(n) == 2:
                bad = bad or False
                if int(x.group(1)) == 0:
                    continue
            if int(x.group(1)) in nums:
                bad = True
            nums[int(x.group(1))] = n
    if s["stray"]:
        w.disk.h_write(src + "/v77", b"a file, not a version")
    bad = bad or sorted(nums) != list(range(1, len(nums) + 1)) or not nums
    zero = any(re.fullmatch(r"v0+", n) for n in s["src"])
    before = F.everything(w)
    r = outcome(lambda: lib.mkobj(s["cfg"]).build(src, objdir=h.url))
    d = F.diff_everything(before, F.everything(w))
    R.nontrivial = True
    R.state("build", sorted(s["src"]), s["cfg"]["backend"], r[0])
    R.probe("build-%s-%s" % ("bad" if bad else "zero" if zero else "good", r[0]))
    ctx = "build from %s" % sorted(s["src"])
    if r[0] == "err":
        if d:
            R.V("refused-build-left-traces", "%s: %s: %s" % (ctx, r[1:], d))
        if not bad and not zero:
            R.V("good-sequence-refused", "%s: %s" % (ctx, r[1:]))
        return
    if r[0] != "ok":
        R.V("no-outcome", "%s: %s" % (ctx, r))
        return
    if bad:
        R.V("bad-sequence-built", "%s" % ctx)
        return
    m = model.Model()
    m.apply(s["cfg"], {"op": "build", "versions": [{"files": s["src"][nums[i]]} for i in sorted(nums)]})
    wrong = F.object_wrong(h, m)
    if wrong:
        R.V("build-wrong", "%s: %s" % (ctx, wrong[:3]))
        return
    data = refocfl.load_inv(h.snap()[0]["inventory.json"])
    vs = refocfl.version_seq(list(data["versions"]))
    if data["head"] != vs[-1] or r[1].head != vs[-1] or {x for x in h.snap()[1] if x and "/" not in x} != set(vs):
        R.V("build-names", "%s: %s head %s dirs %s" % (ctx, vs, data["head"], sorted(h.snap()[1])[:9]))
