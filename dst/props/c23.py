"""C23 refused, aborted and dry operations leave no trace."""
import copy
import json

import ocfl
from ocfl import bagger

from .. import damage, faults as F, gen as G, lib, model, refocfl
from ..base import Res
from ..simos import MNT
from ..world import outcome

RULE = "a scenario is a stored object (or none), then a seeded series of operations with bad settings, bad metadata, bad sources or destinations, on damaged objects, asked to abort without difference, or dry, with whole-storage snapshots around each, finished by a legitimate update; distinct = (operation, what is bad about it, backend, outcome)"
N = {"quick": 12000, "thorough": 120000}

SET = [("id", None), ("id", ""), ("id", 5), ("alg", "md5"), ("alg", "sha999"), ("alg", "SHA512"), ("alg", ""), ("alg", "blake2b-512"), ("alg", "sha1"), ("spec", "0.9"), ("spec", "1.2"), ("spec", "2.0"), ("spec", ""), ("spec", None), ("spec", 1.1),
       ("cd", ""), ("cd", "."), ("cd", ".."), ("cd", "a/b"), ("cd", "/"), ("cd", "a/"), ("cd", 5), ("norm", "bogus"), ("norm", ""), ("fixity", ["bogus"]), ("fixity", ["md5", ""]), ("fixity", [5]), ("fixity", "md5")]
META = [{"created": "yesterday"}, {"created": "2020-01-01"}, {"created": "2020-13-01T00:00:00Z"}, {"created": 5}, {"created": "2020-01-01T00:00:00"}, {"message": 5}, {"message": ["x"]}, {"name": 5}, {"name": ""}, {"address": "mailto:a@b.c"}, {"name": ["a"]},
        {"name": "A", "address": 5}, {"name": "A", "address": ""}, {"created": "2020-01-01T00:00:00Z\n"}, {"message": {"a": 1}}, {"created": ["2020-01-01T00:00:00Z"]}, {"name": {"a": 1}}]
SRC = ["missing", "file", "under-file", "in-object", "none"]
DST = ["nonempty", "object", "file", "under-file", "deep", "emptydir", "empty-string", "root"]
VERS = ["v0", "v99", "", "V1", "v01", "x", "../v1", "v1/", "v1\n", "1", " v1", "HEAD", None, 1]
ROOT = ["init-again", "init-on-object", "init-on-file", "init-bad-params", "init-bad-spec", "init-no-parent", "init-bad-layout", "add-twice", "add-missing", "add-not-object", "add-damaged", "add-to-missing", "add-to-nonroot", "add-later", "add-nolayout", "add-inside"]


def gen(rng, tier):
    g = G.G(rng, big=0.0)
    s = g.history(nmax=3, foreign=0.3, hi=4)
    if s["steps"][0]["op"] == "foreign" and s["steps"][0]["plan"]["pad"] == 2:
        s["steps"][0]["plan"]["pad"] = 0        # C21 looks at padding without room
    if rng.random() < 0.15:
        s["steps"] = []
    s["order"] = rng.randrange(1000)
    s["acts"] = []
    for _ in range(rng.choice([2, 4, 6])):
        k = rng.choice(["create", "create", "build", "build", "update", "update", "update", "damaged", "abort", "abort", "abort", "dry", "dry", "write", "extract", "extract", "file", "root", "root", "root", "bag", "session", "nowhere"])
        a = {"k": k, "x": rng.randrange(1 << 20), "y": rng.randrange(1 << 20), "z": rng.randrange(1 << 20), "short": rng.choice([None, None, 0.3])}
        if k in ("create", "build", "dry", "update", "write", "session"):
            n = rng.choice([1, 1, 1, 2]) if k != "dry" else rng.choice([0, 0, 0, 0, 1])
            a["bad"] = []
            for _ in range(n):
                t = rng.random()
                if t < 0.4:
                    a["bad"].append(["set"] + list(rng.choice(SET)))
                elif t < 0.7:
                    a["bad"].append(["meta", rng.choice(META)])
                elif t < 0.85:
                    a["bad"].append(["src", rng.choice(SRC)])
                else:
                    a["bad"].append(["dst", rng.choice(DST)])
            a["meta"] = g.meta()
            a["cfg"] = g.cfg()
            a["cfg"]["backend"] = s["cfg"]["backend"]
            a["vers"] = [g.tree(0, 3) for _ in range(rng.choice([1, 2, 3]))]
            if k == "build" and rng.random() < 0.25:
                a["bad"] = a["bad"][:1] if rng.random() < 0.3 else []
                a["names"] = rng.choice([["v1", "v3", "v4"], ["v2", "v3", "v4"], ["x", "y", "z"], ["v1", "v01", "v2"], ["v0", "v1x", "V1"], ["v3", "v2", "v02"]])
            a["alg"] = rng.choice([None, "sha256", "sha512"])
        if k == "damaged":
            a["damage"] = damage.gen(rng, hard=True)
        s["acts"].append(a)
    s["last"] = g.update({})
    return s


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or s["steps"] and refocfl.validate(h.snap()):
            R.probe("base-invalid")
            return R
        one = lib.mkobj(s["cfg"], identifier=None)
        for i, a in enumerate(s["acts"]):
            if not s["steps"] and a["k"] not in ("create", "build", "dry", "root", "nowhere"):
                continue
            if a["short"]:
                w.arm([{"nth": 0, "sticky": True, "kinds": ["read"], "act": "short", "part": a["short"]}])
            ACT[a["k"]](s, w, h, m, a, R, one)
            w.disarm()
            if len(R.violations) > 3:
                return R
        if s["steps"]:
            st = dict(s["last"])
            r = h.do(st)
            m.apply(s["cfg"], st)
            if r[0] != "ok":
                R.V("later-refused", "%s after %s" % (r[1:], [a["k"] for a in s["acts"]]))
            else:
                bad = F.object_wrong(h, m)
                if bad:
                    R.V("later-wrong", "%s after %s" % (bad[:3], [a["k"] for a in s["acts"]]))
    return R


def judge(R, w, a, s, ctx, before, r, good=None):
    """A refusal leaves everything; a success is judged by good()."""
    R.runs += 1
    R.nontrivial = True
    R.state(ctx, s["cfg"]["backend"], r[0])
    R.probe("%s-%s" % (a["k"], r[0]))
    if r[0] == "err":
        d = F.diff_everything(before, F.everything(w))
        if d:
            R.V("left-traces", "%s refused (%s: %s) but %s" % (ctx, r[1], str(r[2])[:90], d))
        R.fired["refused:" + a["k"]] = R.fired.get("refused:" + a["k"], 0) + 1
        return False
    if r[0] != "ok":
        R.V("no-outcome", "%s: %s" % (ctx, r))
        return False
    if good:
        bad = good()
        if bad:
            R.V("accepted-wrong", "%s succeeded but %s" % (ctx, bad[:3]))
    return True


def place(w, h, s, kind, a):
    """A destination of the given kind."""
    h.nsrc += 1
    base = "simstore://bucket/dst%d" % h.nsrc if h.store else "%s/dsts/%d" % (MNT, h.nsrc)
    if not h.store:
        w.disk.h_mkdirs(MNT + "/dsts")
    junk = ({"keep": b"precious"}, {""})
    h2 = lib.H(w, dict(s["cfg"]), where=base)
    if kind == "nonempty":
        h2.put(junk)
    elif kind == "object":
        if s["steps"]:
            h2.put(copy.deepcopy(h.snap()))
        else:
            h2.put(junk)
    elif kind == "emptydir" and not h.store:
        h2.put(({}, {""}))
    elif kind in ("file", "under-file"):
        if h.store:
            h2.put(({"f": b"file"}, {""}))
        else:
            w.disk.h_mkdirs(base)
            w.disk.h_write(base + "/f", b"file")
        base += "/f" if kind == "file" else "/f/g"
    elif kind == "deep":
        base += "/a/b/c"
    elif kind == "empty-string":
        base = ""
        w.cwd = h.fresh("cwd")
        w.disk.h_mkdirs(w.cwd)
    elif kind == "root":
        base = "simstore://bucket/r%d" % h.nsrc if h.store else base
        if not h.store:
            w.disk.h_mkdirs(base.rsplit("/", 1)[0])
        outcome(lambda: ocfl.StorageRoot(root=base).initialize())
    return base


def source(w, h, kind, src):
    if src is None:
        return None
    if kind == "missing":
        return src + "-absent"
    if kind == "file":
        w.disk.h_write(src + "/the file", b"x")
        return src + "/the file"
    if kind == "under-file":
        w.disk.h_write(src + "/the file", b"x")
        return src + "/the file/x"
    if kind == "in-object":
        return h.url + "/v1"
    return None


def spoilt(w, h, s, a, src, ident):
    """Settings, metadata, source, destination with the bad parts in."""
    cfg = dict(a["cfg"])
    cfg["id"] = ident
    meta = dict(a["meta"])
    dst = None
    src0 = src
    for b in a["bad"]:
        if b[0] == "set":
            cfg[b[1]] = b[2]
        elif b[0] == "meta":
            meta.update(b[1])
            if b[1].get("address") and "name" not in b[1]:
                meta.pop("name", None)
        elif b[0] == "src":
            if src != src0:
                continue
            src = source(w, h, b[1], src)
        else:
            dst = b[1]
    return cfg, meta, src, dst


def expect(cfg, vers):
    m = model.Model()
    m.apply({"alg": cfg["alg"], "spec": cfg["spec"]}, {"op": "build", "versions": vers})
    return m


def do_create(s, w, h, m, a, R, one):
    src = h.stage(a["vers"][0])
    cfg, meta, src2, dst = spoilt(w, h, s, a, src, "urn:x:new")
    url = place(w, h, s, dst or "fresh", a)
    before = F.everything(w)
    r = outcome(lambda: lib.mkobj(cfg).create(src2, metadata=lib.mkmeta(meta), objdir=url))

    def good():
        if src2 != src or url == "":
            return [] if src2 is not None else ["without a source"]
        h2 = lib.H(w, cfg, where=url)
        return F.object_wrong(h2, expect(cfg, [{"files": a["vers"][0], "meta": meta}]))
    judge(R, w, a, s, "create with %s" % (a["bad"],), before, r, good)


def do_build(s, w, h, m, a, R, one):
    h.nsrc += 1
    src = "%s/src/%d" % (MNT, h.nsrc)
    names = a.get("names") or ["v%d" % (i + 1) for i in range(3)]
    for i, v in enumerate(a["vers"]):
        h.stage(v, src + "/" + names[i])
    cfg, meta, src2, dst = spoilt(w, h, s, a, src, "urn:x:new")
    url = place(w, h, s, dst or "fresh", a)
    nbad = a["x"] % len(a["vers"])
    metas = [dict(a["meta"]) for _ in a["vers"]]
    metas[nbad] = meta
    before = F.everything(w)
    r = outcome(lambda: lib.mkobj(cfg).build(src2, versions_metadata={i + 1: lib.mkmeta(x) for i, x in enumerate(metas)}, objdir=url))

    def good():
        if a.get("names") or src2 != src or url == "":
            return []
        h2 = lib.H(w, cfg, where=url)
        return F.object_wrong(h2, expect(cfg, [{"files": f, "meta": x} for f, x in zip(a["vers"], metas)]))
    judge(R, w, a, s, "build of %s with %s" % (a.get("names", len(a["vers"])), a["bad"]), before, r, good)


def do_update(s, w, h, m, a, R, one):
    src = h.stage(a["vers"][0])
    cfg, meta, src2, dst = spoilt(w, h, s, a, src, None)
    alg = cfg["alg"] if any(b[1] == "alg" for b in a["bad"] if b[0] == "set") else a["alg"] or h.cur_alg()
    url = h.url if dst is None or dst == "object" else place(w, h, s, dst, a)
    obj = lib.mkobj(cfg, digest_algorithm=alg, identifier=None)
    if a["y"] % 2:
        obj = one
        one.digest_algorithm, one.content_path_normalization, one.fixity, one.spec_version, one.content_directory = alg, cfg["norm"], cfg["fixity"], cfg["spec"], cfg["cd"]
    before = F.everything(w)
    r = outcome(lambda: obj.add_version_with_content(objdir=url, srcdir=src2, metadata=lib.mkmeta(meta), abort_if_no_difference=bool(a["z"] % 2)))
    m2 = m.clone()
    if src2 == src or src2 is None:
        files = dict(a["vers"][0]) if src2 else m.head_state()
        if r[0] == "ok" and r[1] is None:
            if not same(files, m.head_state()):
                R.V("aborted-with-difference", "update with %s" % (a["bad"],))
            d = F.diff_everything(before, F.everything(w))
            if d:
                R.V("abort-left-traces", "update with %s: %s" % (a["bad"], d))
            return
        m2.versions.append({"state": files, "meta": meta})
    elif src2.startswith(h.url) and r[0] == "ok":
        # the source was part of the object itself, only conformance is known
        p = refocfl.validate(h.snap())
        if p:
            R.V("accepted-wrong", "update from itself: %s" % p[:3])
        got = refocfl.read(h.snap())
        if r[1] is not None and got:
            inv = {}
            for p, b in got[-1][1].items():
                inv["%d:%d" % (len(inv), 0)] = b
            h.put(before_obj(h, before))
        return

    def good():
        return F.object_wrong(h, m2)
    if judge(R, w, a, s, "update with %s" % (a["bad"],), before, r, good if url == h.url else None):
        m.versions[:] = m2.versions


def before_obj(h, before):
    """Snapshot of the object taken out of a whole-storage snapshot."""
    if h.store:
        key = h.key() + "/"
        files = {k[len(key):]: d for k, d in before[1].items() if k.startswith(key)}
        return files, damage.dirs_of(files)
    rel = h.url[len(MNT):].lstrip("/") + "/"
    files = {k[len(rel):]: d for k, d in before[0][0].items() if k.startswith(rel)}
    dirs = {k[len(rel):] for k in before[0][1] if k.startswith(rel)} | {""}
    return files, dirs


def same(a, b):
    return set(a) == set(b) and all(G.blob(a[k]) == G.blob(b[k]) for k in a)


def do_damaged(s, w, h, m, a, R, one):
    """Whatever is refused on a damaged object leaves it as it was."""
    snap = h.snap()
    bad = damage.apply(snap, a["damage"])
    if bad is None:
        return
    h.put(bad[0])
    src = h.stage({"new": "77:9"})
    before = F.everything(w)
    alg = [None, "sha256", "sha512"][a["x"] % 3]
    ops = [lambda: lib.mkobj(s["cfg"], digest_algorithm=alg or "sha512", identifier=None).add_version_with_content(objdir=h.url, srcdir=src, metadata=lib.mkmeta({})),
           lambda: lib.mkobj(s["cfg"]).create(src, objdir=h.url),
           lambda: lib.mkobj(s["cfg"], identifier=None).start_new_version(objdir=h.url, srcdir=src, digest_algorithm=alg)]
    n = a["y"] % 4 % 3
    r = outcome(ops[n])
    if r[0] == "ok" and n == 0:
        R.probe("damage-not-seen")
    elif r[0] == "ok" and n == 1 and not h.store and "emptied" not in str(a) and bad[0][0]:
        R.V("created-over-object", "%s" % (a["damage"],))
    else:
        judge(R, w, a, s, "%s on object with %s" % (["update", "create", "start"][n], a["damage"]["kind"]), before, r)
    h.put(snap)


def do_abort(s, w, h, m, a, R, one):
    head = m.head_state()
    files = dict(head)
    x = a["x"] % 9
    names = sorted(head)
    if x == 1 and names:
        files.pop(names[a["y"] % len(names)])
    elif x == 2:
        G.add(files, "zz new", "5:5")
    elif x == 3 and names:
        files[names[a["y"] % len(names)]] = "99:7"
    elif x == 4 and len(names) > 1:
        p, q = names[a["y"] % len(names)], names[a["z"] % len(names)]
        files[p], files[q] = files[q], files[p]
    elif x == 5 and names:
        p = names[a["y"] % len(names)]
        c = files.pop(p)
        G.add(files, "renamed", c)
    elif x == 6 and len(m.versions) > 1:
        files = dict(m.versions[a["y"] % len(m.versions)]["state"])
    elif x == 7 and names:
        G.add(files, "copy of it", files[names[a["y"] % len(names)]])
    nosrc = x == 8
    src = None if nosrc else h.stage(files)
    if nosrc:
        files = dict(head)
    equal = same(files, head)
    alg = [None, None, "sha256", "sha512"][a["z"] % 4] or h.cur_alg()
    meta = {"message": "abort?"}
    obj = one if a["y"] % 2 else lib.mkobj(s["cfg"], identifier=None)
    obj.digest_algorithm, obj.fixity, obj.content_path_normalization = alg, None, s["cfg"]["norm"]
    before = F.everything(w)
    r = outcome(lambda: obj.add_version_with_content(objdir=h.url, srcdir=src, metadata=lib.mkmeta(meta), abort_if_no_difference=True))
    R.runs += 1
    R.nontrivial = True
    R.state("abort", x, equal, alg == m.alg, s["cfg"]["backend"], r[0], r[0] == "ok" and r[1] is None)
    R.probe("abort-%s-%s" % ("same" if equal else "differs", "aborted" if r[0] == "ok" and r[1] is None else r[0]))
    ctx = "update, abort if no difference, variation %d" % x
    if r[0] != "ok":
        R.V("abort-update-failed", "%s: %s" % (ctx, r[1:]))
        return
    if equal != (r[1] is None):
        R.V("abort-inexact", "%s: content %s the latest version's, %s" % (ctx, "equals" if equal else "differs from", "aborted" if r[1] is None else "not aborted"))
    if r[1] is None:
        d = F.diff_everything(before, F.everything(w))
        if d:
            R.V("abort-left-traces", "%s: %s" % (ctx, d))
        return
    m.versions.append({"state": files, "meta": meta})
    bad = F.object_wrong(h, m)
    if bad:
        R.V("accepted-wrong", "%s: %s" % (ctx, bad[:3]))


def do_dry(s, w, h, m, a, R, one):
    """create or build without objdir, then with; from the same moment."""
    build = a["x"] % 2
    h.nsrc += 1
    src = "%s/src/%d" % (MNT, h.nsrc)
    if build:
        for i, v in enumerate(a["vers"]):
            h.stage(v, "%s/v%d" % (src, i + 1))
    else:
        h.stage(a["vers"][0], src)
    cfg, meta, src2, dst = spoilt(w, h, s, a, src, "urn:x:dry")
    url = place(w, h, s, dst or "fresh", a)

    def go(where, obj=None):
        obj = obj or lib.mkobj(cfg)
        if build:
            return obj.build(src2, versions_metadata={1: lib.mkmeta(meta)}, objdir=where)
        return obj.create(src2, metadata=lib.mkmeta(meta), objdir=where)
    before = F.everything(w)
    t = w.clock
    shared = lib.mkobj(cfg) if a["y"] % 2 else None
    dry = outcome(lambda: go(None, shared))
    d = F.diff_everything(before, F.everything(w))
    ctx = "dry %s with %s" % ("build" if build else "create", a["bad"])
    if d:
        R.V("dry-left-traces", "%s: %s" % (ctx, d))
    w.clock = t
    real = outcome(lambda: go(url, shared))
    if not judge(R, w, a, s, ctx, before, real):
        return
    if dry[0] != "ok":
        R.V("dry-refused", "%s: %s" % (ctx, dry[1:]))
        return
    snap = lib.H(w, cfg, where=url).snap() if url else None
    if not snap:
        return
    wrote = refocfl.load_inv(snap[0].get("inventory.json", b""))
    told = json.loads(dry[1].as_json())
    ret = json.loads(real[1].as_json())
    for x, what in ((told, "dry run's"), (ret, "returned")):
        if nocreated(x, meta, build) != nocreated(wrote, meta, build):
            R.V("dry-differs", "%s: %s inventory %s, written %s" % (ctx, what, cut(x, wrote), cut(wrote, x)))


def nocreated(d, meta, build):
    """Inventory without the times taken from the clock."""
    d = copy.deepcopy(d)
    for v, b in (d.get("versions") or {}).items():
        if not (meta.get("created") and (v == "v1")):
            b.pop("created", None)
    return d


def cut(a, b):
    return {k: str(v)[:150] for k, v in a.items() if b.get(k) != v}


def do_write(s, w, h, m, a, R, one):
    """A session spoilt through the setters of the new version."""
    src = h.stage(a["vers"][0])
    obj = lib.mkobj(s["cfg"], identifier=None)
    meta = {}
    for b in a["bad"]:
        if b[0] == "meta":
            meta.update(b[1])
    r = outcome(lambda: obj.start_new_version(objdir=h.url, srcdir=src, metadata=lib.mkmeta(a["meta"]), carry_content_forward=False))
    if r[0] != "ok":
        R.V("start-refused", str(r[1:]))
        return
    nv = r[1]
    before = F.everything(w)

    def go():
        nv.add_from_srcdir()
        for k, attr in (("created", "created"), ("message", "message"), ("name", "user_name"), ("address", "user_address")):
            if k in meta:
                setattr(nv, attr, meta[k])
        return obj.write_new_version(nv)
    r = outcome(go)
    m2 = m.clone()
    m2.versions.append({"state": dict(a["vers"][0]), "meta": dict(a["meta"], **meta)})
    if judge(R, w, a, s, "write with %s" % meta, before, r, lambda: F.object_wrong(h, m2)):
        m.versions[:] = m2.versions


def do_session(s, w, h, m, a, R, one):
    """start_new_version with bad arguments, or begun and given up."""
    src = h.stage(a["vers"][0])
    cfg, meta, src2, dst = spoilt(w, h, s, a, src, None)
    obj = lib.mkobj(cfg, identifier=None)
    url = h.url if dst in (None, "object") else place(w, h, s, dst, a)
    alg = cfg["alg"] if any(b[1] == "alg" for b in a["bad"] if b[0] == "set") else a["alg"]
    before = F.everything(w)

    def go():
        nv = obj.start_new_version(objdir=url, srcdir=src2, digest_algorithm=alg, metadata=lib.mkmeta(meta), carry_content_forward=bool(a["x"] % 2))
        if src2 is not None and a["y"] % 2:
            nv.add_from_srcdir()
        return nv.diff_with_previous()
    r = outcome(go)
    judge(R, w, a, s, "session with %s" % (a["bad"],), before, r)
    d = F.diff_everything(before, F.everything(w))
    if r[0] == "ok" and d:
        R.V("left-traces", "session given up: %s" % d)


def dest(w, h, a, whole=True):
    """A bad or good place to extract to."""
    d = h.fresh("x")
    k = ["fresh", "nonempty", "file", "under-file", "no-parent", "object", "emptydir"][a["y"] % 7]
    if k == "nonempty":
        w.disk.h_mkdirs(d)
        w.disk.h_write(d + "/keep", b"precious")
    elif k == "emptydir":
        w.disk.h_mkdirs(d)
    elif k == "file":
        w.disk.h_write(d, b"precious")
    elif k == "under-file":
        w.disk.h_write(d, b"precious")
        d += "/sub"
    elif k == "no-parent":
        d += "/a/b"
    elif k == "object":
        if h.store or whole is False:
            k = "fresh"
        else:
            d = h.url
    return k, d


def do_extract(s, w, h, m, a, R, one):
    i = a["z"] % (len(VERS) + len(m.versions))
    v = VERS[i] if i < len(VERS) else lib.vname(h, i - len(VERS) + 1)
    known = i >= len(VERS)
    k, d = dest(w, h, a)
    before = F.everything(w)
    r = outcome(lambda: lib.mkobj(s["cfg"]).extract(h.url, v, d))

    def good():
        if not known and lib.vname(h, 1) != v and v != lib.vname(h, 99):
            return ["version %r does not exist" % (v,)]
        if k in ("nonempty", "file", "under-file", "object"):
            return ["destination was %s" % k]
        return []
    if k in ("file", "under-file") and r[0] == "ok":
        R.V("accepted-wrong", "extract to %s" % k)
    judge(R, w, a, s, "extract %r to %s" % (v if not known else "known", k), before, r, good)


def do_file(s, w, h, m, a, R, one):
    """extract_file refused."""
    i = a["z"] % (len(VERS) + 2 * len(m.versions))
    n = (i - len(VERS)) % len(m.versions)
    known = i >= len(VERS)
    v = lib.vname(h, n + 1) if known else VERS[i]
    state = m.versions[n]["state"] if known else m.head_state()
    names = sorted(state)
    lps = names + ["absent", "", "/", "..", "a"] + [p.rsplit("/", 1)[0] for p in names if "/" in p]
    lp = lps[a["x"] % len(lps)]
    k, d = dest(w, h, a, False)
    base = lp.rsplit("/", 1)[-1]
    occupied = False
    if k in ("nonempty", "emptydir") and a["x"] % 3 == 0 and base not in ("", "..") and a["z"] % 2:
        w.disk.h_write(d + "/" + base, b"precious too")
        occupied = True
    before = F.everything(w)
    r = outcome(lambda: lib.mkobj(s["cfg"]).extract_file(h.url, v, d, lp))

    def good():
        out = []
        if known and lp not in state:
            out.append("%r is not in %s" % (lp, v))
        if occupied or k in ("file", "under-file"):
            out.append("destination was occupied")
        return out
    judge(R, w, a, s, "extract_file %s to %s%s" % ("known" if lp in state else repr(lp), k, " occupied" if occupied else ""), before, r, good)


def do_bag(s, w, h, m, a, R, one):
    """Bagging something that cannot be bagged."""
    d = h.fresh("b")
    k = a["x"] % 4
    if k == 1:
        w.disk.h_write(d, b"a file")
    elif k == 2:
        w.disk.h_mkdirs(MNT + "/out")
        d += "/absent/deeper"
    src = d
    before = F.everything(w)
    if a["y"] % 2:
        r = outcome(lambda: bagger.bag_as_source(src, ocfl.VersionMetadata()))
    else:
        r = outcome(lambda: bagger.bag_extracted_version(d, ocfl.VersionMetadata(), False))
    judge(R, w, a, s, "bag %s %d" % (["out", "in"][a["y"] % 2], k), before, r)


def do_root(s, w, h, m, a, R, one):
    kind = ROOT[a["x"] % len(ROOT)]
    url = place(w, h, s, "fresh", a)
    lay = ["0003-hash-and-id-n-tuple-storage-layout", "0002-flat-direct-storage-layout", "0004-hashed-n-tuple-storage-layout", None][a["y"] % 4]
    params = None
    SR = ocfl.StorageRoot
    obj = {"id": "urn:x:%d" % (a["z"] % 7), "versions": [{"files": {"f": "5:5"}, "alg": "sha512", "spec": "1.0", "upper": False, "inv": True, "dup": False, "message": None, "user": None, "fixity": None}], "pad": 0, "cd": None,
           "set_cd": False, "indent": None, "sep": " ", "logs": False, "ext": [], "opaque": False, "vext": False}
    osnap = refocfl.write_object(obj, G.blob)
    at = h.fresh("o")
    w.disk.restore(at, osnap)
    bad = False
    if kind.startswith("add") and kind not in ("add-to-missing", "add-to-nonroot"):
        lay = lay if kind != "add-nolayout" else None
        if lay is None and kind != "add-nolayout":
            lay = "0002-flat-direct-storage-layout"
        outcome(lambda: SR(root=url, layout_name=lay, spec_version="1.0" if kind == "add-later" else None).initialize())
    if kind == "init-again":
        outcome(lambda: SR(root=url, layout_name=lay).initialize())

        def go():
            return SR(root=url, layout_name=lay).initialize()
        bad = True
    elif kind in ("init-on-object", "init-on-file"):
        url = place(w, h, s, "nonempty" if kind == "init-on-object" else "file", a)

        def go():
            return SR(root=url, layout_name=lay).initialize()
        bad = True
    elif kind == "init-bad-params":
        params = ["{", "[]", "5", '{"digestAlgorithm": "nope"}', '{"tupleSize": -1}', '{"extensionName": "other"}', '{"tupleSize": "x"}', '{"numberOfTuples": 99, "tupleSize": 99}', '""'][a["z"] % 9]

        def go():
            return SR(root=url, layout_name=lay).initialize(layout_params=params)
    elif kind == "init-bad-spec":
        spec = ["0.1", "1.2", "", "x", 1.0][a["z"] % 5]
        bad = True

        def go():
            if a["y"] % 3:
                return SR(root=url, layout_name=lay).initialize(spec_version=spec)
            return SR(root=url, layout_name=lay, spec_version=spec).initialize()
    elif kind == "init-no-parent":
        url += "/a/b"

        def go():
            return SR(root=url, layout_name=lay).initialize()
        bad = not h.store
    elif kind == "init-bad-layout":
        def go():
            return SR(root=url, layout_name="no-such-layout").initialize()
        bad = True
    else:
        bad = True
        if kind == "add-twice":
            outcome(lambda: SR(root=url).add(at))
        elif kind == "add-missing":
            at = at + "-absent"
        elif kind == "add-not-object":
            at = h.stage({"f": "5:5"})
        elif kind == "add-damaged":
            files = dict(osnap[0])
            files["inventory.json"] = [b"{}", b"", b"[]", b"{\"id\": 5}", b"\xff", files["inventory.json"][:40]][a["z"] % 6]
            w.disk.restore(at, (files, osnap[1]))
        elif kind == "add-later":
            at = h.fresh("o")
            obj["versions"][0]["spec"] = "1.1"
            w.disk.restore(at, refocfl.write_object(obj, G.blob))
        elif kind == "add-to-nonroot":
            url = place(w, h, s, "nonempty", a)
        elif kind == "add-inside":
            # something is in the way of the path
            p = outcome(lambda: SR(root=url).object_path(obj["id"]))
            if p[0] != "ok":
                return
            where = [p[1], p[1].split("/")[0], p[1] + "/deeper"][a["z"] % 3] + "/0=ocfl_object_1.0"
            if h.store:
                from .. import store
                full = store.kv_snapshot(w, url.split("://", 1)[1])
                full[0][where] = b"ocfl_object_1.0\n"
                store.kv_restore(w, url.split("://", 1)[1], full)
            else:
                w.disk.h_mkdirs(url + "/" + where.rsplit("/", 1)[0])
                w.disk.h_write(url + "/" + where, b"ocfl_object_1.0\n")

        def go():
            return SR(root=url).add(at)
    before = F.everything(w)
    r = outcome(go)
    judge(R, w, a, s, "root %s %s %s" % (kind, lay, params), before, r, lambda: ["should have been refused"] if bad else [])


def do_nowhere(s, w, h, m, a, R, one):
    """Whatever is asked about a place where there is no object or root."""
    kind = ["fresh", "fresh", "fresh", "deep", "file", "under-file", "emptydir", "nonempty"][a["x"] % 8]
    url = place(w, h, s, kind, a) + ["", "", "/"][a["y"] % 3]
    src = h.stage({"f": "5:5"})
    d = h.fresh("x")
    v = ["head", "v1"][a["z"] % 2]
    O, SR = ocfl.Object, ocfl.StorageRoot
    ops = [("extract", lambda: O().extract(url, v, d)), ("extract_file", lambda: O().extract_file(url, v, d, "f")), ("validate", lambda: O().validate(url)[0]), ("tree", lambda: O().tree(url)),
           ("update", lambda: O().add_version_with_content(objdir=url, srcdir=src)), ("start", lambda: O().start_new_version(objdir=url, srcdir=src)), ("metadata update", lambda: O().add_version_with_content(objdir=url)),
           ("inventory", lambda: O(path=url).parse_inventory()), ("id", lambda: O(path=url).id_from_inventory()), ("validate_inventory", lambda: O().validate_inventory(url.rstrip("/") + "/inventory.json")[0]), ("sidecar", lambda: O(path=url).write_inventory_sidecar()),
           ("list", lambda: list(SR(root=url).list_objects())), ("validate root", lambda: SR(root=url).validate(log_errors=False)), ("add", lambda: SR(root=url).add(h.url if s["steps"] else src)), ("path", lambda: SR(root=url).object_path("a")),
           ("find_path_type", lambda: ocfl.find_path_type(url))]
    if one is not None and a["z"] % 3 == 0:
        ops[0] = ("extract", lambda: one.extract(url, v, d))
    name, fn = ops[a["z"] // 3 % len(ops)]
    before = F.everything(w)
    r = outcome(fn)
    ctx = "%s of nothing (%s)" % (name, kind)
    if name in ("extract", "extract_file", "update", "start", "metadata update", "inventory", "add", "path", "list"):
        judge(R, w, a, s, ctx, before, r, lambda: ["there is nothing"])
        return
    if r[0] == "ok" and r[1] is True:
        R.V("accepted-wrong", ctx + " says valid")
    R.runs += 1
    R.state(ctx, s["cfg"]["backend"], r[0])
    R.probe("nowhere-" + name)
    d = F.diff_everything(before, F.everything(w))
    if d:
        R.V("left-traces", "%s (%s): %s" % (ctx, r[0], d))


ACT = {"nowhere": do_nowhere, "create": do_create, "build": do_build, "update": do_update, "damaged": do_damaged, "abort": do_abort, "dry": do_dry, "write": do_write, "session": do_session,
       "extract": do_extract, "file": do_file, "bag": do_bag, "root": do_root}
