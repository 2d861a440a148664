"""C16 operations touch only what they are asked to write."""
import contextlib
import copy
import io
import json

import ocfl
from ocfl import bagger
from ocfl.validator import Validator

from .. import damage, gen as G, faults as F, lib, refocfl, store
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome

RULE = "a scenario puts an object (honest, hostile or damaged inventory), a source, a storage root and bystanders on one disk and runs a seeded sequence of reading and writing operations, some hit by an I/O error; every change the storage sees is recorded by path; distinct = (operation, hostility, outcome, fault)"
N = {"quick": 12000, "thorough": 60000}
READS = ["validate", "validator", "extract", "extract", "extract_file", "tree", "parse", "list", "rootvalidate", "path", "dry_create", "dry_build", "root_path", "validate_inventory", "start_version", "diff"]
WRITES = ["create", "build", "update", "edit", "add", "init", "bagout", "bagin"]
EVIL = ["../evil", "../../evil/x", "../../../evil", MNT + "/evil/x", "/evil", "a/../../evil", "..", ".", "", "x/..", "../canary/c.txt", "../../canary/c.txt", "a//b", "/", "./x", "a/./b", "~/evil", "..\\evil", "a/", "../o/inventory.json",
        "../../objs/other/inventory.json", "v1/content/../../../other/inventory.json", "v1/../../other/inventory.json", "%2e%2e/evil", "C:\\evil", "file://" + MNT + "/evil", "simstore://bucket/evil"]
RULES = ["logical", "logical", "content", "content", "cd", "head", "vkey", "alg", "id", "both", "fixity"]


def gen(rng, tier):
    g = G.G(rng, big=0.01)
    s = g.history(nmax=3, foreign=0.4)
    if rng.random() < 0.3:
        s["cfg"]["id"] = rng.choice(EVIL[:-2] + ["../../evil"]) or "x"
        for st in s["steps"]:
            if st["op"] == "foreign":
                st["plan"]["id"] = s["cfg"]["id"]
    s["hostile"] = None
    if rng.random() < 0.55:
        s["hostile"] = {"rule": rng.choice(RULES), "evil": rng.choice(EVIL), "a": rng.randrange(1 << 20), "b": rng.randrange(1 << 20)}
    elif rng.random() < 0.3:
        s["damage"] = [damage.gen(rng, hard=True)]
    s["order"] = rng.randrange(1000)
    if rng.random() < 0.2:
        s["odd"] = rng.choice(G.ODD)
    s["root"] = F.gen_root(rng)
    s["premade"] = rng.random() < 0.3
    s["points"] = []
    for _ in range(rng.randint(3, 8)):
        p = {"op": rng.choice(READS) if rng.random() < 0.6 else rng.choice(WRITES), "v": rng.randrange(8), "pick": rng.randrange(1000), "fault": None}
        if rng.random() < 0.3:
            p["fault"] = {"nth": rng.randrange(60), "act": rng.choice(["err", "err", "crash"]), "errno": rng.choice(["EIO", "ENOSPC", "EACCES"])}
        if p["op"] in ("create", "build", "dry_create", "dry_build"):
            p["st"] = g.history(nmax=1, cfg=s["cfg"], foreign=0, build=1.0 if "build" in p["op"] else 0.0)["steps"][0]
        elif p["op"] in ("update", "edit"):
            p["st"] = dict(g.update({}), op="update", files=g.tree(0, 4))
            if p["op"] == "edit":
                st = {"op": "edit", "src": g.tree(1, 4), "carry": rng.random() < 0.6, "alg": None, "meta": g.meta(), "edits": []}
                for _ in range(rng.randint(1, 4)):
                    f = rng.choice(sorted(st["src"]))
                    e = ["add", f, rng.choice(EVIL + [g.name()])]
                    if rng.random() < 0.5:
                        e.append(rng.choice(EVIL + ["v1/content/x", "v2/content/x", "v2/content/../../v1/content/f", "v2/content/../inventory.json", "v3/content/y", "inventory.json"]))
                    st["edits"].append(e)
                p["st"] = st
        elif p["op"] == "bagin":
            p["files"] = g.tree(0, 3)
            p["info"] = rng.choice([{"External-Identifier": None, "Contact-Name": "../../evil"}, {"Contact-Name": "../../evil"}, {}, {"External-Identifier": None}, {"External-Description": "x", "Bagging-Date": "2020-01-01"}])
            p["md"] = rng.choice([{}, {}, {"id": None}, {"id": None, "message": "m", "name": "n"}, {"id": "urn:else"}, {"message": "../m"}])
            p["evil"] = rng.choice(EVIL) if rng.random() < 0.5 else None
        elif p["op"] == "extract_file":
            p["lp"] = rng.choice(EVIL) if rng.random() < 0.4 else None
        s["points"].append(p)
    return s


def hostile(snap, q):
    """Inventory that lies, with matching sidecars."""
    files = dict(snap[0])
    data = refocfl.load_inv(files.get("inventory.json", b""))
    if not isinstance(data, dict):
        return snap
    data = copy.deepcopy(data)
    vs = list(data["versions"])
    v = vs[q["a"] % len(vs)]
    st = data["versions"][v]["state"]
    man = data["manifest"]
    r, e = q["rule"], q["evil"]
    try:
        if r in ("logical", "both") and st:
            d = sorted(st)[q["b"] % len(st)]
            st[d] = [e] + st[d][1:]
        if r in ("content", "both") and man:
            d = sorted(man)[q["b"] % len(man)]
            man[d] = [e] + man[d][1:]
        if r == "cd":
            data["contentDirectory"] = e
        elif r == "head":
            data["head"] = e
        elif r == "vkey":
            data["versions"] = {(e if k == v else k): x for k, x in data["versions"].items()}
            if data["head"] == v:
                data["head"] = e
        elif r == "alg":
            data["digestAlgorithm"] = e
        elif r == "id":
            data["id"] = e
        elif r == "fixity":
            data["fixity"] = {e: {"00": [e]}, "md5": {"00": [e]}}
    except (TypeError, KeyError):
        return snap
    damage.put_inv(files, "inventory.json", data)
    return files, snap[1]


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return R
        R.runs -= 1
        snap = h.snap()
        if s["hostile"]:
            snap = hostile(snap, s["hostile"])
        for d in s.get("damage") or ():
            snap = damage.several(snap, [d])[0]
        h.put(snap)
        # bystanders
        for p in ("canary/c.txt", "objs/other/inventory.json", "objs/other/v1/content/c.txt", "out/canary.txt", "evil-not/x", "roots/canary.txt"):
            w.disk.h_write(MNT + "/" + p, b"canary " + p.encode())
        from ..simos import File
        w.kv["bucket/canary"] = File(b"canary")
        w.kv["bucket/other/inventory.json"] = File(b"canary")
        w.cwd = MNT + "/canary"
        t = s["root"]
        root = "simstore://bucket/roots/r" if h.store else MNT + "/roots/r"
        outcome(lambda: ocfl.StorageRoot(root=root, layout_name=t["layout"], spec_version=t["spec"]).initialize(layout_params=t["params"]))
        if s["premade"]:
            outcome(lambda: ocfl.StorageRoot(root=root).add(h.url))
        for n, p in enumerate(s["points"]):
            one(s, w, h, m, p, n, root, R)
    return R


def keyp(url):
    return MNT + "/@kv/" + url.split("://", 1)[1] if "://" in url else url


def one(s, w, h, m, p, n, root, R):
    cfg, op, url = s["cfg"], p["op"], h.url
    vd = ["head", lib.vname(h, p["v"] % len(m.versions) + 1), "../v1", "v99"][0 if p["pick"] % 7 == 0 else 1 if p["pick"] % 7 < 5 else 2 if p["pick"] % 7 == 5 else 3]
    allowed = None
    dst = "%s/out/d%d" % (MNT, n)
    new = (url.rsplit("/", 1)[0] + "/new%d" % n)
    if op == "validate":
        fn = lambda: lib.mkobj({}).validate(url)
    elif op == "validator":
        fn = lambda: Validator(log_warnings=True).validate_object(url)
    elif op == "validate_inventory":
        fn = lambda: lib.mkobj({}).validate_inventory(url + "/inventory.json")
    elif op == "extract":
        allowed = dst
        fn = lambda: lib.mkobj(cfg).extract(url, vd, dst)
    elif op == "extract_file":
        allowed = dst
        st = m.versions[p["v"] % len(m.versions)]["state"]
        lp = p.get("lp") if p.get("lp") is not None else (sorted(st)[p["pick"] % len(st)] if st else "x")
        if s["hostile"] and s["hostile"]["rule"] in ("logical", "both") and p["pick"] % 2:
            lp = s["hostile"]["evil"]
        fn = lambda: lib.mkobj(cfg).extract_file(url, vd, dst, lp)
    elif op == "tree":
        def fn():
            with contextlib.redirect_stdout(io.StringIO()):
                lib.mkobj(cfg).tree(url)
    elif op == "parse":
        def fn():
            o = lib.mkobj(cfg)
            o.open_obj_fs(url)
            i = o.parse_inventory()
            o.id_from_inventory()
            return [v.logical_paths for v in i.versions()]
    elif op in ("list", "rootvalidate", "path", "root_path"):
        def fn():
            sr = ocfl.StorageRoot(root=root)
            return {"list": lambda: list(sr.list_objects()), "rootvalidate": sr.validate, "path": lambda: sr.object_path("../../evil"), "root_path": lambda: sr.object_path("/x")}[op]()
    elif op in ("start_version", "diff"):
        src = h.stage({"a": "1:5", "b/c": "2:6"})

        def fn():
            nv = lib.mkobj(cfg, identifier=None).start_new_version(objdir=url, srcdir=src, carry_content_forward=True)
            nv.add("a", "new-a.txt")
            return nv.diff_with_previous()
    elif op in ("dry_create", "dry_build", "create", "build"):
        h2 = lib.H(w, cfg, where=new)
        h2.nsrc = 100 + n * 10
        fn = h2.prepare(p["st"])
        allowed = new
        if op.startswith("dry"):
            allowed = None
            src = "%s/src/%d" % (MNT, h2.nsrc)
            if op == "dry_create":
                fn = lambda: lib.mkobj(cfg).create(src, metadata=lib.mkmeta(p["st"].get("meta")))
            else:
                fn = lambda: lib.mkobj(cfg).build(src, versions_metadata={i: lib.mkmeta(v.get("meta")) for i, v in enumerate(p["st"]["versions"], 1)})
    elif op in ("update", "edit"):
        h.nsrc += 1
        st = dict(p["st"])
        if op == "update":
            a = h.cur_alg()
            st["alg"] = a if a in ("sha512", "sha256") else "sha512"
            if p["pick"] % 3 == 0:
                st["alg"] = "sha512" if st["alg"] == "sha256" else "sha256"
        try:
            fn = h.prepare(st)
        except Exception as e:
            R.probe("stage-" + type(e).__name__)
            return
        allowed = url
    elif op == "add":
        fn = lambda: ocfl.StorageRoot(root=root).add(url)
        allowed = root
    elif op == "init":
        t = s["root"]
        r2 = root + "-%d" % n
        fn = lambda: ocfl.StorageRoot(root=r2, layout_name=t["layout"], spec_version=t["spec"]).initialize(layout_params=t["params"])
        allowed = r2
    elif op == "bagout":
        allowed = dst

        def fn():
            md = lib.mkobj(cfg).extract(url, vd, dst)
            bagger.bag_extracted_version(dst, md, bool(p["pick"] % 2))
    else:
        src = h.fresh("inbag")
        bag = F.make_bag({a: blob(c) for a, c in p["files"].items()}, {k: v if v is not None else cfg["id"] for k, v in p["info"].items()})
        if p["evil"] is not None:
            for k in list(bag):
                if k.startswith("manifest"):
                    bag[k] += ("%s  data/%s\n" % (refocfl.dig("sha512", b""), p["evil"])).encode()
        w.disk.h_mkdirs(src + "/data")
        for a, d in bag.items():
            w.disk.h_write(src + "/" + a, d)

        def fn():
            md = lib.mkmeta(p["md"])
            if "id" in p["md"]:
                md.id = p["md"]["id"] or cfg["id"]
            data = bagger.bag_as_source(src, md)
            return lib.mkobj(cfg, identifier=None).add_version_with_content(objdir=url, srcdir=data, metadata=md)
        allowed = url
    before = F.everything(w)
    w.escapes.clear()
    w.arm([dict(p["fault"])] if p["fault"] else [])
    r = outcome(fn)
    fired = list(w.fired)
    muts = list(w.muts)
    w.disarm()
    w.restart()
    w.cwd = MNT + "/canary"
    R.runs += 1
    R.nontrivial = True
    R.state(op, s["hostile"] and [s["hostile"]["rule"], s["hostile"]["evil"]], [d["kind"] for d in s.get("damage") or ()], cfg["backend"], r[0], [(f[1], f[3]) for f in fired])
    R.probe("%s-%s" % (op, r[0]))
    ctx = "%s (%s)%s%s" % (op, r[:3] if r[0] != "ok" else "ok", " hostile %s %r" % (s["hostile"]["rule"], s["hostile"]["evil"]) if s["hostile"] else "", " fault %s" % fired if fired else "")
    ok = keyp(allowed) if allowed else None
    bad = [x for x in muts if ok is None or not (x[1] == ok or x[1].startswith(ok + "/"))]
    if bad:
        R.V("touched-outside-%s" % op, "%s: %s" % (ctx, bad[:4]))
    if w.escapes:
        R.V("escaped-%s" % op, "%s: %s" % (ctx, w.escapes[:3]))
    after = F.everything(w)
    if ok is None:
        d = F.diff_everything(before, after)
        if d:
            R.V("read-changed-%s" % op, "%s: %s" % (ctx, d))
    else:
        d = F.diff_everything(outside(before, allowed), outside(after, allowed))
        if d:
            R.V("changed-outside-%s" % op, "%s: %s" % (ctx, d))
    if r[0] == "hang":
        R.V("no-outcome", "%s: %s" % (ctx, r))


def outside(ev, allowed):
    (files, dirs), kv = ev
    if "://" in allowed:
        a = allowed.split("://", 1)[1]
        return (files, dirs), {k: v for k, v in kv.items() if not k.startswith(a + "/")}
    a = allowed[len(MNT) + 1:]
    return ({k: v for k, v in files.items() if not (k == a or k.startswith(a + "/"))}, {d for d in dirs if not (d == a or d.startswith(a + "/"))}), kv
