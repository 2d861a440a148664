"""C08 creating, extracting and adding never overwrite what exists."""
import json

import ocfl

from .. import gen as G, faults as F, lib, refocfl, store
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome

RULE = "a scenario puts an obstacle (object, leftover, file, directory) where create, build, extract, extract_file, init, add or an edit wants to write, and runs the operation plain and with failing directory listings and reads; distinct = (operation, obstacle, fault) combinations"
N = {"quick": 7000, "thorough": 40000}
OPS = ["create", "build", "extract", "extract_file", "init", "add", "edit", "edit"]
OBST = ["object", "partial", "file_in_dir", "hidden_in_dir", "subdir", "file", "other_object", "extensions", "source"]


def gen(rng, tier):
    g = G.G(rng, big=0.02)
    s = g.history(nmax=2, foreign=0.2)
    s["op"] = rng.choice(OPS)
    s["obst"] = rng.choice(OBST)
    s["order"] = rng.randrange(1000)
    s["pick"] = rng.randrange(1000)
    s["new"] = g.history(nmax=1, cfg=s["cfg"], foreign=0, build=1.0 if s["op"] == "build" else 0.0)["steps"][0]
    s["root"] = F.gen_root(rng, ["nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"])
    s["points"] = "auto"
    s["limit"] = 4 if tier == "quick" else 20
    s["pseed"] = rng.randrange(1 << 30)
    if s["op"] == "edit":
        s["src"] = g.tree(1, 4)
        s["carry"] = rng.random() < 0.7
        s["cpath"] = rng.random() < 0.5
    return s


def run(s):
    R = Res()
    pts = s["points"]
    if pts == "auto":
        ops = once(s, [], R, record=True) or []
        pts = [p for p in F.points(ops, F.seeded(s, "c08"), ("err",), 400) if ops[p[0]["nth"]][0] in ("listdir", "open_r", "read", "get", "mkdir")]
        F.seeded(s, "pick").shuffle(pts)
        pts = pts[:s["limit"]]
    else:
        once(s, [], R)
    for p in pts:
        once(s, p, R)
    return R


def lay(w, url, what, snap, other):
    """Put an obstacle at url. Returns False if it is one that need not be refused."""
    files = {"object": snap, "partial": (dict(list(sorted(snap[0].items()))[1:]), snap[1]), "other_object": other,
             "file_in_dir": ({"precious.txt": b"precious"}, {""}), "hidden_in_dir": ({".precious": b"precious"}, {""}),
             "subdir": ({}, {"", "sub"}), "file": ({"": b"precious"}, set()),
             "extensions": ({"extensions/x/c": b"{}"}, {"", "extensions", "extensions/x"}), "source": ({"v1/content/f": b"x"}, {"", "v1", "v1/content"})}[what]
    if "://" in url:
        key = url.split("://", 1)[1]
        if what in ("file", "subdir"):
            files = {"precious.txt": b"precious"}, {""}
        store.kv_restore(w, key, files)
        return bool(files[0])
    w.disk.h_mkdirs(url.rsplit("/", 1)[0])
    w.disk.restore(url, files)
    return bool(files[0]) or len(files[1]) > 1


def once(s, fault, R, record=False):
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop:
            return None
        snap = h.snap()
        other = refocfl.write_object(G.G(F.seeded(s, "o")).plan(None, nmax=1), blob)
        cfg = s["cfg"]
        want = True
        foc = {"points": [fault] if fault else []}
        if s["op"] == "edit":
            return edits(s, w, h, m, R, record, fault, foc)
        if s["op"] in ("create", "build"):
            h2 = lib.H(w, cfg, where=h.url + "2")
            h2.nsrc = 50
            want = lay(w, h2.url, s["obst"], snap, other)
            fn = h2.prepare(s["new"])
        elif s["op"] in ("extract", "extract_file"):
            i = s["pick"] % len(m.versions)
            vd = lib.vname(h, i + 1)
            st = m.versions[i]["state"]
            dst = MNT + "/out/d"
            if s["op"] == "extract":
                want = lay(w, dst, s["obst"], snap, other)
                fn = lambda: lib.mkobj(cfg).extract(h.url, vd, dst)
            else:
                if not st:
                    return None
                lp = sorted(st)[s["pick"] % len(st)]
                base = lp.rsplit("/", 1)[-1]
                w.disk.h_mkdirs(dst)
                want = lay(w, dst + "/" + base, s["obst"], snap, other)
                fn = lambda: lib.mkobj(cfg).extract_file(h.url, vd, dst, lp)
        elif s["op"] == "init":
            url = F.root_url(s)
            want = lay(w, url, s["obst"], snap, other)
            t = s["root"]
            fn = lambda: ocfl.StorageRoot(root=url, layout_name=t["layout"], spec_version=t["spec"]).initialize(layout_params=t["params"])
        else:
            url = F.root_url(s)
            t = s["root"]
            if "simstore" not in url:
                w.disk.h_mkdirs(url.rsplit("/", 1)[0])
            r = outcome(lambda: ocfl.StorageRoot(root=url, layout_name=t["layout"], spec_version=t["spec"]).initialize(layout_params=t["params"]))
            ident = json.loads(snap[0]["inventory.json"])["id"]
            p = outcome(lambda: ocfl.StorageRoot(root=url).object_path(ident))
            if r[0] != "ok" or p[0] != "ok":
                return None
            at = url + "/" + p[1]
            parts = p[1].split("/")
            if len(parts) > 1 and s["pick"] % 3 == 0 and s["obst"] in ("file", "object", "other_object"):
                at = url + "/" + "/".join(parts[:1 + s["pick"] % (len(parts) - 1)])
                if "://" in url and s["obst"] == "file":
                    # an object store has room for this and for keys below it
                    w.kv[at.split("://", 1)[1]] = __import__("dst.simos", fromlist=["File"]).File(b"precious")
                    want = False
                else:
                    want = lay(w, at, s["obst"], snap, other)
            else:
                want = lay(w, at, s["obst"], snap, other)
            fn = lambda: ocfl.StorageRoot(root=url).add(h.url)
        before = F.everything(w)
        w.arm([dict(f) for f in fault], record=record)
        r = outcome(fn)
        fired = list(w.fired)
        ops = w.disarm()
        R.nontrivial = True
        R.state(s["op"], s["obst"], cfg["backend"], [(f[1], f[3]) for f in fired])
        R.probe("%s-%s" % (s["op"], r[0]))
        after = F.everything(w)
        d = F.diff_everything(before, after)
        lost = [p for (was, now) in ((before[0][0], after[0][0]), (before[1], after[1])) for p in was if now.get(p) != was[p]]
        if lost:
            R.V("existing-changed-%s" % s["op"], "%s over %s (%s, %s): %s" % (s["op"], s["obst"], r[:3], fired[:1], lost[:4]), foc)
        if want and r[0] == "ok":
            R.V("overwrite-accepted-%s" % s["op"], "%s over %s succeeded (%s): %s" % (s["op"], s["obst"], fired[:1], d), foc)
        if d and (want or r[0] == "err" and not fired):
            R.V("refusal-changed-%s" % s["op"], "%s over %s (%s, %s): %s" % (s["op"], s["obst"], r[:3], fired[:1], d), foc)
        return ops


def edits(s, w, h, m, R, record, fault, foc):
    """Adding a logical or content path a version already has."""
    cfg = s["cfg"]
    src = h.stage(s["src"])
    w.arm([dict(f) for f in fault], record=record)
    o = lib.mkobj(cfg, identifier=None)
    r = outcome(lambda: o.start_new_version(objdir=h.url, srcdir=src, carry_content_forward=s["carry"]))
    if r[0] != "ok":
        return w.disarm()
    nv = r[1]
    name = sorted(s["src"])[s["pick"] % len(s["src"])]
    if not nv.inventory.current_version.logical_paths:
        r = outcome(lambda: nv.add(name, "fresh.txt"))
        if r[0] != "ok":
            return w.disarm()
    have = sorted(nv.inventory.current_version.logical_paths)
    lp = have[s["pick"] % len(have)]
    before = json.loads(nv.inventory.as_json())
    cbefore = dict(copies(nv))
    if s["cpath"] and copies(nv):
        cp = sorted(copies(nv))[0]
        what = "content path %r" % cp
        r = outcome(lambda: nv.add(name, "brand/new/path.txt", content_path=cp))
    elif s["pick"] % 2:
        what = "logical path %r" % lp
        r = outcome(lambda: nv.add(name, lp))
    else:
        what = "rename to %r" % lp
        r = outcome(lambda: nv.rename(have[0], lp))
    fired = list(w.fired)
    ops = w.disarm()
    after = json.loads(nv.inventory.as_json())
    R.nontrivial = True
    R.state("edit", what[:10], s["carry"], [(f[1], f[3]) for f in fired])
    R.probe("edit-" + r[0])
    if r[0] == "ok" and not (what.startswith("rename") and have[0] == lp):
        R.V("existing-path-accepted", what, foc)
    if r[0] == "err" and (before != after or cbefore != copies(nv)):
        R.V("refused-edit-changed-version", "%s: %s" % (what, r[1:]), foc)
    return ops


def copies(nv):
    """Content paths this version itself has added so far."""
    inv = nv.inventory
    return {p: None for p in inv.content_paths if p.startswith(inv.head + "/")}
