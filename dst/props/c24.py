"""C24 results do not depend on the storage backend."""
import copy
import json
import random

import ocfl
from ocfl.fsw import fsw_openfs
from ocfl.validator import Validator

from .. import damage, gen as G, lib, model, refocfl, refroot, store
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome
from . import c26
from .c13 import zippable, zipped

RULE = "a scenario performs one script (object histories with good and refusable operations, reads, exports, root initialisation, additions, listing, validation, reads of damaged objects and roots) in one world on local directories and again in another on an object store, and repeats the reads inside zip files; every outcome, stored file, verdict and message is compared; distinct = (operations, outcomes)"
N = {"quick": 800, "thorough": 40000}


def gen(rng, tier):
    g = G.G(rng, big=0.02)
    cfg = g.cfg()
    cfg["backend"] = "store"            # foreign objects must not need empty directories
    if rng.random() < 0.1:
        cfg.update(rng.choice([{"cd": "a/b"}, {"cd": ".."}, {"spec": "2.0"}, {"alg": "md5"}, {"alg": "none"}, {"norm": "odd"}, {"id": None}]))
    s = g.history(nmax=4, cfg=cfg, foreign=0.3)
    for st in s["steps"]:
        for x in [st] + st.get("versions", []) + (st["plan"]["versions"] if "plan" in st else []):
            if "meta" in x:
                x["meta"].setdefault("created", rng.choice([c for c in G.CREATED if c] + ["2020-01-01"] * (rng.random() < 0.1)))
    s["srcs"] = rng.choice(["here", "here", "local"])
    s["t"] = "t" + rng.choice(G.ODD) if rng.random() < 0.15 else "t"
    s["order"] = rng.choice([None, rng.randrange(1000)])
    s["twice"] = rng.random() < 0.15
    s["exports"] = [{"what": rng.choice(["extract", "extract", "file"]), "v": rng.choice(["head", "v1", "v2", "v01", "v9", "x", ""]), "n": rng.randrange(100), "to": rng.choice(["local", "here", "here"]),
                     "path": g.name(), "there": rng.choice([None, None, None, "dir", "full"])} for _ in range(rng.choice([1, 2, 3]))]
    s["ruins"] = [[c26.gen_ruin(rng) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(3 if tier == "quick" else 10)]
    lay = rng.choice([None] + sorted(refroot.NAMES))
    s["root"] = {"layout": lay, "params": rng.choice([None, None, None, '{"tupleSize": 2, "numberOfTuples": 2, "digestAlgorithm": "md5"}', '{"tupleSize": 3}', '{"prefix": "x:"}', "[]", "{"]), "spec": rng.choice([None, "1.0", "1.1", "9"]),
                 "objs": [{"plan": g.plan(None, nmax=2), "id": rng.choice([None, None, "a", "a/b", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "x:1", "A"]), "from": rng.choice(["here", "here", "local", "zip"]), "bad": rng.random() < 0.1, "twice": rng.random() < 0.1}
                          for _ in range(rng.choice([1, 2, 4]))],
                 "ruins": [[c26.gen_ruin(rng) if rng.random() < 0.5 else {"k": rng.choice(["bytes", "text", "subtree", "todir", "strangename", "deepdir"]), "seed": rng.randrange(1 << 30)} for _ in range(rng.choice([1, 1, 2]))]
                           for _ in range(2 if tier == "quick" else 8)]}
    for o in s["root"]["objs"]:
        if o["id"]:
            o["plan"]["id"] = o["id"]
        for v in o["plan"]["versions"]:
            v["inv"] = True
    return s


class Side:
    """One way to store everything."""

    def __init__(self, w, kind, srcs="local", t="t"):
        self.w, self.kind, self.n, self.t = w, kind, 0, t
        self.top = MNT + "/" + t
        self.base = self.top if kind == "local" else "simstore://bucket/" + t
        self.srcs = srcs
        w.disk.h_mkdirs(self.top + "/objs")
        w.disk.h_mkdirs(self.top + "/roots")
        w.disk.h_mkdirs(self.top + "/out")
        if kind != "local":
            for d in ("objs", "roots", "out"):
                store.kv_restore(w, "bucket/" + t + "/" + d, ({".keep": b""}, set()))
        self.log = []

    def put(self, url, snap):
        if url.startswith("simstore"):
            store.kv_restore(self.w, url[len("simstore://"):], snap)
        else:
            self.w.disk.restore(url, (dict(snap[0]), damage.dirs_of(snap[0]) | {""}))

    def get(self, url):
        if url.startswith("simstore"):
            return store.kv_snapshot(self.w, url[len("simstore://"):])[0]
        return self.w.disk.snapshot(url)[0]

    def loc(self, name, local=False):
        return (self.top + "/" if local else self.base + "/") + name

    def stage(self, files, name):
        # a directory with nothing in it exists only on a disk
        url = self.loc(name, local=self.srcs == "local" or not files)
        self.put(url, ({p: blob(c) for p, c in files.items()}, set()))
        return url

    def note(self, what, r, *urls):
        """Remember an outcome with everything specific to the place taken out."""
        r = [x for x in r]
        if r[0] == "err" and r[1] not in ("ObjectException", "StorageRootException", "NewVersionException", "InventoryException"):
            r = r[:1]
        t = repr(r)
        for u in sorted(urls, key=len, reverse=True):
            t = t.replace(u, "<%d>" % urls.index(u))
        for n in (self.t, repr(self.t)[1:-1]):
            t = t.replace("simstore://bucket/" + n, "<>").replace("/bucket/" + n, "<>").replace("bucket/" + n, "<>").replace(MNT + "/" + n, "<>")
        self.log.append((what, t if r[0] != "err" else r[:2] and "err"))
        return r


def history(S, s):
    """The object's history; returns its url."""
    url = S.loc("objs/o")
    cfg = s["cfg"]
    h = lib.H(S.w, dict(cfg, backend="store" if S.kind != "local" else "local"), where=url)
    for i, st in enumerate(s["steps"]):
        for _ in range(2 if s["twice"] and i == 0 and st["op"] != "foreign" else 1):
            fn = step(S, h, cfg, st, "src/%d" % i)
            r = outcome(fn)
            S.note("step %d %s" % (i, st["op"]), r[:1] if r[0] == "ok" else r, url)
            S.log.append(("stored after step %d" % i, S.get(url)))
        if r[0] != "ok":
            break
    return url


def step(S, h, cfg, st, name):
    op = st["op"]
    if op == "foreign":
        snap = refocfl.write_object(st["plan"], blob)
        return lambda: S.put(h.url, snap)
    if op == "create":
        src = S.stage(st["files"], name)
        return lambda: lib.mkobj(cfg).create(src, metadata=lib.mkmeta(st["meta"]), objdir=h.url)
    if op == "build":
        md = {}
        loc = S.srcs == "local" or any(not v["files"] for v in st["versions"])
        src = S.loc(name, local=loc)
        for i, v in enumerate(st["versions"], 1):
            S.put("%s/v%d" % (src, i), ({p: blob(c) for p, c in v["files"].items()}, set()))
            md[i] = lib.mkmeta(v["meta"])
        return lambda: lib.mkobj(cfg).build(src, versions_metadata=md, objdir=h.url)
    if op == "update":
        src = S.stage(st["files"], name)
        alg = st.get("alg") or h.cur_alg()
        return lambda: lib.mkobj(cfg, digest_algorithm=alg, identifier=None).add_version_with_content(objdir=h.url, srcdir=src, metadata=lib.mkmeta(st["meta"]))
    src = S.stage(st["src"], name)

    def ed():
        obj = lib.mkobj(cfg, identifier=None)
        nv = obj.start_new_version(objdir=h.url, srcdir=src, digest_algorithm=st.get("alg"), metadata=lib.mkmeta(st["meta"]), carry_content_forward=st["carry"])
        for e in st["edits"]:
            r = outcome(lambda e=e: lib.do_edit(nv, e))
            S.note("edit %s" % e, r)
        S.log.append(("difference", sorted(map(tuple, nv.diff_with_previous()))))
        return obj.write_new_version(nv)
    return ed


def clean(text, url):
    """Lines of a report without the place it is about."""
    # a directory in place of a file is nothing at all for an object store
    return sorted(str(text).replace("Inventory is a directory", "Inventory not present").replace(url.rstrip("/"), "<obj>").split("\n"))


def reads(S, url, s, what, exact=True):
    """Everything one can ask about an object."""
    def val(check):
        def f():
            ok, v = ocfl.Object().validate(url, check_digests=check)
            return ok, sorted(v.log.codes) if hasattr(v, "log") else sorted(v.codes), clean(v, url) if exact else None
        return f
    S.note(what + " validate", outcome(val(True)), url)
    S.note(what + " validate without digests", outcome(val(False)), url)

    def fs():
        v = Validator()
        return v.validate_object(fsw_openfs(url)), sorted(v.log.codes)
    S.note(what + " validate open", outcome(fs), url)
    S.note(what + " id", outcome(lambda: ocfl.Object(path=url).id_from_inventory()), url)
    S.note(what + " tree", outcome(lambda: clean(ocfl.Object().tree(url), url)), url)

    def inv():
        i = ocfl.Object(path=url).parse_inventory()
        return json.dumps(i.data, sort_keys=True)
    S.note(what + " inventory", outcome(inv), url)


def exports(S, url, s, what, here):
    """Extract versions and files."""
    for n, e in enumerate(s["exports"]):
        S.n += 1
        dst = S.loc("out/%d" % S.n, local=not here or e["to"] == "local")
        if e["there"] == "dir" and e["to"] == "local":
            S.w.disk.h_mkdirs(dst)
        elif e["there"] == "full":
            S.put(dst, ({"there": b"1"}, set()))
        if e["what"] == "file":
            def f():
                paths = sorted(ocfl.Object(path=url).parse_inventory().version(e["v"] if e["v"] != "head" else "v1").logical_paths) if e["n"] % 5 else [e["path"]]
                p = paths[e["n"] % len(paths)] if paths else e["path"]
                m = ocfl.Object().extract_file(url, e["v"], dst, p)
                return m.version, m.created, m.message, m.name, m.address
        else:
            def f():
                m = ocfl.Object().extract(url, e["v"], dst)
                return m.version, m.created, m.message, m.name, m.address
        r = S.note("%s %s %s" % (what, e["what"], e["v"]), outcome(f), url, dst)
        got = S.get(dst) if r[0] == "ok" else {}
        S.log.append(("%s %s %s gave" % (what, e["what"], e["v"]), got))


def rootreads(S, url, what, exact=True):
    def lst():
        r = ocfl.StorageRoot(root=url)
        return sorted(r.list_objects()), r.num_objects
    S.note(what + " list", outcome(lst), url)

    def val(check):
        def f():
            r = ocfl.StorageRoot(root=url)
            ok = r.validate(check_digests=check)
            return ok, r.num_objects, r.good_objects, sorted(r.log.codes), sorted([a, clean(b, url)] if exact else a for a, b in r.errors)
        return f
    S.note(what + " validate", outcome(val(True)), url)
    S.note(what + " validate without digests", outcome(val(False)), url)
    S.note(what + " path", outcome(lambda: ocfl.StorageRoot(root=url).object_path("x:1")), url)


def root(S, s):
    q = s["root"]
    url = S.loc("roots/r")
    r = S.note("root init", outcome(lambda: ocfl.StorageRoot(root=url, layout_name=q["layout"]).initialize(spec_version=q["spec"], layout_params=q["params"])), url)
    S.log.append(("root files", S.get(url)))
    if r[0] != "ok":
        return None
    S.note("root init again", outcome(lambda: ocfl.StorageRoot(root=url, layout_name=q["layout"]).initialize()), url)
    for i, o in enumerate(q["objs"]):
        snap = refocfl.write_object(o["plan"], blob)
        if o["bad"]:
            snap = c26.ruin((snap[0], snap[1]), {"k": "bytes", "seed": i})
        if o["from"] == "zip" and zippable(snap):
            S.w.disk.h_write(S.top + "/z%d.zip" % i, zipped((snap[0], set()), random.Random(i), False))
            at = "zip://%s/z%d.zip" % (S.top, i)
        else:
            at = S.loc("objs/r%d" % i, local=o["from"] != "here")
            S.put(at, snap)
        for _ in range(2 if o["twice"] else 1):
            S.note("root add %d" % i, outcome(lambda: ocfl.StorageRoot(root=url).add(at)), url, at)
            S.log.append(("root after add %d" % i, S.get(url)))
    return url


def plain(snap):
    """Without empty directories and with names any backend can hold."""
    return dict(snap[0])


def run(s):
    R = Res()
    logs = {}
    objsnap = rootsnap = None
    for kind in ("local", "store"):
        with R.sim(1, order=s["order"]) as w:
            S = Side(w, kind, s["srcs"], s["t"])
            url = history(S, s)
            if kind == "local":
                objsnap = S.get(url)
            if S.get(url):
                reads(S, url, s, "object", s["order"] is None)
                exports(S, url, s, "object", True)
            rurl = root(S, s)
            if rurl:
                if kind == "local":
                    rootsnap = S.get(rurl)
                rootreads(S, rurl, "root", s["order"] is None)
            logs[kind] = S.log
    compare(R, s, logs["local"], logs["store"], "object store")
    if R.violations:
        return R
    cases = []
    if objsnap:
        cases.append(("object", objsnap))
        for d in s["ruins"]:
            cur = (objsnap, damage.dirs_of(objsnap))
            for x in sorted(d, key=lambda x: x["k"] == "bigjson"):
                cur = c26.ruin(cur, x)
            if cur[0]:
                cases.append(("object", cur[0]))
    if rootsnap:
        cases.append(("root", rootsnap))
        for d in s["root"]["ruins"]:
            cur = (rootsnap, damage.dirs_of(rootsnap))
            for x in sorted(d, key=lambda x: x["k"] == "bigjson"):
                cur = c26.ruin(cur, x)
            if cur[0]:
                cases.append(("root", cur[0]))
    for i, (what, files) in enumerate(cases):
        logs = {}
        for kind in ("local", "store", "zip"):
            if kind == "zip" and ("::" in s["t"] or not zippable((files, ())) or any("\ud800" in f or len(f) >= 60000 for f in files)):
                continue
            with R.sim(1, order=s["order"]) as w:
                S = Side(w, "store" if kind == "store" else "local", s["srcs"], s["t"])
                if kind == "zip":
                    w.disk.h_write(S.top + "/z.zip", zipped((files, damage.dirs_of(files)), random.Random(i), i % 2))
                    url = "zip://%s/z.zip" % S.top
                else:
                    url = S.loc("objs/x")
                    S.put(url, (files, set()))
                if what == "object":
                    reads(S, url, s, "given object", s["order"] is None)
                    exports(S, url, s, "given object", False)
                else:
                    rootreads(S, url, "given root", s["order"] is None)
                logs[kind] = S.log
        for kind in sorted(logs):
            if kind != "local":
                compare(R, s, logs["local"], logs[kind], "object store" if kind == "store" else "zip file")
                R.probe("reads-%s-%s" % (what, kind))
        if R.violations:
            return R
    R.nontrivial = True
    return R


def compare(R, s, a, b, name):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x[1], dict) and isinstance(y[1], dict):
                R.V("backend-differs", "%s: local and %s: %s" % (x[0], name, lib.diff_state(x[1], y[1])))
            else:
                R.V("backend-differs", "%s: local %s; %s: %s%s" % (x[0], str(x[1])[:300], name, "" if y[0] == x[0] else "(at %s) " % y[0], str(y[1])[:300]))
            return
        if isinstance(x[1], str) and not x[0].startswith("edit"):
            k = " ".join(z for z in x[0].split(" ")[:3] if not z.isdigit())
            R.probe(k + (" err" if x[1] == "err" else " ok"))
        R.state(x[0], x[1] if isinstance(x[1], str) else sorted(x[1]))
    if len(a) != len(b):
        R.V("backend-differs", "%s: local went on with %s, %s with %s" % (name, a[len(b):][:1], name, b[len(a):][:1]))
