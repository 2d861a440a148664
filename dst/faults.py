"""Target operations to be run under faults, and fault point selection.

A scenario has cfg, steps (fault-free prefix) and a target. The prefix is run
once, storage is frozen, and every faulted execution starts from the frozen
storage in a fresh world.
"""
import copy
import json
import random

import ocfl
from ocfl import bagger

from . import gen as G, lib, refocfl, store
from .gen import blob
from .model import Model
from .simos import MNT
from .world import outcome, ERRABLE, applicable

ROOT_LOCAL = MNT + "/roots/r"
ROOT_STORE = "simstore://bucket/r"


# ------------------------------------------------------------------ freezing
def freeze(w):
    return {"disk": w.disk.snapshot(MNT), "kv": {k: bytes(n.data) for k, n in w.kv.items()},
            "buckets": set(w.buckets), "clock": w.clock}


def thaw(w, fz):
    from . import simos
    w.disk.restore(MNT, fz["disk"])
    w.kv = {k: simos.File(d) for k, d in fz["kv"].items()}
    w.buckets = set(fz["buckets"])
    w.clock = w.clock0 = fz["clock"]


def everything(w):
    """Snapshot of all storage, for 'left exactly as it was'."""
    return w.disk.snapshot(MNT), {k: bytes(n.data) for k, n in w.kv.items()}


def diff_everything(a, b):
    return lib.diff_snap(a[0], b[0]) or lib.diff_state(a[1], b[1])


# ------------------------------------------------------------------- targets
class Target:
    """One operation on a prepared world."""

    def __init__(self, s, w):
        self.s, self.t, self.w = s, s["target"], w
        self.h = None
        self.m = None           # model before
        self.m2 = None          # model after (object writing targets)
        self.info = {}

    # build the state the operation starts from; False if that failed
    def setup(self):
        s = self.s
        self.h, self.m, stop = lib.run_history(self.w, {"cfg": s["cfg"], "steps": s["steps"]})
        if stop:
            return False
        return self.setup_more()

    def setup_more(self):
        return True

    def attach(self, w, nsrc, m):
        """Continue in world w (storage thawed)."""
        self.w = w
        self.h = lib.H(w, self.s["cfg"])
        self.h.nsrc = nsrc
        self.m = m.clone()

    def where(self):
        """Snapshot of what the operation writes to."""
        return self.h.snap()

    # fn() performing the operation
    def prepare(self):
        raise NotImplementedError

    # problems (strings) if result was success
    def wrong(self, r):
        raise NotImplementedError


class Step(Target):
    """create, build, update or edit of the object."""

    def prepare(self):
        st = self.t["st"]
        self.m2 = self.m.clone()
        self.m2.apply(self.s["cfg"], st)
        return self.h.prepare(st)

    def wrong(self, r):
        return object_wrong(self.h, self.m2)


def object_wrong(h, m, V=None):
    """Problems of the stored object compared with the model."""
    out = []
    p = refocfl.validate(h.snap())
    if p:
        out.append("nonconforming: %s" % p[:3])
    out += logical_wrong(h.snap(), m)
    return out


def logical_wrong(snap, m):
    """Problems of the logical content of a snapshot compared with a model."""
    got = refocfl.read(snap)
    if got is None:
        return ["unreadable"]
    return seq_wrong(got, m)


def seq_wrong(got, m, exact=True):
    out = []
    if exact and len(got) != len(m.versions) or len(got) < len(m.versions):
        return ["%d versions, expected %d" % (len(got), len(m.versions))]
    for (v, st, blk), mv in zip(got, m.versions):
        d = lib.diff_state(lib.expect_state(mv), st)
        if d:
            out.append("%s: %s" % (v, d))
        meta = mv["meta"]
        user = blk.get("user") or {}
        for k, g in (("message", blk.get("message")), ("name", user.get("name")), ("address", user.get("address"))):
            if g != meta.get(k):
                out.append("%s: %s %r not %r" % (v, k, g, meta.get(k)))
        if meta.get("created") and blk.get("created") != meta["created"]:
            out.append("%s: created %r not %r" % (v, blk.get("created"), meta["created"]))
    return out


class Extract(Target):
    def prepare(self):
        i = self.t["v"] % len(self.m.versions)
        self.mv = self.m.versions[i]
        self.vd = lib.vname(self.h, i + 1)
        self.dst = self.h.fresh("x")
        if self.t.get("premade"):
            self.w.disk.h_mkdirs(self.dst)
        cfg, url, vd, dst = self.s["cfg"], self.h.url, self.vd, self.dst
        return lambda: lib.mkobj(cfg).extract(url, vd, dst)

    def where(self):
        return self.w.disk.snapshot(self.dst)

    def wrong(self, r):
        out = []
        d = lib.diff_state(lib.expect_state(self.mv), self.where()[0])
        if d:
            out.append("extracted %s: %s" % (self.vd, d))
        lib.check_meta(r[1], self.mv, self.h, self.vd, lambda c, m: out.append(m))
        return out


class ExtractFile(Target):
    def prepare(self):
        i = self.t["v"] % len(self.m.versions)
        self.mv = self.m.versions[i]
        st = self.mv["state"]
        self.vd = lib.vname(self.h, i + 1)
        self.dst = self.h.fresh("f")
        if self.t.get("premade"):
            self.w.disk.h_mkdirs(self.dst)
            self.w.disk.h_write(self.dst + "/other", b"other")
        self.lp = sorted(st)[self.t["pick"] % len(st)] if st else "none"
        cfg, url, vd, dst, lp = self.s["cfg"], self.h.url, self.vd, self.dst, self.lp
        return lambda: lib.mkobj(cfg).extract_file(url, vd, dst, lp)

    def where(self):
        return self.w.disk.snapshot(self.dst)

    def wrong(self, r):
        exp = {self.lp.rsplit("/", 1)[-1]: blob(self.mv["state"][self.lp])} if self.lp in self.mv["state"] else None
        if exp is None:
            return ["extracted a file that does not exist"]
        if self.t.get("premade"):
            exp.setdefault("other", b"other")
        d = lib.diff_state(exp, self.where()[0])
        return ["extracted %s %r: %s" % (self.vd, self.lp, d)] if d else []


def root_url(s):
    return ROOT_STORE if s["cfg"].get("backend") == "store" else ROOT_LOCAL


class Init(Target):
    """Storage root initialization."""

    def setup(self):
        self.h = lib.H(self.w, self.s["cfg"])
        self.m = Model()
        return True

    def prepare(self):
        t, url = self.t, root_url(self.s)
        if "simstore" not in url:
            self.w.disk.h_mkdirs(url.rsplit("/", 1)[0])

        def f():
            ocfl.StorageRoot(root=url, layout_name=t["layout"], spec_version=t.get("spec")).initialize(layout_params=t.get("params"))
        return f

    def where(self):
        return root_snap(self.w, root_url(self.s))

    def wrong(self, r):
        return root_wrong(self.where(), self.t, {})


def root_snap(w, url):
    if "://" in url:
        return store.kv_snapshot(w, url.split("://", 1)[1])
    return w.disk.snapshot(url)


LAYOUT_NAMES = {"0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"}


def root_wrong(snap, t, objects):
    """Problems of a storage root that should hold exactly objects {path: snapshot}."""
    files = dict(snap[0])
    out = []
    spec = t.get("spec") or "1.1"
    if files.pop("0=ocfl_" + spec, None) != ("ocfl_%s\n" % spec).encode():
        out.append("root declaration")
    lay = files.pop("ocfl_layout.json", None)
    if t["layout"]:
        try:
            d = json.loads(lay)
            if not d["extension"] or not isinstance(d["description"], str):
                out.append("layout file content")
            cfgname = "extensions/%s/config.json" % d["extension"]
            conf = files.pop(cfgname, None)
            if t.get("params"):
                c = json.loads(conf)
                for k, v in json.loads(t["params"]).items():
                    if c.get(k) != v:
                        out.append("config %s" % k)
                if c.get("extensionName") != d["extension"]:
                    out.append("config extensionName")
            elif conf is not None:
                json.loads(conf)
        except (ValueError, TypeError, KeyError) as e:
            out.append("layout files: %s" % type(e).__name__)
    elif lay is not None:
        out.append("layout file where none asked for")
    for path, osnap in objects.items():
        pre = path + "/"
        got = {k[len(pre):]: files.pop(k) for k in list(files) if k.startswith(pre)}
        d = lib.diff_state(osnap[0], got)
        if d:
            out.append("object at %s: %s" % (path, d))
    if files:
        out.append("extra files %r" % sorted(files)[:4])
    return out


class Add(Target):
    """Add the object to a storage root that may hold others already."""

    def setup_more(self):
        t, url, w = self.t, root_url(self.s), self.w
        if "simstore" not in url:
            w.disk.h_mkdirs(url.rsplit("/", 1)[0])
        r = outcome(lambda: ocfl.StorageRoot(root=url, layout_name=t["layout"], spec_version=t.get("spec")).initialize(layout_params=t.get("params")))
        if r[0] != "ok":
            return False
        self.others = {}
        for i, o in enumerate(t.get("others", ())):
            snap = refocfl.write_object(o, blob)
            at = "%s/others/%d" % (MNT, i)
            w.disk.restore(at, snap)
            r = outcome(lambda at=at: ocfl.StorageRoot(root=url).add(at))
            if r[0] == "ok":
                self.others[r[1][1]] = snap
        self.info["others"] = self.others
        return True

    def prepare(self):
        url, src = root_url(self.s), self.h.url
        self.others = self.info["others"]
        return lambda: ocfl.StorageRoot(root=url).add(src)

    def where(self):
        return root_snap(self.w, root_url(self.s))

    def wrong(self, r):
        ident, path = r[1]
        out = root_wrong(self.where(), self.t, dict(self.others, **{path: self.h.snap()}))
        want = refocfl.load_inv(self.h.snap()[0]["inventory.json"])["id"]
        if ident != want:
            out.append("identifier %r" % ident)
        return out


class BagOut(Target):
    """Extract a version and turn it into a bag."""

    def prepare(self):
        i = self.t["v"] % len(self.m.versions)
        self.mv = self.m.versions[i]
        self.vd = lib.vname(self.h, i + 1)
        self.dst = self.h.fresh("bag")
        self.ident = refocfl.load_inv(self.h.snap()[0]["inventory.json"])["id"]
        cfg, url, vd, dst = self.s["cfg"], self.h.url, self.vd, self.dst
        date = bool(self.t.get("date"))

        def f():
            md = lib.mkobj(cfg).extract(url, vd, dst)
            bagger.bag_extracted_version(dst, md, date)
            return md
        return f

    def where(self):
        return self.w.disk.snapshot(self.dst)

    def wrong(self, r):
        return bag_wrong(self.where(), self.mv, self.ident)


def bag_wrong(snap, mv, ident):
    files = snap[0]
    out = []
    payload = {k[5:]: d for k, d in files.items() if k.startswith("data/")}
    d = lib.diff_state(lib.expect_state(mv), payload)
    if d:
        out.append("payload: %s" % d)
    out += bag_valid(files)
    info = bag_tags(files.get("bag-info.txt", b""))
    meta = mv["meta"]
    addr = meta.get("address") or ""
    for k, want in (("External-Identifier", ident), ("External-Description", meta.get("message") or None), ("Contact-Name", meta.get("name") or None),
                    ("Contact-Email", addr[7:] if addr.startswith("mailto:") else None)):
        if one_line(info.get(k)) != one_line(want):
            out.append("bag-info %s is %r, expected %r" % (k, info.get(k), want))
    return out


def one_line(s):
    """bag-info values cannot hold line breaks or surrounding white space."""
    return s if s is None else (s.replace("\n", "").replace("\r", "").strip() or None)


def bag_tags(data):
    out = {}
    last = None
    for line in data.decode("utf-8", "replace").split("\n"):
        if line[:1] in (" ", "\t") and last:
            out[last] += "\n" + line.lstrip()
        elif ":" in line:
            k, v = line.split(":", 1)
            out[k] = v.lstrip(" ")
            last = k
    return out


def bag_decode(p):
    return p.replace("%0D", "\r").replace("%0d", "\r").replace("%0A", "\n").replace("%0a", "\n").replace("%25", "%")


def bag_valid(files):
    """Problems of a bag per RFC 8493, independent of the bagit library."""
    out = []
    if b"BagIt-Version:" not in files.get("bagit.txt", b""):
        out.append("bagit.txt")
    mans = [k for k in files if k.startswith("manifest-") and k.endswith(".txt")]
    if not mans:
        out.append("no manifest")
    payload = {k for k in files if k.startswith("data/")}
    for k in mans + [k for k in files if k.startswith("tagmanifest-")]:
        alg = k.rsplit("-", 1)[1][:-4]
        seen = set()
        for line in files[k].decode("utf-8", "replace").split("\n"):
            if not line.strip():
                continue
            dg, _, p = line.partition(" ")
            p = p.lstrip(" *")
            cand = [x for x in (p, bag_decode(p)) if x in files]
            if not cand:
                out.append("%s lists missing %r" % (k, p))
                continue
            if refocfl.dig(alg, files[cand[-1]]) != dg.lower():
                out.append("%s digest of %r" % (k, p))
            seen.add(cand[-1])
        if k.startswith("manifest-") and payload - seen:
            out.append("%s does not list %r" % (k, sorted(payload - seen)[:3]))
    return out


def make_bag(files, info, alg="sha512", tagman=True):
    """{relpath: bytes} of a bag with payload files {path: bytes}."""
    out = {"bagit.txt": b"BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n"}
    lines = []
    for p in sorted(files):
        out["data/" + p] = files[p]
        lines.append("%s  data/%s\n" % (refocfl.dig(alg, files[p]), p.replace("%", "%25").replace("\n", "%0A").replace("\r", "%0D") if False else p.replace("\n", "%0A").replace("\r", "%0D")))
    out["manifest-%s.txt" % alg] = "".join(lines).encode()
    tags = dict(info)
    tags["Payload-Oxum"] = "%d.%d" % (sum(map(len, files.values())), len(files))
    out["bag-info.txt"] = "".join("%s: %s\n" % kv for kv in sorted(tags.items())).encode()
    if tagman:
        out["tagmanifest-%s.txt" % alg] = "".join("%s %s\n" % (refocfl.dig(alg, out[k]), k) for k in sorted(out) if not k.startswith("data/")).encode()
    return out


class BagIn(Target):
    """Import a bag as the next (or first) version of the object."""

    def prepare(self):
        t = self.t
        src = self.h.fresh("inbag")
        bag = make_bag({p: blob(c) for p, c in t["files"].items()}, t.get("info", {}))
        self.w.disk.h_mkdirs(src + "/data")
        for p, d in bag.items():
            self.w.disk.h_write(src + "/" + p, d)
        given = t.get("meta") or {}
        cfg, url = self.s["cfg"], self.h.url
        first = not self.m.versions
        info = t.get("info", {})
        meta = dict(given)
        if "message" not in meta and "External-Description" in info:
            meta["message"] = info["External-Description"]
        if "name" not in meta and "Contact-Name" in info:
            meta["name"] = info["Contact-Name"]
        if "address" not in meta and "Contact-Email" in info:
            meta["address"] = "mailto:" + info["Contact-Email"]
        if "created" not in meta and "Bagging-Date" in info:
            meta["created"] = info["Bagging-Date"] + "T00:00:00Z"
        self.m2 = self.m.clone()
        st = {"op": "create" if first else "update", "files": t["files"], "meta": meta}
        self.m2.apply(cfg, st)
        alg = self.h.cur_alg() if not first else cfg["alg"]

        def f():
            md = lib.mkmeta(given)
            data = bagger.bag_as_source(src, md)
            if first:
                return lib.mkobj(cfg).create(data, metadata=md, objdir=url)
            return lib.mkobj(cfg, digest_algorithm=alg, fixity=None, identifier=None).add_version_with_content(objdir=url, srcdir=data, metadata=md)
        return f

    def wrong(self, r):
        return object_wrong(self.h, self.m2)


KINDS = {"step": Step, "extract": Extract, "extract_file": ExtractFile, "init": Init, "add": Add, "bagout": BagOut, "bagin": BagIn}
LAYOUTS = [None, "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout", "nnnn-tuple-tree", "nnnn-uuid-quadtree"]


def bare(rng, g, s):
    """Sometimes: an object of other software without the inventory of its last version, updated with another algorithm."""
    if s["cfg"]["backend"] == "store" or rng.random() > 0.1:
        return
    plan = g.plan(s["cfg"], nmax=3)
    for v in plan["versions"][-rng.choice([1, 1, 3]):]:
        v["inv"] = False
    s["steps"] = [{"op": "foreign", "plan": plan}]
    s["target"] = gen_target(rng, g, ["update"], s["cfg"], s["steps"])
    st = s["target"]["st"]
    if rng.random() < 0.8:
        st["alg"] = "sha256" if plan["versions"][-1]["alg"] == "sha512" else "sha512"


def gen_target(rng, g, kinds, cfg, steps):
    """Random target fitting a history; may clear steps (create, build)."""
    k = rng.choice(kinds)
    prev = Model.of({"cfg": cfg, "steps": steps}).head_state()
    if k in ("create", "build"):
        del steps[:]
        h = g.history(nmax=1, cfg=cfg, foreign=0, build=1.0 if k == "build" else 0.0)
        return {"k": "step", "st": h["steps"][0]}
    if k == "update":
        st = g.update(prev)
        if st["op"] == "update" and rng.random() < 0.06:
            st["nosrc"] = True
        return {"k": "step", "st": st}
    if k in ("extract", "extract_file", "bagout"):
        return {"k": k, "v": rng.randrange(8), "pick": rng.randrange(64), "premade": rng.random() < 0.4, "date": rng.random() < 0.5}
    if k == "init":
        del steps[:]
        return {"k": k, **gen_root(rng)}
    if k == "add":
        others = []
        for i in range(rng.randint(0, 2)):
            p = g.plan(None, nmax=2)
            p["id"] = "http://other.example.org/%d" % i
            others.append(p)
        t = {"k": k, **gen_root(rng, ("nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout")), "others": others}
        return t
    if k == "bagin":
        info = {}
        if rng.random() < 0.7:
            info["External-Identifier"] = cfg["id"] or "x"
        if rng.random() < 0.7:
            info["External-Description"] = rng.choice(["bag message", "another one"])
        if rng.random() < 0.7:
            info["Contact-Name"] = "Bag Person"
            info["Contact-Email"] = "bag@example.org"
        if rng.random() < 0.4:
            info["Bagging-Date"] = "2019-08-07"
        if rng.random() < 0.3:
            del steps[:]
        meta = g.meta() if rng.random() < 0.5 else {}
        meta = {a: b for a, b in meta.items() if b}
        return {"k": k, "files": {p: c for p, c in g.tree(0, 4).items() if "%" not in p and "\n" not in p and "\\" not in p and p == p.strip() and not p.startswith("~")}, "info": info, "meta": meta}
    raise AssertionError(k)


def gen_root(rng, layouts=None):
    lay = rng.choice(layouts or LAYOUTS)
    t = {"layout": lay, "spec": rng.choice([None, "1.0", "1.1"]), "params": None}
    if lay and lay.startswith("0003") and rng.random() < 0.5:
        t["params"] = json.dumps({"digestAlgorithm": rng.choice(["sha256", "md5", "sha512"]), "tupleSize": rng.choice([1, 2, 3]), "numberOfTuples": rng.choice([2, 3, 4])})
    return t


class Bench:
    """Prefix once, then any number of executions of the target."""

    def __init__(self, R, s):
        self.R, self.s = R, s
        self.ok = False
        with R.sim(1, order=s.get("order")) as w:
            t = KINDS[s["target"]["k"]](s, w)
            if t.setup():
                self.ok = True
                self.fz = freeze(w)
                self.nsrc, self.m, self.info = t.h.nsrc, t.m, t.info

    def world(self):
        """Context manager: a fresh world; use start(w) inside."""
        return self.R.sim(1, order=self.s.get("order"))

    def start(self, w):
        thaw(w, self.fz)
        t = KINDS[self.s["target"]["k"]](self.s, w)
        t.info = copy.copy(self.info)
        t.attach(w, self.nsrc, self.m)
        return t

    def pilot(self):
        """(ops, result, problems) of a fault free execution."""
        with self.world() as w:
            t = self.start(w)
            fn = t.prepare()
            w.arm(record=True)
            r = outcome(fn)
            muts = list(w.muts)
            ops = w.disarm()
            wrong = t.wrong(r) if r[0] == "ok" else []
            self.final = t.where()
        return ops, r, wrong, muts


MUTKINDS = ("mkdir", "open_w", "write", "close", "unlink", "rename", "put", "delete", "rmdir", "truncate")


def points(ops, rng, acts, limit, mut_only=False):
    """Fault lists, one per execution: every (operation, act) if few, else a sample
    that always includes all storage-changing operations first."""
    first, rest = [], []
    for i, (kind, _p, _n) in enumerate(ops):
        if kind in ("stat", "sleep"):
            continue
        for a in acts:
            if not applicable(kind, a):
                continue
            if a == "short":
                continue
            mut = kind in MUTKINDS
            if a == "torn" and kind not in ("write", "put"):
                continue
            if a == "crash" and not mut:
                continue        # equal to crashing after the previous change
            if a == "crash_after" and not mut:
                continue
            f = {"nth": i, "act": a}
            if a == "err":
                f["errno"] = rng.choice(ERRABLE[kind])
                if kind == "write":
                    f["part"] = rng.choice([0, 0.5, 0.9])
                if kind == "close":
                    f["lose"] = rng.choice([0, 0.5, 0.99])
            if a == "torn":
                f["part"] = rng.choice([0.01, 0.5, 0.99])
            (first if mut else rest).append([f])
    if len(first) + len(rest) <= limit:
        return first + rest
    rng.shuffle(first)
    rng.shuffle(rest)
    k = min(len(first), max(limit * 2 // 3, limit - len(rest)))
    return first[:k] + rest[:limit - k]


def seeded(s, tag):
    return random.Random("%s/%s" % (s.get("pseed", 0), tag))
