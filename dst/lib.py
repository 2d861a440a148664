"""Executes scenario steps against the real code on a World, and snapshots."""
import copy
import json

import ocfl

from . import refocfl, store
from .gen import blob
from .model import Model, Refused, edit
from .simos import MNT
from .world import outcome

OBJ_LOCAL = MNT + "/objs/o"
OBJ_STORE = "simstore://bucket/o"
NEXT = ["ox", "o1", "oa", "o-b"]


def mkobj(cfg, **over):
    """Object configured by cfg."""
    k = dict(identifier=cfg.get("id"), digest_algorithm=cfg.get("alg", "sha512"),
             content_path_normalization=cfg.get("norm", "uri"), spec_version=cfg.get("spec", "1.1"),
             forward_delta=cfg.get("fd", True), dedupe=cfg.get("dedupe", True), fixity=cfg.get("fixity"),
             content_directory=cfg.get("cd", "content"))
    if cfg.get("lax"):
        k["lax_digests"] = True
    k.update(over)
    return ocfl.Object(**k)


def mkmeta(m):
    m = m or {}
    return ocfl.VersionMetadata(created=m.get("created"), message=m.get("message"), name=m.get("name"), address=m.get("address"))


class H:
    """One object being built by a history on world w."""

    def __init__(self, w, cfg, where=None):
        self.w = w
        self.cfg = cfg
        self.store = cfg.get("backend") == "store"
        self.url = where or (OBJ_STORE if self.store else OBJ_LOCAL)
        if not self.store:
            w.disk.h_mkdirs(self.url.rsplit("/", 1)[0])
        self.nsrc = 0
        self.windows = []       # (start clock, end clock) of each step
        self.reuse = False      # one Object for everything
        self.short = None       # reads and writes of the steps transfer only this part
        self.obj = None
        self.odd = ""           # strange directory name on the way to sources

    # ---------------------------------------------------------- staging
    def stage(self, files, at=None):
        """Write a source tree, returns its path."""
        if at is None:
            self.nsrc += 1
            at = "%s/src%s/%d" % (MNT, self.odd, self.nsrc)
        self.w.disk.h_mkdirs(at)
        for p, c in files.items():
            self.w.disk.h_write(at + "/" + p, blob(c))
        return at

    def put(self, snap):
        """Replace the object by a snapshot."""
        if self.store:
            store.kv_restore(self.w, self.key(), snap)
        else:
            self.w.disk.restore(self.url, snap)

    def key(self):
        return self.url.split("://", 1)[1]

    def snap(self):
        if self.store:
            return store.kv_snapshot(self.w, self.key())
        return self.w.disk.snapshot(self.url)

    def bystanders(self):
        """Other objects next to a strangely named one."""
        up = self.url.rsplit("/", 1)[0]
        for n in NEXT:
            snap = ({"inventory.json.sha512": b"1", "inventory.json.sha256": b"2", "v1/content/a.txt": b"3", "v2": b"4"}, {"", "v1", "v1/content"})
            if self.store:
                store.kv_restore(self.w, "%s/%s" % (up.split("://", 1)[1], n), snap)
            else:
                self.w.disk.restore("%s/%s" % (up, n), snap)

    def hurt(self):
        """Names of those that are not as they were."""
        up = self.url.rsplit("/", 1)[0]
        return [n for n in NEXT if len((store.kv_snapshot(self.w, "%s/%s" % (up.split("://", 1)[1], n)) if self.store else self.w.disk.snapshot("%s/%s" % (up, n)))[0]) != 4]

    # ---------------------------------------------------------- steps
    def mk(self, cfg, **over):
        """Object for a step: a fresh one, or the one all steps share."""
        if not self.reuse:
            return mkobj(cfg, **over)
        if self.obj is None:
            self.obj = mkobj(cfg)
        o = self.obj
        o.digest_algorithm = over.get("digest_algorithm", cfg.get("alg", "sha512"))
        o.content_path_normalization, o.forward_delta, o.dedupe = cfg.get("norm", "uri"), cfg.get("fd", True), cfg.get("dedupe", True)
        o.fixity = over.get("fixity", cfg.get("fixity"))
        return o

    def prepare(self, st):
        """Stage inputs of a step; returns fn() that performs it."""
        op, cfg = st["op"], self.cfg
        if st.get("over"):
            cfg = dict(cfg, **st["over"])
        if op == "foreign":
            snap = refocfl.write_object(st["plan"], blob)
            return lambda: self.put(copy.deepcopy(snap))
        if op == "create":
            src = self.stage(st["files"])
            return lambda: self.mk(cfg).create(src, metadata=mkmeta(st.get("meta")), objdir=self.url)
        if op == "build":
            self.nsrc += 1
            src = "%s/src%s/%d" % (MNT, self.odd, self.nsrc)
            md = {}
            for i, v in enumerate(st["versions"], 1):
                self.stage(v["files"], "%s/v%d" % (src, i))
                md[i] = mkmeta(v.get("meta"))
            return lambda: self.mk(cfg).build(src, versions_metadata=md, objdir=self.url)
        if op == "update":
            src = None if st.get("nosrc") else self.stage(st["files"])
            alg = st.get("alg") or self.cur_alg()

            def upd():
                obj = self.mk(cfg, digest_algorithm=alg, fixity=st.get("fixity", None), identifier=None)
                return obj.add_version_with_content(objdir=self.url, srcdir=src, metadata=mkmeta(st.get("meta")),
                                                    abort_if_no_difference=st.get("abort", False))
            return upd
        if op == "edit":
            src = self.stage(st["src"])

            def ed():
                obj = self.mk(cfg, identifier=None)
                late = st.get("setters")
                nv = obj.start_new_version(objdir=self.url, srcdir=src, digest_algorithm=st.get("alg"),
                                           metadata=None if late else mkmeta(st.get("meta")), carry_content_forward=st["carry"])
                if late == 1:
                    setters(nv, st.get("meta") or {})
                try_edits(nv, st)
                if late == 2:
                    setters(nv, st.get("meta") or {})
                return obj.write_new_version(nv)
            return ed
        raise AssertionError(op)

    def cur_alg(self):
        """Digest algorithm the stored root inventory declares."""
        data = refocfl.load_inv(self.snap()[0].get("inventory.json", b""))
        if isinstance(data, dict):
            return data.get("digestAlgorithm", self.cfg["alg"])
        return self.cfg["alg"]

    def do(self, st):
        fn = self.prepare(st)
        t0 = self.w.clock
        if self.short:
            self.w.arm([{"nth": 0, "sticky": True, "kinds": ["read", "write"], "act": "short", "part": self.short}])
        r = outcome(fn)
        if self.short:
            self.w.disarm()
        self.windows.append((t0, self.w.clock))
        return r

    # ---------------------------------------------------------- reads
    def extract(self, vdir, to=None):
        """(outcome, snapshot of extracted files) of one version."""
        dst = to or self.fresh("x")
        if self.short:
            self.w.arm([{"nth": 0, "sticky": True, "kinds": ["read", "write"], "act": "short", "part": self.short}])
        r = outcome(lambda: self.mk(self.cfg).extract(self.url, vdir, dst))
        if self.short:
            self.w.disarm()
        snap = self.w.disk.snapshot(dst)
        return r, snap

    def fresh(self, tag="t"):
        self.nsrc += 1
        self.w.disk.h_mkdirs(MNT + "/out")
        self.w.disk.h_mkdirs("%s/out%s" % (MNT, self.odd))
        return "%s/out%s/%s%d" % (MNT, self.odd, tag, self.nsrc)

    def validate(self, check_digests=True):
        """outcome of full validation -> ('ok', (passed, text))."""
        def f():
            passed, v = mkobj({}).validate(self.url, check_digests=check_digests)
            return passed, str(v)[:600]
        return outcome(f)


def setters(nv, meta):
    """Metadata through the attributes of a NewVersion."""
    for k, a in (("name", "user_name"), ("address", "user_address"), ("message", "message"), ("created", "created")):
        if k in meta:
            setattr(nv, a, "overwritten" if k != "created" else "2000-01-01T00:00:00Z")
            setattr(nv, a, meta[k])
            if getattr(nv, a) != meta[k]:
                raise AssertionError("%s does not give back what was set" % a)


def try_edits(nv, st):
    """Apply edits; those a plain map would refuse may fail, others must not."""
    state = {p: None for p in nv.inventory.current_version.logical_paths}
    for e in st["edits"]:
        try:
            edit(state, dict.fromkeys(st["src"]), e)
            legit = True
        except Refused:
            legit = False
        try:
            do_edit(nv, e)
        except Exception:       # pylint: disable=broad-except
            if legit:
                raise


def do_edit(nv, e):
    """Apply one edit."""
    if e[0] == "add":
        nv.add(e[1], e[2], **({"content_path": e[3]} if len(e) > 3 else {}))
    elif e[0] == "del":
        nv.delete(e[1])
    else:
        nv.rename(e[1], e[2])


def run_history(w, hist, on_step=None, viol=None):
    """Run all steps fault-free. Stops when a step fails (reported via viol)."""
    odd = hist.get("odd")
    h = H(w, hist["cfg"], where=odd and (OBJ_STORE if hist["cfg"].get("backend") == "store" else OBJ_LOCAL)[:-1] + odd)
    if odd:
        h.odd = "/" + odd
        h.bystanders()
    h.reuse, h.short = hist.get("reuse", False), hist.get("short")
    m = Model()
    for i, st in enumerate(hist["steps"]):
        before = h.snap()
        r = h.do(st)
        m2 = m.clone()
        m2.apply(hist["cfg"], st)
        if on_step:
            on_step(h, i, st, before, r, m, m2)
        if r[0] != "ok":
            return h, m, (i, r)
        m = m2
    return h, m, None


def vname(h, i, plan=None):
    """Name of version number i in the stored object."""
    files, dirs = h.snap()
    data = refocfl.load_inv(files.get("inventory.json", b""))
    try:
        return refocfl.version_seq(list(data["versions"]))[i - 1]
    except Exception:       # pylint: disable=broad-except
        return "v%d" % i


def expect_state(mv):
    return {lp: blob(c) for lp, c in mv["state"].items()}


def check_extract(h, model, V, upto=None):
    """Compare every version extracted through the library with the model."""
    for i, mv in enumerate(model.versions[:upto], 1):
        vd = vname(h, i)
        r, snap = h.extract(vd)
        if r[0] != "ok":
            V("extract-failed", "extract of %s failed: %s" % (vd, r[1:]))
            continue
        exp = expect_state(mv)
        diff = diff_state(exp, snap[0])
        if diff:
            V("extract-differs", "%s: %s" % (vd, diff))
        extra = {d for d in snap[1] if d and not any(f.startswith(d + "/") for f in exp)}
        if extra:
            V("extract-extra-dirs", "%s: %s" % (vd, sorted(extra)))
        check_meta(r[1], mv, h, vd, V)


def check_meta(md, mv, h, vd, V):
    meta = mv["meta"]
    for k, a in (("message", "message"), ("name", "name"), ("address", "address"), ("created", "created")):
        want = meta.get(k)
        got = getattr(md, a, None)
        if k == "created" and want is None:
            if not refocfl.good_created(got):
                V("meta-created", "%s: created %r" % (vd, got))
            continue
        if want != got:
            V("meta-" + k, "%s: %s is %r, expected %r" % (vd, k, got, want))


def diff_state(exp, got):
    """'' if equal, else short text."""
    if exp == got:
        return ""
    miss = sorted(set(exp) - set(got))
    extra = sorted(set(got) - set(exp))
    bad = sorted(k for k in set(exp) & set(got) if exp[k] != got[k])
    return "missing %r extra %r different %r" % (miss[:4], extra[:4], [(b, len(exp[b]), len(got[b])) for b in bad[:4]])


def diff_snap(a, b):
    """Difference of two (files, dirs) snapshots, '' if same."""
    d = diff_state(a[0], b[0])
    if d:
        return d
    if a[1] != b[1]:
        return "dirs: gone %r new %r" % (sorted(a[1] - b[1])[:4], sorted(b[1] - a[1])[:4])
    return ""


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, separators=(",", ":"))
