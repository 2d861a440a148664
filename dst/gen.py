"""Seeded generators of sources, settings, histories and foreign objects."""
import random
from functools import lru_cache

NAMES = ["a.txt", "b.txt", "c", "README.md", "data/x.bin", "data/y.bin", "data/sub/z", "A.txt", ".hidden", "..dots", "dir/.h2",
         "sp ace.txt", " lead", "trail ", "\u00fcn\u00ef.txt", "\u65e5\u672c.txt", "e\u0301.txt", "\u00e9.txt", "100%.txt", "%41.txt", "%2Ehidden",
         "a#b", "q?x", "c:d", "back\\slash", "tab\tname", "inventory.json", "inventory.json.sha512", "v1", "v2/v1/content/f",
         "content/content/f", "0=ocfl_object_1.1", "a/b/c/d/e/f/g", "~", "x*y", "[x]", "{a,b}", "it's", "dq\"q", "<x>", "pi|pe", "am&p",
         "emoji\U0001F600", "extensions/e", "logs/l", "f__2", "f", "fi.le", "fi__2.le", "-", "--x", "a+b", "a=b", "a;b", "1", "v01/x", "manifest/m", "new\nline",
         ".DS_Store", ".git/config", "Thumbs.db", ".gitignore", "desktop.ini", "__pycache__/m.pyc", "lost+found/#1", ".keep", "x.tmp", "x.bak", "x~", "#x#", "CVS/Root", "nul", "._a.txt", "core", "x.swp",
         "...", "dir/.../x", "a/..b", "b../c", "....", "a./b.", "v1.", "...a"]
SIZES = [0, 0, 1, 2, 3, 5, 17, 100, 511, 4095, 8192, 8193]
BIG = [65535, 65536, 65537, 131072, 262143, 262144, 262145, 300000, 524288, 524289]
ODD = ["o b", "o*", "o*", "o[1]", "o[a-z]", "o?", "o?x=1", "{a,o}", "\u00f6%20", "#o", "~", "-o", "o&p", "o::p", "o\\", ".o", "o:x", "**"]
MESSAGES = [None, "first", "second version", "m\u00fcss\u00e4ge \u2603", "line\nbreak", "\"quoted\"", "", "x" * 300]
USERS = [None, ("Alice", "mailto:alice@example.org"), ("B\u00f6b", None), ("Carol", "https://orcid.org/0000-0001-2345-6789"), ("D", "mailto:d@e.f")]
CREATED = [None, None, "2001-02-03T04:05:06Z", "1999-12-31T23:59:59.123456Z", "2020-02-29T12:00:00+05:30", "2038-01-19T03:14:08-11:00", "1970-01-01T00:00:00Z"]
IDS = ["http://example.org/obj1", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "info:a/b", "ark:/12345/bcd987", "plain id", "\u00fcml:a\u00fct", "x:..", "x:a%20b",
       "https://example.org/" + "long/" * 12, "x:\"q\"", "a"]


@lru_cache(maxsize=4096)
def blob(cid):
    """Content bytes for content id 'seed:size'."""
    s, n = cid.split(":")
    n = int(n)
    if n > 4096:
        base = random.Random(s).randbytes(4096)
        # every 4 kB block differs so that swapped or dropped blocks show
        out = bytearray()
        i = 0
        while len(out) < n:
            out += i.to_bytes(4, "big") + base[4:]
            i += 1
        return bytes(out[:n])
    return random.Random(s).randbytes(n)


class G:
    """Generator state for one scenario."""

    def __init__(self, rng, big=0.08, newline=True, maxsize=None):
        self.rng = rng
        self.big = big
        self.cids = []
        self.newline = newline
        self.maxsize = maxsize

    def cid(self):
        r = self.rng
        if self.cids and r.random() < 0.35:
            return r.choice(self.cids)
        size = r.choice(BIG) if r.random() < self.big else r.choice(SIZES)
        if self.maxsize is not None:
            size = min(size, self.maxsize)
        c = "%d:%d" % (r.randrange(1 << 30), size)
        if size == 0:
            c = "0:0"
        self.cids.append(c)
        return c

    def name(self):
        r = self.rng
        if r.random() < 0.3:
            return r.choice(NAMES[:7])
        n = r.choice(NAMES)
        if "\n" in n and not self.newline:
            n = "nonl"
        if r.random() < 0.15:
            n = r.choice(["p", "data", "\u00e4", "q r"]) + "/" + n
        return n

    def tree(self, lo=0, hi=5, base=None):
        """{path: cid} without file/directory clashes."""
        r = self.rng
        out = {}
        n = r.randint(lo, hi)
        if base:
            for p, c in base.items():
                x = r.random()
                if x < 0.6:
                    add(out, p, c)
                elif x < 0.75:
                    add(out, p, self.cid())
                elif x < 0.85:
                    add(out, self.name(), c)
        tries = 0
        while len(out) < n and tries < 50:
            tries += 1
            add(out, self.name(), self.cid())
        return out

    def meta(self):
        r = self.rng
        m = {}
        c = r.choice(CREATED)
        if c:
            m["created"] = c
        x = r.choice(MESSAGES)
        if x is not None:
            m["message"] = x
        u = r.choice(USERS)
        if u:
            m["name"] = u[0]
            if u[1]:
                m["address"] = u[1]
        return m

    def cfg(self):
        r = self.rng
        return {"backend": "store" if r.random() < 0.2 else "local",
                "spec": r.choice(["1.1", "1.1", "1.0"]),
                "alg": r.choice(["sha512", "sha512", "sha256"]),
                "norm": r.choice(["uri", "uri", None, "md5"]),
                "fd": r.random() < 0.75, "dedupe": r.random() < 0.75,
                "cd": r.choice(["content", "content", "content", "data", "c\u00f6nt", "stuff"]),
                "fixity": r.choice([None, None, None, ["md5"], ["sha1", "sha256"], ["blake2b-512"]]),
                "id": r.choice(IDS)}

    def edits(self, have, src, n):
        """Random edit script over logical paths have (model may refuse some)."""
        r = self.rng
        out = []
        known = list(have)
        for _ in range(n):
            x = r.random()
            if x < 0.45 and src:
                s = out[-1][1] if out and out[-1][0] == "add" and r.random() < 0.4 else r.choice(sorted(src))
                lp = r.choice(known) if known and r.random() < 0.15 else (s if r.random() < 0.4 else self.name())
                out.append(["add", s, lp])
                known.append(lp)
            elif x < 0.7 and known:
                out.append(["del", r.choice(known)])
            elif known:
                a = r.choice(known)
                b = r.choice(known) if r.random() < 0.2 else self.name()
                out.append(["ren", a, b])
                known.append(b)
        return out

    def update(self, prev, allow_edit=True, alg_change=True):
        r = self.rng
        st = {"op": "update", "meta": self.meta()}
        if allow_edit and r.random() < 0.3:
            st["op"] = "edit"
            st["src"] = self.tree(0, 4)
            st["carry"] = r.random() < 0.75
            st["edits"] = self.edits(prev if st["carry"] else {}, st["src"], r.randint(0, 6))
        else:
            st["files"] = self.tree(0, 5, base=prev)
        st["alg"] = r.choice(["sha512", "sha256"]) if alg_change and r.random() < 0.25 else None
        if r.random() < 0.15:
            c = self.cfg()
            st["over"] = {k: c[k] for k in ("fd", "dedupe", "norm") if r.random() < 0.6}
        if st["op"] == "edit" and r.random() < 0.2:
            st["setters"] = r.choice([1, 2])
        return st

    def vary(self, s):
        """Settings that change from step to step, one Object for all, short transfers, updates without source."""
        r = self.rng
        s["reuse"] = r.random() < 0.25
        s["short"] = r.choice([None, None, None, 0.5, 0.03])
        if r.random() < 0.15:
            s["odd"] = r.choice(ODD)
        for st in s["steps"]:
            if "meta" in st and "name" not in st["meta"] and r.random() < 0.05:
                st["meta"]["address"] = "mailto:nobody@example.org"     # not enough: a user has a name
            if st["op"] in ("update", "edit") and r.random() < 0.3:
                c = self.cfg()
                st["over"] = {k: c[k] for k in ("fd", "dedupe", "norm") if r.random() < 0.6}
                if r.random() < 0.2:
                    st["over"]["cd"] = c["cd"]
            if st["op"] == "edit" and r.random() < 0.3:
                st["setters"] = r.choice([1, 2])
            if st["op"] == "update":
                st["nosrc"] = r.random() < 0.06
                if r.random() < 0.15:
                    st["fixity"] = r.choice([["md5"], ["sha1", "sha256"], []])
        return s

    def longer(self, s, n):
        """Append n small updates."""
        from . import model
        r = self.rng
        m = model.Model.of(s)
        cur = {p: c for p, c in m.head_state().items()}
        for _ in range(n):
            cur = dict(r.sample(sorted(cur.items()), min(len(cur), 3)))
            add(cur, self.name(), self.cid())
            s["steps"].append({"op": "update", "meta": self.meta(), "files": cur, "alg": r.choice([None] * 9 + ["sha512", "sha256"])})
        return s

    def history(self, nmax=4, cfg=None, foreign=0.25, allow_edit=True, alg_change=True, build=0.2, lo=0, hi=5):
        from . import model
        r = self.rng
        cfg = cfg or self.cfg()
        h = {"cfg": cfg, "steps": []}
        x = r.random()
        if x < foreign:
            h["steps"].append({"op": "foreign", "plan": self.plan(cfg)})
        elif x < foreign + build:
            base, vers = None, []
            for _ in range(r.randint(1, 3)):
                base = self.tree(lo, hi, base=base)
                vers.append({"files": base, "meta": self.meta()})
            h["steps"].append({"op": "build", "versions": vers})
        else:
            h["steps"].append({"op": "create", "files": self.tree(lo, hi), "meta": self.meta()})
        for _ in range(r.randint(0, nmax - 1)):
            prev = model.Model.of(h).head_state()
            h["steps"].append(self.update(prev, allow_edit, alg_change))
        return h

    def plan(self, cfg=None, nmax=4, pad=True):
        """Plan of a conforming object as other software might write it."""
        r = self.rng
        n = r.randint(1, nmax)
        p = {"id": cfg["id"] if cfg else r.choice(IDS), "versions": [],
             "pad": r.choice([0, 0, 0, 2, 3, 5]) if pad else 0,
             "cd": r.choice([None, None, "content", "data"]), "set_cd": False,
             "indent": r.choice([None, 2, 4]), "sep": r.choice([" ", "  ", "\t"]),
             "logs": r.random() < 0.15, "ext": r.choice([[], [], [], ["0001-digest-algorithms"], ["x-unknown"]]),
             "opaque": r.random() < 0.4, "vext": r.random() < 0.08}
        p["set_cd"] = p["cd"] is not None
        base = None
        alg = r.choice(["sha512", "sha512", "sha256"])
        spec = r.choice(["1.0", "1.1"])
        churn = r.choice([0.15, 0.15, 0.6])
        up = r.random() < 0.2
        noinv = r.random() < 0.2 and not (cfg and cfg.get("backend") == "store")
        for _ in range(n):
            base = self.tree(0, 4, base=base)
            m = self.meta()
            if r.random() < churn:
                alg = "sha512" if alg == "sha256" else "sha256"
            if r.random() < 0.2:
                spec = "1.1"
            v = {"files": base, "alg": alg, "spec": spec, "upper": up, "inv": not (noinv and r.random() < 0.6),
                 "dup": r.random() < 0.2, "message": m.get("message"),
                 "user": None, "fixity": r.choice([None, None, None, ["md5"], ["sha1", "md5"], ["sha512"]])}
            if m.get("created"):
                v["created"] = m["created"]
            if "name" in m:
                v["user"] = {"name": m["name"]}
                if "address" in m:
                    v["user"]["address"] = m["address"]
            p["versions"].append(v)
        return p


def add(tree, path, cid):
    """Add path unless it clashes with a file or directory of the tree."""
    if path in tree:
        return
    for q in tree:
        if q.startswith(path + "/") or path.startswith(q + "/"):
            return
    tree[path] = cid


def pads_room(plan):
    """How many more versions the padding of plan allows (None: unlimited)."""
    if not plan.get("pad"):
        return None
    return 10 ** (plan["pad"] - 1) - 1 - len(plan["versions"])
