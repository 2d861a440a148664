"""C25 command line exit status and output tell the truth."""
import contextlib
import io
import json
import logging
import os
import random
import re
import sys

import ocfl

from .. import damage, env, faults as F, gen as G, lib, model, refocfl, refroot
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome
from . import c26

RULE = "a scenario is a sequence of command lines of the four tools (object create, build, update, show, validate, extract to directory, file and bag; root create, add, list, validate, path, show; validation of several paths; sidecars; malformed command lines) on simulated storage, with damage to storage between them and a failing storage call within one; each is compared with the library call on a twin of the storage, with the reference model and with reference validation; distinct = (command, options, exit status, damage, fault)"
N = {"quick": 8000, "thorough": 300000}
W = MNT + "/work"
SCRIPTS = {}


# ------------------------------------------------------------------ scenarios
def opts(rng):
    o = {}
    if rng.random() < 0.3:
        o["norm"] = rng.choice(["uri", "md5", "odd"] if rng.random() < 0.2 else ["uri", "md5"])
    if rng.random() < 0.25:
        o["fd"] = False
    if rng.random() < 0.25:
        o["dedupe"] = False
    if rng.random() < 0.3:
        o["digest"] = rng.choice(["sha256", "sha512", "sha256", "md5", "nope"] if rng.random() < 0.3 else ["sha256", "sha512"])
    if rng.random() < 0.25:
        o["spec"] = rng.choice(["1.0", "1.1", "1.0", "2.0"])
    if rng.random() < 0.2:
        o["fixity"] = rng.choice([["md5"], ["sha1", "sha256"]])
    if rng.random() < 0.1:
        o["lax"] = True
        if rng.random() < 0.5:
            o["digest"] = rng.choice(["md5", "sha1"])
    return o


def gen(rng, tier):
    g = G.G(rng, big=0.01)
    s = {"cfg": {}, "rel": rng.random() < 0.4, "order": rng.randrange(1000), "cmds": []}
    base = {}
    ids = {}
    full = rng.random() < 0.15

    def meta():
        m = {k: v for k, v in g.meta().items()}
        if full:
            m.pop("created", None)
        else:
            m.setdefault("created", "2011-01-01T00:00:00Z")
        if rng.random() < 0.04:
            m["created"] = rng.choice(["2020", "today"])
        return m
    n = rng.choice([3, 5, 8, 12])
    if rng.random() < 0.55:
        s["cmds"].append({"c": "rcreate", "layout": rng.choice(["0002", "0003", "nnnn-flat-quoted-storage-layout", "nnnn-flat-quoted-storage-layout", "nnnn-tuple-tree", "flat-direct"]), "params": None, "spec": rng.choice([None, None, "1.0"])})
        n += 1
    for k in rng.choice([[], ["o0"], ["o0"], ["o0", "o1"]]):
        base[k] = g.tree(0, 5)
        s["cmds"].append({"c": "create", "obj": k, "files": base[k], "meta": meta(), "id": "urn:" + k, "o": {}, "bag": None, "nosrc": None, "print": False})
        n += 1
        if rng.random() < 0.6:
            s["cmds"].append({"c": "radd", "obj": k, "layout": None})
            n += 1
    while len(s["cmds"]) < n:
        x = rng.random()
        k = rng.choice(["o0", "o0", "o1"])
        bag = None
        if rng.random() < 0.2:
            bag = {"info": {a: b for a, b in (("External-Identifier", rng.choice(["urn:" + k, "urn:" + k, "urn:o1", "urn:z", "urn:o", "urn:" + k + "1", k])), ("External-Description", "d\u00ebsc"), ("Contact-Name", "N\u00e4me"), ("Contact-Email", "a@b.c"), ("Bagging-Date", "2019-02-03")) if rng.random() < 0.6},
                   "bad": rng.random() < 0.2}
        if x < 0.28 or not base:
            if k not in base or rng.random() < 0.1:
                if rng.random() < 0.7:
                    c = {"c": "create", "obj": k, "files": g.tree(0, 5), "meta": meta(), "id": rng.choice(["urn:" + k] * 8 + [None, "a/b"]), "o": opts(rng), "bag": bag, "nosrc": rng.choice([None] * 15 + ["missing", "none"]), "print": rng.random() < 0.06}
                    base[k] = c["files"]
                else:
                    vs, b = [], None
                    for _ in range(rng.choice([1, 2, 3])):
                        b = g.tree(0, 4, base=b)
                        vs.append({"files": b, "meta": dict(meta(), created=rng.choice(G.CREATED[2:]))})
                    c = {"c": "build", "obj": k, "versions": vs, "md": rng.choice([True, True, False]) if full else True, "id": "urn:" + k, "o": opts(rng), "print": rng.random() < 0.1}
                    if c["md"] and rng.random() < 0.3:
                        # described are some of the versions only
                        c["only"] = sorted(rng.sample(range(1, len(vs) + 1), rng.randrange(len(vs))))
                    base[k] = b
                ids[k] = c["id"]
            else:
                base[k] = g.tree(0, 5, base=base[k])
                c = {"c": "update", "obj": k if rng.random() < 0.95 else "none", "files": base[k], "meta": meta(), "id": rng.choice([None, None, "urn:" + k]), "o": opts(rng), "bag": bag, "nosrc": rng.choice([None] * 20 + ["missing", "none"])}
        elif x < 0.42:
            c = {"c": "extract", "obj": k, "v": rng.choice([None, None, "head", "head", "v1", "v1", "v1", "v2", "v2", "v3", "v01", "x", "v9"]), "to": rng.choice(["dir", "dir", "file", "bag"]), "path": rng.choice(sorted(base[k])) if k in base and base[k] and rng.random() < 0.8 else g.name(), "date": rng.random() < 0.3, "there": rng.choice([None, None, None, "full", "empty", "noparent"])}
        elif x < 0.48:
            c = {"c": rng.choice(["show", "validate"]), "obj": k if rng.random() < 0.9 else "none"}
        elif x < 0.56:
            lay = rng.choice([None] + ["0002", "0003", "nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-tuple-tree", "nnnn-uuid-quadtree", "bogus"])
            c = {"c": "rcreate", "layout": lay, "params": rng.choice([None, None, None, '{"digestAlgorithm":"md5","tupleSize":2,"numberOfTuples":2}', "{", '{"tupleSize":99}']), "spec": rng.choice([None, None, "1.0", "7"])}
        elif x < 0.66:
            c = {"c": "radd", "obj": k if rng.random() < 0.9 else "none", "layout": rng.choice([None, None, None, "0002", "0003"]), "lax": rng.random() < 0.25}
        elif x < 0.76:
            c = {"c": rng.choice(["rlist", "rvalidate", "rvalidate", "rpath", "rshow"]), "id": rng.choice(["urn:o0", "urn:o0", "urn:o0", "urn:o1", "a/b", "none", None]), "objs": rng.random() < 0.7, "dig": rng.random() < 0.7, "max": rng.choice([None, None, "0", "1", "100"]), "q": rng.random() < 0.3, "lax": rng.random() < 0.1, "env": rng.random() < 0.2, "noroot": rng.random() < 0.05}
        elif x < 0.87:
            c = {"c": "va", "paths": [rng.choice(["o0", "o1", "root", "o0/inventory.json", "o0/v1", "nowhere", "root/0=ocfl_1.1", "o0/inventory.json.sha512", "root/urn:o0"] if rng.random() < 0.5 else ["o0", "o1", "root"]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))],
                 "q": rng.choice([None, None, "-q", "-Q"]), "lax": rng.random() < 0.1, "nodig": rng.random() < 0.2}
        elif x < 0.91:
            c = {"c": "sidecar", "paths": [rng.choice(["o0", "o1", "o0/inventory.json", "o0/v1", "nowhere", "o0/v1/content", "o1/0=ocfl_object_1.1"]) for _ in range(rng.choice([0, 1, 1, 2]))], "digest": rng.choice([None, None, "sha256", "sha512", "md5", "nope"])}
        elif x < 0.93:
            c = {"c": "junk", "tool": rng.choice(["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py"]), "argv": rng.choice([["bogus-command"], ["--bogus"], ["create", "--bogus"], ["update"], ["extract", "--objver", "v1"], ["--version"], ["-h"], ["add"], ["purge", "--root", "root", "--id", "urn:o0"], ["validate-object", "--id", "x"], ["show", "--root", "root"]])}
        else:
            c = {"c": "damage", "what": rng.choice([k, k, "root"]), "d": damage.gen(rng, hard=True) if rng.random() < 0.7 else None, "ruin": c26.gen_ruin(rng)}
            if rng.random() < 0.25:
                # only the hierarchy above the objects suffers
                c = {"c": "damage", "what": "root", "hier": rng.choice(["dir", "dir", "file", "decl", "dotdir", "deepfile"]), "a": rng.randrange(1000)}
                s["cmds"].append(c)
                c = {"c": "rvalidate", "id": None, "objs": rng.random() < 0.8, "dig": rng.random() < 0.8, "max": None, "q": False, "lax": False, "env": False, "noroot": False}
            elif c["what"] == "root" and rng.random() < 0.6:
                c["inside"] = damage.gen(rng)
                if rng.random() < 0.5:
                    c["inside"].update(kind=rng.choice(["flip", "swap", "truncate", "append"]), cls="content")
                    s["cmds"].append(c)
                    c = {"c": "rvalidate", "id": None, "objs": rng.random() < 0.8, "dig": rng.random() < 0.5, "max": None, "q": False, "lax": False, "env": False, "noroot": False}
        if rng.random() < 0.06 and c["c"] != "damage":
            c["fault"] = {"nth": int(rng.choice([10, 40, 120]) * rng.random()), "act": "err", "errno": rng.choice(["EIO", "EACCES", "ENOSPC"]), "sticky": rng.random() < 0.2}
        if rng.random() < 0.15 and c["c"] not in ("damage", "junk"):
            c["loud"] = rng.choice(["-v", "--debug", "-q"])
        s["cmds"].append(c)
        if c.get("fault"):
            break
    return s


# ------------------------------------------------------------------ running a tool
def tool(name, argv, environ):
    """Run a command line in this process: (status, stdout, [error messages], stderr)."""
    if name not in SCRIPTS:
        with open(os.path.join(env.REPO, name), encoding="utf-8") as fh:
            SCRIPTS[name] = compile(fh.read(), name, "exec")
    root = logging.getLogger()
    was, level, argv0, env0 = root.handlers[:], root.level, sys.argv, os.environ.get("OCFL_ROOT")
    blevel = logging.getLogger("bagit").level
    root.handlers[:] = []       # the tool sets up logging for itself
    root.setLevel(logging.WARNING)
    out, err = io.StringIO(), io.StringIO()
    sys.argv = [name] + argv
    os.environ.pop("OCFL_ROOT", None)
    os.environ.update(environ)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            r = outcome(lambda: exec(SCRIPTS[name], {"__name__": "__main__", "__file__": name}))
    finally:
        for hd in root.handlers:
            hd.close()
        root.handlers[:] = was
        root.setLevel(level)
        logging.getLogger("bagit").setLevel(blevel)
        sys.argv = argv0
        os.environ.pop("OCFL_ROOT", None)
        if env0 is not None:
            os.environ["OCFL_ROOT"] = env0
    errors = [x for x in err.getvalue().split("\n") if x.startswith(("ERROR:", "CRITICAL:"))]
    if r[0] == "ok":
        st = 0
    elif r[0] == "exit":
        st = 0 if r[1] is None else r[1] if isinstance(r[1], int) else 1
    elif r[0] == "err":
        st = 1
        errors.append("%s: %s" % r[1:3])
    else:
        st = r[0]
    return st, out.getvalue(), errors, err.getvalue()


class Place:
    """The storage the commands work on; identical for tool and library."""

    def __init__(self, w, s):
        self.w, self.s = w, s
        w.disk.h_mkdirs(W)
        w.cwd = W
        self.n = 0

    def p(self, name):
        return name if self.s["rel"] else W + "/" + name

    def snap(self, name=None):
        return self.w.disk.snapshot(W + "/" + name if name else W)

    def write(self, name, files):
        self.w.disk.h_mkdirs(W + "/" + name)
        for f, c in files.items():
            self.w.disk.h_write("%s/%s/%s" % (W, name, f), c)

    def stage(self, c, i):
        """Inputs of command i."""
        k = c["c"]
        if k in ("create", "update"):
            files = {f: blob(x) for f, x in c["files"].items()}
            if c["bag"]:
                files = bag(files, c["bag"])
            if c["nosrc"] is None:
                self.write("src%d" % i, files)
        elif k == "build":
            for j, v in enumerate(c["versions"], 1):
                self.write("src%d/v%d" % (i, j), {f: blob(x) for f, x in v["files"].items()})
            inv = {"id": "x", "head": "v%d" % len(c["versions"]), "versions": {"v%d" % j: block(v["meta"]) for j, v in enumerate(c["versions"], 1) if j in c.get("only", (j,))}}
            self.w.disk.h_write("%s/md%d.json" % (W, i), json.dumps(inv).encode())
        elif k == "extract":
            if c["there"] == "full":
                self.write("out%d" % i, {"there": b"1"})
            elif c["there"] == "empty":
                self.w.disk.h_mkdirs("%s/out%d" % (W, i))

    def dst(self, c, i):
        return self.p(("nowhere/" if c["there"] == "noparent" else "") + "out%d" % i)


def block(m):
    b = {"created": m["created"]}
    if "message" in m:
        b["message"] = m["message"]
    if "name" in m:
        b["user"] = {"name": m["name"]}
        if "address" in m:
            b["user"]["address"] = m["address"]
    return b


def bag(files, b):
    out = {"data/" + f: c for f, c in files.items()}
    def esc(f):
        return f.replace("%", "%25").replace("\n", "%0A").replace("\r", "%0D")
    out["manifest-sha512.txt"] = "".join("%s  data/%s\n" % (refocfl.dig("sha512", c), esc(f)) for f, c in sorted(files.items())).encode()
    out["bagit.txt"] = b"BagIt-Version: 1.0\nTag-File-Character-Encoding: UTF-8\n"
    out["bag-info.txt"] = "".join("%s: %s\n" % x for x in sorted(b["info"].items())).encode()
    if b["bad"]:
        if files:
            f = "data/" + sorted(files)[0]
            out[f] += b"!"
        else:
            out["data/more"] = b"x"
    return out


def mk(c):
    o = c.get("o", {})
    return ocfl.Object(identifier=c.get("id"), spec_version=o.get("spec", "1.1"), digest_algorithm=o.get("digest", "sha512"), content_path_normalization=o.get("norm"), forward_delta=o.get("fd", True),
                       dedupe=o.get("dedupe", True), lax_digests=o.get("lax", False), fixity=o.get("fixity"))


def argv_of(P, c, i):
    """(tool, arguments, environment) of a command."""
    k = c["c"]
    a = [c["loud"]] if c.get("loud") else []
    e = {}
    if k == "junk":
        return c["tool"], [P.p("root") if x == "root" else x for x in c["argv"]], e
    if k in ("create", "build", "update", "extract", "show", "validate"):
        if not c.get("print"):
            a += ["--objdir", P.p(c["obj"])]
        o = c.get("o", {})
        for name, flag in (("norm", "--normalization"), ("digest", "--digest"), ("spec", "--spec-version")):
            if name in o:
                a += [flag, o[name]]
        for name, flag in (("fd", "--no-forward-delta"), ("dedupe", "--no-dedupe")):
            if name in o:
                a.append(flag)
        if o.get("lax"):
            a.append("--lax-digests")
        for f in o.get("fixity", []):
            a += ["--fixity", f]
        if c.get("id") is not None:
            a += ["--id", c["id"]]
        for name in ("created", "message", "name", "address"):
            if name in c.get("meta", {}):
                a.append("--%s=%s" % (name, c["meta"][name]))
        if k in ("create", "update") and c["nosrc"] != "none":
            a += ["--srcbag" if c["bag"] else "--srcdir", P.p("src%d" % i)]
        if k == "build":
            a += ["--srcdir", P.p("src%d" % i)]
            if c["md"]:
                a += ["--metadata", P.p("md%d.json" % i)]
        if k == "extract":
            if c["v"]:
                a += ["--objver", c["v"]]
            a += ["--dstbag" if c["to"] == "bag" else "--dstdir", P.dst(c, i)]
            if c["to"] == "file":
                a.append("--logical-path=" + c["path"])
            if c["date"]:
                a.append("--set-bagging-date")
        return "ocfl-object.py", [k] + a, e
    if k in ("rcreate", "radd", "rlist", "rvalidate", "rpath", "rshow"):
        if c.get("env"):
            e["OCFL_ROOT"] = P.p("root")
        elif not c.get("noroot"):
            a += ["--root", P.p("root")]
        if c.get("layout"):
            a += ["--layout", c["layout"]]
        if c.get("lax"):
            a.append("--lax-digests")
        if c.get("q") and "-q" not in a:
            a.append("-q")
        if k == "rcreate":
            if c["params"]:
                a += ["--layout-params", c["params"]]
            if c["spec"]:
                a += ["--spec-version", c["spec"]]
        elif k == "radd":
            a += ["--src", P.p(c["obj"])]
        elif k == "rvalidate":
            a += ["--validate-objects"] * c["objs"] + ["--check-digests"] * c["dig"]
            if c["max"]:
                a += ["--max_errors", c["max"]]
        elif k in ("rpath", "rshow") and c["id"] is not None:
            a += ["--id", c["id"]]
        return "ocfl-root.py", [k[1:]] + a, e
    if k == "va":
        a += [c["q"]] if c["q"] else []
        a += ["--lax-digests"] * c["lax"] + ["--no-check-digests"] * c["nodig"]
        return "ocfl-validate.py", a + [P.p(x) for x in c["paths"]], e
    if c["digest"]:
        a += ["--digest", c["digest"]]
    return "ocfl-sidecar.py", a + [P.p(x) for x in c["paths"]], e


class Refuse(Exception):
    """The tool is asked for something that it must refuse itself."""


def library(P, c, i):
    """The same request made of the library."""
    k = c["c"]
    url = P.p(c["obj"]) if "obj" in c else None
    if k in ("create", "update"):
        src = P.p("src%d" % i)
        md = lib.mkmeta(c["meta"])
        obj = mk(c)
        if c["nosrc"] == "none":
            raise Refuse("no source")
        if c["bag"]:
            src = ocfl.bag_as_source(src, md)
            if k == "create" and md.id is not None:
                if obj.id is not None and obj.id != md.id:
                    raise Refuse("identifiers differ")
                obj.id = md.id
        if k == "create":
            return obj.create(src, metadata=md, objdir=None if c["print"] else url).as_json()
        inv = obj.add_version_with_content(objdir=url, srcdir=src, metadata=md)
        return "Updated object %s to %s\n" % (inv.id, inv.head)
    if k == "build":
        md = {j: lib.mkmeta(v["meta"]) for j, v in enumerate(c["versions"], 1) if j in c.get("only", (j,))} if c["md"] else {}
        return mk(c).build(P.p("src%d" % i), versions_metadata=md, objdir=None if c["print"] else url).as_json()
    if k == "show":
        return mk(c).tree(objdir=url)
    if k == "validate":
        return mk(c).validate(objdir=url, log_warnings=True, log_errors=True, check_digests=True)[0]
    if k == "extract":
        d = P.dst(c, i)
        v = c["v"] or "head"
        if c["to"] == "file":
            return mk(c).extract_file(url, v, d, c["path"]).version
        m = mk(c).extract(url, v, d)
        if c["to"] == "bag":
            ocfl.bag_extracted_version(d, m, set_bagging_date=c["date"])
        return m.version
    if k[0] == "r":
        if c.get("noroot") and not c.get("env"):
            raise Refuse("no root")
        r = ocfl.StorageRoot(root=P.p("root"), layout_name=c.get("layout"), lax_digests=c.get("lax", False))
        if k == "rcreate":
            return r.initialize(spec_version=c["spec"] or "1.1", layout_params=c["params"])
        if k == "radd":
            return r.add(url)
        if k == "rlist":
            return sorted(r.list_objects())
        if k == "rvalidate":
            return r.validate(validate_objects=c["objs"], check_digests=c["dig"], max_errors=int(c["max"] or 100))
        if c["id"] is None:
            raise Refuse("no id")
        path = r.object_path(c["id"])
        if k == "rpath":
            return path
        return ocfl.Object(identifier=c["id"]).tree(objdir=os.path.join(P.p("root"), path))
    if k == "va":
        good = []
        for x in c["paths"]:
            x = P.p(x)
            t = ocfl.find_path_type(x)
            if t == "object":
                good.append(ocfl.Object(lax_digests=c["lax"]).validate(x, check_digests=not c["nodig"])[0])
            elif t == "root":
                good.append(ocfl.StorageRoot(root=x, lax_digests=c["lax"]).validate(check_digests=not c["nodig"]))
            elif t == "file":
                good.append(ocfl.Object(lax_digests=c["lax"]).validate_inventory(x)[0])
            else:
                good.append(False)
        return good
    raise Refuse(k)


def harm(P, c, loose):
    """Damage storage between commands."""
    if c.get("hier"):
        hier(P, c)
        return
    if loose and (c["what"] == "root" or not c["d"] or c["d"]["kind"] not in ("remove", "extra_root", "extra_version", "extra_content", "extra_dir", "rmdir", "empty_dir", "decl", "empty")):
        return      # times of the clock differ in the twins, and with them what such damage leaves
    cur = P.snap(c["what"])
    if not cur[0]:
        return
    objs = sorted(refroot.validate_root(cur, True)[1]) if c.get("inside") else None
    if objs:
        at = objs[c["inside"]["a"] % len(objs)]
        r = damage.apply(refroot.sub(cur, at), c["inside"])
        if not r:
            return
        P.w.disk.restore(W + "/root/" + at, (r[0][0], r[0][1] | {""}))
        return
    r = damage.apply(cur, c["d"]) if c["d"] and c["what"] != "root" else (c26.ruin(cur, c["ruin"]),)
    if not r or any(f in r[0][1] for f in r[0][0]):
        return
    P.w.disk.restore(W + "/" + c["what"], (r[0][0], r[0][1] | {""}))


def hier(P, c):
    """Something in the hierarchy of the root that doesn't belong there."""
    cur = P.snap("root")
    if not cur[0]:
        return
    objs = sorted(refroot.validate_root(cur, True)[1])
    above = sorted({d for d in cur[1] if not any(d == o or d.startswith(o + "/") for o in objs) and not (d + "/").startswith("extensions/")} | {""})
    at = above[c["a"] % len(above)]
    at = W + "/root" + ("/" + at if at else "")
    h = P.w.disk
    if c["hier"] == "dir":
        h.h_mkdirs(at + "/zz")
    elif c["hier"] == "dotdir":
        h.h_mkdirs(at + "/.zz/yy")
    elif c["hier"] == "file":
        h.h_write(at + "/stray", b"x")
    elif c["hier"] == "deepfile":
        h.h_write(at + "/zz/yy/stray", b"x")
    else:
        h.h_write(W + "/root/0=ocfl_1.0", b"ocfl_1.0\n")


def same(a, b, loose):
    """Difference of two trees, without times of the clock if loose and order of the lines in bag manifests."""
    def lines(sn):
        return {f: b"\n".join(sorted(d.split(b"\n"))) if "manifest-" in f.rsplit("/", 1)[-1] else d for f, d in sn[0].items()}, sn[1]
    a, b = lines(a), lines(b)
    if not loose:
        return lib.diff_snap(a, b)

    def norm(sn):
        out = {}
        for f, d in sn[0].items():
            last = f.rsplit("/", 1)[-1]
            if last.startswith("inventory.json"):
                j = refocfl.load_inv(d) if last == "inventory.json" else None
                if isinstance(j, dict):
                    vs = j.get("versions")
                    for v in vs.values() if isinstance(vs, dict) else ():
                        if isinstance(v, dict):
                            v.pop("created", None)
                    d = json.dumps(j, sort_keys=True).encode()
                else:
                    d = b""
            out[f] = d
        return out, sn[1]
    return lib.diff_snap(norm(a), norm(b))


def run(s):
    R = Res()
    ref = []
    loose = any(not c.get("meta", {"created": 1}).get("created") or (c["c"] == "build" and (not c["md"] or "only" in c)) for c in s["cmds"])
    with R.sim(1, order=s["order"]) as w:
        P = Place(w, s)
        for i, c in enumerate(s["cmds"]):
            if c["c"] == "damage":
                harm(P, c, loose)
                ref.append(None)
                continue
            P.stage(c, i)
            before = P.snap()
            r = ("refuse",) if c["c"] in ("junk", "sidecar") else outcome(lambda: library(P, c, i))
            ref.append((r, P.snap(), lib.diff_snap(before, P.snap())))
            if c["c"] == "sidecar" or c.get("fault"):
                break
    with R.sim(1, order=s["order"]) as w:
        P = Place(w, s)
        M = {}
        hurt = set()
        for i, (c, x) in enumerate(zip(s["cmds"], ref)):
            if x is None:
                harm(P, c, loose)
                hurt |= {c["what"]} | {"root"}
                continue
            P.stage(c, i)
            if not judge(s, P, c, i, x, M, hurt, R, loose):
                break
    R.nontrivial = True
    return R


def judge(s, P, c, i, x, M, hurt, R, loose):
    """Run command i and hold its claims against storage; False: stop here."""
    r, tree, _d = x
    w = P.w
    k = c["c"]
    before = P.snap()
    name, argv, e = argv_of(P, c, i)
    w.arm([dict(c["fault"])] if c.get("fault") else [])
    st, out, errs, err = tool(name, argv, e)
    fired = list(w.fired)
    w.disarm()
    w.cwd = W
    after = P.snap()
    ctx = "%s %s%s: status %s, output %r, errors %s" % (name, argv, " with %s" % fired if fired else "", st, out[-200:], errs[:2])
    claims = st == 0 and not errs
    R.state(k, sorted(c.get("o", {})), st, bool(errs), bool(fired), r[0], c["c"] == "va" and len(c["paths"]))
    R.probe("%s%s-%s" % (k, "-fault" if fired else "", st))
    V = R.V
    if st in ("hang", "crash"):
        V("no-end", ctx)
        return False
    if k == "junk":
        if st == 0 and not errs and c["argv"] not in (["--version"], ["-h"]) and not (c["argv"] == ["bogus-command"] and False):
            V("nonsense-accepted", ctx)
        if lib.diff_snap(before, after):
            V("nonsense-changed-storage", ctx + lib.diff_snap(before, after))
        return True
    if k == "sidecar":
        return sidecars(P, c, st, out, errs, claims, before, after, ctx, R)
    if k in ("validate", "va", "rvalidate"):
        return verdicts(P, c, st, out, errs, fired, r, before, after, ctx, R)
    good = r[0] == "ok"
    if st == 0 and not claims and k != "rlist" and not good:
        V("zero-status-%s" % k, "%s and the library: %s" % (ctx, r[1:]))
        return False
    if not good and claims and not fired:
        V("claims-success-%s" % k, "%s but the library: %s" % (ctx, r[1:]))
        return False
    if good and not claims and not fired and k == "rlist" and st == 0:
        claims = all("Traversal error" in x for x in errs)      # what cannot be listed is reported, the rest listed
    if good and not claims and not fired:
        V("fails-%s" % k, "%s but the library succeeds" % ctx)
        return False
    if not fired:
        d = same(tree, after, loose)
        if d:
            V("not-like-library-%s" % k, "%s: library and tool leave %s" % (ctx, d))
            return False
    if not claims:
        return not fired
    if fired and not good:
        V("claims-success-%s" % k, "%s but the library without the fault: %s" % (ctx, r[1:]))
        return False
    if fired:
        d = same(tree, after, loose)
        if d:
            V("claims-success-%s" % k, "%s but storage is not what an undisturbed run leaves: %s" % (ctx, d))
            return False
    truth(s, P, c, i, r[1], out, err, before, after, M, hurt, ctx, R, loose)
    return True


def truth(s, P, c, i, value, out, err, before, after, M, hurt, ctx, R, loose):
    """A command claims success: does storage and output bear it out?"""
    k = c["c"]
    V = R.V
    if k in ("create", "build", "update"):
        o = c["obj"]
        if c.get("print"):
            j = outcome(lambda: json.loads(out.split("\n", 1)[1]))
            want = json.loads(value)
            if loose and j[0] == "ok":
                for q in (j[1], want):
                    for v in q["versions"].values():
                        v.pop("created", None)
            if j[0] != "ok" or j[1] != want:
                V("printed-inventory", "%s: %s" % (ctx, j))
            if lib.diff_snap(before, after):
                V("print-changed-storage", ctx)
            return
        if k == "update":
            if o in M:
                M[o].versions.append({"state": dict(c["files"]), "meta": bagmeta(c)})
        else:
            m = model.Model()
            if k == "create":
                m.versions = [{"state": dict(c["files"]), "meta": bagmeta(c)}]
            else:
                m.versions = [{"state": dict(v["files"]), "meta": dict(v["meta"]) if c["md"] and j in c.get("only", (j,)) else {}} for j, v in enumerate(c["versions"], 1)]
            M[o] = m
            hurt.discard(o)
        sn = P.snap(o)
        data = refocfl.load_inv(sn[0].get("inventory.json", b"")) or {}
        if k == "update" and out != "Updated object %s to %s\n" % (data.get("id"), data.get("head")):
            V("update-output", "%s: storage has %s %s" % (ctx, data.get("id"), data.get("head")))
        if c["o"].get("lax"):
            hurt.add(o)         # may now use a digest that is not allowed
        if o in hurt or o not in M:
            return
        want = c.get("id") or (c.get("bag") or {}).get("info", {}).get("External-Identifier")
        bad = F.logical_wrong(sn, M[o]) or refocfl.validate(sn)
        if k != "update" and data.get("id") != want:
            bad = bad or ["identifier %r" % data.get("id")]
        if bad:
            V("stored-wrong-%s" % k, "%s: %s" % (ctx, bad[:3]))
    elif k == "show":
        if out != "Object tree\n%s\n" % value:
            V("show-output", "%s: library %r" % (ctx, value[:300]))
        if not refocfl.validate(P.snap(c["obj"])):
            shown(P.snap(c["obj"]), out, ctx, V)
    elif k == "rshow":
        if "-q" not in argv_of(P, c, i)[1] and value not in err:
            V("show-output", "%s: library %r" % (ctx, value[:300]))
        root = P.snap("root")
        at = [o for o, bad in refroot.validate_root(root, True)[1].items() if not bad and (refocfl.load_inv(root[0][o + "/inventory.json"]) or {}).get("id") == c["id"]]
        if len(at) == 1:
            shown(refroot.sub(root, at[0]), value, ctx, V)
    elif k == "extract":
        o = c["obj"]
        if c["to"] == "file":
            if out != "Extracted %s in %s to %s\n" % (c["path"], value, P.dst(c, i)):
                V("extract-output", ctx)
        elif value not in out or P.dst(c, i) not in out:
            V("extract-output", ctx)
        if o in M and o not in hurt:
            got = P.snap("out%d" % i)[0]
            vs = [v for v, _s, _b in (refocfl.read(P.snap(o)) or [])]
            if value not in vs:
                V("extract-version", "%s: %s" % (ctx, vs))
                return
            if c["v"] in (None, "head") and value != vs[-1] or c["v"] not in (None, "head", value):
                V("extract-version", "%s: %s" % (ctx, vs))
                return
            want = lib.expect_state(M[o].versions[vs.index(value)])
            if c["to"] == "file":
                want = {c["path"].rsplit("/", 1)[-1]: want.get(c["path"])}
                got.pop("there", None) if c["there"] == "full" else None
            elif c["to"] == "bag":
                got = {f[5:]: d for f, d in got.items() if f.startswith("data/")}
            d = lib.diff_state(want, got)
            if d:
                V("extracted-wrong", "%s: %s" % (ctx, d))
    elif k == "rcreate":
        if "0=ocfl_" + (c["spec"] or "1.1") not in P.snap("root")[0]:
            V("root-not-created", ctx)
    elif k == "radd":
        if out != "Added object %s at path %s\n" % tuple(value):
            V("add-output", "%s: library %s" % (ctx, value))
        d = lib.diff_state(P.snap(c["obj"])[0], P.snap("root/" + value[1])[0])
        if d:
            V("added-wrong", "%s: %s" % (ctx, d))
        data = refocfl.load_inv(P.snap(c["obj"])[0].get("inventory.json", b"")) or {}
        if data.get("id") != value[0]:
            V("add-output", "%s: the object is %r" % (ctx, data.get("id")))
    elif k == "rlist":
        want = sorted("%s -- id=%s" % x for x in value) + ["Found %d OCFL Objects under root %s" % (len(value), P.p("root"))]
        if "\n".join(want) != "\n".join(sorted(out.rstrip("\n").rsplit("\n", 1)[0].split("\n") if value else []) + [out.rstrip("\n").rsplit("\n", 1)[-1]]):
            V("list-output", "%s: library %s" % (ctx, value))
        prob, objs, _soft = refroot.validate_root(P.snap("root"), False)
        if not prob and "root" not in hurt and len(objs) != len(value):
            V("list-wrong", "%s: root holds %s" % (ctx, sorted(objs)))
    elif k == "rpath":
        want = os.path.join(P.p("root"), value) if "-q" in argv_of(P, c, i)[1] else "Path to %s inside root %s is %s" % (c["id"], P.p("root"), value)
        if out != want + "\n":
            V("path-output", "%s: library %s" % (ctx, value))


def bagmeta(c):
    m = dict(c["meta"])
    if c["bag"]:
        b = c["bag"]["info"]
        for key, tag, f in (("message", "External-Description", "%s"), ("name", "Contact-Name", "%s"), ("address", "Contact-Email", "mailto:%s"), ("created", "Bagging-Date", "%sT00:00:00Z")):
            if tag in b and not m.get(key):
                m[key] = f % b[tag]
        if "name" not in m:
            m.pop("address", None)
    return m


def shown(sn, text, ctx, V):
    """The tree shown of a conforming object names what is stored and counts the content files."""
    want = []
    cd = refocfl.load_inv(sn[0]["inventory.json"]).get("contentDirectory", "content")
    for e in sorted(set().union(*map(set, refocfl.listing(sn, "")))):
        want.append(e)
        if re.fullmatch(r"v[0-9]+", e):
            for x in sorted(set().union(*map(set, refocfl.listing(sn, e)))):
                n = sum(f.startswith("%s/%s/" % (e, cd)) for f in sn[0])
                want.append("%s (%d files)" % (x, n) if x == cd else x)
    got = [x.lstrip("\u251c\u2500\u2514\u2502 ").replace("<--- ???", "").rstrip() for x in text.split("\n") if x and x[0] in "\u251c\u2514\u2502 "]
    if got != want:
        V("show-output", "%s: storage has %s" % (ctx, want))


def verdicts(P, c, st, out, errs, fired, r, before, after, ctx, R):
    """Validation commands."""
    k = c["c"]
    V = R.V
    d = lib.diff_snap(before, after)
    if d:
        V("validation-changed-storage", "%s: %s" % (ctx, d))
    if fired and st != 0:
        return False
    good = r[0] == "ok" and (all(r[1]) if k == "va" else r[1] is True)
    if (st == 0) != good:
        V("validation-status", "%s; library: %s" % (ctx, r))
        return False
    if st != 0:
        if k != "va" and r[0] == "ok" and "INVALID" not in out:
            V("validation-output", ctx)
        return not fired
    # everything named is valid according to the tool
    if k == "validate":
        bad = c26.unsound(P.snap(c["obj"]))
        if bad:
            V("validation-unsound", "%s: %s" % (ctx, bad[:3]))
        if not out.rstrip("\n").endswith("Object at %s is VALID" % P.p(c["obj"])):
            V("validation-output", ctx)
    elif k == "rvalidate":
        prob, objs, soft = refroot.validate_root(P.snap("root"), True, c["lax"])
        bad = prob
        if c["objs"] and c["dig"] and not c["lax"]:
            bad = list(prob) + [z for o in objs for z in c26.unsound(refroot.sub(P.snap("root"), o))]
        if bad and not soft:
            V("validation-unsound", "%s: %s" % (ctx, bad[:3]))
        if not out.rstrip("\n").endswith("Storage root %s is VALID" % P.p("root")) or c["objs"] and "Objects checked: %d / %d are VALID" % (len(objs), len(objs)) not in out:
            V("validation-output", "%s: %s" % (ctx, sorted(objs)))
    else:
        for q in c["paths"]:
            if q in ("o0", "o1") and not c["nodig"] and not c["lax"]:
                bad = c26.unsound(P.snap(q))
                if bad:
                    V("validation-unsound", "%s: %s" % (ctx, bad[:3]))
            if q in ("o0", "o1") and "Object at %s is VALID" % P.p(q) not in out:
                V("validation-output", ctx)
        if "INVALID" in out:
            V("validation-output", ctx)
    return not fired


def sidecars(P, c, st, out, errs, claims, before, after, ctx, R):
    V = R.V
    new = {f for f in set(after[0]) | set(before[0]) if after[0].get(f) != before[0].get(f)}
    for f in sorted(new):
        m = f.rsplit("/", 1)[-1]
        alg = m[len("inventory.json."):]
        inv = f[:-len(alg) - 1]
        ok = m.startswith("inventory.json.") and f in after[0] and inv in after[0] and alg in refocfl.ALGS and after[0][f].split() == [refocfl.dig(alg, after[0][inv]).encode(), b"inventory.json"]
        if not ok and (st == 0 or not m.startswith("inventory.json.")):
            V("sidecar-wrong", "%s: %s" % (ctx, f))
    said = [x[len("Written sidecar file "):] for x in out.split("\n") if x.startswith("Written sidecar file ")]
    for f in said:
        f = (f if f.startswith("/") else W + "/" + f)[len(W) + 1:]
        alg = f.rsplit(".", 1)[-1]
        inv = f[:-len(alg) - 1]
        if f not in after[0] or inv not in after[0] or alg not in refocfl.ALGS or after[0][f].split() != [refocfl.dig(alg, after[0][inv]).encode(), b"inventory.json"]:
            V("sidecar-wrong", "%s: said %s" % (ctx, f))
        data = refocfl.load_inv(after[0].get(inv, b""))
        if isinstance(data, dict) and not c["digest"] and not refocfl.validate(P.snap(os.path.dirname(inv))) and alg != data["digestAlgorithm"]:
            V("sidecar-algorithm", "%s: %s" % (ctx, f))
        if c["digest"] and alg != c["digest"]:
            V("sidecar-algorithm", "%s: %s" % (ctx, f))
    if claims and len(said) != max(1, len(c["paths"])):
        V("sidecar-missing", ctx)
    return False
