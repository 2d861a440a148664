"""C14 a storage root gives back every object added to it, at its layout path."""
import json
import unicodedata
from urllib.parse import quote_plus

import ocfl

from .. import gen as G, lib, refocfl, refroot, store, damage
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome

RULE = "a scenario initializes a root with a seeded layout, parameters, specification version and backend and then adds, lists, looks up and validates in a seeded sequence of sessions (some reopened from storage, some long lived), with hostile identifiers, failing adds and changing listing order and read sizes; distinct = (layout, parameters, backend, operation, outcome)"
N = {"quick": 9000, "thorough": 50000}
UUIDS = ["urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c9", "urn:uuid:6ba7b811-9dad-11d1-80b4-00c04fd430c8",
         "urn:uuid:00000000-0000-0000-0000-000000000000", "urn:uuid:6BA7B810-9dad-11d1-80b4-00c04fd430c8", "x:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:6ba7b8109dad11d180b400c04fd430c8"]
HARD = ["a", "ab", "abc", "abcd", "abab", "ababab", "aba", "A", "a b", "a+b", "a%20b", "a%2Fb", "..", ".", "...", "a.b", "~", "~root", "a:b", "a/b", "/a", "a/", "../x", "a//b", "extensions", "Extensions", "0=ocfl_object_1.1",
        "0=ocfl_1.1", "ocfl_layout.json", "inventory.json", "\u00fcml\u00e4ut", "u\u0308", "\u65e5\u672c\u8a9e", "\U0001F600", "a\nb", "tab\t", " lead", "trail ", "quo\"te", "a'b", "a*b", "a?b", "a#b", "a&b=c", "a|b", "a\\b", "^hat", "<x>", "-", "_", "a,b", "a=b", "\x7f",
        "x" * 99, "x" * 100, "x" * 101, "y/" * 40, "http://example.org/o1", "http://example.org/o2", "info:fedora/obj", "logs", "v1", "content", "0003", "file:a", "100%", "$HOME", "{a}", "[a]"]


def params(rng, lay):
    k = refroot.NAMES[lay]
    if rng.random() < 0.12:
        return rng.choice(["", "{", "{,}", "{}", "3", '{"extensionName": "other"}', '{"tupleSize": "3"}', '{"tupleSize": 0}', '{"tupleSize": 7}', '{"prefix": ""}', '{"prefix": 3}',
                           '{"digestAlgorithm": "sha256", "tupleSize": 0, "numberOfTuples": 3}', '{"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 0}', '{"digestAlgorithm": "md5", "tupleSize": 11, "numberOfTuples": 3}',
                           '{"digestAlgorithm": "none", "tupleSize": 3, "numberOfTuples": 3}', '{"digestAlgorithm": "sha256", "tupleSize": 33, "numberOfTuples": 1}', '{"digestAlgorithm": "sha256", "tupleSize": -1, "numberOfTuples": 1}'])
    if rng.random() < 0.35:
        return None
    if k == "0003":
        d = rng.choice(refroot.LDIG)
        t, n = rng.choice([(0, 0), (1, 1), (2, 2), (3, 3), (1, 32), (32, 1), (4, 8), (2, 15), (5, 3), (16, 2), (8, 4)])
        p = {"digestAlgorithm": d, "tupleSize": t, "numberOfTuples": n}
    elif k == "tt":
        p = {"tupleSize": rng.randint(2, 6)}
    elif k == "uq":
        p = {"prefix": rng.choice(["urn:uuid:", "x:", "urn:"])}
    else:
        p = {}
    if rng.random() < 0.15 and refroot.CANON[k]:
        p["extensionName"] = refroot.CANON[k]
    if rng.random() < 0.1:
        p["unknown"] = 1
    return json.dumps(p)


def gen(rng, tier):
    g = G.G(rng, big=0.01)
    lay = rng.choice(sorted(refroot.NAMES))
    k = refroot.NAMES[lay]
    s = {"cfg": {}, "layout": lay, "params": params(rng, lay), "spec": rng.choice([None, None, "1.0", "1.1"]), "spec2": rng.choice([None, None, None, "1.0", "1.1"]),
         "backend": rng.choice(["local", "local", "store"]), "steps": [], "order": rng.randrange(1000), "short": rng.choice([None, None, 0.01, 0.4]),
         "odd": "/" + rng.choice(G.ODD) if rng.random() < 0.15 else ""}
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        if k == "uq":
            i = rng.choice(UUIDS) if rng.random() < 0.9 else rng.choice(HARD)
        else:
            i = rng.choice(HARD) if rng.random() < 0.85 else "http://example.org/" + "".join(rng.choice("ab/.:%") for _ in range(rng.randint(1, 60)))
        if s["steps"] and rng.random() < 0.15:  # almost the identifier of an earlier step
            j = rng.choice(s["steps"])["id"]
            i = rng.choice([j + "\n", j + " ", " " + j, j.upper(), j.lower(), j + "/", j + ".", j + "x", j[:-1], unicodedata.normalize("NFD", j), quote_plus(j), "x" + j, j + "%0A", j.replace("-", ""), j])
            if not i or len(quote_plus(i)) > 240:
                i = j
        st = {"op": "add" if x < 0.6 else rng.choice(["list", "path", "path", "validate", "reopen"]), "id": i, "sess": rng.choice([None, 0, 0, 1])}
        if st["op"] in ("add", "list", "validate") and st["sess"] is None and rng.random() < 0.3:
            st["named"] = rng.choice([s["layout"]] + sorted(refroot.NAMES) * 2)
            st["asked"] = rng.random() < 0.3
        if st["op"] == "add":
            p = g.plan(None, nmax=2)
            p["id"] = i
            if rng.random() < 0.3:
                p["extra"] = rng.sample(["extensions/x-unknown/empty", "extensions/0005-mutable-head/head/content/r1/a", "logs/.keep", "extensions/x-unknown/a/b/c/d", "logs/2020/01/log"], rng.choice([1, 2]))
            if rng.random() < 0.1:
                del p["versions"][1:]
                p["versions"][0]["files"] = {}
            st["plan"] = p
            st["from"] = rng.choice(["local", "local", "store", "zip"])
            st["bad"] = rng.choice(["missing", "file", "noinv", "garbage", "empty"]) if rng.random() < 0.12 else None
        s["steps"].append(st)
    return s


def expected_root(s, p, spec):
    k = refroot.NAMES[s["layout"]]
    return spec, k, p


def root_files_wrong(files, s, p, spec):
    """Problems with the root's own files; pops them."""
    out = []
    k = refroot.NAMES[s["layout"]]
    if files.pop("0=ocfl_" + spec, None) != ("ocfl_%s\n" % spec).encode():
        out.append("declaration")
    d = refocfl.load_inv(files.pop("ocfl_layout.json", b""))
    name = d.get("extension") if isinstance(d, dict) else None
    if not isinstance(d, dict) or name not in refroot.NAMES or refroot.NAMES[name] != k or not isinstance(d.get("description"), str):
        out.append("ocfl_layout.json %r" % (d,))
        return out
    c = files.pop("extensions/%s/config.json" % name, None)
    if c is not None:
        c = refocfl.load_inv(c)
        if not isinstance(c, dict) or c.get("extensionName") != name or any(c.get(a) != b for a, b in p.items()):
            out.append("config.json %r" % (c,))
    elif p != refroot.DEFAULTS.get(k, {}):
        out.append("config.json missing")
    return out


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        st_ = s["backend"] == "store"
        odd = s["odd"]
        url = ("simstore://bucket/deep/root" if st_ else MNT + "/roots/root") + odd
        if not st_:
            w.disk.h_mkdirs(url.rsplit("/", 1)[0])

        def snap():
            return store.kv_snapshot(w, "bucket/deep/root" + odd) if st_ else w.disk.snapshot(url)

        def short():
            if s["short"]:
                w.arm([{"nth": 0, "sticky": True, "kinds": ["read", "write"], "act": "short", "part": s["short"]}])
        p = refroot.params_of(s["layout"], s["params"])
        spec = s["spec2"] or s["spec"] or "1.1"
        short()
        sess = ocfl.StorageRoot(root=url, layout_name=s["layout"], spec_version=s["spec"])
        r = outcome(lambda: sess.initialize(spec_version=s["spec2"], layout_params=s["params"]))
        w.disarm()
        R.state("init", s["layout"], s["params"], s["backend"], r[0])
        R.probe("init-" + r[0])
        if p is None:
            if r[0] == "ok":
                R.V("bad-params-accepted", "%s %s" % (s["layout"], s["params"]))
            elif snap()[0]:
                R.V("refused-init-left-files", "%s: %s" % (r[1:], sorted(snap()[0])))
            return R
        if r[0] != "ok":
            R.V("init-failed", "%s %s %s: %s" % (s["layout"], s["params"], s["backend"], r[1:]))
            return R
        R.nontrivial = True
        have = {}           # path -> (id, snapshot)
        sessions = [sess, None]
        for n, st in enumerate(s["steps"]):
            w.order_seed = s["order"] + n
            if st["sess"] is None:
                # the declared layout counts whatever layout is named
                sr = ocfl.StorageRoot(root=url, layout_name=st.get("named"))
                if st.get("asked"):
                    outcome(lambda: sr.object_path(st["id"]))       # according to the named one perhaps
            else:
                if sessions[st["sess"]] is None:
                    sessions[st["sess"]] = ocfl.StorageRoot(root=url)
                sr = sessions[st["sess"]]
            want = refroot.layout_path(s["layout"], p, st["id"])
            keep = {"steps": s["steps"][:n + 1]}
            op = st["op"]
            short()
            if op == "add":
                one_add(R, s, w, st, sr, want, have, spec, snap, n, keep)
            elif op == "path":
                r = outcome(lambda: sr.object_path(st["id"]))
                if r[0] == "ok" and want is not None and r[1] != want or r[0] == "ok" and want is None or r[0] != "ok" and want is not None:
                    R.V("wrong-path", "%s %s: %r -> %s, expected %r" % (s["layout"], p, st["id"], r, want), keep)
                R.state(op, s["layout"], r[0], st["sess"])
            elif op == "list":
                r = outcome(lambda: list(sr.list_objects()))
                exp = sorted((a, b[0]) for a, b in have.items())
                if r[0] != "ok" or sorted(r[1]) != exp:
                    R.V("wrong-list", "%s, expected %s" % (r, exp), keep)
                elif sr.num_objects != len(exp):
                    R.V("wrong-count", "num_objects %s, listed %d" % (sr.num_objects, len(exp)), keep)
                R.state(op, s["layout"], len(exp), st["sess"])
            elif op == "validate":
                r = outcome(lambda: (sr.validate(), sr.num_objects, sr.good_objects))
                if r != ("ok", (True, len(have), len(have))):
                    R.V("root-not-valid", "%s with %d objects: %s %s" % (r, len(have), sr.errors, sr.log), keep)
                R.state(op, s["layout"], len(have), st["sess"])
            else:
                s2 = ocfl.StorageRoot(root=url)
                r = outcome(lambda: (s2.object_path("abc-def"), s2.layout.NAME, s2.layout.config, s2.spec_version) if refroot.NAMES[s["layout"]] != "uq" else (s2.open_root_fs(), s2.check_root_structure(), s2.layout.NAME, s2.layout.config, s2.spec_version)[1:])
                r1 = outcome(lambda: (sess.object_path("abc-def"), sess.layout.NAME, sess.layout.config, sess.spec_version) if refroot.NAMES[s["layout"]] != "uq" else (True, sess.layout.NAME, sess.layout.config, sess.spec_version))
                if r != r1 or r[0] != "ok":
                    R.V("reopen-differs", "reopened %s, created %s" % (r, r1), keep)
                R.state(op, s["layout"], s["params"])
            w.disarm()
            R.probe(op)
            bad = root_wrong(snap(), s, p, spec, have)
            if bad:
                R.V("root-content", "after %s %r: %s" % (op, st["id"], bad[:4]), keep)
                return R
    return R


def root_wrong(sn, s, p, spec, have):
    files = dict(sn[0])
    out = root_files_wrong(files, s, p, spec)
    for path, (_i, osnap) in have.items():
        pre = path + "/"
        got = {k[len(pre):]: files.pop(k) for k in list(files) if k.startswith(pre)}
        d = lib.diff_state(osnap[0], got)
        if d:
            out.append("object at %s: %s" % (path, d))
    if files:
        out.append("extra files %r" % sorted(files)[:4])
    return out


def one_add(R, s, w, st, sr, want, have, spec, snap, n, keep):
    osnap = refocfl.write_object(st["plan"], blob)
    for i, f in enumerate(st["plan"].get("extra", ())):
        osnap[0][f] = b"" if i == 0 else b"x" * 70000
    osnap = (osnap[0], osnap[1] | damage.dirs_of(osnap[0]))
    bad = st["bad"]
    if bad == "noinv":
        del osnap[0]["inventory.json"]
    elif bad == "garbage":
        osnap[0]["inventory.json"] = b"{garbage"
    elif bad == "empty":
        osnap = ({}, {""})
    fr = st["from"]
    if fr == "store" and bad != "file":
        src = "simstore://bucket/in%s/%d" % (s["odd"], n)
        if bad != "missing":
            store.kv_restore(w, src[len("simstore://"):], osnap)
    elif fr == "zip" and bad is None and "::" not in s["odd"] and all("\\" not in f for f in osnap[0]):
        from .c13 import zipped
        import random
        src = "zip://%s/in%s/%d.zip" % (MNT, s["odd"], n)
        w.disk.h_write(src[len("zip://"):], zipped(osnap, random.Random(n), True))
    else:
        src = "%s/in%s/%d" % (MNT, s["odd"], n)
        w.disk.h_mkdirs("%s/in%s" % (MNT, s["odd"]))
        if bad == "file":
            w.disk.h_write(src, b"a file")
        elif bad != "missing":
            w.disk.restore(src, osnap)
    if not bad and refocfl.validate((osnap[0], damage.dirs_of(osnap[0]))):
        w.disarm()
        return          # conforms only through an empty directory, which add does not copy
    before = snap()
    sdecl = max(v["spec"] for v in st["plan"]["versions"])
    refuse = None
    if bad:
        refuse = "bad object: " + bad
    elif want is None:
        refuse = "no path"
    elif sdecl > spec:
        refuse = "specification version of object later than root"
    elif want.split("/")[0] == "extensions" or want.split("/")[0].startswith("0="):
        refuse = "reserved"
    elif any(want == h or want.startswith(h + "/") or h.startswith(want + "/") for h in list(have)):
        refuse = "taken"
    elif want in before[0] or any(want.startswith(f + "/") for f in before[0]) or want in before[1]:
        refuse = "taken by other files"
    r = outcome(lambda: sr.add(src))
    w.disarm()
    R.probe("add-%s-%s" % ("refuse" if refuse else "legit", r[0]))
    R.state("add", s["layout"], s["backend"], fr, refuse, r[0], st["sess"])
    what = "%s %s adding %r from %s" % (s["layout"], s["params"], st["id"], fr)
    if r[0] == "ok":
        if refuse:
            R.V("add-accepted", "%s although %s: %s" % (what, refuse, r[1]), keep)
            return
        if tuple(r[1]) != (st["id"], want):
            R.V("add-result", "%s returned %r, expected %r" % (what, r[1], (st["id"], want)), keep)
        have[want] = (st["id"], osnap)
    elif r[0] == "err":
        if not refuse:
            R.V("add-failed", "%s: %s" % (what, r[1:]), keep)
        d = lib.diff_snap(before, snap())
        if d and refuse:
            R.V("refused-add-changed-root", "%s (%s): %s" % (what, r[1:], d), keep)
    else:
        R.V("no-outcome", "%s: %s" % (what, r), keep)
