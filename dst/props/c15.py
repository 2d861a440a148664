"""C15 storage root validation tells the truth about the root and its objects."""
import json

import ocfl
from ocfl.fsw import fsw_openfs

from .. import damage, gen as G, invmut, refocfl, refroot, store
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome
from .c13 import fancy

RULE = "a scenario is a storage root with several objects, valid or damaged, and seeded damage to its declaration, layout files and hierarchy; an evaluation validates it (fresh or reused StorageRoot, objects and digests checked or not, local directory, object store or open filesystem) under a random listing order and read sizes; distinct = (layout, damage, object verdicts, options)"
N = {"quick": 12000, "thorough": 50000}
KINDS = ["decl_content", "decl_remove", "decl_second", "decl_rename", "decl_many", "decl_dir", "layout_garbage", "layout_type", "layout_unknown", "layout_remove", "layout_dir", "config_garbage", "config_name", "config_param", "config_type",
         "ext_file", "ext_dir", "mid_file", "mid_hidden", "mid_emptydir", "root_file", "root_dirfile", "empty_dir", "deep_empty", "obj_decl_second", "obj_decl_junk", "obj_decl_spec", "obj_decl_remove", "obj_decl_only", "obj_nested", "obj_later", "ext_empty",
         "decl_crlf", "decl_bytes", "obj_dir_in_ext"]


def gen(rng, tier):
    g = G.G(rng, big=0.01)
    lay = rng.choice([None] + sorted(refroot.CANON))
    s = {"cfg": {}, "layout": lay, "spec": rng.choice(["1.0", "1.1", "1.1"]), "config": rng.random() < 0.6, "objs": [], "order": rng.randrange(1000), "odd": "/" + rng.choice(G.ODD) if rng.random() < 0.15 else ""}
    for i in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
        p = fancy(g, rng) if rng.random() < 0.2 else g.plan(None, nmax=2)
        p["id"] = "urn:uuid:6ba7b81%d-9dad-11d1-80b4-00c04fd430c8" % i if lay == "uq" else rng.choice(["http://example.org/%d", "id%d", "x y%d", "a:%d", "ext%d", "extensions%d", "%d=ocfl", "v%d", "logs%d", "content%d", "%d"]) % i
        if lay == "0002":
            p["id"] = p["id"].replace("/", "-")
        if s["spec"] == "1.0" and rng.random() < 0.9:
            for v in p["versions"]:
                v["spec"] = "1.0"
        if rng.random() < 0.1:
            for v in p["versions"]:
                v["alg"] = rng.choice(["md5", "sha1", "sha512", "blake2b-512", "blake2b-256"])
        o = {"plan": p, "at": rng.choice(["obj%d", "a/b/obj%d", "a/obj%d", "deep/er/st/obj%d", ".hid%d", "extensions%d", "ext/%d", "a/extensions/%d", "v%d", "logs/%d", "content/v1/%d", "extensions.d/x%d"]) % i}
        x = rng.random()
        if x < 0.15:
            o["damage"] = [damage.gen(rng)]
        elif x < 0.25:
            o["rule"] = invmut.gen(rng)
        s["objs"].append(o)
    s["damage"] = []
    while rng.random() < 0.45:
        s["damage"].append({"kind": rng.choice(KINDS), "a": rng.randrange(1 << 20), "b": rng.randrange(1 << 20)})
    s["points"] = []
    for _ in range(4 if tier == "quick" else 12):
        s["points"].append({"how": rng.choice(["local", "local", "store", "fs", "storefs", "slash"]), "sess": rng.choice([None, 0]), "objects": rng.random() < 0.8, "digests": rng.random() < 0.85,
                            "warn": rng.random() < 0.4, "errors": rng.random() < 0.8, "max": rng.choice([100, 100, 1, 0]), "spec": rng.choice([None, None, None, "1.0", "1.1"]),
                            "order": rng.randrange(1000), "short": rng.choice([None, None, 0.02, 0.5]), "list": rng.random() < 0.15, "lax": rng.random() < 0.25, "mended": rng.random() < 0.25})
    return s


def build(s):
    """Snapshot of the root."""
    files = {"0=ocfl_" + s["spec"]: ("ocfl_%s\n" % s["spec"]).encode()}
    dirs = set()
    lay = s["layout"]
    par = dict(refroot.DEFAULTS.get(lay, {})) if lay else {}
    if lay:
        name = refroot.CANON[lay] or "nnnn-tuple-tree-layout"
        files["ocfl_layout.json"] = json.dumps({"extension": name, "description": "a layout"}).encode()
        if s["config"] and par:
            files["extensions/%s/config.json" % name] = json.dumps(dict(par, extensionName=name)).encode()
    paths = []
    for o in s["objs"]:
        snap = refocfl.write_object(o["plan"], blob)
        if refocfl.validate((snap[0], damage.dirs_of(snap[0])), lax=True):
            continue            # would not conform on an object store
        bad = None
        if o.get("damage"):
            bad, _ = damage.several(snap, o["damage"])
            if damage.harmless(snap, bad):
                bad = None
        if o.get("rule"):
            f = dict(snap[0])
            invmut.apply(f, o["rule"])
            bad = f, snap[1]
        snap = bad or snap
        at = refroot.layout_path(name, par, o["plan"]["id"]) if lay else o["at"]
        if any(at == q or at.startswith(q + "/") or q.startswith(at + "/") for q in paths):
            continue
        paths.append(at)
        for k, v in snap[0].items():
            files[at + "/" + k] = v
        dirs |= {at + "/" + d for d in snap[1] if d} | {at}
    dirs = damage.dirs_of(files, dirs)
    for d in list(dirs):
        while "/" in d:
            d = d.rsplit("/", 1)[0]
            dirs.add(d)
    for d in s["damage"]:
        hurt(files, dirs, d, s, paths)
    return files, dirs


def hurt(files, dirs, d, s, paths):
    k, a, b = d["kind"], d["a"], d["b"]
    decl = "0=ocfl_" + s["spec"]
    mids = sorted({"/".join(p.split("/")[:i]) for p in paths for i in range(1, len(p.split("/")))})
    confs = sorted(f for f in files if f.startswith("extensions/") and f.endswith("config.json"))
    obj = paths[a % len(paths)] if paths else None
    odecl = [f for f in files if obj and f.startswith(obj + "/0=") and "/" not in f[len(obj) + 1:]]

    def put(path, data):
        if path in dirs or any(path.startswith(f + "/") for f in files):
            return
        files[path] = data
        q = path
        while "/" in q:
            q = q.rsplit("/", 1)[0]
            dirs.add(q)

    def mk(path):
        if path in files or any(path.startswith(f + "/") for f in files):
            return
        dirs.add(path)
        while "/" in path:
            path = path.rsplit("/", 1)[0]
            dirs.add(path)
    if k == "decl_content" and decl in files:
        files[decl] = [b"", b"ocfl_1.2\n", b"ocfl_%s" % s["spec"].encode(), b"ocfl_object_1.0\n", b"ocfl_1.0 \n", files[decl] + b"\n", files[decl] + b"x", b" " + files[decl]][b % 8]
    elif k == "decl_crlf" and decl in files:
        files[decl] = files[decl][:-1] + b"\r\n"
    elif k == "decl_bytes" and decl in files:
        files[decl] = b"\xff\xfe\x00"
    elif k == "decl_remove":
        files.pop(decl, None)
    elif k == "decl_second":
        put(["0=ocfl_1.0", "0=ocfl_1.1", "0=other", "0=ocfl_2.0", "0="][b % 5], [b"ocfl_1.0\n", b"ocfl_1.1\n", b"x"][b % 3])
    elif k == "decl_rename" and decl in files:
        put(["0=ocfl_1.2", "0=ocfl_1.10", "0=ocfl_object_1.0", "0=ocfl_1.1.txt", "1=ocfl_1.1", "0=OCFL_1.0", "0=ocfl_1.0 ", decl + "\n"][b % 8], files.pop(decl))
    elif k == "decl_many":
        for i in range(12):
            put("0=extra%d" % i, b"x")
    elif k == "decl_dir" and decl in files:
        del files[decl]
        dirs.add(decl)
        put(decl + "/x", b"x")
    elif k == "layout_garbage":
        put("ocfl_layout.json", [b"", b"{", b"\xff\xfe", b"[]", b"null", b"3", b'"x"', b"{}", b"[" * 3000][b % 9])
    elif k == "layout_type":
        put("ocfl_layout.json", json.dumps([{"extension": 1, "description": "d"}, {"extension": "0002-flat-direct-storage-layout"}, {"description": "d"}, {"extension": "0002-flat-direct-storage-layout", "description": None},
                                            {"extension": ["0002"], "description": "d"}][b % 5]).encode())
    elif k == "layout_unknown":
        put("ocfl_layout.json", json.dumps({"extension": ["9999-none", "", "0004-hashed-n-tuple-storage-layout", "../x"][b % 4], "description": "d"}).encode())
    elif k == "layout_remove":
        files.pop("ocfl_layout.json", None)
    elif k == "layout_dir":
        files.pop("ocfl_layout.json", None)
        dirs.add("ocfl_layout.json")
        put("ocfl_layout.json/x", b"x")
    elif k == "config_garbage" and confs:
        files[confs[0]] = [b"", b"{", b"\xff", b"[]", b"null", b"3", b"{}", b"[" * 3000][b % 8]
    elif k == "config_name" and confs:
        c = json.loads(files[confs[0]]) if files[confs[0]][:1] == b"{" and len(files[confs[0]]) > 2 else {}
        c["extensionName"] = ["other", "", None, 3, ["x"]][b % 5]
        files[confs[0]] = json.dumps(c).encode()
    elif k in ("config_param", "config_type") and confs:
        try:
            c = json.loads(files[confs[0]])
            x = sorted(set(c) - {"extensionName"})
            if x:
                if k == "config_type":
                    c[x[a % len(x)]] = [None, "", [], {}, -1, 1000, 2.5, ["sha256"], {"a": 1}][b % 9]
                else:
                    c.pop(x[a % len(x)])
                files[confs[0]] = json.dumps(c).encode()
        except (ValueError, TypeError):
            pass
    elif k == "ext_file":
        put(["extensions/readme.txt", "extensions/.x", "extensions/0002-flat-direct-storage-layout"][b % 3], b"x")
    elif k == "ext_dir":
        put(["extensions/unknown/x.json", "extensions/0003-hash-and-id-n-tuple-storage-layout/other", "extensions/a/b/c/d"][b % 3], b"{}")
    elif k == "ext_empty":
        mk("extensions/empty")
    elif k == "obj_dir_in_ext":
        put("extensions/unknown/obj/0=ocfl_object_1.0", b"garbage")
    elif k == "mid_file" and mids:
        put(mids[a % len(mids)] + "/" + ["notes.txt", "inventory.json", "0=ocfl_1.0", "x"][b % 4], b"x")
    elif k == "mid_hidden" and mids:
        put(mids[a % len(mids)] + "/.DS_Store", b"x")
    elif k == "mid_emptydir" and mids:
        mk(mids[a % len(mids)] + "/emptydir")
    elif k == "root_file":
        put(["README", "ocfl_1.1.txt", ".hidden", "inventory.json", "1=x"][b % 5], b"x")
    elif k == "root_dirfile":
        put(["stray/file.txt", "stray/a/b/file.txt", "logs/x.log", "..x/f"][b % 4], b"x")
    elif k == "empty_dir":
        mk(["empty", ".empty", "a"][b % 3])
    elif k == "deep_empty":
        mk("e1/e2/e3")
    elif k == "obj_decl_second" and obj:
        put(obj + "/" + ["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=x", "0=ocfl_object_9.9"][b % 4], b"ocfl_object_1.0\n")
    elif k == "obj_decl_junk" and odecl:
        put(obj + "/" + ["0=ocfl_object_1.1x", "0=ocfl_object_1.0.txt", "0=ocfl_object_1.1 ", "0=ocfl_object_", "0=ocfl_object_\u0661.0", "0=ocfl_object_1.11", "0=OCFL_object_1.0", odecl[0].rpartition("/")[2] + "\n"][b % 8], files.pop(odecl[0]))
    elif k == "obj_decl_spec" and odecl:
        files.pop(odecl[0])
        put(obj + "/0=ocfl_object_2.0", b"ocfl_object_2.0\n")
    elif k == "obj_decl_remove" and odecl:
        files.pop(odecl[0])
    elif k == "obj_decl_only":
        put("lonely/0=ocfl_object_1.0", b"ocfl_object_1.0\n")
    elif k == "obj_nested" and obj:
        put(obj + "/" + ["nested", "v1/nested", "extensions/nested", "logs"][b % 4] + "/0=ocfl_object_1.0", b"ocfl_object_1.0\n")
    elif k == "obj_later" and obj:
        pass


def run(s):
    R = Res()
    states = [build(s), None]
    if not any(d["kind"].startswith("decl_") for d in s["damage"]):
        # the same root without its damage: between two validations somebody repairs it, or spoils it again
        states[1] = build(dict(s, damage=[], objs=[{k: v for k, v in o.items() if k not in ("damage", "rule")} for o in s["objs"]]))
    now = 0
    snap = states[now]
    stsnap = (snap[0], damage.dirs_of(snap[0]))
    with R.sim(1, order=s["order"]) as w:
        url = MNT + "/roots/root" + s["odd"]
        w.disk.h_mkdirs(url.rsplit("/", 1)[0])
        w.disk.restore(url, snap)
        store.kv_restore(w, "bucket/root" + s["odd"], snap)
        cache = {}
        sessions = {}
        R.runs -= 1
        for n, p in enumerate(s["points"]):
            st = p["how"].startswith("store")
            if states[1] and bool(p.get("mended")) != bool(now):
                now = int(not now)
                snap = states[now]
                stsnap = (snap[0], damage.dirs_of(snap[0]))
                w.disk.restore(url, snap)
                store.kv_restore(w, "bucket/root" + s["odd"], snap)
            seen = stsnap if st else snap
            if st and not snap[0]:
                continue    # nothing at all at that place of the object store
            key = (st, p["objects"], p["lax"], now)
            if key not in cache:
                cache[key] = refroot.validate_root(seen, p["objects"], p["lax"])
            prob, objs, soft = cache[key]
            how = p["how"]
            where = {"local": url, "slash": url + "/", "store": "simstore://bucket/root" + s["odd"]}.get(how)
            if where is None:
                where = fsw_openfs(url if how == "fs" else "simstore://bucket/root" + s["odd"])
            if p["sess"] is None or st:
                sr = ocfl.StorageRoot(root=where, spec_version=p["spec"], lax_digests=p["lax"])
                spec = p["spec"]
            else:
                sr, spec = sessions.setdefault(p["lax"], (ocfl.StorageRoot(root=url, spec_version=p["spec"], lax_digests=p["lax"]), p["spec"]))
            w.order_seed = p["order"]
            if p["short"]:
                w.arm([{"nth": 0, "sticky": True, "kinds": ["read"], "act": "short", "part": p["short"]}])
            if p["list"]:
                outcome(lambda: list(sr.list_objects()))
            r = outcome(lambda: (sr.validate(validate_objects=p["objects"], check_digests=p["digests"], log_warnings=p["warn"], log_errors=p["errors"], max_errors=p["max"]), sr.num_objects, sr.good_objects))
            w.disarm()
            R.runs += 1
            R.nontrivial = True
            keep = {"points": s["points"][:n + 1]}
            bad = sorted(k for k, v in objs.items() if v)
            mism = spec is not None and not any(f == "0=ocfl_" + spec for f in snap[0])
            want = not prob and not bad and not mism
            R.state(s["layout"], [d["kind"] for d in s["damage"]], len(objs), len(bad), how, p["objects"], p["digests"], p["sess"])
            R.probe("sound" if want else ("root" if prob else "object"))
            for d in s["damage"]:
                R.probe("damage-" + d["kind"])
            ctx = "%s root via %s%s, %d objects, damage %s%s" % (s["layout"], how, " reused" if p["sess"] is not None else "", len(objs), [d["kind"] for d in s["damage"]], " mended" if now else "")
            if now:
                R.probe("mended")
            if r[0] != "ok":
                R.V("no-verdict", "%s: %s (problems %s)" % (ctx, r, prob[:2]), keep)
                continue
            v, num, good = r[1]
            if soft:
                continue
            if v is True and not want and (p["digests"] or prob or mism):
                R.V("unsound-accepted", "%s: %s %s" % (ctx, prob[:3], {k: objs[k][:2] for k in bad}), keep)
            elif v is not True and want:
                R.V("sound-rejected", "%s: %s %s" % (ctx, sr.log, sr.errors), keep)
            elif v not in (True, False):
                R.V("no-verdict", "%s: %r" % (ctx, v), keep)
            early = mism or any(x.startswith(("E069", "E07", "E080", "config")) and not x.startswith(("E072", "E073")) for x in prob)
            if p["objects"] and p["digests"] and not early and (num, good) != (len(objs), len(objs) - len(bad)):
                R.V("wrong-count", "%s: %d of %d good, expected %d of %d" % (ctx, good, num, len(objs) - len(bad), len(objs)), keep)
    return R
