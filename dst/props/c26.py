"""C26 validation always ends in a verdict, whatever is on storage."""
import json
import random

import ocfl
from ocfl.fsw import fsw_openfs
from ocfl.validator import Validator

from .. import damage, gen as G, invmut, refocfl, refroot, store
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome
from .c13 import fancy, zippable, zipped

RULE = "a scenario is a storage root with conforming objects; an evaluation ruins it by several seeded steps (random bytes, random or spliced JSON, missing, extra, misplaced, and retyped files and directories, zip file corruption) and validates an object, its inventory or the root through one of the interfaces and backends, sometimes with storage calls failing meanwhile; distinct = (kinds of ruin, interface, verdict)"
N = {"quick": 5500, "thorough": 120000}
KEYS = ["id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity", "v1", "v2", "v01", "v3", "state", "created", "message", "user", "name", "address", "md5", "sha512", "sha256", "", "x", "a/b", "../x",
        "blake2b-160", "sha512/256", "extensionName", "v9999999999999999999999", "v\u0661"]
STRS = ["", "v1", "v2", "sha512", "sha256", "md5", "x", "https://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/9.9/spec/#inventory", "urn:x", "2020-01-01T00:00:00Z", "2020-13-45T99:99:99Z",
        "v1/content/a", "v1/content/../../x", "/abs", "a/b", ".", "..", "\x00", "\ud800", "\U0001f600", "content", "a" * 300, "99999-01-01T00:00:00Z", "2020-01-01T00:00:00+99:99", "%s%d{x}", "\u00fc", "v1/content/" + "d/" * 60 + "f"]
KIND = ["reshape", "reshape", "damage", "damage", "damage", "rule", "rule", "bytes", "json", "splice", "subtree", "todir", "manyversions", "bigjson", "text", "dupkey", "strangename", "deepdir"]


def rjson(rng, depth=0):
    """Random JSON value in the vocabulary of inventories."""
    x = rng.random()
    if depth > 4 or x < 0.35:
        return rng.choice([None, True, False, 0, -1, 1, 1.5, 1e308, 2 ** 70, [], {}] + STRS * 2)
    if x < 0.5:
        return [rjson(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    d = {}
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(KEYS) if rng.random() < 0.85 else rng.choice(STRS)
        if rng.random() < 0.1:
            k = refocfl.dig(rng.choice(["md5", "sha256", "sha512"]), b"x")
        d[k] = rjson(rng, depth + 1)
    return d


def gen_ruin(rng):
    k = rng.choice(KIND)
    d = {"k": k, "seed": rng.randrange(1 << 30)}
    if k == "damage":
        d["d"] = damage.gen(rng, hard=True)
    elif k == "rule":
        d["r"] = invmut.gen(rng, junk=0.6)
    elif k == "reshape":
        d["r"] = dict(invmut.gen(rng), rule="reshape")
    return d


def gen(rng, tier):
    g = G.G(rng, big=0.005)
    s = {"cfg": {}, "objs": [], "order": rng.randrange(1000), "layout": rng.choice([None, None] + sorted(refroot.CANON))}
    for i in range(rng.choice([1, 1, 2, 3])):
        p = fancy(g, rng) if rng.random() < 0.5 else g.plan(None, nmax=2)
        s["objs"].append({"plan": p})
    s["points"] = []
    for _ in range(8 if tier == "quick" else 24):
        p = {"ruin": [gen_ruin(rng) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5]))], "obj": rng.randrange(8),
             "how": rng.choice(["object", "object", "validator", "fs", "subfs", "zip", "store", "root", "root", "storeroot", "inv", "data", "parse"]),
             "opts": {"check_digests": rng.random() < 0.85, "lax": rng.random() < 0.2, "warn": rng.random() < 0.6, "lang": rng.choice(["en", "en", "xx"])},
             "order": rng.randrange(1000), "short": rng.choice([None, None, 0.02]), "rootruin": rng.random() < 0.3}
        if rng.random() < 0.2:
            p["io"] = {"at": rng.random(), "errno": rng.choice(["EIO", "EACCES", "ESTALE"]), "sticky": rng.random() < 0.3}
        if p["how"] == "zip" and rng.random() < 0.5:
            p["zip"] = rng.randrange(1 << 30)
        s["points"].append(p)
    return s


def ruin(snap, d):
    """One step of ruin on an object's (files, dirs)."""
    files, dirs = dict(snap[0]), set(snap[1])
    rng = random.Random(d["seed"])
    k = d["k"]
    names = sorted(files)
    invs = [x for x in names if damage.INV.match(x)]
    if k == "damage":
        try:
            r = damage.apply(snap, d["d"])
        except (TypeError, KeyError, AttributeError, ValueError, IndexError, ZeroDivisionError):
            r = None            # already ruined by an earlier step so that this one doesn't apply
        return r[0] if r else snap
    if k in ("rule", "reshape"):
        invmut.apply(files, d["r"])
        return files, dirs
    if not names:
        return snap

    def place(path, data):
        if not path or path in dirs or any(path.startswith(f + "/") for f in files):
            return
        files[path] = data
    f = rng.choice(names)
    if k == "bytes":
        files[f] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40, 700])))
    elif k == "text":
        files[f] = rng.choice([b"ocfl_object_1.1\n", b"\xef\xbb\xbf{}", b"[" * 60000, b'{"a":' * 30000, b"0" * 5000, b'"\\ud800"', b"-", b"NaN", b"[Infinity]", b"1e999", b"{\"id\": 1, \"id\": 2}", b"\x00" * 100, b" inventory.json\n",
                               b"inventory.json\n", b"a b c\n", b"\xff inventory.json", refocfl.dig("sha512", b"").encode() + b" inventory.json", "\u0661\u0662 inventory.json\n".encode()])
    elif k == "json" and invs:
        f = rng.choice(invs)
        d2 = rjson(rng)
        if isinstance(d2, dict) or rng.random() < 0.3:
            try:
                damage.put_inv(files, f, d2, both=rng.random() < 0.8)
            except (ValueError, TypeError):
                pass
    elif k == "splice" and invs:
        # replace random parts of an inventory by random JSON
        f = rng.choice(invs)
        data = refocfl.load_inv(files[f])
        for _ in range(rng.choice([1, 2, 4])):
            node = data
            for _ in range(rng.randint(0, 5)):
                keys = sorted(node) if isinstance(node, dict) else list(range(len(node))) if isinstance(node, list) else []
                if not keys:
                    break
                q = rng.choice(keys)
                if rng.random() < 0.4 or not isinstance(node[q], (dict, list)):
                    node[q] = rjson(rng, 2)
                    break
                node = node[q]
        if isinstance(data, dict):
            damage.put_inv(files, f, data, both=rng.random() < 0.8)
    elif k == "dupkey" and invs:
        f = rng.choice(invs)
        t = files[f].rstrip()
        if t.endswith(b"}"):
            files[f] = t[:-1] + b"," + json.dumps(rng.choice(KEYS)).encode() + b":" + json.dumps(rjson(rng, 2)).encode() + b"}"
    elif k == "subtree":
        ds = sorted(x for x in dirs if x) + [""]
        a, b = rng.choice(ds), rng.choice(ds + ["extensions", "logs", "extensions/0005-mutable-head", "v1/content/nested", "v9"])
        for x in names:
            if not a or x.startswith(a + "/"):
                y = (b + "/" if b else "") + (x[len(a) + 1:] if a else x)
                place(y, files[x])
        if rng.random() < 0.4 and a:
            for x in list(files):
                if x.startswith(a + "/"):
                    del files[x]
    elif k == "todir":
        data = files.pop(f)
        place(f + rng.choice(["/x", "/inventory.json", "/a/b"]), data)
        if rng.random() < 0.3:
            for x in list(files):
                if x.startswith(f + "/"):
                    del files[x]
            dirs.add(f)
    elif k == "manyversions" and invs:
        f = rng.choice(invs)
        data = refocfl.load_inv(files[f])
        if isinstance(data, dict) and isinstance(data.get("versions"), dict) and data["versions"]:
            one = data["versions"][sorted(data["versions"])[0]]
            fmt = rng.choice(["v%d", "v%03d", "v%05d", "v%07d", "v%012d"])
            lo = rng.choice([0, 1, 1])
            data["versions"] = {fmt % n: one for n in range(lo, lo + rng.choice([3, 12, 120, 1100]))}
            data["head"] = sorted(data["versions"])[-1]
            damage.put_inv(files, f, data)
    elif k == "bigjson" and invs:
        f = rng.choice(invs)
        data = refocfl.load_inv(files[f])
        if isinstance(data, dict):
            n = rng.choice([500, 990, 5000])
            x = rng.choice(["id", "manifest", "versions", "fixity", "head", "extra"])
            open_, close = rng.choice([("[", "]"), ('{"a":', "}")])
            data[x] = "@@"
            files[f] = json.dumps(data).replace('"@@"', open_ * n + "1" + close * n).encode()
            for y in list(files):
                if y.startswith(f + "."):
                    alg = y[len(f) + 1:]
                    if alg in refocfl.ALGS:
                        files[y] = (refocfl.dig(alg, files[f]) + " inventory.json\n").encode()
    elif k == "strangename":
        n = rng.choice(["v1\n", "\n", " ", "v", "v-1", "v1.", "inventory.json.", "inventory.json.sha512.sha512", "inventory.json.x y", "0=", "0=\n", "0=ocfl_object_", "a" * 200, "v00000000000000000000001", "\u202e", "%00", "v\u0662"])
        v = rng.choice(["", "v1/", "extensions/", "logs/"])
        if rng.random() < 0.5:
            place(v + n, b"x")
        else:
            place(v + n + "/f", b"x")
    elif k == "deepdir":
        place(rng.choice(["", "v1/", "v1/content/", "extensions/x/"]) + "d/" * rng.choice([30, 90]) + "f", b"x")
    dirs |= damage.dirs_of(files)
    dirs -= set(files)
    return files, dirs


def run(s):
    R = Res()
    snaps = []
    for o in s["objs"]:
        snap = refocfl.write_object(o["plan"], blob)
        snaps.append((snap[0], snap[1]))
    if any(refocfl.validate(x) for x in snaps):
        R.probe("base-invalid")
        return R
    for p in s["points"]:
        one(s, p, snaps, R)
    return R


def possible(snap):
    """Without names no file system has and files that are directories as well."""
    files, dirs = snap
    above = damage.dirs_of(files)
    files = {f: c for f, c in files.items() if f not in above and max(len(x.encode("utf-8", "surrogatepass")) for x in f.split("/")) < 250}
    return files, (dirs | damage.dirs_of(files)) - set(files)


def one(s, p, snaps, R):
    i = p["obj"] % len(snaps)
    cur = snaps[i]
    how = p["how"]
    for d in sorted(p["ruin"], key=lambda d: d["k"] == "bigjson"):
        cur = possible(ruin(cur, d))
    isroot = how in ("root", "storeroot")
    kinds = sorted({d["k"] if d["k"] != "damage" else "damage-" + d["d"]["kind"] for d in p["ruin"]})
    foc = {"points": [p]}
    with R.sim(1, order=s["order"]) as w:
        w.order_seed = p["order"]
        base = MNT + "/roots/root"
        st = how in ("store", "storeroot")
        files, dirs = {}, set()
        seen = cur
        if isroot:
            lay = s["layout"]
            files["0=ocfl_1.1"] = b"ocfl_1.1\n"
            if lay:
                name = refroot.CANON[lay] or "nnnn-tuple-tree-layout"
                files["ocfl_layout.json"] = json.dumps({"extension": name, "description": "a layout"}).encode()
                if p["order"] % 3 and refroot.DEFAULTS.get(lay):
                    files["extensions/%s/config.json" % name] = json.dumps(dict(refroot.DEFAULTS[lay], extensionName=name)).encode()
            for j, x in enumerate(snaps):
                x = cur if j == i else x
                at = ["o%d", "a/b/o%d", "a/o%d"][s["order"] % 3] % j
                files.update({at + "/" + f: c for f, c in x[0].items()})
                dirs |= {at + "/" + y for y in x[1] if y} | {at}
            if p["rootruin"] and p["order"] % 5 < 3:
                rootfile(files, random.Random(p["order"]))
            elif p["rootruin"]:
                files, dirs = ruin((files, dirs | damage.dirs_of(files)), {"k": random.Random(p["order"]).choice(["bytes", "text", "subtree", "todir", "strangename", "deepdir"]), "seed": p["order"]})
            dirs |= damage.dirs_of(files)
            seen = (files, dirs)
        if st:
            seen = (seen[0], damage.dirs_of(seen[0]))
            if not seen[0]:
                return
            store.kv_restore(w, "bucket/root", seen)
            url = "simstore://bucket/root"
        elif how == "zip":
            if not zippable(cur) or any("\n" in f or "\ud800" in f for f in cur[0]):
                return
            seen = (cur[0], damage.dirs_of(cur[0]))
            data = zipped(cur, random.Random(p["order"]), False)
            if "zip" in p:
                data = spoil(data, random.Random(p["zip"]))
                kinds.append("zip")
            w.disk.h_write(MNT + "/o.zip", data)
            url = "zip://%s/o.zip" % MNT
        else:
            w.disk.h_mkdirs(MNT + "/roots")
            w.disk.restore(base, seen)
            url = base
        fn = ways(how, url, p, seen)
        if p["short"]:
            w.arm([{"nth": 0, "sticky": True, "kinds": ["read"], "act": "short", "part": p["short"]}])
        io = None
        if p.get("io"):
            w.arm(record=True)
            outcome(fn)
            ops = [n for n, (k, _p, _n) in enumerate(w.disarm()) if k in ("listdir", "open_r", "read", "get")]
            if ops:
                n = ops[int(p["io"]["at"] * len(ops)) % len(ops)]
                io = {"nth": n, "act": "err", "errno": p["io"]["errno"]}
                if p["io"]["sticky"]:
                    io.update(sticky=True, kinds=["listdir", "open_r", "read", "get"])
                w.arm([io])
        before = seen
        r = outcome(fn)
        fired = list(w.fired) if io else []
        w.disarm()
        R.nontrivial = True
        R.state(kinds, how, str(r[:2])[:60], bool(fired))
        for k in kinds:
            R.fired["ruin-" + k] = R.fired.get("ruin-" + k, 0) + 1
        ctx = "%s of %s via %s%s" % ("root" if isroot else "object", kinds, how, " with %s" % fired[:1] if fired else "")
        R.probe(how + ("-io" if fired else "") + "-" + (str(r[1])[:12] if r[0] == "ok" else r[0]))
        if r[0] != "ok":
            if fired and r[0] == "err" and r[1] in ("OSError", "PermissionError", "StorageRootException", "FswException"):
                return      # the storage failed and that is what is reported
            if fired and how == "zip" and r[0] == "err" and r[1] == "BadZipFile":
                return
            if "zip" in p and how == "zip" and r[0] == "err" and "not a zip file" not in r[2]:
                return      # a member of the archive cannot be read
            if how == "parse" and r[1] == "ObjectException":
                return
            R.V("no-verdict", "%s: %s" % (ctx, r), foc)
            return
        if how in ("data", "inv", "parse"):
            return
        if r[1] not in (True, False):
            R.V("no-verdict", "%s: %r" % (ctx, r[1]), foc)
        elif r[1] and p["opts"]["check_digests"] and not p["opts"]["lax"] and "zip" not in p:
            if isroot:
                prob, objs, soft = refroot.validate_root(before, True)
                bad = list(prob) + [x for v in objs.values() for x in v]
                if soft:
                    bad = []
            else:
                bad = unsound(before)
            if bad:
                R.V("unsound-accepted", "%s: %s" % (ctx, bad[:3]), foc)


def rootfile(files, rng):
    """Ruin a file of the root itself."""
    f = rng.choice(sorted(f for f in files if f == "ocfl_layout.json" or f.startswith(("extensions/", "0=ocfl_1"))))
    old = files[f]
    n = rng.choice([500, 990, 5000])
    data = refocfl.load_inv(old)
    x = rng.random()
    if x < 0.25:
        files[f] = rng.choice([b"", b"\xff\xfe", b"\x00" * 40, bytes(rng.randrange(256) for _ in range(30)), old[:len(old) // 2], old + old, old + b"\xe9", b"\xef\xbb\xbf" + old, old.decode().encode("utf-16"), b"NaN", b"1e999", b"-", b'"' + b"9" * 5000 + b'"', b"9" * 5000])
    elif x < 0.5 or not isinstance(data, dict):
        files[f] = rng.choice([b"[" * n, b"[" * n + b"]" * n, b'{"a":' * n + b"1" + b"}" * n, json.dumps(rjson(rng)).encode(), b"[]", b'"x"', b"null", b"1", b"{}"])
    else:
        k = rng.choice(sorted(data))
        data[k] = rng.choice([rjson(rng), rjson(rng), None, [], {}, -1, 0, 3.5, 33, 1e308, True, "", "x", "\ud800", "../x", "0003", ["0003"], "sha512/256", "blake2b-512", [data[k]], {"a": data[k]}, str(data[k]) + " "])
        if rng.random() < 0.2:
            del data[k]
        files[f] = json.dumps(data).encode()


def unsound(snap):
    """Problems of an object that somebody has to find."""
    bad = refocfl.validate(snap)
    if bad and all(b.startswith(("E060", "E061")) for b in bad):
        # white space at the end of a sidecar is not looked at and harms nothing
        bad = refocfl.validate(({f: c.rstrip(b"\n\r\t\v\f\x1c\x1d\x1e\x1f ") + b"\n" if "inventory.json." in f else c for f, c in snap[0].items()}, snap[1]))
    return bad


def ways(how, url, p, snap):
    o = p["opts"]
    kw = {"log_warnings": o["warn"], "check_digests": o["check_digests"], "lax_digests": o["lax"], "lang": o["lang"]}
    if how in ("object", "zip", "store"):
        return lambda: ocfl.Object(lax_digests=o["lax"]).validate(url, log_warnings=o["warn"], check_digests=o["check_digests"])[0]
    if how == "validator":
        return lambda: (lambda v: (v.validate_object(url), str(v))[0])(Validator(**kw))
    if how == "fs":
        return lambda: Validator(**kw).validate_object(fsw_openfs(url))
    if how == "subfs":
        return lambda: ocfl.Object(obj_fs=fsw_openfs(url), lax_digests=o["lax"]).validate(log_warnings=o["warn"], check_digests=o["check_digests"])[0]
    if how in ("root", "storeroot"):
        return lambda: ocfl.StorageRoot(root=url, lax_digests=o["lax"]).validate(check_digests=o["check_digests"], log_warnings=o["warn"], lang=o["lang"])
    if how == "inv":
        return lambda: ocfl.Object(lax_digests=o["lax"]).validate_inventory(url + "/inventory.json", force_spec_version=[None, None, "1.0", "1.1"][p["order"] % 4])[0]
    if how == "parse":
        return lambda: bool(ocfl.Object(path=url, lax_digests=o["lax"]).parse_inventory())
    data = refocfl.load_inv(snap[0].get("inventory.json", b""))
    return lambda: ocfl.InventoryValidator(lax_digests=o["lax"]).validate(data)


def spoil(data, rng):
    """Damage the bytes of a zip file."""
    b = bytearray(data)
    k = rng.randrange(5)
    if k == 0:
        return bytes(b[:rng.randrange(len(b))])
    if k == 1:
        return b""
    if k == 2:
        return bytes(b[rng.randrange(len(b)):])
    for _ in range(rng.choice([1, 1, 3, 20])):
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)
