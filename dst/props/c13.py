"""C13 a valid object is always found valid, whatever else happens."""
import io
import random
import zipfile

import ocfl
from ocfl.fsw import fsw_openfs, fsw_opendir_as_fs
from ocfl.validator import Validator

from .. import damage, gen as G, invmut, lib, refocfl, store
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome

RULE = "a scenario is a set of objects (from an independent writer with features the library does not produce, from library histories, and damaged ones); an evaluation validates a seeded sequence of them with shared or fresh validators, options, backends (local, object store, zip), listing orders and read sizes; distinct = (object features, how it was reached, options)"
N = {"quick": 3000, "thorough": 40000}
CREATED = ["2020-01-01T00:00:00Z", "2020-01-01T00:00:00.5Z", "1997-07-16T19:20:30.45+01:00", "2024-02-29T23:59:59.999999-12:00", "0001-01-01T00:00:00Z",
           "9999-12-31T23:59:59+14:00", "2020-06-30T00:00:00-00:30", "2000-02-29T00:00:00.000000000Z"]


def fancy(g, rng, laxdig=False):
    """Plan of a conforming object with unusual features."""
    p = g.plan(None, nmax=rng.choice([2, 3, 4, 11]))
    p["style"] = {"shuffle": rng.choice([None, rng.randrange(1000)]), "ascii": rng.random() < 0.6, "nl": rng.choice([0, 0, 1, 2]),
                  "compact": rng.random() < 0.2, "bare": rng.random() < 0.1}
    p["sep"] = rng.choice([" ", "  ", "\t", " \t ", "    "])
    p["indent"] = rng.choice([None, 0, 1, 2, 4, 8])
    p["reword"] = rng.random() < 0.3
    p["emptycd"] = rng.random() < 0.15
    if rng.random() < 0.06:
        p["pad"] = rng.choice([6, 7, 8, 9, 10])
    if p["pad"] == 2 and rng.random() < 0.5:
        while len(p["versions"]) < 9:
            p["versions"].append(dict(p["versions"][-1], files=dict(p["versions"][-1]["files"])))
    if not p["cd"] and rng.random() < 0.2 or p["cd"] == "content":
        p["cdof"] = rng.choice([None, "first", rng.randrange(1, 1 << 9)])       # which inventories spell it out
    p["ext"] = rng.sample(["0001-digest-algorithms", "x-unknown", "0005-mutable-head", "0002-flat-direct-storage-layout", "v1"], rng.choice([0, 0, 1, 2]))
    lax = rng.sample(sorted(set(refocfl.ALGS) - {"sha512/256"}), 2) if laxdig and rng.random() < 0.1 else None    # fine for a validator that allows them
    for v in p["versions"]:
        v["fixity"] = rng.choice([None, None, [], ["md5"], ["sha1", "md5"], ["sha512", "sha256", "md5", "sha1", "blake2b-512"], ["blake2b-512"], ["blake2b-160", "blake2b-256", "blake2b-384"]])
        v["fixpart"] = rng.random() < 0.3
        v["fixupper"] = rng.random() < 0.2
        v["dup"] = rng.random() < 0.3
        if rng.random() < 0.3:
            v["created"] = rng.choice(CREATED)
        if rng.random() < 0.1:
            v["message"] = ""
        if lax:
            v["alg"] = rng.choice(lax)
        if rng.random() < 0.1:
            v["user"] = rng.choice([{"name": "X", "address": ""}, {"name": ""}, {"name": "", "address": "x"}])
    return p


def gen(rng, tier):
    g = G.G(rng, big=0.03)
    s = {"cfg": {}, "objs": []}
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.65:
            o = {"kind": "plan", "plan": fancy(g, rng, True)}
        elif x < 0.9:
            o = {"kind": "hist", "hist": g.history(nmax=4, foreign=0.3)}
            o["hist"]["cfg"]["backend"] = "local"
        else:
            o = {"kind": "plan", "plan": g.plan(None, nmax=2), "rule": invmut.gen(rng)}
        if rng.random() < 0.25:
            o["damage"] = [damage.gen(rng)]
        s["objs"].append(o)
    s["order"] = rng.randrange(1000)
    s["zipdirs"] = rng.random() < 0.5
    s["points"] = []
    for _ in range(12 if tier == "quick" else 60):
        p = {"obj": rng.randrange(len(s["objs"])), "how": rng.choice(["object", "validator", "validator", "fs", "subfs", "zip", "zipfs", "store", "storefs", "slash", "relative", "inventory"]),
             "val": rng.choice([None, 0, 1]), "opts": {"log_warnings": rng.random() < 0.5, "log_errors": rng.random() < 0.8, "lang": rng.choice(["en", "xx"]),
                                                      "check_digests": rng.random() < 0.8, "lax_digests": rng.random() < 0.2, "default_spec_version": rng.choice(["1.0", "1.1"])},
             "order": rng.randrange(1000), "short": rng.choice([None, None, 0.01, 0.3])}
        s["points"].append(p)
    s["opts"] = [dict(log_warnings=rng.random() < 0.5, log_errors=rng.random() < 0.8, check_digests=True, lax_digests=rng.random() < 0.2) for _ in range(2)]
    return s


def zipped(snap, rng, withdirs):
    b = io.BytesIO()
    files, dirs = snap
    names = sorted(files)
    rng.shuffle(names)
    with zipfile.ZipFile(b, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        if withdirs:
            for d in sorted(dirs):
                if d:
                    z.writestr(d + "/", b"")
        for n in names:
            z.writestr(zipfile.ZipInfo(n), files[n])
    return b.getvalue()


def zippable(snap):
    return all("\\" not in f and "\0" not in f for f in snap[0])


def materialize(R, s, o):
    """Snapshot of an object, None if it could not be made."""
    if o["kind"] == "hist":
        with R.sim(1, order=s["order"]) as w:
            h, _m, stop = lib.run_history(w, o["hist"])
            snap = h.snap()
            if stop:
                return None
    else:
        snap = refocfl.write_object(o["plan"], blob)
        if o.get("rule"):
            files = dict(snap[0])
            invmut.apply(files, o["rule"])
            snap = files, snap[1]
    if o.get("damage"):
        bad, _ = damage.several(snap, o["damage"])
        if not damage.harmless(snap, bad):
            snap = bad
    return snap


def run(s):
    R = Res()
    snaps = [materialize(R, s, o) for o in s["objs"]]
    with R.sim(1, order=s["order"]) as w:
        for i, snap in enumerate(snaps):
            if snap is None:
                continue
            w.disk.h_mkdirs(MNT + "/objs")
            w.disk.restore("%s/objs/o%d" % (MNT, i), snap)
            store.kv_restore(w, "bucket/o%d" % i, snap)
            if zippable(snap):
                w.disk.h_write("%s/zips/o%d.zip" % (MNT, i), zipped(snap, random.Random(s["order"]), s["zipdirs"]))
        shared = [Validator(**o) for o in s["opts"]]
        R.runs -= 1
        trail = []
        for n, p in enumerate(s["points"]):
            i = p["obj"] % len(snaps)
            snap = snaps[i]
            if snap is None:
                continue
            how = p["how"]
            if how.startswith("zip") and not zippable(snap):
                how = "object"
            seen = snap
            if how.startswith("store") or how.startswith("zip") and not s["zipdirs"]:
                seen = (snap[0], damage.dirs_of(snap[0]))
            opts = dict(p["opts"])
            lax = opts["lax_digests"] if p["val"] is None or how == "object" else s["opts"][p["val"]]["lax_digests"]
            probs = refocfl.validate(seen)
            laxprobs = refocfl.validate(seen, lax=True) if probs else []
            path = "%s/objs/o%d" % (MNT, i)
            if how == "inventory":
                one_inventory(R, s, p, snap, path, lax, {"points": s["points"][:n + 1]})
                continue
            w.order_seed = p["order"]
            if p["short"]:
                w.arm([{"nth": 0, "sticky": True, "kinds": ["read"], "act": "short", "part": p["short"]}])
            full = True

            def target(how=how, path=path, i=i):
                if how == "fs":
                    return fsw_openfs(path)
                if how == "subfs":
                    return fsw_opendir_as_fs(fsw_openfs(MNT + "/objs"), "o%d" % i)
                if how == "zip":
                    return "zip://%s/zips/o%d.zip" % (MNT, i)
                if how == "zipfs":
                    return fsw_openfs("zip://%s/zips/o%d.zip" % (MNT, i))
                if how == "store":
                    return "simstore://bucket/o%d" % i
                if how == "storefs":
                    return fsw_openfs("simstore://bucket/o%d" % i)
                if how == "slash":
                    return path + "/"
                if how == "relative":
                    return "o%d" % i
                return path
            w.cwd = MNT + "/objs"
            if how == "object":
                full = opts["check_digests"]
                o2 = {k: opts[k] for k in ("log_warnings", "log_errors", "check_digests")}
                r = outcome(lambda: ocfl.Object(lax_digests=lax).validate(path, **o2)[0])
            elif p["val"] is None:
                full = opts["check_digests"]
                r = outcome(lambda: Validator(**opts).validate_object(target()))
            else:
                r = outcome(lambda: shared[p["val"]].validate_object(target()))
            w.disarm()
            R.runs += 1
            trail.append((i, how, bool(probs)))
            o = s["objs"][i]
            R.state(o["kind"], how, p["val"] is None, full, lax, bool(probs), feats(o))
            R.probe("%s-%s" % ("valid" if not probs else "damaged", how))
            ctx = "%s via %s%s after %s" % (feats(o), how, " reused" if p["val"] is not None else "", trail[-4:-1])
            keep = {"points": s["points"][:n + 1]}
            if not probs:
                R.nontrivial = True
                if r[0] != "ok":
                    R.V("valid-no-verdict", "%s: %s" % (ctx, r), keep)
                elif not r[1]:
                    R.V("valid-rejected", "%s: %s" % (ctx, why(w, path)), keep)
            elif lax and not laxprobs:
                R.probe("valid-lax")
                if r[0] != "ok":
                    R.V("valid-no-verdict", "%s with lax digests: %s" % (ctx, r), keep)
                elif not r[1]:
                    R.V("valid-rejected", "%s with lax digests: %s" % (ctx, why(w, path, lax)), keep)
            elif full:
                if r[0] == "ok" and r[1]:
                    R.V("invalid-accepted", "%s: conflicts with %s" % (ctx, probs[:3]), keep)
                elif r[0] != "ok":
                    R.V("invalid-no-verdict", "%s: %s" % (ctx, r), keep)
    return R


def one_inventory(R, s, p, snap, path, lax, keep):
    """An inventory by itself."""
    invs = sorted(x for x in snap[0] if damage.INV.match(x))
    if not invs:
        return
    x = invs[p["order"] % len(invs)]
    data, probs = refocfl.load_inv(snap[0][x]), []
    if data is None:
        return
    refocfl.Inv(data, "1.1", probs, x, lax)
    if probs:
        return                  # C12
    R.runs += 1
    R.nontrivial = True
    R.probe("valid-inventory")
    o = ocfl.Object(lax_digests=lax)
    r = outcome(lambda: o.validate_inventory(path + "/" + x, log_warnings=p["opts"]["log_warnings"], log_errors=p["opts"]["log_errors"]))
    if r[0] != "ok" or not r[1][0]:
        R.V("valid-inventory-rejected", "%s of %s: %s %s" % (x, feats(s["objs"][p["obj"] % len(s["objs"])]), r[:1], str(r[1][1])[:300] if r[0] == "ok" else r), keep)


def why(w, path, lax=False):
    v = Validator(lax_digests=lax)
    r = outcome(lambda: v.validate_object(path))
    return "%s %s" % (r, str(v)[:300])


def feats(o):
    if o["kind"] == "hist":
        return ["hist", o["hist"]["cfg"], [st["op"] for st in o["hist"]["steps"]], bool(o.get("damage"))]
    p = o["plan"]
    return ["plan", p["pad"], p["cd"], p.get("style"), p["logs"], p["ext"], p["opaque"], p["vext"], p.get("reword"), p.get("emptycd"),
            [[v["alg"], v["spec"], v["upper"], v["inv"], v["fixity"], v.get("created")] for v in p["versions"]], bool(o.get("damage")), o.get("rule", {}).get("rule")]
