"""Damage to stored objects: what bit rot, lost and misdirected writes, partial
restores and careless hands do to files at rest. Works on snapshots."""
import copy
import json
import re

from . import refocfl

INV = re.compile(r"(?:(v\d+)/)?inventory\.json$")


def dirs_of(files, keep=()):
    dirs = {""} | set(keep)
    for f in files:
        while "/" in f:
            f = f.rsplit("/", 1)[0]
            dirs.add(f)
    return dirs


def cls(path):
    """Class of a stored file."""
    if path.startswith("0="):
        return "declaration"
    m = INV.match(path)
    if m:
        return "version-inventory" if m.group(1) else "root-inventory"
    if re.match(r"(?:v\d+/)?inventory\.json\.", path):
        return "sidecar"
    if re.match(r"v\d+/[^/]+/", path):
        return "content"
    return "other"


def gen(rng, hard=False):
    """One random damage, positions given as large integers taken modulo sizes."""
    kind = rng.choice(["flip", "flip", "flip", "truncate", "append", "empty", "remove", "remove", "swap", "swap", "stale_root", "stale_version", "copyover", "copyover",
                       "extra_root", "extra_version", "extra_content", "extra_content", "extra_dir", "rmdir", "fixity", "rename", "decl", "sidecar_swap", "near_digest", "head_side", "misdirect",
                       "extra_ext", "empty_dir"] + (["todir", "tofile", "garbage", "zeros"] if hard else ["garbage", "zeros"]))
    return {"kind": kind, "cls": rng.choice(["any", "any", "content", "content", "root-inventory", "version-inventory", "sidecar", "declaration"]),
            "a": rng.randrange(1 << 30), "b": rng.randrange(1 << 30), "c": rng.randrange(1 << 30)}


NAMES = ["extra.txt", ".DS_Store", "v1x", "inventory.json.md5", "inventory.json~", "0=ocfl_1.1", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "inventory.json.sha256", "inventory.json.sha512",
         "Inventory.json", "\u00fcber", "ocfl_layout.json", "x",
         ".keep", ".gitkeep", "Thumbs.db", "x.tmp", "x.bak", "desktop.ini", "._x", "lost+found", ".git", "README.md",
         "inventory.json\n", "inventory.json.sha512\n", "v1\n", "v2\n", "0=ocfl_object_1.1\n"]


def pick(seq, n):
    seq = sorted(seq)
    return seq[n % len(seq)] if seq else None


def apply(snap, d):
    """(damaged snapshot, description, judged class) or None when not applicable.

    The judged class is 'content' etc for damage to accounted files."""
    files, dirs = dict(snap[0]), set(snap[1])
    k = d["kind"]
    data = refocfl.load_inv(files.get("inventory.json", b""))
    vs = list(data["versions"]) if isinstance(data, dict) and isinstance(data.get("versions"), dict) else []
    acc = [f for f in files if cls(f) != "other"]
    pool = [f for f in acc if d["cls"] in ("any", cls(f))] or acc
    if not pool:
        return None
    f = pick(pool, d["a"])

    def done(desc):
        return (files, dirs | dirs_of(files)), desc
    if k == "flip":
        if not files[f]:
            return None
        b = bytearray(files[f])
        i = d["b"] % len(b)
        b[i] ^= 1 << (d["c"] % 8)
        files[f] = bytes(b)
        return done("flip bit of byte %d of %s" % (i, f))
    if k == "truncate":
        if not files[f]:
            return None
        n = d["b"] % len(files[f])
        files[f] = files[f][:n]
        return done("truncate %s to %d" % (f, n))
    if k == "append":
        files[f] = files[f] + [b"x", b"\0", b"\n\n", b"garbage at the end", b" 0"][d["b"] % 5]
        return done("append to %s" % f)
    if k == "empty":
        if not files[f]:
            return None
        files[f] = b""
        return done("empty %s" % f)
    if k == "zeros":
        if not files[f].strip(b"\0"):
            return None
        b = files[f]
        at = d["b"] % len(b)
        at -= at % 512
        files[f] = b[:at] + b"\0" * min(512, len(b) - at) + b[at + 512:]
        return done("zero block at %d of %s" % (at, f)) if files[f] != b else None
    if k == "garbage":
        old = files[f]
        files[f] = [b"\xff\xfe\x00garbage", b"null", b"[]", b"{}", b"\"x\"", b"123", b"{\"a\":", bytes(range(256)), b"true", b"NaN"][d["b"] % 10]
        return done("garbage in %s" % f) if files[f] != old else None
    if k == "remove":
        del files[f]
        return done("remove %s" % f)
    if k == "rename":
        new = [f + "~", f + ".bak", f.upper(), f + " "][d["b"] % 4]
        if new in files:
            return None
        files[new] = files.pop(f)
        return done("rename %s to %s" % (f, new))
    if k in ("swap", "copyover", "misdirect"):
        same = [x for x in acc if x != f and files[x] != files[f] and (k == "misdirect" or cls(x) == cls(f))]
        g = pick(same, d["b"])
        if g is None:
            return None
        if k == "swap":
            files[f], files[g] = files[g], files[f]
            return done("swap %s and %s" % (f, g))
        files[f] = files[g]
        return done("%s overwritten with %s" % (f, g))
    if k in ("stale_root", "stale_version", "head_side"):
        invs = [x for x in files if cls(x) == "version-inventory"]
        src = pick(invs, d["a"])
        if src is None:
            return None
        if k == "stale_root":
            dst = "inventory.json"
        elif k == "stale_version":
            dst = pick([x for x in invs if x != src], d["b"])
        else:
            dst = pick(["inventory.json"] + invs, d["b"])
        if dst is None or dst == src:
            return None
        if files.get(dst) == files[src]:
            return None
        for x in [x for x in files if x.startswith(dst + ".")]:
            del files[x]
        for x in [x for x in files if x.startswith(src + ".")]:
            files[dst + x[len(src):]] = files[x]
        if k != "head_side":
            files[dst] = files[src]
        return done("%s %s with that of %s" % ("sidecar of" if k == "head_side" else "replace with sidecar", dst, src))
    if k == "sidecar_swap":
        ss = [x for x in files if cls(x) == "sidecar"]
        a, b = pick(ss, d["a"]), pick(ss, d["b"])
        if a is None or files[a] == files[b]:
            return None
        files[a], files[b] = files[b], files[a]
        return done("swap sidecars %s %s" % (a, b))
    if k == "near_digest":
        s = pick([x for x in files if cls(x) == "sidecar"], d["a"])
        m = re.match(rb"([0-9a-fA-F]+)(\s.*)", files[s], re.DOTALL) if s else None
        if not m or len(m.group(1)) < 9:
            return None
        g, n = m.group(1), 1 + d["c"] % (len(m.group(1)) - 1)
        files[s] = [g[:n], g[n:], g + g[:n], g[-n:] + g, g[:n] + bytes([g[n] ^ 1]) + g[n + 1:], g[n:] + g[:n], b"0" * len(g), g[:-1], g[:8]][d["b"] % 9] + m.group(2)
        return done("digest in %s changed (%d)" % (s, d["b"] % 9)) if files[s] != m.group(0) else None
    if k in ("extra_root", "extra_version", "extra_content", "extra_ext"):
        name = NAMES[d["b"] % len(NAMES)]
        v = pick(vs, d["a"])
        pre = {"extra_root": "", "extra_version": "%s/" % v, "extra_ext": "extensions/"}.get(k)
        if k == "extra_content":
            cd = data.get("contentDirectory", "content") if isinstance(data, dict) else "content"
            pre = "%s/%s/%s" % (v, cd, ["", "sub/", "a/b/c/"][d["c"] % 3])
        if v is None or pre + name in files or pre + name in dirs or any((pre + name).startswith(x + "/") for x in files):
            return None
        if k == "extra_version" and name.startswith("inventory.json.") is False and False:
            return None
        files[pre + name] = [b"extra", b"", (list(files.values())[0])][d["c"] % 3]
        return done("extra file %s" % (pre + name))
    if k == "extra_dir":
        v = "v%d" % (len(vs) + 1)
        if vs and vs[0] != "v1":
            v = "v%0*d" % (len(vs[0]) - 1, len(vs) + 1)
        name = [v, "stuff", "v0", "Extensions", "content", v + "/content", "v001"][d["a"] % 7]
        if name in dirs or name in vs:
            return None
        if d["b"] % 2:
            files[name + "/f"] = b"x"
        else:
            for i in range(name.count("/") + 1):
                dirs.add("/".join(name.split("/")[:i + 1]))
        return done("extra directory %s" % name)
    if k == "empty_dir":
        v = pick(vs, d["a"])
        if v is None:
            return None
        cd = data.get("contentDirectory", "content")
        name = "%s/%s/emptydir" % (v, cd)
        for i in range(3):
            dirs.add("/".join(name.split("/")[:i + 1]))
        return done("empty directory %s" % name)
    if k == "rmdir":
        x = pick([y for y in dirs if y.startswith("v")], d["a"])
        if x is None:
            return None
        for y in list(files):
            if y.startswith(x + "/"):
                del files[y]
        for y in list(dirs):
            if y == x or y.startswith(x + "/"):
                dirs.discard(y)
        return done("remove directory %s" % x)
    if k == "decl":
        x = [y for y in files if y.startswith("0=")]
        if not x:
            return None
        old = files.pop(x[0])
        n = ["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_1.2", "0=ocfl_1.1", "0=other_1.0", x[0] + "\n", x[0] + " "][d["a"] % 7]
        if n == x[0]:
            files[n] = [old.rstrip(b"\n"), old + b"\n", b" " + old, old.upper(), b"", old.replace(b"1", b"2")][d["b"] % 6]
        else:
            files[n] = [old, (n[2:] + "\n").encode()][d["b"] % 2]
        return done("declaration %s" % n)
    if k == "fixity":
        return fixity(files, dirs, d, vs)
    if k == "todir":
        del files[f]
        if d["b"] % 2:
            files[f + "/inside"] = b"x"
        dirs.add(f)
        return done("%s is now a directory" % f)
    if k == "tofile":
        x = pick([y for y in dirs if y], d["a"])
        if x is None:
            return None
        for y in list(files):
            if y.startswith(x + "/"):
                del files[y]
        for y in list(dirs):
            if y == x or y.startswith(x + "/"):
                dirs.discard(y)
        files[x] = b"now a file"
        return done("%s is now a file" % x)
    raise AssertionError(k)


def fixity(files, dirs, d, vs):
    """Make a recorded fixity value wrong, sidecars recomputed."""
    invs = [x for x in files if cls(x) in ("root-inventory", "version-inventory")]
    where = pick(invs, d["a"])
    data = refocfl.load_inv(files[where]) if where else None
    if not isinstance(data, dict) or not isinstance(data.get("manifest"), dict) or not isinstance(data.get("fixity") or {}, dict):
        return None
    fx = data.get("fixity") or {}
    algs = [a for a in fx if fx[a] and isinstance(fx[a], dict) and a in refocfl.ALGS]
    if not algs:
        # record a wrong value where there was none
        paths = sorted(p for pl in data["manifest"].values() if isinstance(pl, list) for p in pl if isinstance(p, str))
        if not paths:
            return None
        a = ["md5", "sha1", "sha256", "sha512", "blake2b-512"][d["b"] % 5]
        data.setdefault("fixity", {})[a] = {refocfl.dig(a, b"wrong"): [paths[d["c"] % len(paths)]]}
    else:
        a = pick(algs, d["b"])
        dg = pick(fx[a], d["c"])
        paths = fx[a].pop(dg)
        fx[a][refocfl.dig(a, b"wrong")] = paths
    put_inv(files, where, data)
    return (files, dirs), "wrong %s fixity in %s" % (a, where)


def put_inv(files, where, data, both=True):
    """Store an inventory with sidecar, keeping root and head copies the same."""
    raw = files[where]
    files[where] = json.dumps(data, indent=1).encode()
    targets = [where]
    if both:
        targets += [x for x in files if x != where and INV.match(x) and files[x] == raw]
    for t in targets:
        files[t] = files[where]
        for x in [x for x in files if x.startswith(t + ".")]:
            del files[x]
        alg = data.get("digestAlgorithm") if isinstance(data, dict) else None
        if not isinstance(alg, str) or alg not in refocfl.ALGS:
            alg = "sha512"
        files[t + "." + alg] = (refocfl.dig(alg, files[t]) + " inventory.json\n").encode()


def several(snap, ds):
    """Apply a list of damages; (snapshot, descriptions)."""
    s, out = copy.copy(snap), []
    for d in ds:
        r = apply(s, d)
        if r:
            s = r[0]
            out.append(r[1])
    return s, out


def harmless(before, after):
    """Alteration that the specification leaves open: white space at the end of a
    sidecar, or letter case of its digest."""
    ch = [k for k in set(before[0]) | set(after[0]) if before[0].get(k) != after[0].get(k)]
    if before[1] != after[1] and not ch:
        return False
    for k in ch:
        if cls(k) != "sidecar" or k not in before[0] or k not in after[0]:
            return False
        if before[0][k].rstrip().lower().split() != after[0][k].rstrip().lower().split():
            return False
    return bool(ch)
