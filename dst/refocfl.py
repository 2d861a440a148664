"""Independent reference implementation of the parts of OCFL 1.0/1.1 the
oracles need: a validator, a reader and a writer over plain snapshots
(files: {relpath: bytes}, dirs: set of relpath). Shares no code with ocfl-py."""
import hashlib
import json
import random
import re

ALGS = {"sha512": hashlib.sha512, "sha256": hashlib.sha256, "md5": hashlib.md5, "sha1": hashlib.sha1,
        "blake2b-512": lambda d=b"": hashlib.blake2b(d), "sha512/256": lambda d=b"": hashlib.new("sha512_256", d),
        "blake2b-160": lambda d=b"": hashlib.blake2b(d, digest_size=20), "blake2b-256": lambda d=b"": hashlib.blake2b(d, digest_size=32),
        "blake2b-384": lambda d=b"": hashlib.blake2b(d, digest_size=48)}
LEN = {"sha512": 128, "sha256": 64, "md5": 32, "sha1": 40, "blake2b-512": 128, "sha512/256": 64,
       "blake2b-160": 40, "blake2b-256": 64, "blake2b-384": 96}
FIXITY_SPEC = ("md5", "sha1", "sha256", "sha512", "blake2b-512")
FIXITY_EXT = FIXITY_SPEC + ("blake2b-160", "blake2b-256", "blake2b-384", "sha512/256")
LONGLEN = None


def dig(alg, data):
    return ALGS[alg](data).hexdigest()


def is_hex(s, alg):
    return isinstance(s, str) and len(s) == LEN[alg] and re.fullmatch(r"[0-9a-fA-F]+", s) is not None


def bad_rel(path):
    """True if path is not a clean relative path."""
    return (not isinstance(path, str) or path == "" or path.startswith("/") or path.endswith("/")
            or any(e in ("", ".", "..") for e in path.split("/")))


def conflicts(paths):
    s = set(paths)
    for p in s:
        parts = p.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) in s:
                return True
    return False


_DT = re.compile(r"(\d\d\d\d)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)", re.ASCII)


def good_created(s):
    if not isinstance(s, str):
        return False
    m = _DT.fullmatch(s)
    if not m:
        return False
    y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])
    if not (1 <= mo <= 12 and h <= 23 and mi <= 59 and sec <= 60 and y >= 1):
        return False
    dim = [31, 29 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
    if not 1 <= d <= dim:
        return False
    tz = m.group(8)
    if tz != "Z" and (int(tz[1:3]) > 23 or int(tz[4:6]) > 59):
        return False
    return True


def created_epoch(s):
    from calendar import timegm
    m = _DT.fullmatch(s)
    y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])
    t = timegm((y, mo, d, h, mi, sec, 0, 0, 0))
    if m.group(7):
        t += float(m.group(7))
    tz = m.group(8)
    if tz != "Z":
        off = int(tz[1:3]) * 3600 + int(tz[4:6]) * 60
        t -= off if tz[0] == "+" else -off
    return t


def version_seq(keys):
    """Sorted version names if keys are a valid contiguous sequence, else None."""
    if not keys:
        return None
    nums = {}
    for k in keys:
        m = re.fullmatch(r"v([0-9]+)", k)
        if not m or not k.isascii():
            return None
        nums[int(m.group(1))] = k
    if sorted(nums) != list(range(1, len(keys) + 1)) or len(nums) != len(keys):
        return None
    out = [nums[i] for i in sorted(nums)]
    if out[0] == "v1":
        if any(k != "v%d" % i for i, k in enumerate(out, 1)):
            return None
    else:
        w = len(out[0]) - 1
        for i, k in enumerate(out, 1):
            if len(k) != w + 1 or k[1] != "0" or int(k[1:]) != i:
                return None
    return out


class Inv:
    """A checked inventory."""

    def __init__(self, data, spec_default, problems, where, lax=False):
        def bad(code, msg=""):
            problems.append("%s@%s %s" % (code, where, msg))
        self.ok = False
        self.data = data
        self.alg = None
        self.versions = None
        self.cd = "content"
        self.spec = None
        n0 = len(problems)
        if not isinstance(data, dict):
            bad("E034")
            return
        if not isinstance(data.get("id"), str) or data["id"] == "":
            bad("E037")
        self.id = data.get("id")
        t = data.get("type")
        for v in ("1.0", "1.1"):
            if t == "https://ocfl.io/%s/spec/#inventory" % v:
                self.spec = v
        if self.spec is None:
            bad("E038", repr(t))
        alg = data.get("digestAlgorithm")
        if alg not in (("sha512", "sha256") if not lax else tuple(ALGS)):
            bad("E025", repr(alg))
            return
        self.alg = alg
        if "contentDirectory" in data:
            cd = data["contentDirectory"]
            if not isinstance(cd, str) or cd in (".", "..", "") or "/" in cd:
                bad("E017")
                return
            self.cd = cd
        vs = data.get("versions")
        if not isinstance(vs, dict):
            bad("E044")
            return
        seq = version_seq(list(vs))
        if seq is None:
            bad("E010", "bad version sequence")
            return
        self.versions = seq
        if data.get("head") != seq[-1]:
            bad("E040")
        man = data.get("manifest")
        if not isinstance(man, dict):
            bad("E041")
            return
        norm = {}
        paths = []
        for d, pl in man.items():
            if not is_hex(d, alg):
                bad("E025b", d)
                continue
            if d.lower() in norm:
                bad("E096")
            norm[d.lower()] = d
            if not isinstance(pl, list) or not pl:
                bad("E092")
                continue
            for p in pl:
                if bad_rel(p):
                    bad("E099", repr(p))
                    continue
                parts = p.split("/")
                if len(parts) < 3 or parts[0] not in vs or parts[1] != self.cd:
                    bad("E042", p)
                paths.append(p)
        if len(set(paths)) != len(paths):
            bad("E101")
        if conflicts(paths):
            bad("E101")
        self.path_digest = {}
        for d, pl in man.items():
            if isinstance(pl, list):
                for p in pl:
                    if isinstance(p, str):
                        self.path_digest[p] = d.lower()
        used = set()
        for v in seq:
            ver = vs[v]
            if not isinstance(ver, dict):
                bad("E047", v)
                continue
            if not good_created(ver.get("created")):
                bad("E049", "%s %r" % (v, ver.get("created")))
            if "message" in ver and not isinstance(ver["message"], str):
                bad("E094", v)
            if "user" in ver:
                u = ver["user"]
                if not isinstance(u, dict) or not isinstance(u.get("name"), str):
                    bad("E054", v)
                elif "address" in u and not isinstance(u["address"], str):
                    bad("E054", v)
            st = ver.get("state")
            if not isinstance(st, dict):
                bad("E048", v)
                continue
            lps = []
            for d, pl in st.items():
                if d not in man:
                    bad("E050", "%s %s" % (v, d))
                used.add(d.lower())
                if not isinstance(pl, list):
                    bad("E051", v)
                    continue
                for p in pl:
                    if bad_rel(p):
                        bad("E052", repr(p))
                    else:
                        lps.append(p)
            if len(set(lps)) != len(lps) or conflicts(lps):
                bad("E095", v)
        unused = set(norm) - used
        if unused:
            bad("E107", ",".join(sorted(unused))[:40])
        if "fixity" in data:
            fx = data["fixity"]
            if not isinstance(fx, dict):
                bad("E111")
            else:
                for fa, blk in fx.items():
                    if fa not in FIXITY_EXT:
                        if not lax:
                            bad("E056", fa)
                            continue
                    if not isinstance(blk, dict):
                        bad("E057")
                        continue
                    seen = set()
                    for d, pl in blk.items():
                        if fa not in FIXITY_EXT:
                            # laxly any spelling of a digest
                            if "\n" in d:
                                bad("E057", d)
                        else:
                            if not is_hex(d, fa):
                                bad("E057", d)
                            if d.lower() in seen:
                                bad("E097")
                            seen.add(d.lower())
                        if not isinstance(pl, list):
                            bad("E057")
                            continue
                        for p in pl:
                            if not isinstance(p, str) or p not in self.path_digest:
                                bad("E057", repr(p))
        self.ok = len(problems) == n0

    def state_map(self, v):
        """{logical: frozenset(content paths)}"""
        out = {}
        man = self.data["manifest"]
        for d, pl in self.data["versions"][v]["state"].items():
            for p in pl:
                out[p] = frozenset(man.get(d, ()))
        return out


def load_inv(data):
    try:
        return json.loads(data.decode("utf-8"))
    except (UnicodeDecodeError, ValueError, RecursionError):
        return None


def check_sidecar(data, inv_bytes, alg):
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return False
    m = re.fullmatch(r"([0-9a-fA-F]+)[ \t]+inventory\.json\n?", text)
    return bool(m) and m.group(1) == dig(alg, inv_bytes)


def listing(snap, path):
    """(file names, dir names) directly below path."""
    files, dirs = snap
    pre = path + "/" if path else ""
    f = [k[len(pre):] for k in files if k.startswith(pre) and "/" not in k[len(pre):]]
    d = set()
    for k in dirs:
        if k.startswith(pre) and k != path and k:
            d.add(k[len(pre):].split("/")[0])
    for k in files:
        if k.startswith(pre) and "/" in k[len(pre):]:
            d.add(k[len(pre):].split("/")[0])
    return f, d


def validate(snap, lax=False, spec_from_decl=True):
    """List of problems of the object in snap (empty: conforms)."""
    files, dirs = snap
    problems = []

    def bad(code, msg=""):
        problems.append("%s %s" % (code, msg))
    rf, rd = listing(snap, "")
    decl = [f for f in rf if f.startswith("0=")]
    spec = None
    if len(decl) != 1:
        bad("E003", str(decl))
    for s in ("1.0", "1.1"):
        if "0=ocfl_object_" + s in decl:
            spec = s
            if files["0=ocfl_object_" + s] != ("ocfl_object_%s\n" % s).encode():
                bad("E007")
    if spec is None:
        bad("E006")
    if "inventory.json" not in rf:
        bad("E063")
        return problems
    data = load_inv(files["inventory.json"])
    if data is None:
        bad("E033")
        return problems
    root = Inv(data, spec, problems, "root", lax)
    if root.versions is None or not root.ok:
        return problems or ["E000"]
    if spec is not None and root.spec != spec:
        bad("E038", "declared %s but inventory %s" % (spec, root.spec))
    side = "inventory.json." + root.alg
    if side not in rf:
        bad("E058")
    elif not check_sidecar(files[side], files["inventory.json"], root.alg):
        bad("E060")
    for f in rf:
        if f not in ("inventory.json", side) and f not in decl:
            bad("E001", f)
    for d in rd:
        if d not in root.versions and d not in ("extensions", "logs"):
            bad("E001", d)
    if "extensions" in rd:
        ef, _ = listing(snap, "extensions")
        if ef:
            bad("E067", str(ef))
    # version directories
    priors = []
    prev_spec = "1.0"
    for v in root.versions:
        if v not in rd:
            bad("E046", v)
            continue
        vf, vd = listing(snap, v)
        inv = None
        alg = None
        if "inventory.json" in vf:
            vb = files[v + "/inventory.json"]
            if v == root.versions[-1]:
                if vb != files["inventory.json"]:
                    bad("E064", v)
                inv, alg = root, root.alg
            else:
                vdata = load_inv(vb)
                if vdata is None:
                    bad("E033", v)
                else:
                    inv = Inv(vdata, spec, problems, v, lax)
                    alg = inv.alg
                    if inv.versions is None or not inv.ok:
                        problems.append("bad inventory in " + v)
                        inv = None
                    else:
                        priors.append((v, inv))
            if alg:
                s = "inventory.json." + alg
                if s not in vf:
                    bad("E058", v)
                elif not check_sidecar(files[v + "/" + s], vb, alg):
                    bad("E060", v)
                allowed = {"inventory.json", s}
            else:
                allowed = set(vf)
            if inv is not None:
                if inv.spec < prev_spec:
                    bad("E103", v)
                prev_spec = inv.spec
        else:
            allowed = set()
        for f in vf:
            if f not in allowed:
                bad("E015", v + "/" + f)
    if spec is not None and prev_spec > spec:
        bad("E103", "root")
    listed = set()
    for v, inv in priors:
        if listed - set(inv.path_digest):
            bad("E023", "%s lacks %s" % (v, sorted(listed - set(inv.path_digest))[0]))
        listed |= set(inv.path_digest)
        if inv.id != root.id:
            bad("E037", v)
        if inv.cd != root.cd:
            bad("E020", v)
        if v == root.versions[0] and "contentDirectory" not in inv.data and any("contentDirectory" in i.data for _, i in priors + [("", root)]):
            bad("E019", v)
        if inv.versions[-1] != v:
            bad("E040", v + " head")
        if set(inv.versions) - set(root.versions):
            bad("E066", v)
            continue
        for pv in inv.versions:
            a, b = inv.state_map(pv), root.state_map(pv)
            if set(a) != set(b):
                bad("E066", "%s %s paths" % (v, pv))
                continue
            for lp in a:
                if not a[lp] <= b[lp]:
                    bad("E066", "%s %s %s" % (v, pv, lp))
        for p in inv.path_digest:
            if p not in root.path_digest:
                bad("E023", p)
    # content
    onfs = set()
    for k in files:
        parts = k.split("/")
        if len(parts) >= 3 and parts[0] in root.versions and parts[1] == root.cd:
            onfs.add(k)
    for d in dirs:
        parts = d.split("/")
        if len(parts) >= 3 and parts[0] in root.versions and parts[1] == root.cd:
            f, dd = listing(snap, d)
            if not f and not dd:
                bad("E024", d)
    for p in set(root.path_digest) - onfs:
        bad("E092", "missing " + p)
    for p in onfs - set(root.path_digest):
        bad("E023", "extra " + p)
    for p in sorted(onfs & set(root.path_digest)):
        if dig(root.alg, files[p]) != root.path_digest[p]:
            bad("E092", "digest " + p)
        for v, inv in priors:
            if p in inv.path_digest and dig(inv.alg, files[p]) != inv.path_digest[p]:
                bad("E092", "digest %s in %s" % (p, v))
    for where, inv in priors + [("root", root)]:
        fx = inv.data.get("fixity", {})
        for fa, blk in fx.items():
            for d, pl in blk.items():
                for p in pl:
                    if p in onfs and fa in ALGS and dig(fa, files[p]) != d.lower():
                        bad("E093", "%s %s %s" % (where, fa, p))
    return problems


def read(snap):
    """[(vdir, {logical: bytes}, version block)] via the root inventory, or None."""
    files, _ = snap
    data = load_inv(files.get("inventory.json", b""))
    if data is None:
        return None
    return read_inv(snap, data)


def read_inv(snap, data):
    files, _ = snap
    try:
        out = []
        seq = version_seq(list(data["versions"]))
        man = {d.lower(): pl for d, pl in data["manifest"].items()}
        for v in seq:
            st = {}
            for d, pl in data["versions"][v]["state"].items():
                content = files[man[d.lower()][0]]
                for p in pl:
                    st[p] = content
            out.append((v, st, data["versions"][v]))
        return out
    except (KeyError, TypeError, IndexError, AttributeError):
        return None


def intact_inventories(snap):
    """[(where, data)] inventories whose bytes match their own sidecar."""
    files, _ = snap
    out = []
    for k in sorted(files):
        if k == "inventory.json" or re.fullmatch(r"v[0-9]+/inventory\.json", k):
            data = load_inv(files[k])
            if not isinstance(data, dict) or data.get("digestAlgorithm") not in ALGS:
                continue
            side = files.get(k + "." + data["digestAlgorithm"])
            if side is not None and check_sidecar(side, files[k], data["digestAlgorithm"]):
                out.append((k, data))
    return out


def seal(files, prefix, data, alg=None, sep=" ", indent=2, style=None):
    """Write inventory data and its sidecar at prefix ('' or 'v1/')."""
    style = style or {}
    if style.get("shuffle") is not None:
        data = shuffled(data, random.Random(style["shuffle"]))
    b = json.dumps(data, sort_keys=style.get("shuffle") is None, indent=indent, ensure_ascii=style.get("ascii", True),
                   separators=(",", ":") if style.get("compact") else None).encode("utf-8") + b"\n" * style.get("nl", 0)
    files[prefix + "inventory.json"] = b
    alg = alg or data["digestAlgorithm"]
    files[prefix + "inventory.json." + alg] = (dig(alg, b) + sep + "inventory.json" + ("" if style.get("bare") else "\n")).encode()


def shuffled(x, rng):
    """Same JSON value with members of objects and path lists in another order."""
    if isinstance(x, dict):
        k = list(x)
        rng.shuffle(k)
        return {a: shuffled(x[a], rng) for a in k}
    if isinstance(x, list):
        x = list(x)
        rng.shuffle(x)
    return x


def reseal(files, prefix):
    """Recompute the sidecar for the inventory at prefix as it is."""
    data = load_inv(files[prefix + "inventory.json"])
    alg = data["digestAlgorithm"]
    files[prefix + "inventory.json." + alg] = (dig(alg, files[prefix + "inventory.json"]) + " inventory.json\n").encode()


def write_object(p, blob):
    """Foreign object writer: builds a conforming object from a plan.

    p: {"id","pad":0|n,"cd":str|None,"set_cd":bool,"indent","sep","logs":bool,"ext":[names],
        "versions":[{"files":{lp: cid},"alg","spec","created","message","user","upper":bool,"inv":bool,
                     "fixity":[algs],"dup":bool,"vext":bool}]}
    blob(cid) -> bytes. Returns snapshot (files, dirs).
    """
    files = {}
    n = len(p["versions"])
    cd = p.get("cd") or "content"
    pad = p.get("pad", 0)
    vname = (lambda i: "v%0*d" % (pad, i)) if pad else (lambda i: "v%d" % i)
    content = {}                # cid -> [paths]
    states = []
    metas = []
    order = []                  # content paths in order of addition
    for i, v in enumerate(p["versions"], 1):
        vd = vname(i)
        seen = set()
        for lp, cid in sorted(v["files"].items()):
            have = content.get(cid)
            if have is None or (v.get("dup") and cid not in seen):
                path = "%s/%s/%s" % (vd, cd, "%s%04d" % ("f", len(order)) if p.get("opaque") else lp)
                files[path] = blob(cid)
                content.setdefault(cid, []).append(path)
                order.append((path, cid))
            seen.add(cid)
        states.append(dict(v["files"]))
        m = {"created": v.get("created", "2020-01-01T00:00:%02dZ" % i)}
        if v.get("message") is not None:
            m["message"] = v["message"]
        if v.get("user") is not None:
            m["user"] = v["user"]
        metas.append(m)
        if v.get("inv", True) or i == n:
            alg = v["alg"]
            up = v.get("upper")

            def D(cid):
                d = dig(alg, blob(cid))
                return d.upper() if up else d
            vis = {vname(j) for j in range(1, i + 1)}
            man = {}
            for path, c in order:
                man.setdefault(D(c), []).append(path)
            inv = {"id": p["id"], "type": "https://ocfl.io/%s/spec/#inventory" % v["spec"], "digestAlgorithm": alg, "head": vd,
                   "manifest": man, "versions": {}}
            cdof = p.get("cdof")
            if cd != "content" or (p.get("set_cd") if cdof is None else i == 1 or cdof != "first" and cdof >> (i % 9) & 1):
                inv["contentDirectory"] = cd
            for j in range(i):
                st = {}
                for lp, c in states[j].items():
                    st.setdefault(D(c), []).append(lp)
                inv["versions"][vname(j + 1)] = dict(metas[j], state=st)
                if p.get("reword") and j == 0 and i > 1:
                    inv["versions"][vname(1)]["message"] = "reworded in %d" % i
                    inv["versions"][vname(1)]["user"] = {"name": "Reworder"}
                    inv["versions"][vname(1)]["created"] = "2011-11-11T11:11:11Z"
            if v.get("fixity"):
                inv["fixity"] = {}
                for fa in v["fixity"]:
                    blk = inv["fixity"][fa] = {}
                    for k, (path, c) in enumerate(order):
                        if v.get("fixpart") and k % 2:
                            continue
                        fd = dig(fa, blob(c))
                        blk.setdefault(fd.upper() if v.get("fixupper") else fd, []).append(path)
            if v.get("inv", True):
                seal(files, vd + "/", inv, sep=p.get("sep", " "), indent=p.get("indent", 2), style=p.get("style"))
            if i == n:
                seal(files, "", inv, sep=p.get("sep", " "), indent=p.get("indent", 2), style=p.get("style"))
                files["0=ocfl_object_" + v["spec"]] = ("ocfl_object_%s\n" % v["spec"]).encode()
            del vis
    if p.get("logs"):
        files["logs/today.log"] = b"something happened\n"
        files["logs/v9/inventory.json"] = b"{"
    for e in p.get("ext", ()):
        files["extensions/%s/config.json" % e] = b"{}"
    if p.get("vext"):
        files[vname(1) + "/notes/readme.txt"] = b"warning only"
    dirs = {""}
    for f in files:
        while "/" in f:
            f = f.rsplit("/", 1)[0]
            dirs.add(f)
    for i in range(1, n + 1):
        dirs.add(vname(i))
        if p.get("emptycd"):
            dirs.add(vname(i) + "/" + cd)
    return files, dirs
