"""Rewrites of inventories that (mostly) break a rule of the specification.
Each returns a description, or None when it does not apply."""
import copy
import json
import unicodedata
import urllib.parse

from . import refocfl

BADCREATED = ["2020-01-01", "2020-01", "2020", "", "2020-01-01T00:00:00", "2020-01-01T00:00Z", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z",
              "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:61Z", "2020-01-01 00:00:00Z", "20200101T000000Z", "01/02/2020", "now", "2020-01-01T00:00:00+0000",
              "2020-01-01T00:00:00 Z", "2020-1-1T0:0:0Z", "2020-00-10T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-01T00:00:00.Z", "x2020-01-01T00:00:00Z", "2020-01-01T00:00:00Zx", "2020-01-01T00:00:00z+00:00",
              "2020-01-01T00:00:00+24:00", "2020-01-01T00:00:00+00:60", None, 5, 20200101, [], {}, True, ["2020-01-01T00:00:00Z"], "2020-01-01T00:00:00Z\n", "2020-01-01T00:00:00+01:00\n", "202\u0660-01-01T00:00:00Z", "2020-01-01T00:00:0\u0661Z", "2020-01-01T00:00:00+0\u0661:00", "2020-01-01T00:00:00.\u0661Z", "2020-01-01t00:00:00z"]
BADPATH = ["", "/a", "a/", "a//b", "./a", "a/.", "..", "a/../b", "../../etc/x", "/", "//", ".", 5, None, ["a"], {"a": 1}]
BADTYPE = ["https://ocfl.io/1.2/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory2", "https://ocfl.io/1x1/spec/#inventory", "http://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1.1/spec",
           "https://ocflXio/1.1/spec/#inventory", "", "x", 5, None, [], {}, "https://ocfl.io/2.0/spec/#inventory", " https://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory\n", "https://ocfl.io/11/spec/#inventory"]
BADALG = ["md5", "sha1", "SHA512", "sha-512", "", "unknown", 5, None, [], ["sha512"], {"a": 1}, True]
BADVERS = ["v0", "v01", "v1x", "V2", "2", "v-1", "v", "", "v 2", "v2 ", "v\u0662", "v99", "v1.0", "v001", "v2\n", "v1\n"]
BADCD = ["a/b", ".", "..", "", 5, None, [], {}, "/", "x/"]
JUNK = [None, 5, -1, 1.5, True, False, "", "x", [], {}, [[]], [{}], {"": {}}, ["a", 5], "v1", {"v1": {}}, 10 ** 30]


def P(seq, n):
    seq = sorted(seq, key=str)
    return seq[n % len(seq)] if seq else None


RULES = {}


def rule(fn):
    RULES[fn.__name__] = fn
    return fn


def ver(d, n):
    vs = d.get("versions")
    return P(list(vs), n) if isinstance(vs, dict) and vs else None


@rule
def del_key(d, a, b, c):
    k = P(["id", "type", "digestAlgorithm", "head", "manifest", "versions"], a)
    if k not in d:
        return None
    del d[k]
    return "no " + k


@rule
def junk_key(d, a, b, c):
    k = P(["id", "type", "digestAlgorithm", "head", "manifest", "versions", "fixity", "contentDirectory"], a)
    d[k] = copy.deepcopy(JUNK[b % len(JUNK)])
    return "%s is %r" % (k, d[k])


def near(x, n):
    """A different identifier that looks much like x."""
    out = [x.swapcase(), x + "/", x.rstrip("/"), " " + x, x.replace("://", ":/"), unicodedata.normalize("NFD", x), unicodedata.normalize("NFC", x), unicodedata.normalize("NFKC", x), x + "\n", x[:-1], x + "#",
           x.replace("http:", "https:"), x.replace("https:", "http:"), urllib.parse.quote(x), urllib.parse.unquote(x), x.casefold(), x + "\u200b", x[1:]]
    out = [y for y in out if y != x]
    return out[n % len(out)]


@rule
def bad_id(d, a, b, c):
    d["id"] = ["", 5, None, [], "http://example.org/another", d.get("id", "") + " ", (d.get("id") or "x").upper() + "X", near(d["id"], b), near(d["id"], b), near(d["id"], b)][a % 10]
    return "id %r" % (d["id"],)


@rule
def bad_type(d, a, b, c):
    d["type"] = BADTYPE[a % len(BADTYPE)]
    return "type %r" % (d["type"],)


@rule
def other_spec(d, a, b, c):
    t = d["type"]
    d["type"] = t.replace("1.1", "1.0") if "1.1" in t else t.replace("1.0", "1.1")
    return "type now %s" % d["type"]


@rule
def bad_alg(d, a, b, c):
    d["digestAlgorithm"] = (BADALG + ["sha256" if d["digestAlgorithm"] == "sha512" else "sha512"] * 3)[a % (len(BADALG) + 3)]
    return "digestAlgorithm %r" % (d["digestAlgorithm"],)


@rule
def bad_head(d, a, b, c):
    d["head"] = ["v%d" % (len(d["versions"]) + 1), P(d["versions"], b), "v0", "", 5, None, d["head"].upper(), d["head"] + " ", [d["head"]], "v0" + d["head"][1:], d["head"] + "\n"][a % 11]
    return "head %r" % (d["head"],)


@rule
def bad_cd(d, a, b, c):
    d["contentDirectory"] = (BADCD + ["other"])[a % (len(BADCD) + 1)]
    return "contentDirectory %r" % (d["contentDirectory"],)


@rule
def bad_created(d, a, b, c):
    v = ver(d, a)
    d["versions"][v]["created"] = BADCREATED[b % len(BADCREATED)]
    return "%s created %r" % (v, d["versions"][v]["created"])


@rule
def del_version_key(d, a, b, c):
    v = ver(d, a)
    k = ["created", "state"][b % 2]
    d["versions"][v].pop(k, None)
    return "%s no %s" % (v, k)


@rule
def junk_version_key(d, a, b, c):
    v = ver(d, a)
    k = ["created", "state", "message", "user", "user"][b % 5]
    d["versions"][v][k] = copy.deepcopy(JUNK[c % len(JUNK)])
    return "%s %s is %r" % (v, k, d["versions"][v][k])


@rule
def bad_user(d, a, b, c):
    v = ver(d, a)
    d["versions"][v]["user"] = copy.deepcopy([{}, {"address": "mailto:a@b"}, {"name": 5}, {"name": None}, {"name": "x", "address": 5}, {"name": "x", "address": None}, {"name": []}, "Alice", ["x"], {"Name": "x"}][b % 10])
    return "%s user %r" % (v, d["versions"][v]["user"])


@rule
def version_name(d, a, b, c):
    v = ver(d, a)
    n = BADVERS[b % len(BADVERS)]
    if n in d["versions"]:
        return None
    if c % 2:
        d["versions"][n] = copy.deepcopy(d["versions"][v])
    else:
        d["versions"][n] = d["versions"].pop(v)
        if d["head"] == v:
            d["head"] = n
    return "version %r from %s" % (n, v)


@rule
def drop_version(d, a, b, c):
    v = ver(d, a)
    del d["versions"][v]
    return "no version " + v


@rule
def add_version(d, a, b, c):
    n = len(d["versions"])
    h = d["head"]
    new = "v%d" % (n + 1) if not h.startswith("v0") else "v%0*d" % (len(h) - 1, n + 1)
    d["versions"][new] = copy.deepcopy(d["versions"][h])
    if b % 2:
        d["head"] = new
    return "extra version " + new


@rule
def junk_version(d, a, b, c):
    v = ver(d, a)
    d["versions"][v] = copy.deepcopy(JUNK[b % len(JUNK)])
    return "version %s is %r" % (v, d["versions"][v])


@rule
def state_path(d, a, b, c):
    """A bad logical path."""
    v = ver(d, a)
    st = d["versions"][v]["state"]
    dg = P(st, b)
    if dg is None:
        return None
    p = copy.deepcopy(BADPATH[c % len(BADPATH)])
    if b % 2:
        st[dg].append(p)
    else:
        st[dg][b % len(st[dg])] = p
    return "%s logical path %r" % (v, p)


@rule
def state_dup(d, a, b, c):
    """Logical path repeated, or both file and directory."""
    v = ver(d, a)
    st = d["versions"][v]["state"]
    paths = [(dg, p) for dg in st for p in st[dg]]
    x = P(paths, b)
    if x is None:
        return None
    other = P(st, c)
    new = [x[1], x[1] + "/x", x[1] + "/x/y/z", x[1].split("/")[0]][c % 4]
    st[other].append(new)
    return "%s also %r" % (v, new)


@rule
def state_digest(d, a, b, c):
    """Digest in state not (exactly) that of the manifest."""
    v = ver(d, a)
    st = d["versions"][v]["state"]
    dg = P(st, b)
    if dg is None:
        return None
    new = [dg.swapcase(), dg[:-1], dg + "0", refocfl.dig(d["digestAlgorithm"], b"nothing"), "", "z" * len(dg), dg[1:] + dg[0], " " + dg][c % 8]
    if new == dg:
        return None
    st[new] = st.pop(dg)
    return "%s state digest %.20r" % (v, new)


@rule
def state_swap(d, a, b, c):
    """Two digests exchange their logical paths in one version."""
    v = ver(d, a)
    st = d["versions"][v]["state"]
    x, y = P(st, b), P(st, c)
    if x is None or x == y:
        return None
    st[x], st[y] = st[y], st[x]
    return "%s states swapped" % v


@rule
def state_drop(d, a, b, c):
    v = ver(d, a)
    st = d["versions"][v]["state"]
    dg = P(st, b)
    if dg is None:
        return None
    if len(st[dg]) > 1 and c % 2:
        st[dg].pop()
    else:
        del st[dg]
    return "%s state lost a path" % v


@rule
def state_add(d, a, b, c):
    """An extra logical path in one version."""
    v = ver(d, a)
    st = d["versions"][v]["state"]
    dg = P(d["manifest"], b)
    if dg is None:
        return None
    st.setdefault(dg, []).append("brand new name")
    return "%s state got a path" % v


@rule
def state_rename(d, a, b, c):
    v = ver(d, a)
    st = d["versions"][v]["state"]
    dg = P(st, b)
    if dg is None or not st[dg]:
        return None
    st[dg][0] = st[dg][0] + "-renamed"
    return "%s state renamed a path" % v


@rule
def state_junk(d, a, b, c):
    v = ver(d, a)
    st = d["versions"][v]["state"]
    dg = P(st, b)
    if dg is None:
        return None
    st[dg] = copy.deepcopy(JUNK[c % len(JUNK)])
    return "%s state entry %r" % (v, st[dg])


@rule
def man_path(d, a, b, c):
    """A bad content path."""
    m = d["manifest"]
    dg = P(m, a)
    if dg is None:
        return None
    old = m[dg][b % len(m[dg])]
    v, cd = old.split("/")[:2]
    bad = [x if not isinstance(x, str) else x for x in BADPATH] + [v + "/" + cd, v, v + "/other/x", "v99/" + cd + "/x", v + "/" + cd + "/../x", v + "/" + cd + "//x", v + "/" + cd + "/x/", "/" + old, old + "/", "V1/" + cd + "/x",
                                                                  v + "/" + cd + "/", v + "/" + cd + "/./x", old + "-absent", v.replace("v", "v0") + old[len(v):], "v1/" + cd + "/a\nb/../c", old + "\n"]
    p = copy.deepcopy(bad[c % len(bad)])
    if a % 2:
        m[dg].append(p)
    else:
        m[dg][b % len(m[dg])] = p
    return "content path %r" % (p,)


@rule
def man_dup(d, a, b, c):
    """Content path listed twice or under two digests, or both file and directory."""
    m = d["manifest"]
    x, y = P(m, a), P(m, b)
    if x is None:
        return None
    p = m[x][0]
    new = [p, p + "/x", p + "/x/y", "/".join(p.split("/")[:3])][c % 4]
    m[y].append(new)
    return "content path also %r" % new


@rule
def man_digest(d, a, b, c):
    m = d["manifest"]
    dg = P(m, a)
    if dg is None:
        return None
    new = [dg.swapcase(), dg[:-1], dg + "0", refocfl.dig(d["digestAlgorithm"], b"nothing"), "", "z" * len(dg), dg[1:] + dg[0], " " + dg, dg + "\n"][b % 9]
    if new == dg:
        return None
    paths = m.pop(dg)
    m[new] = paths
    if c % 2:
        for v in d["versions"].values():
            if dg in v["state"]:
                v["state"][new] = v["state"].pop(dg)
    return "manifest digest %.20r" % new


@rule
def man_case_dup(d, a, b, c):
    """Same digest twice in different letter case."""
    m = d["manifest"]
    dg = P(m, a)
    if dg is None or dg.swapcase() == dg:
        return None
    m[dg.swapcase()] = [m[dg].pop()] if len(m[dg]) > 1 else ["/".join(m[dg][0].split("/")[:2]) + "/case"]
    return "digest twice"


@rule
def man_swap(d, a, b, c):
    m = d["manifest"]
    x, y = P(m, a), P(m, b)
    if x is None or x == y:
        return None
    m[x], m[y] = m[y], m[x]
    return "manifest paths swapped"


@rule
def man_drop(d, a, b, c):
    m = d["manifest"]
    dg = P(m, a)
    if dg is None:
        return None
    if len(m[dg]) > 1 and b % 2:
        m[dg].pop()
    elif b % 3 == 0:
        m[dg] = []
    else:
        del m[dg]
    return "manifest lost %.10s" % dg


@rule
def man_unused(d, a, b, c):
    m = d["manifest"]
    v = ver(d, b)
    cd = d.get("contentDirectory", "content")
    m[refocfl.dig(d["digestAlgorithm"], b"unused")] = [["%s/%s/unused" % (v, cd)], []][a % 2]
    return "unused digest"


@rule
def man_junk(d, a, b, c):
    m = d["manifest"]
    dg = P(m, a)
    if dg is None:
        return None
    m[dg] = copy.deepcopy(JUNK[b % len(JUNK)])
    return "manifest entry %r" % (m[dg],)


@rule
def fix(d, a, b, c):
    paths = sorted(p for pl in d["manifest"].values() for p in pl)
    p = paths[a % len(paths)] if paths else "v1/content/none"
    f = d.setdefault("fixity", {})
    if not isinstance(f, dict):
        return None
    m5 = refocfl.dig("md5", b"")
    opts = [("unknown", {m5: [p]}), ("md5", []), ("md5", {m5: p}), ("md5", {m5[:-1]: [p]}), ("md5", {"z" * 32: [p]}), ("md5", {m5: ["v1/content/absent"]}),
            ("md5", {m5: [5]}), ("md5", {m5: [None]}), ("md5", {m5: [[p]]}), ("md5", {m5: {}}), ("sha1", {m5: [p]}), ("MD5", {m5: [p]}), ("md5", {m5: [p], m5.upper(): [p]}), ("md5", "x"), ("sha512", {refocfl.dig("sha512", b"wrong"): [p]}),
            ("md5", {m5: [p + "/x"]}), ("blake2b-512", {refocfl.dig("blake2b-512", b"wrong"): [p]}), ("md5", None), ("md5", {m5 + "\n": [p]})]
    k, v = opts[b % len(opts)]
    f[k] = v
    return "fixity %s %.60r" % (k, v)


def tidy(d):
    """Remove what no version uses."""
    used = {g.lower() for v in d["versions"].values() for g in v["state"]}
    for g in list(d["manifest"]):
        if g.lower() not in used:
            del d["manifest"][g]
    left = {p for ps in d["manifest"].values() for p in ps}
    for blk in (d.get("fixity") or {}).values():
        for g in list(blk):
            blk[g] = [p for p in blk[g] if p in left]
            if not blk[g]:
                del blk[g]


@rule
def fewer_versions(d, a, b, c):
    """The inventory of an earlier moment: the last versions and what only they use are gone."""
    for _ in range(1 + a % 2):
        if len(d["versions"]) > 1:
            del d["versions"][d["head"]]
            d["head"] = refocfl.version_seq(list(d["versions"]))[-1]
    if b % 4:
        tidy(d)
    return "only up to " + d["head"]


@rule
def rename_all(d, a, b, c):
    """All version names with another padding."""
    w = [0, 2, 3, 4, 6][a % 5]
    names = {v: "v%0*d" % (w, int(v[1:])) for v in d["versions"]}
    if b % 5 == 0:
        names[d["head"]] = d["head"]
    d["versions"] = {names[v]: x for v, x in d["versions"].items()}
    d["head"] = names[d["head"]]

    def new(p):
        v, _, r = p.partition("/")
        return names.get(v, v) + "/" + r
    if c % 3:
        d["manifest"] = {g: [new(p) for p in ps] for g, ps in d["manifest"].items()}
        for blk in (d.get("fixity") or {}).values():
            for g in blk:
                blk[g] = [new(p) for p in blk[g]]
    return "versions now %s" % sorted(names.values())[:3]


@rule
def many_versions(d, a, b, c):
    """Up to and over the limit of the padding."""
    w = len(d["head"]) - 1 if d["head"].startswith("v0") else 0
    n = [9, 10, 11, 12, 13][a % 5] if w != 3 else [98, 99, 100, 101, 102][a % 5]
    st = d["versions"][d["head"]]
    for i in range(len(d["versions"]) + 1, n + 1):
        d["versions"]["v%0*d" % (w, i)] = copy.deepcopy(st)
        d["head"] = "v%0*d" % (w, i)
    return "now %d versions" % n


@rule
def wrong_digest(d, a, b, c):
    """A well-formed digest of something else wherever the digest stands."""
    dg = P(d["manifest"], a)
    if dg is None:
        return None
    new = refocfl.dig(d["digestAlgorithm"], b"something else")
    if dg != dg.lower():
        new = new.upper()
    for m in [d["manifest"]] + [v["state"] for v in d["versions"].values()]:
        if dg in m:
            m[new] = m.pop(dg)
    return "digest %.10s is of other content" % dg


@rule
def merge_content(d, a, b, c):
    """A content path under the digest of another, consistently."""
    x, y = P(d["manifest"], a), P(d["manifest"], b)
    if x is None or x == y:
        return None
    d["manifest"][y] += d["manifest"].pop(x)
    for v in d["versions"].values():
        if x in v["state"]:
            v["state"].setdefault(y, []).extend(v["state"].pop(x))
    return "contents merged"


@rule
def deep_conflict(d, a, b, c):
    """A path that is both file and directory, some levels apart, under another digest or the same, first or last."""
    where = [d["manifest"]] + [v["state"] for v in d["versions"].values()]
    m = where[a % len(where)]
    dg = P(m, b)
    if dg is None:
        return None
    p = m[dg][0]
    new = p + ["/x", "/x/y", "/x/y/z/0", "/" + p.rsplit("/", 1)[-1]][c % 4]
    other = P(m, b // 7)
    m[other].insert(c // 4 % (len(m[other]) + 1), new)
    return "%r and %r" % (p, new)


@rule
def set_cd(d, a, b, c):
    """contentDirectory spelled out, or left out."""
    if "contentDirectory" in d and a % 2:
        del d["contentDirectory"]
        return "no contentDirectory"
    d["contentDirectory"] = "content"
    return "contentDirectory content"


def walk_junk(d, a, b, c):
    """Replace a random node of the JSON by junk, remove it or duplicate it."""
    nodes = []

    def go(x, path):
        if isinstance(x, dict):
            for k in x:
                nodes.append((x, k, path + (k,)))
                go(x[k], path + (k,))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                nodes.append((x, i, path + (i,)))
                go(y, path + (i,))
    go(d, ())
    if not nodes:
        return None
    x, k, path = nodes[a % len(nodes)]
    if b % 4 == 0:
        del x[k]
    elif b % 4 == 1 and isinstance(x, dict):
        x[[k + "x", k.upper(), "", k + " ", k[:-1]][c % 5]] = x[k] if c % 2 else x.pop(k)
    else:
        x[k] = copy.deepcopy(JUNK[c % len(JUNK)])
    return "node %s changed" % ("/".join(str(y)[:16] for y in path))


@rule
def reshape(d, a, b, c):
    """The same content as a value of another type."""
    nodes = {}

    def go(x, n, path):
        for k in (list(x) if isinstance(x, dict) else range(len(x))):
            q = path + (k,)
            nodes.setdefault(n, []).append((x, k, q))
            if isinstance(x[k], (dict, list)):
                go(x[k], n + 1, q)
    go(d, 0, ())
    if not nodes:
        return None
    level = nodes[a % len(nodes)]
    x, k, path = level[b % len(level)]
    v = x[k]
    if isinstance(v, dict):
        new = [list(v), list(v.values()), [v], [[i, v[i]] for i in v], json.dumps(v), {"0": v}, [{i: v[i]} for i in v]]
    elif isinstance(v, list):
        new = [{str(i): 1 for i in v}, {str(i): i for i in v}, {str(n): i for n, i in enumerate(v)}, v[0] if v else "", [v], [[i] for i in v], ",".join(map(str, v)), [{"path": i} for i in v], {"": v}]
    else:
        new = [[v], {"value": v}, {str(v): v}, [str(v), str(v)], {str(v): []}, [[v]], {}, []]
    x[k] = new[c % len(new)]
    return "node %s from %s to %s (%d)" % ("/".join(str(y)[:16] for y in path), type(v).__name__, type(x[k]).__name__, c % len(new))


FRULES = {}


def frule(fn):
    FRULES[fn.__name__] = fn
    return fn


def seal(files, at, raw):
    files[at] = raw
    for x in [x for x in files if x.startswith(at + ".")]:
        files[x] = (refocfl.dig(x[len(at) + 1:], raw) + " inventory.json\n").encode()


@frule
def reformat(files, a, b, c):
    """Root inventory and that of the head with the same value but other bytes."""
    raw = files["inventory.json"]
    twin = [x for x in files if x.endswith("/inventory.json") and files[x] == raw]
    if not twin:
        return None
    d = json.loads(raw)
    pad = [0, 1, 5000, 300000][c % 4]
    first = json.dumps(d, indent=1).encode()
    first = first[:-1] + b" " * pad + b"\n}"
    other = [first[:-2] + b" }", first + b"\n", b" " + first, first[:-2] + b"}", first[:1] + b" " + first[2:], json.dumps(d, indent=2).encode(), json.dumps(d).encode(),
             json.dumps({k: d[k] for k in reversed(list(d))}, indent=1).encode(), first.replace(b"\n", b"\r\n"), first[:-2] + b"\t}", first + b" ", first.replace(b" ", b"\t")][b % 12]
    ab = [first, other] if a % 2 else [other, first]
    seal(files, "inventory.json", ab[0])
    seal(files, twin[0], ab[1])
    return "same inventory, other bytes (%d)" % (b % 12)


@frule
def old_digest(files, a, b, c):
    """A wrong digest in a prior inventory of another algorithm than the root's."""
    root = refocfl.load_inv(files["inventory.json"])
    pri = [x for x in sorted(files) if x.endswith("/inventory.json") and refocfl.load_inv(files[x]) and refocfl.load_inv(files[x]).get("digestAlgorithm") != root["digestAlgorithm"]]
    if not pri:
        return None
    at = pri[a % len(pri)]
    d = refocfl.load_inv(files[at])
    desc = wrong_digest(d, b, 0, 0) if c % 3 else merge_content(d, b, c, 0)
    if desc is None:
        return None
    seal(files, at, json.dumps(d).encode())
    return "%s: %s" % (at, desc)


@frule
def cd_from(files, a, b, c):
    """contentDirectory given in some of the inventories only."""
    invs = sorted(x for x in files if x.endswith("inventory.json") and (x == "inventory.json" or x.count("/") == 1))
    raw = files["inventory.json"]
    did = []
    for i, x in enumerate(invs):
        d = refocfl.load_inv(files[x])
        if files[x] == raw and x != "inventory.json":
            continue
        if a >> i & 1:
            d["contentDirectory"] = d.get("contentDirectory", "content")
        elif d.get("contentDirectory", "content") == "content":
            d.pop("contentDirectory", None)
        did.append("%s %s" % (x, "contentDirectory" in d))
        new = json.dumps(d).encode()
        if x == "inventory.json":
            for y in invs:
                if y != x and files[y] == raw:
                    seal(files, y, new)
        seal(files, x, new)
    return "contentDirectory: %s" % did


@frule
def lose_copy(files, a, b, c):
    """One of several content paths of a digest left out of a prior inventory."""
    raw = files["inventory.json"]
    cand = []
    for x in sorted(files):
        if x.endswith("/inventory.json") and files[x] != raw:
            d = refocfl.load_inv(files[x])
            cand += [(x, g, i) for g, ps in d["manifest"].items() if len(ps) > 1 for i in range(len(ps))]
    if not cand:
        return None
    at, g, i = cand[a % len(cand)]
    d = refocfl.load_inv(files[at])
    path = d["manifest"][g].pop(i)
    for blk in (d.get("fixity") or {}).values():
        for k in list(blk):
            blk[k] = [p for p in blk[k] if p != path]
            if not blk[k]:
                del blk[k]
    seal(files, at, json.dumps(d).encode())
    return "%s: without %s" % (at, path)


def gen(rng, junk=0.1):
    return {"rule": rng.choice(["walk", "walk", "reshape"]) if rng.random() < junk else rng.choice(sorted(RULES) + sorted(FRULES) * 2), "where": rng.randrange(1000), "only": rng.random() < 0.15,
            "a": rng.randrange(1 << 30), "b": rng.randrange(1 << 30), "c": rng.randrange(1 << 30)}


def apply(files, m):
    """Rewrite one inventory of files in place; description or None."""
    from . import damage
    invs = sorted(x for x in files if damage.INV.match(x))
    if not invs:
        return None
    if m["rule"] in FRULES:
        try:
            return FRULES[m["rule"]](files, m["a"], m["b"], m["c"])
        except (KeyError, TypeError, AttributeError, IndexError, ValueError):
            return None
    where = "inventory.json" if m["where"] % 2 else invs[m["where"] // 2 % len(invs)]
    if where not in files:
        return None
    d = refocfl.load_inv(files[where])
    if not isinstance(d, dict):
        return None
    fn = walk_junk if m["rule"] == "walk" else RULES[m["rule"]]
    old = copy.deepcopy(d)
    try:
        desc = fn(d, m["a"], m["b"], m["c"])
    except (KeyError, TypeError, AttributeError, IndexError, ValueError, ZeroDivisionError):
        return None             # already broken by an earlier rewrite
    if desc is None or d == old:
        return None
    damage.put_inv(files, where, d, both=not m["only"])
    return "%s: %s" % (where, desc)
