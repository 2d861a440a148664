"""C18 BagIt transfers carry a version unchanged or are refused."""
import codecs
import re

import ocfl
from ocfl import bagger

from .. import faults as F, gen as G, lib, model, refocfl
from ..base import Res
from ..gen import blob
from ..simos import MNT
from ..world import outcome

RULE = "a scenario takes an object, turns seeded versions into bags (judged by an independent RFC 8493 reader), imports bags of many shapes, intact or damaged in a seeded way, as first or next version with and without explicit metadata, and round-trips versions through a bag; distinct = (direction, bag shape, damage kind, file class hit, metadata given, outcome)"
N = {"quick": 6000, "thorough": 100000}
DAMAGE = ["flip", "flip", "truncate", "append", "empty", "remove", "remove", "swap", "extra", "extra", "rename", "fetch", "oxum", "manline", "mandrop", "todir", "unlist", "stale", "encoding", "version"]


def gen(rng, tier):
    g = G.G(rng, big=0.02)
    s = g.history(nmax=3, foreign=0.4)
    s["order"] = rng.randrange(1000)
    s["points"] = []
    for _ in range(8 if tier == "quick" else 30):
        k = rng.choice(["out", "in", "in", "in", "round"])
        p = {"k": k, "v": rng.randrange(8), "date": rng.random() < 0.5, "premade": rng.random() < 0.3}
        if k == "in":
            p["files"] = g.tree(0, 5)
            p["first"] = rng.random() < 0.4
            p["shape"] = {"algs": rng.choice([["sha512"], ["sha512"], ["md5"], ["sha256"], ["sha1"], ["sha256", "sha512"], ["md5", "sha1"]]),
                          "ver": rng.choice(["0.97", "0.97", "1.0", "1.0", "0.96"]), "tagman": rng.random() < 0.75, "upper": rng.random() < 0.1,
                          "star": rng.random() < 0.1, "oxum": rng.random() < 0.7, "tags": rng.random() < 0.2, "fetch": rng.random() < 0.1,
                          "crlf": rng.random() < 0.05, "fold": rng.random() < 0.1}
            p["info"] = info(rng, s["cfg"]["id"])
            p["mid"] = rng.choice([None, None, "urn:given"])
            p["meta"] = {a: b for a, b in g.meta().items() if b} if rng.random() < 0.5 else {}
            if rng.random() < 0.15:
                p["meta"].pop("name", None)
                p["meta"].pop("address", None)
                p["meta"].update(rng.choice([{"address": "mailto:only@address"}, {"name": "only name"}]))
            p["damage"] = [{"kind": rng.choice(DAMAGE), "a": rng.randrange(1 << 30), "b": rng.randrange(1 << 30), "c": rng.randrange(1 << 30)} for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))]
        s["points"].append(p)
    return s


def info(rng, ident):
    out = []
    if rng.random() < 0.6:
        out.append(["External-Identifier", rng.choice([ident or "x", "urn:another"])])
    if rng.random() < 0.6:
        out.append(["External-Description", rng.choice(["bag message", "m\u00fcll", "x:y: z"])])
    if rng.random() < 0.6:
        out.append(["Contact-Name", "Bag P\u00ebrson"])
    if rng.random() < 0.5:
        out.append(["Contact-Email", "bag@example.org"])
    if rng.random() < 0.4:
        out.append(["Bagging-Date", "2019-08-07"])
    if rng.random() < 0.3:
        out.append(["Source-Organization", "Somewhere"])
    x = rng.random()
    if x < 0.06:
        out.append(["Bagging-Date", rng.choice(["yesterday", "2019", "2019-08-07T01:02:03Z", "", "2019-13-45", "08/07/2019"])])
    elif x < 0.12:
        out.append([rng.choice(["External-Description", "Contact-Name", "Contact-Email", "External-Identifier"]), "said twice"])
    elif x < 0.16:
        out.append([rng.choice(["External-Description", "Contact-Name", "Contact-Email"]), ""])
    rng.shuffle(out)
    return out


def pack(p):
    """{relpath: bytes} of the bag p asks for."""
    sh = p["shape"]
    files = {a: blob(c) for a, c in p["files"].items()}
    out = {"bagit.txt": ("BagIt-Version: %s\nTag-File-Character-Encoding: UTF-8\n" % sh["ver"]).encode()}
    for a, d in files.items():
        out["data/" + a] = d

    def dg(alg, d):
        x = refocfl.dig(alg, d)
        return x.upper() if sh["upper"] else x
    for alg in sh["algs"]:
        out["manifest-%s.txt" % alg] = "".join("%s %sdata/%s\n" % (dg(alg, d), "*" if sh["star"] else " ", esc(a, sh["ver"])) for a, d in sorted(files.items())).encode()
    tags = list(p["info"])
    if sh["oxum"]:
        tags.append(["Payload-Oxum", "%d.%d" % (sum(map(len, files.values())), len(files))])
    out["bag-info.txt"] = "".join("%s: %s\n" % (k, v.replace(" ", "\n   ", 1) if sh["fold"] and k == "Source-Organization" else v) for k, v in tags).encode()
    if sh["tags"]:
        out["extra-tags/about.txt"] = b"more about this bag\n"
    if sh["fetch"] and files:
        a = sorted(files)[0]
        out["fetch.txt"] = ("http://example.org/f %d data/%s\n" % (len(files[a]), esc(a, sh["ver"]))).encode()
    if sh["crlf"]:
        for k in out:
            if "/" not in k:
                out[k] = out[k].replace(b"\n", b"\r\n")
    if sh["tagman"]:
        for alg in sh["algs"]:
            out["tagmanifest-%s.txt" % alg] = "".join("%s  %s\n" % (dg(alg, d), k) for k, d in sorted(out.items()) if not k.startswith("data/") and not k.startswith("tagman")).encode()
    return out


def esc(a, ver):
    return a.replace("\n", "%0A").replace("\r", "%0D")


def spoil(bag, d):
    """Damage a bag in place; (description, file) or None."""
    k = d["kind"]
    names = sorted(bag)
    f = names[d["a"] % len(names)]
    pay = [x for x in names if x.startswith("data/")]
    if pay and d["c"] % 2:
        f = pay[d["a"] % len(pay)]
    mans = [x for x in names if x.startswith("manifest-") and x.endswith(".txt")]
    if k == "flip":
        if not bag[f]:
            return None
        b = bytearray(bag[f])
        b[d["b"] % len(b)] ^= 1 << (d["c"] // 2 % 8)
        bag[f] = bytes(b)
    elif k == "truncate":
        if not bag[f]:
            return None
        bag[f] = bag[f][:d["b"] % len(bag[f])]
    elif k == "append":
        bag[f] += b"x"
    elif k == "empty":
        if not bag[f]:
            return None
        bag[f] = b""
    elif k == "remove":
        del bag[f]
    elif k == "swap":
        g = names[d["b"] % len(names)]
        if bag[g] == bag[f]:
            return None
        bag[f], bag[g] = bag[g], bag[f]
        f += " and " + g
    elif k == "extra":
        f = ["data/extra", "data/deep/er/extra", "manifest-md5.txt", "data/.hidden", "stray.txt"][d["b"] % 5]
        if f in bag or any(x.startswith(f + "/") or f.startswith(x + "/") for x in bag):
            return None
        bag[f] = [b"", b"extra"][d["c"] // 2 % 2]
    elif k == "rename":
        g = f + "~"
        bag[g] = bag.pop(f)
    elif k == "fetch":
        bag["fetch.txt"] = b"http://example.org/missing 10 data/notyet\n"
        f = "fetch.txt"
        for m in mans:
            if d["b"] % 3:
                bag[m] += ("%s  data/notyet\n" % refocfl.dig(m[9:-4], b"0123456789")).encode()
    elif k == "oxum":
        f = "bag-info.txt"
        if f not in bag or b"Payload-Oxum: " not in bag[f]:
            return None
        bag[f] = bag[f].replace(b"Payload-Oxum: ", b"Payload-Oxum: 1")
    elif k in ("manline", "mandrop", "unlist"):
        if not mans:
            return None
        f = mans[d["a"] % len(mans)]
        if k == "mandrop":
            del bag[f]
        elif k == "manline":
            ls = bag[f].split(b"\n")
            i = d["b"] % len(ls)
            if not ls[i]:
                return None
            ls[i] = refocfl.dig(f[9:-4], b"other").encode() + ls[i][ls[i].index(b" "):] if b" " in ls[i] else b"?"
            bag[f] = b"\n".join(ls)
        else:
            n = len(bag[f].split(b"\n")) - 1
            if n < 1:
                return None
            for m in mans:
                ls = bag[m].split(b"\n")
                if len(ls) > n:
                    del ls[d["b"] % n]
                bag[m] = b"\n".join(ls)
    elif k == "todir":
        bag.pop(f)
        bag[f + "/inside"] = b"x"
    elif k == "stale":
        if not pay:
            return None
        f = pay[d["a"] % len(pay)]
        bag[f] = bag[pay[d["b"] % len(pay)]] + b""
    elif k == "encoding":
        f = "bagit.txt"
        bag[f] = [b"", b"BagIt-Version: 0.97\n", b"Tag-File-Character-Encoding: UTF-8\n", b"\xef\xbb\xbfBagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n", b"BagIt-Version: 0.97\nTag-File-Character-Encoding: nonesuch\n"][d["b"] % 5]
    elif k == "version":
        f = "bagit.txt"
        bag[f] = b"BagIt-Version: " + [b"0.97x", b"3.0", b"one", b""][d["b"] % 4] + b"\nTag-File-Character-Encoding: UTF-8\n"
    return "%s %s" % (k, f)


def sound(bag, p):
    """Problems that make a bag damaged or incomplete (RFC 8493 reading that does
    not depend on the bagit library); empty also when it is only odd, as with other
    characters that separate lines."""
    a = problems(bag, lambda t: t.split("\n"))
    return a and (problems(bag, str.splitlines) and a)


def problems(bag, lines):
    out = []
    b = bag.get("bagit.txt")
    if b is None or not re.search(rb"(?i)BagIt-Version\s*:", b) or not encoded(b):
        out.append("bagit.txt")
    mans = [k for k in bag if k.startswith("manifest-") and k.endswith(".txt")]
    if not mans:
        out.append("no manifest")
    pay = {k for k in bag if k.startswith("data/")}
    listed = set()
    for m in mans + [k for k in bag if k.startswith("tagmanifest-") and k.endswith(".txt")]:
        alg = m.rsplit("-", 1)[1][:-4]
        for line in lines(bag[m].decode("utf-8", "replace")):
            x = line.strip().split(None, 1)
            if len(x) != 2 or line.strip().startswith("#"):
                continue
            name = x[1].lstrip("*")
            cand = [c for c in (name, F.bag_decode(name), name.strip()) if c in bag]
            if not cand:
                out.append("%s lists missing %s" % (m, name))
                continue
            listed.add(cand[0])
            if alg in refocfl.ALGS and refocfl.dig(alg, bag[cand[0]]) != x[0].lower():
                out.append("%s digest of %s" % (m, name))
    if pay - listed:
        out.append("not listed: %s" % sorted(pay - listed)[:2])
    for line in bag.get("bag-info.txt", b"").decode("utf-8", "replace").split("\n"):
        if line.startswith("Payload-Oxum: ") and line[14:].strip() != "%d.%d" % (sum(len(bag[x]) for x in pay), len(pay)):
            out.append("oxum")
    return out


def encoded(b):
    """Whether bagit.txt names UTF-8 as the encoding, however spelt."""
    m = re.search(rb"(?i)Tag-File-Character-Encoding\s*:\s*(\S+)", b)
    try:
        return m is not None and codecs.lookup(m.group(1).decode("latin-1")).name == "utf-8"
    except (LookupError, ValueError):
        return False


def speakable(path):
    """Names every bag tool can express and give back."""
    return not any(c in path for c in "%\n\r\\") and path == path.strip() and not path.startswith(("~", "*")) and "$" not in path and all(x == x.strip() for x in path.split("/"))


def clear(paths):
    import unicodedata
    n = [unicodedata.normalize("NFC", x) for x in paths]
    return all(speakable(x) for x in paths) and len(set(n)) == len(n)


def run(s):
    R = Res()
    with R.sim(1, order=s["order"]) as w:
        h, m, stop = lib.run_history(w, s)
        if stop or not m.versions:
            return R
        R.runs -= 1
        base = h.snap()
        for p in s["points"]:
            h.put(base)
            R.runs += 1
            {"out": bag_out, "in": bag_in, "round": bag_round}[p["k"]](s, w, h, m.clone(), p, R)
    return R


def make(s, w, h, m, p):
    i = p["v"] % len(m.versions)
    vd = lib.vname(h, i + 1)
    dst = h.fresh("bag")
    if p["premade"]:
        w.disk.h_mkdirs(dst)

    def f():
        md = lib.mkobj(s["cfg"]).extract(h.url, vd, dst)
        bagger.bag_extracted_version(dst, md, p["date"])
        return md
    t0 = w.clock
    return m.versions[i], dst, outcome(f), t0


def ident_of(h):
    return refocfl.load_inv(h.snap()[0]["inventory.json"])["id"]


def bag_out(s, w, h, m, p, R):
    mv, dst, r, t0 = make(s, w, h, m, p)
    before = h.snap()
    ok = clear(mv["state"])
    R.nontrivial = True
    R.state("out", r[0], ok, len(mv["state"]), sorted(k for k in mv["meta"]), p["date"], s["cfg"]["backend"])
    R.probe("out-%s%s" % (r[0], "" if ok else "-odd"))
    if r[0] == "ok":
        snap = w.disk.snapshot(dst)
        bad = F.bag_wrong(snap, mv, ident_of(h))
        day = F.bag_tags(snap[0].get("bag-info.txt", b"")).get("Bagging-Date")
        want = mv["meta"].get("created") if p["date"] else None
        if want and day != want[:10]:
            bad.append("Bagging-Date %r for version created %s" % (day, want))
        if bad:
            R.V("bag-wrong", "%s" % bad[:3], {"points": [p]})
    elif r[0] == "err":
        if ok:
            R.V("bagging-refused", "%s for %s" % (r[1:], sorted(mv["state"])), {"points": [p]})
    else:
        R.V("no-outcome", str(r), {"points": [p]})
    if lib.diff_snap(before, h.snap()):
        R.V("bagging-changed-object", lib.diff_snap(before, h.snap()), {"points": [p]})


def meta_after(p):
    """Metadata the version should get, None where the bag is ambiguous."""
    got = {}
    for k, v in p["info"]:
        got.setdefault(k, []).append(v)
    meta = dict(p["meta"])
    unsure = set()
    for key, tag in (("message", "External-Description"), ("name", "Contact-Name"), ("address", "Contact-Email"), ("created", "Bagging-Date")):
        if key in meta or tag not in got:
            continue
        if len(got[tag]) > 1 or not got[tag][0]:
            unsure.add(key)
            continue
        v = got[tag][0]
        if key == "address":
            v = "mailto:" + v
        if key == "created":
            v += "T00:00:00Z"
        meta[key] = v
    return meta, unsure


def bag_in(s, w, h, m, p, R):
    cfg = s["cfg"]
    bag = pack(p)
    good = dict(bag)
    desc = [x for x in (spoil(bag, d) for d in p["damage"]) if x]
    probs = sound(bag, p)
    src = h.fresh("inbag")
    w.disk.h_mkdirs(src + "/data")
    for a, d in bag.items():
        w.disk.h_write(src + "/" + a, d)
    url = h.url
    if p["first"]:
        url = h.url.rsplit("/", 1)[0] + "/n%d" % h.nsrc
        h = lib.H(w, cfg, where=url)
        h.nsrc = 500
        m = model.Model()
    meta, unsure = meta_after(p)
    m.apply(cfg, {"op": "create" if p["first"] else "update", "files": p["files"], "meta": meta})
    alg = None if p["first"] else h.cur_alg()

    def f():
        md = lib.mkmeta(p["meta"])
        md.id = p["mid"]
        data = bagger.bag_as_source(src, md)
        if p["first"]:
            lib.mkobj(cfg).create(data, metadata=md, objdir=url)
        else:
            lib.mkobj(cfg, digest_algorithm=alg, fixity=None, identifier=None).add_version_with_content(objdir=url, srcdir=data, metadata=md)
        return md
    before = F.everything(w)
    r = outcome(f)
    after = F.everything(w)
    ctx = "%s damaged %s" % ("create" if p["first"] else "update", desc) if desc else ("create" if p["first"] else "update")
    odd = not clear(p["files"]) or p["shape"]["crlf"]
    R.nontrivial = True
    R.state("in", desc and [d["kind"] for d in p["damage"]], p["shape"], r[0], sorted(p["meta"]), sorted(k for k, _v in p["info"]), p["first"])
    for d in desc:
        R.fired["bag:" + d.split()[0]] = R.fired.get("bag:" + d.split()[0], 0) + 1
    R.probe("in-%s-%s" % ("broken" if probs else "damaged" if desc else "intact", r[0]))
    if r[0] == "err":
        d = F.diff_everything(before, after)
        if d:
            R.V("refused-import-left-traces", "%s: %s: %s" % (ctx, r[1:], d), {"points": [p]})
        strange = [k for k, v in p["info"] if k == "Bagging-Date" and len(v) != 10 or v in ("said twice", "", "2019-13-45", "08/07/2019")]
        name_missing = "address" in meta and "name" not in meta
        if not desc and not probs and not odd and not strange and not name_missing:
            R.V("intact-bag-refused", "%s: %s" % (ctx, r[1:]), {"points": [p]})
        return
    if r[0] != "ok":
        R.V("no-outcome", "%s: %s" % (ctx, r), {"points": [p]})
        return
    if probs and not odd:
        R.V("damaged-bag-accepted", "%s: %s" % (ctx, probs[:3]), {"points": [p]})
        return
    if desc and bag.get("bag-info.txt") != good["bag-info.txt"]:
        unsure |= {"message", "name", "address", "created"} - set(p["meta"])    # no tag manifest tells
    # what is stored must be the payload and the metadata
    snap = h.snap()
    bad = refocfl.validate(snap)
    if bad:
        R.V("import-nonconforming", "%s: %s (info %s, given %s)" % (ctx, bad[:3], p["info"], p["meta"]), {"points": [p]})
        return
    if any(k.startswith("data/") and good.get(k) != bag.get(k) for k in set(good) | set(bag)):
        m.versions[-1]["state"] = None      # damage the bag's own manifests agree with
    got = refocfl.read(snap)
    v, st, blk = got[-1]
    payload = {a[5:]: d for a, d in bag.items() if a.startswith("data/")}
    d = lib.diff_state(payload, st)
    if d:
        R.V("import-differs", "%s: %s" % (ctx, d), {"points": [p]})
    said = [v for k, v in p["info"] if k == "External-Identifier"]
    want = p["mid"] or (said[0] if said else None)
    if r[1].id != want and (p["mid"] or len(said) < 2 and all(said) and not (desc and bag.get("bag-info.txt") != good["bag-info.txt"])):
        R.V("import-identifier", "%s: identifier %r, expected %r" % (ctx, r[1].id, want), {"points": [p]})
    user = blk.get("user") or {}
    for k, g in (("message", blk.get("message")), ("name", user.get("name")), ("address", user.get("address")), ("created", blk.get("created"))):
        if k in unsure or (k == "created" and k not in meta):
            continue
        if g != meta.get(k):
            R.V("import-metadata", "%s: %s stored as %r, expected %r" % (ctx, k, g, meta.get(k)), {"points": [p]})
    del m.versions[-1]
    if m.versions:
        bad = F.seq_wrong(got[:-1], m)
        if bad or len(got) != len(m.versions) + 1:
            R.V("import-changed-history", "%s: %s" % (ctx, bad), {"points": [p]})


def bag_round(s, w, h, m, p, R):
    """Version -> bag -> version of another object."""
    mv, dst, r, _t = make(s, w, h, m, p)
    R.probe("round-%s" % r[0])
    if r[0] != "ok":
        return
    cfg = dict(s["cfg"], backend="local")
    h2 = lib.H(w, cfg, where=MNT + "/objs/round%d" % h.nsrc)

    def f():
        md = lib.mkmeta({})
        data = bagger.bag_as_source(dst, md)
        ocfl.Object(identifier=md.id, digest_algorithm=cfg["alg"], spec_version=cfg["spec"], content_path_normalization=cfg["norm"]).create(data, metadata=md, objdir=h2.url)
        return md
    r = outcome(f)
    R.probe("round2-%s" % r[0])
    R.nontrivial = True
    R.state("round", r[0], sorted(mv["meta"]), p["date"], len(mv["state"]))
    if r[0] == "err":
        noname = mv["meta"].get("address") and not mv["meta"].get("name")
        if clear(mv["state"]) and not noname:
            R.V("round-trip-refused", "%s: %s" % (r[1:], mv), {"points": [p]})
        return
    snap = h2.snap()
    bad = refocfl.validate(snap)
    got = refocfl.read(snap)
    if bad or got is None:
        R.V("round-trip-nonconforming", "%s" % bad[:3], {"points": [p]})
        return
    _v, st, blk = got[-1]
    d = lib.diff_state(lib.expect_state(mv), st)
    if d:
        R.V("round-trip-differs", d, {"points": [p]})
    user = blk.get("user") or {}
    addr = mv["meta"].get("address") or ""
    for k, g, want in (("message", blk.get("message"), mv["meta"].get("message")), ("name", user.get("name"), mv["meta"].get("name")),
                       ("address", user.get("address"), addr if addr.startswith("mailto:") else None)):
        if F.one_line(g) != F.one_line(want):
            R.V("round-trip-metadata", "%s is %r, was %r" % (k, g, want), {"points": [p]})
    if refocfl.load_inv(snap[0]["inventory.json"])["id"] != ident_of(h):
        R.V("round-trip-identifier", "%r" % ident_of(h), {"points": [p]})
