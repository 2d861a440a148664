"""Independent reference for storage roots: layout paths and root validation."""
import json
import re
from urllib.parse import quote_plus

from . import refocfl

NAMES = {"0002-flat-direct-storage-layout": "0002", "0002": "0002", "flat-direct": "0002",
         "0003-hash-and-id-n-tuple-storage-layout": "0003", "0003": "0003",
         "nnnn-flat-quoted-storage-layout": "fq", "flat-quoted": "fq",
         "nnnn-tuple-tree": "tt", "nnnn-tuple-tree-layout": "tt", "nnnn-uuid-quadtree": "uq"}
CANON = {"0002": "0002-flat-direct-storage-layout", "0003": "0003-hash-and-id-n-tuple-storage-layout",
         "fq": "nnnn-flat-quoted-storage-layout", "tt": None, "uq": "nnnn-uuid-quadtree"}
DEFAULTS = {"0003": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, "tt": {"tupleSize": 2}, "uq": {"prefix": "urn:uuid:"}}
LDIG = ("sha256", "sha512", "md5", "sha1")


def params_of(layout, params):
    """Effective parameters, None if they must be refused."""
    k = NAMES[layout]
    if params is None:
        return dict(DEFAULTS.get(k, {}))
    try:
        p = json.loads(params)
    except ValueError:
        return None
    if not isinstance(p, dict):
        return None
    if "extensionName" in p and CANON[k] is not None and p["extensionName"] != CANON[k]:
        return None
    if k == "0003":
        d, t, n = p.get("digestAlgorithm"), p.get("tupleSize"), p.get("numberOfTuples")
        if d not in LDIG or not isinstance(t, int) or not isinstance(n, int) or not 0 <= t <= 32 or not 0 <= n <= 32:
            return None
        if (t == 0) != (n == 0) or t * n > refocfl.LEN[d]:
            return None
        return {"digestAlgorithm": d, "tupleSize": t, "numberOfTuples": n}
    if k == "tt":
        t = p.get("tupleSize")
        return {"tupleSize": t} if isinstance(t, int) and 2 <= t <= 6 else None
    if k == "uq":
        x = p.get("prefix")
        return {"prefix": x} if isinstance(x, str) and x else None
    return {}


def ppath(ident):
    """Pairtree character encoding."""
    out = ""
    for c in ident:
        if ord(c) < 33 or ord(c) > 126 or c in '"*+,<=>?\\^|':
            out += "".join("^%02x" % b for b in c.encode("utf-8"))
        else:
            out += {"/": "=", ":": "+", ".": ","}.get(c, c)
    return out


def layout_path(layout, p, ident):
    """Path the layout prescribes, None if it has none for this identifier."""
    k = NAMES[layout]
    if ident == "":
        return None
    if k == "0002":
        return None if ident in (".", "..") or "/" in ident else ident
    if k == "0003":
        d = refocfl.dig(p["digestAlgorithm"], ident.encode("utf-8"))
        enc = "".join(c if re.fullmatch("[A-Za-z0-9_-]", c) else "".join("%%%02x" % b for b in c.encode("utf-8")) for c in ident)
        if len(enc) > 100:
            enc = enc[:100] + "-" + d
        t = p["tupleSize"]
        return "/".join([d[i * t:i * t + t] for i in range(p["numberOfTuples"])] + [enc])
    if k == "fq":
        q = quote_plus(ident)
        return None if q in (".", "..") else q
    if k == "tt":
        e = ppath(ident)
        t = p["tupleSize"]
        seg = [e[i:i + t] for i in range(0, len(e), t)]
        return "/".join(seg + [e])
    if k == "uq":
        if not ident.startswith(p["prefix"]):
            return None
        r = ident[len(p["prefix"]):]
        if not re.fullmatch(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", r):
            return None
        x = r.replace("-", "")
        return "/".join(x[i:i + 4] for i in range(0, 32, 4))
    raise AssertionError(layout)


def children(snap, path):
    return refocfl.listing(snap, path)


def sub(snap, path):
    pre = path + "/"
    return ({k[len(pre):]: v for k, v in snap[0].items() if k.startswith(pre)},
            {""} | {d[len(pre):] for d in snap[1] if d.startswith(pre)})


def recoded(data):
    """Whether data is JSON in another Unicode encoding, which some readers of JSON detect."""
    if data[:2] not in (b"\xff\xfe", b"\xfe\xff") and data[:3] != b"\xef\xbb\xbf" and b"\0" not in data[:4]:
        return False
    try:
        json.loads(data)
    except (ValueError, RecursionError):
        return False
    return True


def validate_root(snap, objects=True, lax=False):
    """(problems of the root itself, {object path: problems}, undecided).

    undecided is a list of features on which the specification leaves room."""
    files, dirs = snap
    prob, objs, soft = [], {}, []
    rf, rd = children(snap, "")
    decl = sorted(f for f in rf if f.startswith("0="))
    spec = None
    if len(decl) != 1:
        prob.append("E069 declarations %r" % decl)
    else:
        for s in ("1.0", "1.1"):
            if decl[0] == "0=ocfl_" + s:
                spec = s
        if spec is None:
            prob.append("E069 %r" % decl)
        elif files[decl[0]] != ("ocfl_%s\n" % spec).encode():
            prob.append("E080 declaration content")
    if any(d.startswith("0=") for d in rd):
        prob.append("E069 declaration is a directory")
    if "ocfl_layout.json" in rd:
        prob.append("E070 layout is a directory")
    if "ocfl_layout.json" in rf:
        d = refocfl.load_inv(files["ocfl_layout.json"])
        if recoded(files["ocfl_layout.json"]):
            soft.append("layout file in another encoding")
        if not isinstance(d, dict) or not isinstance(d.get("extension"), str) or not isinstance(d.get("description"), str):
            prob.append("E070 layout file")
        elif d["extension"] not in NAMES:
            prob.append("E071 layout %r" % d["extension"])
        else:
            k = NAMES[d["extension"]]
            for n in {d["extension"], CANON[k] or "nnnn-tuple-tree-layout"}:
                c = "extensions/%s/config.json" % n
                if c in dirs:
                    soft.append("config is a directory")
                if c in files:
                    cd = refocfl.load_inv(files[c])
                    if recoded(files[c]):
                        soft.append("config in another encoding")
                    if not isinstance(cd, dict) or not isinstance(cd.get("extensionName"), str):
                        prob.append("config.json of the layout")
                    elif cd["extensionName"] != n:
                        prob.append("config.json extensionName")
                    elif k in DEFAULTS and params_of(d["extension"], files[c].decode("utf-8")) is None:
                        prob.append("config.json parameters")
    if "extensions" in rf:
        soft.append("extensions is a file")
    if "extensions" in rd:
        ef, _ = children(snap, "extensions")
        if ef:
            prob.append("E086 %r" % ef)
    stack = [d for d in rd if d != "extensions"]
    while stack:
        d = stack.pop()
        f, dd = children(snap, d)
        if not f:
            if not dd:
                prob.append("E073 %r" % d)
            stack += [d + "/" + x for x in dd]
            continue
        zero = [x for x in f if x.startswith("0=")]
        if len(zero) != 1:
            prob.append("E072/E003 %r %r" % (d, zero))
            continue
        m = re.fullmatch(r"0=ocfl_object_(1\.[01])", zero[0])
        if not m:
            prob.append("E004 %r %r" % (d, zero))
            continue
        objs[d] = refocfl.validate(sub(snap, d), lax=lax) if objects else []
        if spec is not None and m.group(1) > spec:
            prob.append("E081 %r" % d)
    return prob, objs, soft
