"""C03 an update never alters what earlier versions stored."""
from .. import gen as G, faults as F, lib, refocfl
from ..base import Res
from ..simos import MNT
from ..world import outcome

RULE = "a scenario is a random history ending in an update or edit, run without faults and again with seeded faults and crash points in the last step; every storage-changing call is checked; distinct = (file names touched, fault) combinations"
N = {"quick": 4500, "thorough": 30000}


def gen(rng, tier):
    g = G.G(rng, big=0.04)
    s = g.history(nmax=4, foreign=0.4)
    st = F.gen_target(rng, g, ["update"], s["cfg"], s["steps"])
    s["target"] = st
    s["order"] = rng.randrange(1000)
    s["pseed"] = rng.randrange(1 << 30)
    s["points"] = "auto"
    s["limit"] = 6 if tier == "quick" else 24
    return s


def content_of(snap, data, v):
    """{logical: bytes} of version v, metadata."""
    man = {d.lower(): pl for d, pl in data["manifest"].items()}
    st = {}
    for d, pl in data["versions"][v]["state"].items():
        for p in pl:
            st[p] = snap[0].get(man.get(d.lower(), [""])[0])
    return st, {k: data["versions"][v].get(k) for k in ("created", "message", "user")}


def compare(before, after, muts, url, cls, R, focus=None):
    """Everything about earlier versions unchanged?"""
    old = refocfl.load_inv(before[0]["inventory.json"])
    vers = refocfl.version_seq(list(old["versions"]))
    pre = tuple(v + "/" for v in vers)
    a = {k: x for k, x in before[0].items() if k.startswith(pre)}
    b = {k: x for k, x in after[0].items() if k.startswith(pre)}
    d = lib.diff_state(a, b)
    if d:
        R.V("old-files-changed" + cls, d, focus)
    for what, path in muts:
        if path.startswith(url + "/"):
            rel = path[len(url) + 1:]
            if rel.split("/")[0] in vers:
                R.V("old-version-directory-touched" + cls, "%s %s" % (what, rel), focus)
                break
    return old, vers


def stale_session(t):
    """A new version started on the present state; fn that writes it."""
    obj = lib.mkobj(t.s["cfg"], identifier=None)
    nv = obj.start_new_version(objdir=t.h.url, srcdir=t.h.stage({"stale.txt": "77:9"}), carry_content_forward=True)
    outcome(lambda: nv.add("stale.txt", "stale-%d.txt" % t.w.total_ops))
    return lambda: obj.write_new_version(nv)


def run(s):
    R = Res()
    b = F.Bench(R, s)
    if not b.ok or not b.m.versions:
        R.probe("prefix-failed")
        return R
    for i in range(-1, s["limit"] if s["points"] == "auto" else len(s["points"])):
        with b.world() as w:
            t = b.start(w)
            fn = t.prepare()
            before = t.where()
            url = t.h.url if not t.h.store else MNT + "/@kv/" + t.h.key()
            stale = outcome(lambda: stale_session(t)) if i < 0 and s["order"] % 2 else None
            if i < 0:
                w.arm(record=True)
            else:
                pts = auto if s["points"] == "auto" else s["points"]
                if i >= len(pts):
                    break
                p = pts[i]
                w.arm([dict(f) for f in p], quota=None)
            r = outcome(fn)
            muts = list(w.muts)
            fired = list(w.fired)
            ops = w.disarm()
            after = t.where()
            foc = {"points": [p] if i >= 0 else []}
            if i < 0:
                auto = F.points(ops, F.seeded(s, "c03"), ("err", "crash_after", "torn"), s["limit"])
            old, vers = compare(before, after, muts, url, "", R, foc)
            R.state(sorted(set(after[0]) - set(before[0])), [f[:2] + f[3:] for f in fired])
            new = refocfl.load_inv(after[0].get("inventory.json", b""))
            if r[0] != "ok" and new is None:
                continue
            if not isinstance(new, dict):
                R.V("no-inventory", "%s" % (r,), foc)
                continue
            R.nontrivial = True
            R.probe("updated" if r[0] == "ok" else "stopped")
            if len(new.get("versions", ())) <= len(vers) and r[0] == "ok":
                R.V("no-new-version", "", foc)
            for k in ("id", "contentDirectory"):
                if new.get(k) != old.get(k):
                    R.V("changed-" + k, "%r to %r" % (old.get(k), new.get(k)), foc)
            for v in vers:
                if v not in new.get("versions", {}):
                    R.V("version-record-lost", v, foc)
                    continue
                x, y = content_of(before, old, v), content_of(after, new, v)
                if x[0] != y[0]:
                    R.V("version-state-changed", "%s: %s" % (v, sorted(k for k in set(x[0]) | set(y[0]) if x[0].get(k) != y[0].get(k))[:4]), foc)
                if x[1] != y[1]:
                    R.V("version-metadata-changed", "%s: %r to %r" % (v, x[1], y[1]), foc)
            if stale and stale[0] == "ok" and r[0] == "ok":
                # a session from before the update must not write over it
                r2 = outcome(stale[1])
                R.probe("stale-session-%s" % r2[0])
                if r2[0] == "ok":
                    R.V("stale-session-accepted", "%s" % vers, foc)
                compare(after, t.where(), [], url, "-by-stale-session", R, foc)
            nv = [v for v in new["versions"] if v not in vers]
            allowed = tuple(v + "/" for v in nv)
            for k in set(after[0]) ^ set(before[0]):
                if not k.startswith(allowed or ("\0",)) and not k.startswith("inventory.json") and r[0] == "ok":
                    R.V("file-outside-new-version", k, foc)
            for k in set(after[0]) & set(before[0]):
                if after[0][k] != before[0][k] and not k.startswith("inventory.json"):
                    R.V("other-file-changed", k, foc)
            for d, pl in new["manifest"].items():
                for p_ in pl:
                    if not any(p_ in q for q in old["manifest"].values()) and not p_.startswith(allowed or ("\0",)):
                        R.V("content-path-outside-new-version", p_, foc)
    return R
