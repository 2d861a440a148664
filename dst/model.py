"""Executable reference model of an object: list of versions, each a map
logical path -> content id, plus metadata."""
import copy


class Refused(Exception):
    pass


class Model:
    def __init__(self):
        self.versions = []      # [{"state": {lp: cid}, "meta": {...}}]
        self.alg = None
        self.spec = None
        self.fixity = None

    @classmethod
    def of(cls, hist, upto=None):
        m = cls()
        for st in hist["steps"][:upto]:
            m.apply(hist["cfg"], st)
        return m

    def clone(self):
        return copy.deepcopy(self)

    def head_state(self):
        return dict(self.versions[-1]["state"]) if self.versions else {}

    def apply(self, cfg, st):
        """Effect of one successful step."""
        op = st["op"]
        if op == "create":
            self.versions = [{"state": dict(st["files"]), "meta": dict(st.get("meta") or {})}]
            self.alg, self.spec = cfg["alg"], cfg["spec"]
        elif op == "build":
            self.versions = [{"state": dict(v["files"]), "meta": dict(v.get("meta") or {})} for v in st["versions"]]
            self.alg, self.spec = cfg["alg"], cfg["spec"]
        elif op == "foreign":
            p = st["plan"]
            for i, v in enumerate(p["versions"], 1):
                meta = {"created": v.get("created", "2020-01-01T00:00:%02dZ" % i)}
                if v.get("message") is not None:
                    meta["message"] = v["message"]
                if v.get("user"):
                    meta["name"] = v["user"]["name"]
                    if "address" in v["user"]:
                        meta["address"] = v["user"]["address"]
                self.versions.append({"state": dict(v["files"]), "meta": meta})
            self.alg, self.spec = p["versions"][-1]["alg"], p["versions"][-1]["spec"]
        elif op == "update":
            self.versions.append({"state": self.head_state() if st.get("nosrc") else dict(st["files"]), "meta": dict(st.get("meta") or {})})
            if st.get("alg"):
                self.alg = st["alg"]
        elif op == "edit":
            state = self.head_state() if st["carry"] else {}
            for e in st["edits"]:
                try:
                    edit(state, st["src"], e)
                except Refused:
                    pass
            self.versions.append({"state": state, "meta": dict(st.get("meta") or {})})
            if st.get("alg"):
                self.alg = st["alg"]
        else:
            raise AssertionError(op)


def clash(state, path):
    return any(q.startswith(path + "/") or path.startswith(q + "/") for q in state)


def bad_path(p):
    return p == "" or p.startswith("/") or p.endswith("/") or any(x in ("", ".", "..") for x in p.split("/"))


def edit(state, src, e):
    """Apply one edit to state or raise Refused leaving it unchanged."""
    if e[0] == "add":
        if e[2] in state or clash(state, e[2]) or bad_path(e[2]) or e[1] not in src:
            raise Refused()
        state[e[2]] = src[e[1]]
    elif e[0] == "del":
        if e[1] not in state:
            raise Refused()
        del state[e[1]]
    elif e[0] == "ren":
        if e[1] not in state or e[2] in state:
            raise Refused()
        rest = {k: v for k, v in state.items() if k != e[1]}
        if clash(rest, e[2]) or bad_path(e[2]):
            raise Refused()
        c = state.pop(e[1])
        state[e[2]] = c
