"""Mutation campaign over /repo: which small changes that pass the tests no check notices.

usage: mutants.py gen OUT.json [FILE...]          list mutants of the source files
       mutants.py tests LIST.json OUT.json        keep those the stable tests pass
       mutants.py checks LIST.json OUT.json [F]   run every check on each, F times its small budget
       mutants.py show LIST.json                  print them
Everything runs on copies under /tmp.  Not registered in MANIFEST.json: a tool for finding
gaps in the checks, not a check.
"""
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
DES = ""
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


class Src:
    def __init__(self, text):
        self.text = text.encode()
        self.starts = [0]
        for line in self.text.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b].decode()


def is_log(n):
    s = ast.unparse(n)
    return s.startswith(("logging.", "log.", "print(", "self.log.", "parser.", "add_"))


def mutants(path):
    text = open(os.path.join(REPO, path), encoding="utf-8").read()
    src = Src(text)
    out = []

    def put(n, new, what):
        a, b = src.span(n)
        out.append({"file": path, "a": a, "b": b, "new": new, "what": what, "line": n.lineno})
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (%s))" % src.get(n.test), "negate")
            put(n.test, "(False and (%s))" % src.get(n.test), "never")
            put(n.test, "(True or (%s))" % src.get(n.test), "always")
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + op.join("(%s)" % src.get(v) for v in rest) + ")", "drop operand %d" % i)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "(%s %s %s)" % (src.get(n.left), SWAP[type(n.ops[0])], src.get(n.comparators[0])), "compare")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, repr(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, repr(n.value + 1), "int+1")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % src.get(n.operand), "drop not")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, "%s %s %s" % (src.get(n.left), "-" if isinstance(n.op, ast.Add) else "+", src.get(n.right)), "plus/minus")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not is_log(n):
            put(n, "pass", "delete call")
        if isinstance(n, (ast.Raise, ast.AugAssign, ast.Delete)):
            put(n, "pass", "delete statement")
        if isinstance(n, ast.Assign) and (isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            put(n, "pass", "delete assignment")
        if isinstance(n, ast.Break):
            put(n, "continue", "break")
        if isinstance(n, ast.Continue):
            put(n, "break", "continue")
            put(n, "pass", "no continue")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, "return None", "return None")
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg and not is_log(n):
                    args = [src.get(a) for a in n.args] + [src.get(q) for j, q in enumerate(n.keywords) if j != i]
                    put(n, "%s(%s)" % (src.get(n.func), ", ".join(args)), "drop keyword %s" % k.arg)
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "set", "list", "str", "int") and len(n.args) >= 1:
                put(n, "(%s)" % src.get(n.args[0]), "drop " + n.func.id)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "strip", "rstrip", "copy", "encode", "decode", "lstrip"):
                put(n, src.get(n.func.value), "drop ." + n.func.attr)
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, "True", "comprehension if")
        if isinstance(n, ast.ExceptHandler):
            a = src.starts[n.body[0].lineno - 1] + n.body[0].col_offset
            b = src.span(n.body[-1])[1]
            if not isinstance(n.body[0], ast.Pass):
                out.append({"file": path, "a": a, "b": b, "new": "pass", "what": "swallow exception", "line": n.lineno})
    for m in out:
        m["old"] = src.text[m["a"]:m["b"]].decode()
    return out


def apply(m, repo):
    p = os.path.join(repo, m["file"])
    t = open(p, "rb").read()
    t = t[:m["a"]] + m["new"].encode() + t[m["b"]:]
    open(p, "wb").write(t)
    try:
        ast.parse(t.decode())
    except SyntaxError:
        return False
    return True


def restore(m, repo):
    shutil.copyfile(os.path.join(REPO, m["file"]), os.path.join(repo, m["file"]))


def workers(jobs, fn, todo, out):
    """fn(mutant, repo copy) over jobs copies; results appended to out as they come."""
    import queue
    pool = queue.Queue()
    top = tempfile.mkdtemp(prefix="mut-")
    for j in range(jobs):
        d = "%s/%d" % (top, j)
        os.makedirs(d)
        subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
        pool.put(d + "/repo")
    res = []
    t0 = time.time()

    def one(m):
        d = pool.get()
        try:
            ok = apply(m, d)
            r = fn(m, d) if ok else "syntax"
        finally:
            restore(m, d)
            pool.put(d)
        res.append(dict(m, result=r))
        if len(res) % 20 == 0:
            print("%d/%d %.0f s" % (len(res), len(todo), time.time() - t0), flush=True)
            with open(out, "w", encoding="utf-8") as fh:
                json.dump(res, fh, indent=0)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    with open(out, "w", encoding="utf-8") as fh:
        json.dump(res, fh, indent=0)
    shutil.rmtree(top)


def stable():
    """pytest arguments to leave the tests out that are not reliable."""
    ok = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd /repo && PYTHONDONTWRITEBYTECODE=1 python -m pytest -q -p no:cacheprovider --collect-only tests 2>/dev/null"],
                       capture_output=True, text=True, check=False)
    ids = [x for x in r.stdout.splitlines() if "::" in x]
    return " ".join("--deselect '%s'" % x for x in ids if x.replace(".py::", ".", 1).replace("/", ".") not in ok)


def tests(m, repo):
    global DES
    DES = DES or stable()
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    cmd = ". /opt/vp/env.sh; cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout 120 python -m pytest -x -q -p no:cacheprovider --timeout=60 %s tests >/dev/null 2>&1" % (repo, repo, DES)
    return "pass" if subprocess.run(["bash", "-c", cmd], env=env, check=False).returncode == 0 else "killed"


def checks(m, repo):
    env = dict(os.environ, DST_REPO=repo, LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    r = subprocess.run(["timeout", "1500", "/opt/venv/bin/python", "-B", os.path.abspath(__file__), "inner", os.environ.get("MUT_F", "1")],
                       env=env, capture_output=True, text=True, check=False)
    return (r.stdout.strip().splitlines() or ["no output: " + r.stderr[-300:]])[-1]


def inner(f):
    """In one process: small runs of every check until one reports."""
    sys.path.insert(0, ROOT)
    from dst import run
    order = ["C02", "C01", "C13", "C11", "C12", "C20", "C14", "C15", "C23", "C25", "C26", "C16", "C08", "C03", "C18", "C21", "C22", "C19", "C17", "C24", "C06", "C07", "C04", "C09", "C10", "C05"]
    only = os.environ.get("MUT_CHECKS")
    bad = []
    for cid in order:
        if only and cid not in only:
            continue
        P = run.load(cid)
        n = max(3, int(P.N["quick"] * f / 60))
        for i in range(n):
            try:
                R = run.execute(P, run.scenario(P, cid, 1, "quick", i))
            except Exception as e:      # pylint: disable=broad-except
                bad.append("%s harness %r" % (cid, e))
                break
            if R.violations:
                print("caught %s %d %s: %s" % (cid, i, R.violations[0]["cls"], R.violations[0]["msg"][:200].replace("\n", " ")))
                return
    print("SURVIVED %s" % "; ".join(bad))


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        files = sys.argv[3:] or sorted("ocfl/" + f for f in os.listdir(REPO + "/ocfl") if f.endswith(".py") and f not in ("_version.py",)) + \
            ["ocfl-object.py", "ocfl-root.py", "ocfl-sidecar.py", "ocfl-validate.py"]
        out, seen = [], set()
        for f in files:
            for m in mutants(f):
                k = (m["file"], m["a"], m["b"], m["new"])
                if k not in seen and m["new"] != m["old"]:
                    seen.add(k)
                    out.append(m)
        random.Random(1).shuffle(out)
        json.dump(out, open(sys.argv[2], "w"), indent=0)
        print(len(out))
    elif cmd in ("tests", "checks"):
        todo = json.load(open(sys.argv[2]))
        workers(int(os.environ.get("MUT_J", "8")), tests if cmd == "tests" else checks, todo, sys.argv[3])
    elif cmd == "inner":
        inner(float(sys.argv[2]))
    elif cmd == "show":
        for m in json.load(open(sys.argv[2])):
            print("%s:%d [%s] %s\n    - %s\n    + %s" % (m["file"], m["line"], m["what"], m.get("result"), m["old"][:150].replace("\n", " "), m["new"][:150].replace("\n", " ")))


if __name__ == "__main__":
    main()
