"""Runs seeds of every check in three settings and compares the event log hashes.

usage: determinism.py [COUNT] [CID...]
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    n = sys.argv[1] if len(sys.argv) > 1 else "60"
    cids = sys.argv[2:] or [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json", encoding="utf-8"))["checks"]]
    bad = 0
    for cid in cids:
        got = []
        for jobs, hs, order in (("8", "0", "a"), ("3", "12345", "b"), ("1", "777", "c")):
            out = "/tmp/det-%s-%s" % (cid, order)
            env = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", HOME="/root")
            subprocess.run(["/opt/venv/bin/python", "-B", ROOT + "/dst/run.py", cid, "--n", n, "--jobs", jobs, "--noshrink", "--hashes", out],
                           env=env, stdout=subprocess.DEVNULL, check=False)
            got.append(open(out, encoding="utf-8").read())
            os.remove(out)
        same = got[0] == got[1] == got[2] and got[0]
        bad += not same
        if not same:
            for a, b in zip(got[0].splitlines(), got[1].splitlines()):
                if a != b:
                    print("  first difference", a, "|", b)
                    break
        print(cid, "same" if same else "DIFFERENT", len(got[0].splitlines()))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
