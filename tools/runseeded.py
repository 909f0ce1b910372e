#!/usr/bin/env python3
"""runseeded.py [-j N] [ID...]  runs the check of each planted bug against a scratch clone with the bug."""
import sys, os, json, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def one(i):
    d = HERE + "/seeded/" + i; r = "/tmp/seedrun-" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    if not os.path.isdir(r): sh("git clone -q /repo " + r)
    sh("git fetch -q && git checkout -qf $(git -C /repo rev-parse HEAD) && git checkout -q -- .", cwd=r)
    a = sh("git apply %s/patch.diff" % d, cwd=r)
    if a.returncode: return i, prop, "does not apply"
    x = sh("python3 check.py %s quick" % prop, cwd=HERE, env=dict(os.environ, XMM_REPO=r))
    subprocess.run(["rm", "-rf", r])
    line = [l for l in x.stdout.split("\n") if l.startswith("VIOLATION")]
    return i, prop, "caught" if x.returncode == 1 and line else "MISSED (exit %d) %s" % (x.returncode, x.stdout[-300:] if x.returncode != 0 else "")


ids = [a for a in sys.argv[1:]] or sorted(os.listdir(HERE + "/seeded"))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids): print("%-40s %s %s" % r, flush=True)
