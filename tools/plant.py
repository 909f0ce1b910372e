#!/usr/bin/env python3
"""plant.py FILE.py...   turns a description of a planted bug into seeded/<id>/.
A description defines: id, prop, edits = [(path, old, new), ...], demo (C++), needs, breaks.
The bug is kept only if it builds, the nine stable tests pass, and the demonstration
passes without and fails with it.  Works in a scratch clone, never in /repo."""
import sys, os, json, subprocess, shutil, runpy
BASE = "e83ab93"
W = "/tmp/plant"; R = W + "/repo"; HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the property holds on this tree; anything else: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
I=""; for d in src src/core/common src/core/distributions src/core/model src/core/trainingset src/models/gmm src/models/hmm src/models/kmeans dependencies/jsoncpp/include dependencies/jsoncpp/src; do I="$I -I$PWD/$d"; done
g++ -std=c++11 -O1 -w -pthread %s $I "$D/demo.cpp" "$PWD/bin/Release/libxmm.a" -o "$T/demo" || exit 98
cd "$T" && timeout 120 ./demo
'''


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def script(name):
    p = os.path.join(W, name)
    open(p, "w").write(open("/opt/vp/" + name).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh"))
    return p


def main():
    for f in sys.argv[1:]:
        b = runpy.run_path(f)
        head = sh("git -C /repo rev-parse HEAD").stdout.strip()
        if not os.path.isdir(R): os.makedirs(W, exist_ok=True); sh("git clone -q /repo " + R)
        sh("git fetch -q && git checkout -qf %s && git checkout -q -- ." % head, cwd=R)
        build, test = script("build.sh"), script("test.sh")
        d = os.path.join(HERE, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        try:
            r = sh("bash " + build)
            if r.returncode: raise Exception("base does not build\n" + r.stdout[-2000:])
            r = sh("bash %s/demo.sh" % d, cwd=R)
            if r.returncode: raise Exception("demo fails without the bug: %d\n%s" % (r.returncode, r.stdout[-2000:]))
            for p, old, new in b["edits"]:
                s = open(R + "/" + p).read()
                if s.count(old) != 1: raise Exception("%d occurrences in %s of: %s" % (s.count(old), p, old))
                open(R + "/" + p, "w").write(s.replace(old, new))
            diff = sh("git diff", cwd=R).stdout
            # lines changed must come from the original repository, not from the repairs
            for f in set(p for p, _, _ in b["edits"]):
                orig = set(sh("git -C /repo show %s:%s" % (BASE, f)).stdout.split("\n"))
                for l in sh("git diff -- " + f, cwd=R).stdout.split("\n"):
                    if l.startswith("-") and not l.startswith("---") and l[1:] not in orig: raise Exception("not an original line: " + l)
            r = sh("bash %s %s/t.json" % (test, W))
            t = json.load(open(W + "/t.json"))
            if len(t["passed"]) < 9 or t["failed"]: raise Exception("tests fail: %s\n%s" % (t, r.stdout[-1500:]))
            r = sh("bash %s/demo.sh" % d, cwd=R)
            if r.returncode in (0, 98, 99): raise Exception("demo does not fail with the bug: %d\n%s" % (r.returncode, r.stdout[-1500:]))
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            print("%s: planted (demo exits %d with it)" % (b["id"], r.returncode))
        except Exception as e:
            print("%s: NOT planted: %s" % (b["id"], e)); shutil.rmtree(d, ignore_errors=True)
        finally:
            sh("git checkout -q -- .", cwd=R)


main()
