#!/usr/bin/env python3
"""Tries quick what-if edits (no demonstration) against checks: trial.py FILE [-j N] [NAME...] (development tool; no check uses it).

FILE is Python calling t(name, props, [(file under src, old, new)...], quiet=False).  Each edit is applied to a
copy of /repo, the stable tests are run and so is each of the properties' checks; quiet edits must raise no alarm."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/trial"
trials = []


def t(name, props, edits, quiet=False):
    trials.append((name, props.split(","), edits, quiet))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def run(trial):
    name, props, edits, quiet = trial
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = []
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
        for f, old, new in edits:
            p = os.path.join(d, "src", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s BADEDIT %s %d" % (name, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        r = sh("cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTS=ON "
               "-DCMAKE_GTEST_DISCOVER_TESTS_DISCOVERY_MODE=PRE_TEST && cmake --build _build -j4" % d)
        if r.returncode:
            return name + " NOBUILD " + r.stdout[-1500:]
        sh(["python3", "/opt/vp/run_ctest.py", d + "/_build/test", d + "/lines"])
        n = sum(l.startswith("PASS ") for l in open(d + "/lines")) if os.path.exists(d + "/lines") else 0
        shutil.rmtree(d + "/_build")
        if props == ["all"]:
            props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
        bad = False
        for p in props:
            s = time.time()
            r = sh(["python3", os.path.join(VERIF, "check.py"), p], env=dict(os.environ, VERIF_REPO=d), cwd=VERIF)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res = "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "ERROR %d %s" % (r.returncode, r.stdout[-800:])
            if res != ("quiet" if quiet else "caught"):
                bad = True
                if quiet:
                    res += " " + r.stdout[-1500:]
            out.append("%s %s %.0fs" % (p, res, time.time() - s))
        return "%s %s tests=%d %s" % (name, "**" if bad else "ok", n, "; ".join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


a = sys.argv[1:]
j = 2
if "-j" in a:
    i = a.index("-j")
    j = int(a[i + 1])
    del a[i:i + 2]
exec(open(a[0]).read())
sel = [x for x in trials if not a[1:] or x[0] in a[1:]]
with concurrent.futures.ThreadPoolExecutor(j) as ex:
    for r in ex.map(run, sel):
        print(r, flush=True)
