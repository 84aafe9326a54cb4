#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and runs checks against them (development tool; no check uses it).

  seedtest.py confirm [ID...]           patch applies, builds, stable tests pass, demo passes clean and fails patched
  seedtest.py check [-p PROPS] [ID...]  run the bug's own property (or PROPS, comma separated, 'all') against it
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
W = "/tmp/seedtest"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    subprocess.check_call("cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % d, shell=True)


def confirm(ids):
    d = W + "/confirm"
    fresh(d)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base
    for id in ids:
        sd = os.path.join(SEEDED, id)
        sh("git -C %s checkout -q -- ." % d)
        r = sh([os.path.join(sd, "demo.sh")], cwd=d)
        if r.returncode != 0:
            print(id, "BAD: demo fails on the clean tree", r.stdout[-1500:]); continue
        r = sh(["git", "-C", d, "apply", os.path.join(sd, "patch.diff")])
        if r.returncode:
            print(id, "BAD: does not apply", r.stdout); continue
        r = sh("cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTS=ON "
               "-DCMAKE_GTEST_DISCOVER_TESTS_DISCOVERY_MODE=PRE_TEST && cmake --build _build -j8" % d)
        if r.returncode:
            print(id, "BAD: does not build", r.stdout[-2500:]); continue
        r = sh(["python3", "/opt/vp/run_ctest.py", d + "/_build/test", d + "/lines"])
        lines = open(d + "/lines").read().split("\n") if os.path.exists(d + "/lines") else []
        passed = {l[5:] for l in lines if l.startswith("PASS ")}
        failed = sorted(set(stable) - passed)
        r = sh([os.path.join(sd, "demo.sh")], cwd=d)
        ok = not failed and len(passed) >= 51 and r.returncode != 0
        print(id, "ok" if ok else "BAD", "tests %d passed" % len(passed), failed[:3], "demo", r.returncode, r.stdout.strip()[-150:].replace("\n", " | "), flush=True)


def check(ids, props):
    d = W + "/check"
    fresh(d)
    allp = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    for id in ids:
        sh("git -C %s checkout -q -- ." % d)
        r = sh(["git", "-C", d, "apply", os.path.join(SEEDED, id, "patch.diff")])
        assert r.returncode == 0, r.stdout
        own = json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
        ps = [own] if props is None else allp if props == ["all"] else props
        for p in ps:
            t = time.time()
            r = sh(["python3", os.path.join(VERIF, "check.py"), p], env=dict(os.environ, VERIF_REPO=d), cwd=VERIF)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res = "caught" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR %d %s" % (r.returncode, r.stdout[-800:])
            print(id, p, res, "%.0f s" % (time.time() - t), v[:1], flush=True)
            if res == "caught" and os.environ.get("SHOW"):
                print(r.stdout[-1500:])


a = sys.argv[2:]
props = None
if a and a[0] == "-p":
    props = a[1].split(",")
    a = a[2:]
ids = a or sorted(os.listdir(SEEDED))
(confirm(ids) if sys.argv[1] == "confirm" else check(ids, props))
