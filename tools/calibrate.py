#!/usr/bin/env python3
"""Measures cases per second of every property on every build and writes plan.json (sizes of the runs)."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
exe = check.build(set("ABCD"))
tmp = tempfile.mkdtemp()
check.harvest(tmp + "/dict")
env = check.run_env()
ids = [l.split("\t")[0] for l in subprocess.run([exe["A"], "--rules"], capture_output=True, text=True).stdout.splitlines()]
if len(sys.argv) > 1:
    ids = sys.argv[1:]
plan = json.load(open(V + "/plan.json")) if os.path.exists(V + "/plan.json") else {}
def one(a):
    pid, k = a
    d = "%s/%s%s" % (tmp, pid, k)
    os.makedirs(d)
    if k == "F":
        check.seeds(d + "/s", 1, 250)
        e = dict(env); e.update(FZ_PROP=pid, FZ_DICT=tmp + "/dict", FZ_STATS=d + "/st")
        subprocess.run([exe["F"], d + "/s", "-max_total_time=8", "-seed=1", "-verbosity=0", "-detect_leaks=0", "-max_len=4096", "-rss_limit_mb=3500"], env=e, cwd=d, capture_output=True)
        n = int(open(d + "/st").readline().split()[1])
        return pid, k, n / 8.0, "ok", ""
    r = subprocess.run([exe[k], "--prop", pid, "--seed", "7", "--start", "1000", "--count", "100000000", "--batch", "100", "--budget", "6", "--dict", tmp + "/dict",
                        "--out", d + "/o", "--replay-out", d + "/rep", "--tmp", d] + (["--cpu", "60"] if k == "C" else []), env=env, capture_output=True)
    j = json.load(open(d + "/o"))
    return pid, k, j["cases"] / j["seconds"], j["status"], j["message"][:1500]
with ThreadPoolExecutor(8) as p:
    for pid, k, rate, st, msg in p.map(one, [(i, k) for i in ids for k in ("ABFC" if i == "S06" else "D" if i == "S10" else "ABF")]):
        print(pid, k, "%.0f" % rate, st, msg, flush=True)
        plan.setdefault(pid, {})[k] = round(rate, 1) if rate < 100 else int(rate)
json.dump(plan, open(V + "/plan.json", "w"), indent=0, sort_keys=True)
shutil.rmtree(tmp)
