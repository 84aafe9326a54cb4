#!/usr/bin/env python3
"""Decides one property of /repo's working tree by generated-input search.

  check.py ID                    run the check (environment: VERIF_SEED, VERIF_TIER)
  check.py --replay FILE         run a replay file on every build
  check.py --setup               build everything
  check.py --build DIR           build into DIR/bin (for experiments)

Exit status: 0 the property held on everything explored, 1 violated (VIOLATION line), 2 the check could not run.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 1)

PRODUCT = ["-std=gnu++17", "-O2", "-g1", "-DNDEBUG", "-fPIC", "-w"]
UB = "-fsanitize=bounds,return,unreachable,bool,null,integer-divide-by-zero"
ASAN = ["-std=gnu++17", "-O1", "-g1", "-DNDEBUG", "-fPIC", "-w", "-fwrapv", "-fsanitize=address", UB,
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
COV = ["-fsanitize=fuzzer-no-link"]
WORK = ["-std=gnu++17", "-O1", "-g1", "-DNDEBUG", "-fPIC", "-w", "-fsanitize-coverage=trace-pc"]
WRAP = ["memcpy", "memmove", "memset", "memcmp", "_Znwm", "_Znam", "_ZSt11_Hash_bytesPKvmm"]
TSAN = ["-std=gnu++17", "-O1", "-g1", "-DNDEBUG", "-fPIC", "-w", "-fsanitize=thread"]
HFLAGS = ["-std=c++17", "-O1", "-w"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=512:detect_stack_use_after_return=1:"
                       "handle_abort=0:abort_on_error=0:exitcode=99:symbolize=1:quarantine_size_mb=16:malloc_context_size=6:"
                       "handle_segv=1:allow_addr2line=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1:history_size=4"}


class CannotRun(Exception):
    pass


# ------------------------------------------------------------------------------------------------ building

def repo_sources():
    src = os.path.join(REPO, "src")
    all_cc = sorted(glob.glob(src + "/**/*.cc", recursive=True) + glob.glob(src + "/**/*.cpp", recursive=True) +
                    glob.glob(src + "/**/*.cxx", recursive=True))
    listed = []
    globbing = False
    for f in glob.glob(src + "/**/CMakeLists.txt", recursive=True):
        t = re.sub(r"#.*", "", open(f, errors="replace").read())
        globbing = globbing or re.search(r"file\s*\(\s*GLOB", t, re.I) is not None or "aux_source_directory" in t.lower()
        d = os.path.dirname(f)
        for m in re.findall(r"[\w./${}-]+\.(?:cc|cpp|cxx)\b", t):
            m = m.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")
            p = os.path.normpath(os.path.join(d, m))
            if os.path.exists(p):
                listed.append(p)
    if listed and not globbing:
        return sorted(set(listed))
    return all_cc


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


class Builder:
    def __init__(self, root):
        self.root = root
        self.obj = os.path.join(root, "obj")
        os.makedirs(self.obj, exist_ok=True)
        src = os.path.join(REPO, "src")
        heads = [p for p in glob.glob(src + "/**/*", recursive=True)
                 if os.path.isfile(p) and p.rsplit(".", 1)[-1] in ("h", "hh", "hpp", "inc", "ipp", "tcc", "def")]
        self.rhead = digest(heads)
        self.hhead = digest(glob.glob(HARN + "/*.h"))
        self.jobs = {}

    def want(self, cc, flags, path, deps):
        h = hashlib.sha256()
        h.update(repr((cc, flags, path, deps)).encode())
        with open(path, "rb") as f:
            h.update(f.read())
        o = os.path.join(self.obj, h.hexdigest()[:24] + ".o")
        self.jobs[o] = (cc, flags, path)
        return o

    def repo(self, cc, flags):
        return [self.want(cc, flags, p, self.rhead) for p in repo_sources()]

    def harness(self, names, cc="g++", flags=HFLAGS):
        return [self.want(cc, flags, os.path.join(HARN, n + ".cc"), self.hhead) for n in names]

    def sut(self, cc, flags):
        return self.want(cc, flags + ["-I" + os.path.join(REPO, "src")], os.path.join(HARN, "sut.cc"), self.rhead + self.hhead)

    def compile_all(self, pool):
        todo = [(o, j) for o, j in self.jobs.items() if not os.path.exists(o)]
        # long ones first
        rank = {"operators.cc": 0, "sut.cc": 1, "rel_runner.cc": 2, "props_s.cc": 2, "model.cc": 3, "props_e.cc": 3,
                "operator_vector.cc": 3, "gen.cc": 3, "props_r.cc": 3, "casting.cc": 3, "props_v.cc": 3}
        todo.sort(key=lambda e: rank.get(os.path.basename(e[1][2]), 9))

        def one(e):
            o, (cc, flags, path) = e
            t = o + ".%d.tmp" % os.getpid()
            r = subprocess.run([cc] + flags + ["-c", path, "-o", t], capture_output=True, text=True)
            if r.returncode != 0:
                return "compiling %s failed:\n%s" % (path, r.stderr[-3000:])
            os.replace(t, o)
            return None
        errs = [e for e in pool.map(one, todo) if e]
        if errs:
            raise CannotRun("\n".join(errs))
        self.jobs = {}
        return len(todo)

    def link(self, cc, flags, objs, name):
        h = hashlib.sha256(repr((cc, flags, objs)).encode()).hexdigest()[:24]
        b = os.path.join(self.root, "bin-" + h)
        out = os.path.join(b, name)
        if not os.path.exists(out):
            os.makedirs(b, exist_ok=True)
            t = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([cc] + flags + objs + ["-o", t], capture_output=True, text=True)
            if r.returncode != 0:
                raise CannotRun("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
            os.replace(t, out)
        os.utime(b)
        return out


CORE = ["core", "dict", "gen", "model", "util", "relrun", "props", "props_e", "props_r", "props_s", "props_v", "props_w"]


def build(kinds, root=BUILD):
    """kinds: subset of {'A','B','C','D'}.  Returns {kind: pbt path, 'F': fuzzer path}."""
    b = Builder(root)
    core = b.harness(CORE)
    mainO = b.harness(["main"])
    fmain = b.harness(["fuzz_main"])
    objs = {}
    if "A" in kinds:
        objs["A"] = b.repo("g++", PRODUCT) + [b.sut("g++", HFLAGS + ["-DALLOC_COUNT"])]
    if "B" in kinds:
        objs["B"] = b.repo("clang++", ASAN + COV) + [b.sut("clang++", ASAN + ["-DASAN_COUNT"])]
    if "C" in kinds:
        objs["C"] = b.repo("clang++", TSAN) + [b.sut("clang++", TSAN)]
        coreC = b.harness(CORE + ["main"], "clang++", TSAN)
    if "D" in kinds:
        objs["D"] = b.repo("g++", WORK) + [b.sut("g++", WORK + ["-DWORK_COUNT"])]
    with cf.ThreadPoolExecutor(NPROC) as pool:
        b.compile_all(pool)
        res = {}
        if "A" in kinds:
            res["A"] = pool.submit(b.link, "g++", [], objs["A"] + core + mainO + ["-lpthread"], "pbt")
        if "B" in kinds:
            san = ["-fsanitize=address", UB, "-Wl,--wrap=_Znwm,--wrap=_Znam"]
            res["B"] = pool.submit(b.link, "clang++", san + ["-fsanitize-coverage=0"], objs["B"] + core + mainO + ["-lpthread"], "pbt-asan")
            res["F"] = pool.submit(b.link, "clang++", san + ["-fsanitize=fuzzer"], objs["B"] + core + fmain + ["-lpthread"], "fuzz")
        if "C" in kinds:
            res["C"] = pool.submit(b.link, "clang++", ["-fsanitize=thread"], objs["C"] + coreC + ["-lpthread"], "pbt-tsan")
        if "D" in kinds:
            res["D"] = pool.submit(b.link, "g++", ["-static-libstdc++"] + ["-Wl,--wrap=" + x for x in WRAP],
                                   objs["D"] + core + mainO + ["-lpthread"], "pbt-work")
        return {k: v.result() for k, v in res.items()}


def prune(root=BUILD, keep=1500):
    fs = sorted(glob.glob(root + "/obj/*.o"), key=os.path.getmtime)
    for f in fs[:max(0, len(fs) - keep)]:
        os.unlink(f)
    ds = sorted(glob.glob(root + "/bin-*"), key=os.path.getmtime)
    for d in ds[:max(0, len(ds) - 40)]:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ dictionary

def harvest(path):
    """Literals of the sources, to bias the generators (as a fuzzer's dictionary does)."""
    ints, dbls, strs = set(), set(), set()
    src = os.path.join(REPO, "src")
    for f in sorted(glob.glob(src + "/**/*", recursive=True)):
        if not os.path.isfile(f) or f.rsplit(".", 1)[-1] not in ("cc", "h", "cpp", "hpp", "cxx", "hh", "inc", "ipp", "tcc"):
            continue
        t = open(f, errors="replace").read()
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                v = bytes(m.group(1), "utf-8").decode("unicode_escape").encode("latin-1", "replace")
            except Exception:
                continue
            if 0 < len(v) <= 64 and not v.endswith(b".h"):
                strs.add(v)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.){1,6})'", t):
            try:
                v = bytes(m.group(1), "utf-8").decode("unicode_escape").encode("latin-1", "replace")
            except Exception:
                continue
            if len(v) == 1:
                strs.add(v)
                ints.add(v[0])
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' "" ', t)
        t2 = t.replace("'", "")
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)(?:[uUlLzZ]*)(?![\w.])", t2):
            try:
                x = m.group(1)
                v = int(x, 0) if not (len(x) > 1 and x[0] == "0" and x[1:].isdigit()) else int(x, 8)
            except ValueError:
                continue
            if v < 2 ** 64:
                ints.add(v if v < 2 ** 63 else v - 2 ** 64)
        for m in re.finditer(r"(?<![\w.])((?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)[fFlL]?(?![\w.])", t2):
            try:
                dbls.add(float(m.group(1)))
            except ValueError:
                pass
        for m in re.finditer(r"1\s*(?:[uUlL]*)\s*<<\s*(\d+)", t2):
            if int(m.group(1)) < 63:
                ints.add(1 << int(m.group(1)))
    for i in list(ints):
        if 2 < i < 2 ** 52:
            dbls.add(float(i))
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("int=%d\n" % v)
        for v in sorted(dbls):
            f.write("dbl=%r\n" % v)
        for v in sorted(strs):
            f.write("str=%s\n" % v.hex())
    return len(ints), len(dbls), len(strs)


# ------------------------------------------------------------------------------------------------ running

# cases per second and worker on build A and B (measured), used to size a run
PLAN = json.load(open(os.path.join(VERIF, "plan.json"))) if os.path.exists(os.path.join(VERIF, "plan.json")) else {}


def run_env():
    e = dict(os.environ)
    e.update(ENV)
    e["LC_ALL"] = "C"
    e["LOCPATH"] = os.path.join(VERIF, ".build", "loc")
    e["VERIF_LOCALES"] = " ".join(LOCALES)
    return e


# Locales in which text and numbers look different; compiled here as the system has only C and C.utf8.
LOCALES = ["de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8"]


def locales():
    """Returns those that are missing."""
    missing = []
    d = os.path.join(VERIF, ".build", "loc")
    os.makedirs(d, exist_ok=True)
    for l in LOCALES:
        if os.path.exists(os.path.join(d, l, "LC_CTYPE")):
            continue
        t = tempfile.mkdtemp(prefix="tmp-", dir=d)
        try:
            i, c = l.split(".")
            subprocess.run(["localedef", "--no-archive", "-i", i, "-f", c, os.path.join(t, l)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
            if os.path.exists(os.path.join(t, l, "LC_CTYPE")) and not os.path.exists(os.path.join(d, l)):
                os.rename(os.path.join(t, l), os.path.join(d, l))
        except (OSError, subprocess.SubprocessError):
            pass
        finally:
            shutil.rmtree(t, ignore_errors=True)
        if not os.path.exists(os.path.join(d, l, "LC_CTYPE")):
            missing.append(l)
    return missing


def tsan_works(exe, tmp):
    r = subprocess.run([exe, "--prop", "V03", "--seed", "1", "--count", "20", "--tmp", tmp, "--out", tmp + "/tsan.json"],
                       env=run_env(), capture_output=True, text=True, timeout=120)
    return r.returncode == 0


def seeds(dirname, seed, n):
    os.makedirs(dirname)
    r = random.Random(seed)
    for k in range(n):
        ln = int(2 ** r.uniform(3, 11))
        with open("%s/s%04d" % (dirname, k), "wb") as f:
            f.write(r.randbytes(ln))


def check(pid, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    kinds = {"A", "B"}
    if pid == "S06":
        kinds.add("C")
    if pid == "S10":
        kinds = {"D"}
    exe = build(kinds)
    t_build = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return explore(pid, tier, seed, thorough, exe, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        prune()


def explore(pid, tier, seed, thorough, exe, tmp, t0, t_build):
    dic = os.path.join(tmp, "dict")
    nd = harvest(dic)
    notes = []
    if pid == "S07":
        miss = locales()
        if miss:
            notes.append("these locales could not be made here and were left out: " + " ".join(miss))
    plan = PLAN.get(pid, {})
    secs = 480.0 if thorough else 14.0        # nominal exploration time
    cap = 640.0 if thorough else 70.0         # hard limit
    rateA, rateB, rateF = plan.get("A", 3000), plan.get("B", 800), plan.get("F", 800)
    workers = []      # (kind, exe, start, count)
    nA, nB, nF, nC, nD = 4, 2, 2, 0, 0
    if pid == "S06":
        nA, nB, nF, nC = 2, 1, 1, 4
        if not tsan_works(exe["C"], tmp):
            notes.append("ThreadSanitizer does not run here: data races are only seen through wrong results and AddressSanitizer")
            nA, nC = 6, 0
    if pid == "S10":
        nA, nB, nF, nD = 0, 0, 0, 8
    procs = []
    env = run_env()
    start = 0
    nw = 0

    def pbt(kind, count, batch):
        nonlocal start, nw
        w = {"kind": kind, "n": nw, "out": "%s/out%d.json" % (tmp, nw), "hashes": "%s/hash%d" % (tmp, nw),
             "replay": "%s/replay%d" % (tmp, nw)}
        os.makedirs("%s/w%d" % (tmp, nw))
        cmd = [exe[kind], "--prop", pid, "--seed", str(seed), "--start", str(start), "--count", str(count), "--batch", str(batch),
               "--budget", str(cap), "--dict", dic, "--out", w["out"], "--hashes", w["hashes"], "--replay-out", w["replay"],
               "--tmp", "%s/w%d" % (tmp, nw), "--samples", "2", "--cpu", "60" if kind == "C" else "20"] + (["--thorough"] if thorough else [])
        w["p"] = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open("%s/err%d" % (tmp, nw), "w"))
        procs.append(w)
        start += count
        nw += 1

    for _ in range(nA):
        pbt("A", int(rateA * secs) + 1, max(20, min(2000, int(rateA))))
    for _ in range(nB):
        pbt("B", int(rateB * secs) + 1, max(20, min(2000, int(rateB))))
    for _ in range(nC):
        r = plan.get("C", 100)
        pbt("C", int(r * secs) + 1, max(10, int(r) // 4))
    for _ in range(nD):
        r = plan.get("D", 100)
        pbt("D", int(r * secs) + 1, max(20, min(2000, int(r))))
    fuzzers = []
    for k in range(nF):
        d = "%s/f%d" % (tmp, k)
        os.makedirs(d)
        seeds(d + "/seeds", seed * 1000003 + k, 250)
        os.makedirs(d + "/corpus")
        os.makedirs(d + "/art")
        e = dict(env)
        e.update(FZ_PROP=pid, FZ_DICT=dic, FZ_STATS=d + "/stats")
        if thorough:
            e["FZ_THOROUGH"] = "1"
        cmd = [exe["F"], d + "/corpus", d + "/seeds", "-runs=%d" % int(rateF * secs), "-max_total_time=%d" % int(cap if thorough else 30),
               "-seed=%d" % ((seed * 7919 + k * 104729 + 1) & 0x7fffffff or 1), "-artifact_prefix=%s/art/" % d, "-timeout=40",
               "-rss_limit_mb=3500", "-malloc_limit_mb=0", "-detect_leaks=0", "-print_final_stats=1", "-len_control=20",
               "-max_len=4096", "-use_value_profile=%d" % (k % 2), "-reload=0", "-close_fd_mask=0", "-verbosity=1", "-report_slow_units=10000"]
        fuzzers.append({"dir": d, "p": subprocess.Popen(cmd, env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=open(d + "/log", "w"))})

    deadline = time.time() + cap + 90
    errors = []
    confirmed = []    # (kind, replay path, text)

    def confirm(kind, rep, msg):
        """Runs a replay file three times in fresh processes."""
        with open(rep, "a") as f:
            f.write("build=%s\n" % kind)
        times = "1" if "s of CPU time (hang)" in msg else "3"
        r = subprocess.run([exe[kind], "--replay", rep, "--times", times, "--tmp", tmp], env=env, capture_output=True, text=True)
        if r.returncode == 1:
            confirmed.append((kind, rep, r.stdout))
        else:
            notes.append("a failure did not reproduce from its replay file: " + msg[:300])

    # A confirmed failure decides the check: the other workers get a moment for a smaller one, then they are ended.
    pending = list(procs)
    stop = None
    while pending and time.time() < (stop or deadline):
        time.sleep(0.05)
        for w in list(pending):
            rc = w["p"].poll()
            if rc is None:
                continue
            pending.remove(w)
            w["j"] = json.load(open(w["out"])) if os.path.exists(w["out"]) else None
            if rc == 10 and w["j"] and w["j"]["status"] == "fail":
                confirm(w["kind"], w["replay"], w["j"]["message"])
                if confirmed and stop is None:
                    stop = time.time() + 3
            elif rc != 0 or not w["j"]:
                errors.append("worker %d (%s) ended with %s: %s" % (w["n"], w["kind"], rc, open("%s/err%d" % (tmp, w["n"])).read()[-500:]))
    for w in pending:
        w["p"].kill()
        w["p"].wait()
        w["j"] = None
        if not confirmed:
            errors.append("worker %d (%s) ran out of time" % (w["n"], w["kind"]))
    fstats = []
    for k, f in enumerate(fuzzers):
        if confirmed:
            f["p"].kill()
            f["p"].wait()
            continue
        try:
            rc = f["p"].wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            f["p"].kill()
            f["p"].wait()
            rc = "timeout"
        arts = sorted(glob.glob(f["dir"] + "/art/*"))
        for a in [a for a in arts if not os.path.basename(a).startswith("slow-unit")]:
            out = a + ".replay"
            os.makedirs(f["dir"] + "/t", exist_ok=True)
            try:
                r = subprocess.run([exe["B"], "--prop", pid, "--dict", dic, "--promote", a, "--replay-out", out, "--tmp", f["dir"] + "/t"] +
                                   (["--thorough"] if thorough else []), env=env, capture_output=True, text=True, timeout=200)
                if r.returncode == 1:
                    confirm("B", out, open(out, errors="replace").read())
            except subprocess.TimeoutExpired:
                notes.append("promotion of a fuzzer artifact ran out of time")
        log = open(f["dir"] + "/log", errors="replace").read()
        st = {}
        if os.path.exists(f["dir"] + "/stats"):
            st = {l.split()[0]: int(l.split()[1]) for l in open(f["dir"] + "/stats")}
        m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", log)
        fstats.append({"cases": st.get("cases", 0), "nontrivial": st.get("nontrivial", 0), "subchecks": st.get("subchecks", 0),
                       "edges": int(m[-1][0]) if m else 0, "features": int(m[-1][1]) if m else 0,
                       "corpus": int(m[-1][2]) if m else 0, "exit": rc, "value_profile": bool(k % 2)})
        if rc != 0 and not arts:
            errors.append("fuzzer %d ended with %s: %s" % (k, rc, log[-600:]))

    # totals
    cases = sum(w["j"]["cases"] for w in procs if w["j"]) + sum(s["cases"] for s in fstats)
    nontriv = sum(w["j"]["nontrivial"] for w in procs if w["j"]) + sum(s["nontrivial"] for s in fstats)
    subs = sum(w["j"]["subchecks"] for w in procs if w["j"]) + sum(s["subchecks"] for s in fstats)
    skipped = sum(w["j"]["skipped"] for w in procs if w["j"])
    classes = {}
    samples = []
    for w in procs:
        if w["j"]:
            for k, v in w["j"]["classes"].items():
                classes[k] = classes.get(k, 0) + v
            samples += [s[:1500] for s in w["j"]["samples"]]
    hf = [w["hashes"] for w in procs] + [f["dir"] + "/stats.hashes" for f in fuzzers]
    any_exe = exe.get("A") or exe["D"]
    r = subprocess.run([any_exe, "--union"] + hf, capture_output=True, text=True, env=env)
    distinct = int(r.stdout.strip() or 0)
    rules = dict(l.rstrip("\n").split("\t", 1) for l in
                 subprocess.run([any_exe, "--rules"], capture_output=True, text=True, env=env).stdout.splitlines())
    flaky = [w["j"]["message"][:300] for w in procs if w["j"] and w["j"]["flaky"]]

    confirmed.sort(key=lambda c: (os.path.getsize(c[1]), c[0]))

    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": distinct, "rule": rules.get(pid, ""),
                       "samples": samples[:6], "nontrivial": nontriv, "comparisons_counted": subs, "skipped": skipped,
                       "classes": dict(sorted(classes.items())),
                       "by_build": {k: {"workers": sum(1 for w in procs if w["kind"] == k),
                                        "cases": sum(w["j"]["cases"] for w in procs if w["kind"] == k and w["j"])}
                                    for k in sorted(set(w["kind"] for w in procs))},
                       "coverage_guided": fstats, "dictionary_literals": sum(nd),
                       "not_reproducible": flaky},
          "assumptions": ["the reference model in /verif/harness/model.cc states the documented behaviour",
                          "outcomes the documentation leaves open (listed in DESIGN.md) are not compared"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    ev["coverage"]["build_s"] = round(t_build, 2)
    if notes or errors:
        ev["coverage"]["notes"] = notes + errors
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    if confirmed:
        kind, rep, text = confirmed[0]
        dst = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (pid, tier, seed))
        shutil.copy(rep, dst)
        print(text[:6000])
        print("(found on build %s; replay with: %s/check.py --replay %s)" % (kind, VERIF, dst))
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    for n in notes:
        print("note: " + n)
    if errors:
        print("the check could not complete:\n" + "\n".join(errors))
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %s tier, seed %d, %.1f s (build %.1f s)" %
          (pid, cases, distinct, tier, seed, time.time() - t0, t_build))
    return 0


def replay(path):
    txt = open(path).read()
    pid = re.search(r"^property=(\S+)", txt, re.M).group(1)
    kind = (re.findall(r"^build=(\S)", txt, re.M) or ["A"])[-1]
    kinds = {"D"} if kind == "D" else {"A", "B", kind}
    exe = build(kinds)
    if pid == "S07":
        locales()
    tmp = tempfile.mkdtemp(prefix="vf-replay-")
    bad = False
    try:
        for k in sorted(kinds):
            r = subprocess.run([exe[k], "--replay", path, "--times", "1", "--tmp", tmp], env=run_env(), capture_output=True, text=True)
            print("build %s: %s" % (k, r.stdout))
            bad = bad or r.returncode != 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[:1] == ["--setup"]:
            t = time.time()
            build({"A", "B", "C", "D"})
            locales()
            print("built in %.1f s" % (time.time() - t))
            return 0
        if a[:1] == ["--exe"]:
            print(json.dumps(build(set(a[1] if len(a) > 1 else "AB"))))
            return 0
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(a) > 1 and a[1] in ("quick", "thorough"):
            tier = a[1]
        return check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))
    except CannotRun as e:
        print(str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
