#!/usr/bin/env python3
"""Mutation campaign (development tool; no check uses it).

  mutate.py OUT [-j N] [-s SECS] [-k K/M] [FILE-REGEX]

Makes one small change at a time to the library sources in scratch copies, builds the product-flags harness and runs every
property for a moment; OUT receives one line per mutant: killed by which property, or SURVIVED with the change.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "==")]


def mutants(path, text):
    """yields (line number, description, new text)"""
    lines = text.split("\n")
    inc = False
    for i, l in enumerate(lines):
        if "/*" in l and "*/" not in l:
            inc = True
        if inc:
            if "*/" in l:
                inc = False
            continue
        code = re.sub(r'//.*', '', l)
        s = code.strip()
        if not s or s.startswith("#include") or s.startswith("#if") or s.startswith("#end") or s.startswith("namespace") or s.startswith("#pragma"):
            continue
        if s.startswith("using ") or s.startswith("template") or s.startswith("class ") or s.startswith("public:"):
            continue
        out = []

        def rep(a, b, new, what):
            out.append((what, code[:a] + new + code[b:]))
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]

        def instr(p):
            return any(a <= p < b for a, b in strs)
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>|&&|\|\||\+\+|--|\+=|-=|\*=|<<|>>|\+|-|\*|/|%|&|\||\^|!)(?![=>])", code):
            if instr(m.start()):
                continue
            o = m.group(1)
            before, after = code[m.start() - 1:m.start()], code[m.end():m.end() + 1]
            alts = {"<=": ["<", ">="], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"],
                    "+=": ["-=", "="], "-=": ["+="], "*=": ["="], "<<": [">>"], ">>": ["<<"], "+": ["-"], "-": ["+"], "/": ["*"], "%": ["/"],
                    "|": ["&"], "^": ["|"], "!": [" "]}.get(o, [])
            if o in ("<", ">", "*", "&"):
                if before == " " and after == " ":
                    alts = {"<": ["<=", ">"], ">": [">=", "<"], "*": ["/"], "&": ["|"]}[o]
            for a in alts:
                rep(m.start(), m.end(), a, "%s -> %s" % (o, a))
        for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])", code):
            if instr(m.start()):
                continue
            v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1), 8)
            for nv in sorted({v + 1, v - 1, 0} - {v}):
                if nv >= 0 or True:
                    rep(m.start(), m.end(), str(nv), "%s -> %s" % (m.group(1), nv))
        for m in re.finditer(r"\b(true|false)\b", code):
            rep(m.start(), m.end(), {"true": "false", "false": "true"}[m.group(1)], m.group(1) + " flipped")
        for m in re.finditer(r"\b(nullptr)\b", code):
            pass
        for a, b in [("TYPE_INT32", "TYPE_INT64"), ("TYPE_INT64", "TYPE_INT32"), ("TYPE_FLOAT", "TYPE_DOUBLE"), ("TYPE_DOUBLE", "TYPE_FLOAT"),
                     ("TYPE_BOOL", "TYPE_INT32"), ("TYPE_STRING", "TYPE_DOUBLE"), ("int32_t", "int64_t"), ("int64_t", "int32_t"),
                     ("size_t", "int"), ("size_t", "uint8_t"), ("uint8_t", "int8_t"), ("uint32_t", "uint16_t"), ("uint64_t", "uint32_t"),
                     ("float", "double"), ("double", "float"), ("unsigned char", "char"), ("std::max", "std::min"), ("std::min", "std::max"),
                     ("Calc[A-Z]\\w+", None), ("break", "continue"), ("continue", "break"), ("find_first_not_of", "find_first_of"), ("first", "second")]:
            if b is None:
                continue
            for m in re.finditer(r"(?<!\w)%s(?!\w)" % a, code):
                if not instr(m.start()):
                    rep(m.start(), m.end(), b, "%s -> %s" % (a, b))
        if re.match(r"^\s*(if|while)\s*\(.*\)\s*\{?\s*\\?$", code) or re.match(r"^\s*\} else if \(.*\) \{\s*\\?$", code):
            m = re.search(r"\b(if|while)\s*\(", code)
            e = code.rindex(")")
            out.append(("condition negated", code[:m.end()] + "!(" + code[m.end():e] + ")" + code[e:]))
            out.append(("condition true", code[:m.end()] + "true" + code[e:]))
            out.append(("condition false", code[:m.end()] + "false" + code[e:]))
        if re.search(r";\s*\\?$", code) and not re.match(r"^\s*(const |static |auto |virtual |friend |explicit )", code) and not s.startswith("}"):
            bs = "\\" if code.rstrip().endswith("\\") else ""
            out.append(("statement removed", re.match(r"\s*", code).group(0) + ";" + bs))
        if re.match(r"^\s*case\s", code):
            out.append(("case removed", "\\" if code.rstrip().endswith("\\") else ""))
        if code.count("{") == 0 and re.match(r"^\s*(OP_FUN|ENTRY|\w+\(|&|nullptr,|\w+<)", code) and s.endswith(","):
            out.append(("entry nulled", "nullptr,"))
        if re.search(r"std::move\(", code):
            out.append(("move removed", re.sub(r"std::move\(", "(", code, count=1)))
        seen = set()
        for what, n in out:
            if n != code and n not in seen:
                seen.add(n)
                yield i + 1, what, l.strip(), n.strip(), "\n".join(lines[:i] + [n] + lines[i + 1:])


ORDER = ["E01", "E02", "E03", "E04", "E05", "E06", "E07", "E08", "E09", "E10", "E11", "E12", "S01", "S02", "S04", "R05", "R06", "R01", "R02", "R03", "R04",
         "R07", "V01", "V02", "V03", "S05", "E13", "E14", "S03", "S06"]
RORDER = ["R05", "R01", "R02", "R03", "R04", "R06", "R07", "S02", "S05", "V01"]


# -m: only the checks of the properties a file is about; for the relational operators every one of them
OWN = [("calc/casting", "E05 E06"), ("calc/string_fun", "E07"), ("calc/arithmetic", "E02"), ("calc/mathematic", "E02 E04"),
       ("calc/relational", "E04"), ("calc/special", "E03 R01"), ("codec.cc", "E09 S01"), ("codec.h", "S02"),
       ("expr/operand.", "V02 V01"), ("expr_string", "V01 E04"), ("operand_stack", "E10 E01 E13 S04"), ("operator.cc", "E03"),
       ("operator.h", "E03 E10 E01"), ("operator_vector", "S03 E09 E11"), ("operators.", "S03 E12 E02 E03 E04 E05 E06 E07 E08"),
       ("expr/runner", "E13 V02"), ("expr/types", "E05"), ("exception", "E05"), ("utils", "V03 R04"), ("rel_runner", "S03 S02 R05"),
       ("rel/op", "R01 R02 R03 R04 R05 R06 R07 S05")]


def main():
    a = sys.argv[1:]
    own = "-m" in a
    if own:
        a.remove("-m")
    out = a.pop(0)
    nj, secs, part = 7, 1.5, None
    while a and a[0].startswith("-"):
        o = a.pop(0)
        x = a.pop(0)
        if o == "-j":
            nj = int(x)
        if o == "-s":
            secs = float(x)
        if o == "-k":
            part = tuple(map(int, x.split("/")))
    rx = re.compile(a[0]) if a else None
    check.build({"A"})
    b = check.Builder(check.BUILD)
    core = b.harness(check.CORE + ["main"])
    src = os.path.join(check.REPO, "src")
    ccs = check.repo_sources()
    todo = []
    allf = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith((".cc", ".h")))
    for f in allf:
        if rx and not rx.search(f):
            continue
        for m in mutants(f, open(f).read()):
            todo.append((f,) + m)
    if part:
        todo = [t for t in todo if int(hashlib.sha256((t[0] + t[4] + t[2]).encode()).hexdigest(), 16) % part[1] == part[0]]
    done = set()
    if os.path.exists(out):
        done = {l.split("\t")[1] for l in open(out) if "\t" in l}
    q = queue.Queue()
    for t in todo:
        k = "%s:%d %s" % (os.path.relpath(t[0], src), t[1], t[2]) + " #" + hashlib.sha256(t[4].encode()).hexdigest()[:6]
        if k not in done:
            q.put((k, t))
    print(q.qsize(), "mutants", flush=True)
    lock = threading.Lock()
    fo = open(out, "a")
    env = check.run_env()
    FL = ["-std=gnu++17", "-O1", "-DNDEBUG", "-w"]

    def deps(cc, d):
        r = subprocess.run(["g++", "-std=gnu++17", "-MM", "-I" + d + "/src", cc], capture_output=True, text=True)
        return set(os.path.normpath(x) for x in r.stdout.replace("\\\n", " ").split()[1:])

    def worker(n):
        d = "/tmp/mutate/w%d" % n
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/o")
        os.makedirs(d + "/t")
        shutil.copytree(src, d + "/src")
        check.harvest(d + "/dict")
        units = [os.path.join(d, "src", os.path.relpath(c, src)) for c in ccs] + [os.path.join(check.HARN, "sut.cc")]
        dep = {u: deps(u, d) for u in units}

        def comp(u, o):
            fl = FL + ["-I" + d + "/src"] + (["-DALLOC_COUNT"] if u.endswith("/sut.cc") else [])
            return subprocess.run(["g++"] + fl + ["-c", u, "-o", o], capture_output=True, text=True, timeout=300).returncode == 0
        base = {}
        for u in units:
            o = d + "/o/" + os.path.basename(u) + ".o"
            assert comp(u, o), u
            base[u] = o
        while True:
            try:
                k, (f, line, what, old, new, text) = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            g = os.path.join(d, "src", os.path.relpath(f, src))
            orig = open(g).read()
            open(g, "w").write(text)
            res = None
            try:
                objs = []
                for u in units:
                    if g == u or g in dep[u]:
                        o = d + "/t/" + os.path.basename(u) + ".o"
                        if not comp(u, o):
                            res = "nocompile"
                            break
                        objs.append(o)
                    else:
                        objs.append(base[u])
                if res is None:
                    r = subprocess.run(["g++"] + objs + core + ["-lpthread", "-o", d + "/pbt"], capture_output=True, text=True)
                    if r.returncode:
                        res = "nolink"
                if res is None:
                    order = ORDER
                    if "/rel/" in f:
                        order = RORDER + [p for p in ORDER if p not in RORDER]
                    if own:
                        order = next(v for x, v in OWN if x in f).split()
                    killers = []
                    for p in order:
                        try:
                            r = subprocess.run([d + "/pbt", "--prop", p, "--seed", "1", "--count", "100000000", "--batch", "300", "--budget", str(secs),
                                                "--no-shrink", "--dict", d + "/dict", "--out", d + "/t/out", "--tmp", d + "/t", "--cpu", "4"],
                                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
                            if r.returncode:
                                killers.append("%s %d" % (p, r.returncode))
                        except subprocess.TimeoutExpired:
                            killers.append("%s timeout" % p)
                        if killers and not (own and "/rel/op" in f):
                            break
                    if killers:
                        res = "killed " + ", ".join(killers)
                if res is None:
                    res = "SURVIVED"
            except subprocess.TimeoutExpired:
                res = "compile-timeout"
            finally:
                open(g, "w").write(orig)
            with lock:
                fo.write("%s\t%s\t%s\t=>\t%s\t%.0fs\n" % (res, k, old, new, time.time() - t0))
                fo.flush()

    ths = [threading.Thread(target=worker, args=(n,)) for n in range(nj)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    shutil.rmtree("/tmp/mutate", ignore_errors=True)


if __name__ == "__main__":
    main()
