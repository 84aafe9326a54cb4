#!/usr/bin/env python3
"""Writes the planted bugs of /verif/seeded from the edits and demonstrations below (development tool; no check uses it).

  mkseeds.py [ID...]      write patch.diff, demo.sh, demo.cc, demo.h and meta.json for the named bugs (default: all)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

HEAD = r'''// Shared by the demonstrations.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "expr/exception.h"
#include "expr/runner.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"

using namespace dingodb::expr;
using dingodb::rel::RelRunner;

#define CHECK(c)                                              \
  do {                                                        \
    if (!(c)) {                                               \
      fprintf(stderr, "line %d: not true: %s\n", __LINE__, #c); \
      exit(1);                                                \
    }                                                         \
  } while (0)

static std::vector<Byte> X(const std::string &hex) {
  std::string s;
  for (char c : hex) {
    if (c != ' ') s += c;
  }
  std::vector<Byte> v(s.size() / 2);
  HexToBytes(v.data(), s.data(), s.size());
  return v;
}

// Code in a heap block of exactly its size.
struct Code {
  size_t n;
  Byte *p;
  Code(const std::vector<Byte> &v) : n(v.size()), p(new Byte[v.size()]) { memcpy(p, v.data(), n); }
  Code(const std::string &hex) : Code(X(hex)) {}
  Code(const char *hex) : Code(X(hex)) {}
  Code(const Code &) = delete;
  ~Code() { delete[] p; }
};

static void Dec(Runner &r, const Code &c) { r.Decode(c.p, c.n); }
static void Dec(RelRunner &r, const Code &c) { r.Decode(c.p, c.n); }

static Operand Eval(const Code &c, const Tuple *t = nullptr) {
  Runner r;
  Dec(r, c);
  r.BindTuple(t);
  r.Run();
  return r.Get();
}

static Operand Eval(const char *hex, const Tuple *t = nullptr) { return Eval(Code(hex), t); }

// All rows of a relational runner after the rows have been put.
static std::vector<Tuple> Feed(RelRunner &r, const std::vector<Tuple> &rows) {
  std::vector<Tuple> out;
  auto take = [&](const Tuple *t) {
    if (t == nullptr) return false;
    out.push_back(*t);
    delete t;
    return true;
  };
  for (const auto &x : rows) take(r.Put(new Tuple(x)));
  while (take(r.Get())) {
  }
  return out;
}

static std::vector<Tuple> Rel(const char *hex, const std::vector<Tuple> &rows) {
  RelRunner r;
  Code c(hex);
  Dec(r, c);
  return Feed(r, rows);
}
'''

DEMO = '''#!/bin/bash
# Exit 0: the property holds for this input. Run in the repository after its build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
find src -name '*.cc' | sort > "$work/list"
pids=()
n=0
while read -r f; do
  n=$((n + 1))
  g++ -std=gnu++17 {flags} -w -Isrc -c "$f" -o "$work/$n.o" & pids+=($!)
done < "$work/list"
g++ -std=gnu++17 {flags} -w -Isrc -I"$here" -c "$here/demo.cc" -o "$work/demo.o" & pids+=($!)
for p in "${{pids[@]}}"; do wait "$p"; done
g++ {flags} "$work"/*.o -o "$work/demo" -lpthread
{env}timeout 120 "$work/demo"
'''

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, flags="-O1 -DNDEBUG", env=""):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags, env=env)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())


def write(id):
    b = BUGS[id]
    d = os.path.join(VERIF, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call("git -C %s archive HEAD src | tar x -C %s" % (REPO, w), shell=True)
        subprocess.check_call("cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % w, shell=True)
        for f, old, new in b["edits"]:
            p = os.path.join(w, "src", f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s of:\n%s" % (id, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.h"), "w").write(HEAD)
    open(os.path.join(d, "demo.cc"), "w").write('#include "demo.h"\n\n' + b["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.format(flags=b["flags"], env=b["env"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


for id in sys.argv[1:] or sorted(BUGS):
    write(id)
