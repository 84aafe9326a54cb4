// Random-search engine: runs cases in forked batches, shrinks failures, writes and runs replay files.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <ctime>
#include <cstdlib>
#include <map>

#include "core.h"

void loadDict(const char *path);
std::string dictText();
bool loadDictText(const std::string &line);

static const size_t CAP = 1 << 20;
struct Shm {
  volatile u64 idx;
  volatile u64 recn;
  volatile int failed;
  char msg[16384];
  char desc[16384];
  u64 outn;
  u8 rec[CAP];
  char out[4 << 20];
};
static Shm *g_shm;
static const Prop *g_prop;
static bool g_thorough = false;
static int g_cpuLimit = 20;
static std::string g_tmp = "/tmp";
static u64 g_seed = 1;

static u64 propSalt() {
  return hashBytes(g_prop->id, strlen(g_prop->id));
}

static void put(std::string &o, const void *p, size_t n) {
  o.append((const char *)p, n);
}

static void arm() {
  struct itimerval it {};
  it.it_value.tv_sec = g_cpuLimit;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs one case in this process; on failure fills the shared message and leaves.
static void runCase(Ctx &c) {
  try {
    g_prop->fn(c);
  } catch (const CaseSkip &) {
    if (c.st != nullptr) {
      ++c.st->skipped;
    }
    c.nontrivial = false;
  } catch (const CaseFail &f) {
    snprintf(g_shm->msg, sizeof g_shm->msg, "%s", f.msg.c_str());
    snprintf(g_shm->desc, sizeof g_shm->desc, "%s", c.desc.c_str());
    g_shm->failed = 1;
    _exit(3);
  } catch (const std::exception &e) {
    snprintf(g_shm->msg, sizeof g_shm->msg, "an exception left the code under test: %s", e.what());
    snprintf(g_shm->desc, sizeof g_shm->desc, "%s", c.desc.c_str());
    g_shm->failed = 1;
    _exit(3);
  }
}

static void childInit(const std::string &errfile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

static std::string readErr(const std::string &f) {
  std::string r;
  FILE *h = fopen(f.c_str(), "r");
  if (h != nullptr) {
    char b[3000];
    size_t n = fread(b, 1, sizeof b - 1, h);
    b[n] = 0;
    r = b;
    fclose(h);
  }
  return r;
}

static std::string deathMessage(int status, const std::string &errfile) {
  std::string m;
  if (WIFSIGNALED(status)) {
    int sg = WTERMSIG(status);
    if (sg == SIGPROF) {
      m = fmt("no result after %d s of CPU time (hang)", g_cpuLimit);
    } else {
      m = fmt("killed by signal %d (%s)", sg, strsignal(sg));
    }
  } else {
    m = fmt("exit code %d", WEXITSTATUS(status));
  }
  return m + "\n" + readErr(errfile);
}

struct Res {
  bool failed = false;
  std::string msg, desc;
};

static bool isHang(const Res &r) {
  return r.msg.find("s of CPU time (hang)") != std::string::npos;
}

static u64 caseState(u64 idx) {
  return mix64(mix64(g_seed ^ propSalt()) + idx * 0xD1342543DE82EF95ull);
}

// Runs one recorded choice sequence in a fresh child.
static Res runOne(const std::vector<u8> &ch, bool desc) {
  std::string ef = g_tmp + fmt("/err1.%d", (int)getpid());
  g_shm->failed = 0;
  g_shm->msg[0] = g_shm->desc[0] = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    childInit(ef);
    arm();
    Ctx c;
    c.thorough = g_thorough;
    c.src.buf = ch.data();
    c.src.n = ch.size();
    c.wantDesc = desc;
    runCase(c);
    snprintf(g_shm->desc, sizeof g_shm->desc, "%s", c.desc.c_str());
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Res r;
  r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  r.desc = g_shm->desc;
  if (r.failed) {
    r.msg = g_shm->failed != 0 ? std::string(g_shm->msg) : deathMessage(st, ef);
  }
  unlink(ef.c_str());
  return r;
}

// Runs cases [start, start+count) in one fresh child.
static Res runSeq(u64 start, u64 count, u64 *failIdx, std::map<std::string, u64> *cls, Stats *tot, FILE *hashes,
                  std::vector<std::string> *samples, int wantSamples) {
  std::string ef = g_tmp + fmt("/err2.%d", (int)getpid());
  g_shm->failed = 0;
  g_shm->msg[0] = g_shm->desc[0] = 0;
  g_shm->outn = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    childInit(ef);
    Stats st;
    std::vector<std::string> smp;
    for (u64 k = start; k < start + count; ++k) {
      g_shm->idx = k;
      g_shm->recn = 0;
      if ((k & 15) == 0 || k == start) {
        arm();
      }
      Ctx c;
      c.thorough = g_thorough;
      c.st = &st;
      c.src.rnd = true;
      c.src.first = k == 0;
      c.src.st = caseState(k);
      c.src.rec = g_shm->rec;
      c.src.recn = &g_shm->recn;
      c.src.cap = CAP;
      c.wantDesc = (int)smp.size() < wantSamples;
      runCase(c);
      ++st.cases;
      if (c.nontrivial) {
        ++st.nontrivial;
        st.hashes.push_back(c.hash);
        if (c.wantDesc && !c.desc.empty() && c.desc.size() < 3000) {
          smp.push_back(c.desc);
        }
      }
    }
    std::string o;
    put(o, &st.cases, 8);
    put(o, &st.nontrivial, 8);
    put(o, &st.skipped, 8);
    put(o, &st.subchecks, 8);
    u64 n = st.classes.size();
    put(o, &n, 8);
    for (auto &e : st.classes) {
      n = e.first.size();
      put(o, &n, 8);
      o += e.first;
      put(o, &e.second, 8);
    }
    n = smp.size();
    put(o, &n, 8);
    for (auto &e : smp) {
      n = e.size();
      put(o, &n, 8);
      o += e;
    }
    n = st.hashes.size();
    put(o, &n, 8);
    put(o, st.hashes.data(), n * 8);
    if (o.size() <= sizeof g_shm->out) {
      memcpy(g_shm->out, o.data(), o.size());
      g_shm->outn = o.size();
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Res r;
  r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (r.failed) {
    r.msg = g_shm->failed != 0 ? std::string(g_shm->msg) : deathMessage(st, ef);
    r.desc = g_shm->desc;
    if (failIdx != nullptr) {
      *failIdx = g_shm->idx;
    }
  } else if (tot != nullptr && g_shm->outn > 0) {
    const char *q = g_shm->out;
    auto g8 = [&] {
      u64 v;
      memcpy(&v, q, 8);
      q += 8;
      return v;
    };
    tot->cases += g8();
    tot->nontrivial += g8();
    tot->skipped += g8();
    tot->subchecks += g8();
    u64 n = g8();
    for (u64 k = 0; k < n; ++k) {
      u64 l = g8();
      std::string s(q, l);
      q += l;
      (*cls)[s] += g8();
    }
    n = g8();
    for (u64 k = 0; k < n; ++k) {
      u64 l = g8();
      samples->push_back(std::string(q, l));
      q += l;
    }
    n = g8();
    if (hashes != nullptr) {
      fwrite(q, 8, n, hashes);
    }
  }
  unlink(ef.c_str());
  return r;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// Hangs are shrunk with a shorter limit; the caller confirms the result with the full one.
static std::vector<u8> shrink(std::vector<u8> cur, bool hang, u64 *evals) {
  double t0 = now();
  int limit = g_cpuLimit;
  if (hang) {
    g_cpuLimit = std::max(2, limit / 8);
  }
  double secs = hang ? 12 : 20;
  u64 n = 0;
  auto fails = [&](const std::vector<u8> &v) {
    ++n;
    return runOne(v, false).failed;
  };
  auto more = [&] { return n < 4000 && now() - t0 < secs; };
  while (!cur.empty() && cur.back() == 0) {
    std::vector<u8> v = cur;
    v.pop_back();
    cur = v;
  }
  if (!fails(cur)) {  // trailing zeros are implied, but be sure
    cur.push_back(0);
  }
  bool progress = true;
  while (progress && more()) {
    progress = false;
    for (size_t len = cur.size() / 2; len > 0 && more(); len = len * 2 / 3) {  // cut the tail
      if (len >= cur.size()) {
        continue;
      }
      std::vector<u8> v(cur.begin(), cur.begin() + (long)len);
      if (fails(v)) {
        cur = v;
        progress = true;
      }
    }
    for (size_t blk : {256u, 64u, 16u, 8u, 4u, 2u, 1u}) {
      for (size_t at = 0; at < cur.size() && more();) {
        size_t e = std::min(cur.size(), at + blk);
        std::vector<u8> v = cur;
        v.erase(v.begin() + (long)at, v.begin() + (long)e);
        if (v.size() < cur.size() && fails(v)) {
          cur = v;
          progress = true;
          continue;
        }
        bool nz = false;
        for (size_t k = at; k < e; ++k) {
          nz |= cur[k] != 0;
        }
        if (nz) {
          v = cur;
          std::fill(v.begin() + (long)at, v.begin() + (long)e, 0);
          if (fails(v)) {
            cur = v;
            progress = true;
          }
        }
        at += blk;
      }
    }
    for (size_t at = 0; at < cur.size() && more(); ++at) {
      while (cur[at] > 0 && more()) {
        u8 old = cur[at];
        bool ok = false;
        for (u8 t : {(u8)(old / 2), (u8)(old - 1)}) {
          if (t >= old) {
            continue;
          }
          std::vector<u8> v = cur;
          v[at] = t;
          if (fails(v)) {
            cur = v;
            ok = true;
            progress = true;
            break;
          }
        }
        if (!ok) {
          break;
        }
      }
    }
  }
  *evals = n;
  g_cpuLimit = limit;
  return cur;
}

static std::string oneLine(std::string s) {
  for (auto &c : s) {
    if (c == '\n') {
      c = '\x1f';
    }
  }
  return s;
}

static void writeReplay(const std::string &path, const std::string &mode, const std::vector<u8> &ch, u64 start, u64 count,
                        const Res &r) {
  FILE *f = fopen(path.c_str(), "w");
  if (f == nullptr) {
    return;
  }
  fprintf(f, "property=%s\nmode=%s\nthorough=%d\n", g_prop->id, mode.c_str(), (int)g_thorough);
  if (mode == "choices") {
    fprintf(f, "choices=%s\n", hexOf(ch.data(), ch.size(), CAP * 2).c_str());
  } else {
    fprintf(f, "seed=%llu\nstart=%llu\ncount=%llu\n", (unsigned long long)g_seed, (unsigned long long)start,
            (unsigned long long)count);
  }
  fputs(dictText().c_str(), f);
  fprintf(f, "# %s\n", oneLine(r.msg).c_str());
  std::string d = r.desc;
  size_t b = 0;
  while (b < d.size()) {
    size_t e = d.find('\n', b);
    if (e == std::string::npos) {
      e = d.size();
    }
    fprintf(f, "# %s\n", d.substr(b, e - b).c_str());
    b = e + 1;
  }
  fclose(f);
}

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c >= 127) {
      r += fmt("\\u%04x", c);
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}

static int doReplay(const char *path, int times) {
  FILE *f = fopen(path, "r");
  if (f == nullptr) {
    fprintf(stderr, "cannot read %s\n", path);
    return 2;
  }
  std::string line;
  std::string mode, prop;
  std::vector<u8> ch;
  u64 start = 0, count = 0;
  int c;
  auto handle = [&](const std::string &l) {
    size_t e = l.find('=');
    if (l.empty() || l[0] == '#' || e == std::string::npos) {
      return;
    }
    std::string k = l.substr(0, e), v = l.substr(e + 1);
    if (k == "property") {
      prop = v;
    } else if (k == "mode") {
      mode = v;
    } else if (k == "thorough") {
      g_thorough = v == "1";
    } else if (k == "choices") {
      for (size_t i = 0; i + 1 < v.size(); i += 2) {
        ch.push_back((u8)strtoul(v.substr(i, 2).c_str(), nullptr, 16));
      }
    } else if (k == "seed") {
      g_seed = strtoull(v.c_str(), nullptr, 10);
    } else if (k == "start") {
      start = strtoull(v.c_str(), nullptr, 10);
    } else if (k == "count") {
      count = strtoull(v.c_str(), nullptr, 10);
    } else {
      loadDictText(l);
    }
  };
  while ((c = fgetc(f)) != EOF) {
    if (c == '\n') {
      handle(line);
      line.clear();
    } else {
      line += (char)c;
    }
  }
  handle(line);
  fclose(f);
  for (size_t k = 0; k < NPROPS; ++k) {
    if (prop == PROPS[k].id) {
      g_prop = &PROPS[k];
    }
  }
  if (g_prop == nullptr) {
    fprintf(stderr, "no such property\n");
    return 2;
  }
  int bad = 0;
  Res last;
  for (int k = 0; k < times; ++k) {
    Res r = mode == "choices" ? runOne(ch, true) : runSeq(start, count, nullptr, nullptr, nullptr, nullptr, nullptr, 0);
    if (r.failed) {
      ++bad;
      last = r;
    } else if (bad == 0) {
      last = r;
    }
  }
  printf("%s: %d of %d runs failed\n", path, bad, times);
  printf("%s\n%s\n", last.msg.c_str(), last.desc.c_str());
  return bad == times ? 1 : bad == 0 ? 0 : 4;
}

// Turns a raw choice file (from the fuzzer) into a shrunk replay file, if it fails three times.
static int doPromote(const char *raw, const char *outp) {
  FILE *f = fopen(raw, "rb");
  if (f == nullptr) {
    return 2;
  }
  std::vector<u8> ch;
  int c;
  while ((c = fgetc(f)) != EOF) {
    ch.push_back((u8)c);
  }
  fclose(f);
  bool hang = false;
  for (int k = 0; k < 3 && !hang; ++k) {
    Res r = runOne(ch, false);
    if (!r.failed) {
      return 0;
    }
    hang = isHang(r);
  }
  u64 ev = 0;
  auto sh = shrink(ch, hang, &ev);
  Res r = runOne(sh, true);
  if (!r.failed) {
    sh = ch;
    r = runOne(sh, true);
  }
  writeReplay(outp, "choices", sh, 0, 0, r);
  return 1;
}

static int doUnion(int n, char **files) {
  std::vector<u64> all;
  for (int k = 0; k < n; ++k) {
    FILE *f = fopen(files[k], "rb");
    if (f == nullptr) {
      continue;
    }
    u64 b[4096];
    size_t m;
    while ((m = fread(b, 8, 4096, f)) > 0) {
      all.insert(all.end(), b, b + m);
    }
    fclose(f);
  }
  std::sort(all.begin(), all.end());
  size_t d = (size_t)(std::unique(all.begin(), all.end()) - all.begin());
  printf("%zu\n", d);
  return 0;
}

int main(int argc, char **argv) {
  std::string prop, out, replay, promote, replayOut, hashFile;
  u64 start = 0, count = 1000, batch = 2000;
  double budget = 1e9;
  bool noShrink = false;
  int times = 1, samples = 3;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto nx = [&]() -> const char * { return k + 1 < argc ? argv[++k] : ""; };
    if (a == "--prop") {
      prop = nx();
    } else if (a == "--seed") {
      g_seed = strtoull(nx(), nullptr, 10);
    } else if (a == "--start") {
      start = strtoull(nx(), nullptr, 10);
    } else if (a == "--count") {
      count = strtoull(nx(), nullptr, 10);
    } else if (a == "--batch") {
      batch = strtoull(nx(), nullptr, 10);
    } else if (a == "--budget") {
      budget = atof(nx());
    } else if (a == "--no-shrink") {
      noShrink = true;
    } else if (a == "--thorough") {
      g_thorough = true;
    } else if (a == "--dict") {
      loadDict(nx());
    } else if (a == "--out") {
      out = nx();
    } else if (a == "--hashes") {
      hashFile = nx();
    } else if (a == "--replay-out") {
      replayOut = nx();
    } else if (a == "--replay") {
      replay = nx();
    } else if (a == "--promote") {
      promote = nx();
    } else if (a == "--times") {
      times = atoi(nx());
    } else if (a == "--samples") {
      samples = atoi(nx());
    } else if (a == "--cpu") {
      g_cpuLimit = atoi(nx());
    } else if (a == "--tmp") {
      g_tmp = nx();
    } else if (a == "--union") {
      return doUnion(argc - k - 1, argv + k + 1);
    } else if (a == "--rules") {
      for (size_t j = 0; j < NPROPS; ++j) {
        printf("%s\t%s\n", PROPS[j].id, PROPS[j].rule);
      }
      return 0;
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  g_shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_shm == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  if (!replay.empty()) {
    return doReplay(replay.c_str(), times);
  }
  for (size_t k = 0; k < NPROPS; ++k) {
    if (prop == PROPS[k].id) {
      g_prop = &PROPS[k];
    }
  }
  if (g_prop == nullptr) {
    fprintf(stderr, "no such property: %s\n", prop.c_str());
    return 2;
  }
  if (!promote.empty()) {
    return doPromote(promote.c_str(), replayOut.c_str());
  }
  Stats tot;
  std::map<std::string, u64> cls;
  std::vector<std::string> smp;
  FILE *hf = hashFile.empty() ? nullptr : fopen(hashFile.c_str(), "wb");
  double t0 = now();
  std::string status = "ok", message;
  u64 flaky = 0, shrinkEvals = 0;
  u64 done = 0;
  for (u64 b = start; b < start + count && status == "ok"; b += batch) {
    u64 n = std::min(batch, start + count - b);
    u64 fi = 0;
    Res r = runSeq(b, n, &fi, &cls, &tot, hf, &smp, (int)smp.size() < samples ? samples - (int)smp.size() : 0);
    done += n;
    if (r.failed && noShrink) {
      status = "fail";
      message = r.msg;
    } else if (r.failed) {
      std::vector<u8> ch(g_shm->rec, g_shm->rec + g_shm->recn);
      int rep = 0;
      bool hang = isHang(r);
      for (int k = hang ? 2 : 0; k < 3; ++k) {
        rep += runOne(ch, false).failed ? 1 : 0;
      }
      if (rep == (hang ? 1 : 3)) {
        auto sh = shrink(ch, hang, &shrinkEvals);
        Res r2 = runOne(sh, true);
        if (!r2.failed) {
          sh = ch;
          r2 = runOne(sh, true);
        }
        writeReplay(replayOut, "choices", sh, 0, 0, r2);
        status = "fail";
        message = r2.msg + "\n" + r2.desc;
      } else {
        // depends on what ran before in the process: replay the sequence, as short as possible
        u64 s0 = b;
        bool ok = true;
        for (int k = hang ? 2 : 0; k < 3 && ok; ++k) {
          ok = runSeq(b, fi - b + 1, nullptr, nullptr, nullptr, nullptr, nullptr, 0).failed;
        }
        if (ok) {
          for (u64 w = 1; w < fi - b && !hang; w *= 2) {
            bool all = true;
            for (int k = 0; k < 3 && all; ++k) {
              all = runSeq(fi - w, w + 1, nullptr, nullptr, nullptr, nullptr, nullptr, 0).failed;
            }
            if (all) {
              s0 = fi - w;
              break;
            }
          }
          writeReplay(replayOut, "sequence", ch, s0, fi - s0 + 1, r);
          status = "fail";
          message = r.msg + "\n" + r.desc;
        } else {
          ++flaky;
          message += "not reproducible: " + r.msg + "\n";
        }
      }
    }
    if (now() - t0 > budget) {
      break;
    }
  }
  if (hf != nullptr) {
    fclose(hf);
  }
  std::string o = "{";
  o += "\"status\":" + js(status) + ",\"message\":" + js(message) + ",\"replay\":" + js(status == "fail" ? replayOut : "");
  o += fmt(",\"cases\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"subchecks\":%llu,\"planned\":%llu,\"flaky\":%llu,"
           "\"shrink_evals\":%llu,\"seconds\":%.3f",
           (unsigned long long)tot.cases, (unsigned long long)tot.nontrivial, (unsigned long long)tot.skipped,
           (unsigned long long)tot.subchecks, (unsigned long long)done, (unsigned long long)flaky,
           (unsigned long long)shrinkEvals, now() - t0);
  o += ",\"classes\":{";
  bool first = true;
  for (auto &e : cls) {
    o += (first ? "" : ",") + js(e.first) + fmt(":%llu", (unsigned long long)e.second);
    first = false;
  }
  o += "},\"samples\":[";
  first = true;
  for (auto &e : smp) {
    o += (first ? "" : ",") + js(e);
    first = false;
  }
  o += "]}\n";
  if (out.empty()) {
    fputs(o.c_str(), stdout);
  } else {
    FILE *f = fopen(out.c_str(), "w");
    if (f != nullptr) {
      fputs(o.c_str(), f);
      fclose(f);
    }
  }
  return status == "ok" ? 0 : 10;
}
