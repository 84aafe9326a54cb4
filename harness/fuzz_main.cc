// Coverage-guided search (libFuzzer) over the choice sequences of one property (environment: FZ_PROP, FZ_DICT,
// FZ_STATS).  The oracle is the property function itself; a failure aborts and leaves the input behind.
#include <cstdlib>
#include <map>

#include "core.h"

void loadDict(const char *path);

static const Prop *g_prop;
static Stats g_st;
static bool g_thorough;

static void dump() {
  const char *p = getenv("FZ_STATS");
  if (p == nullptr) {
    return;
  }
  FILE *f = fopen(p, "w");
  if (f == nullptr) {
    return;
  }
  fprintf(f, "cases %llu\nnontrivial %llu\nskipped %llu\nsubchecks %llu\n", (unsigned long long)g_st.cases,
          (unsigned long long)g_st.nontrivial, (unsigned long long)g_st.skipped, (unsigned long long)g_st.subchecks);
  fclose(f);
  std::string h = std::string(p) + ".hashes";
  f = fopen(h.c_str(), "wb");
  if (f != nullptr) {
    fwrite(g_st.hashes.data(), 8, g_st.hashes.size(), f);
    fclose(f);
  }
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *id = getenv("FZ_PROP");
  for (size_t k = 0; k < NPROPS; ++k) {
    if (id != nullptr && strcmp(id, PROPS[k].id) == 0) {
      g_prop = &PROPS[k];
    }
  }
  if (g_prop == nullptr) {
    fprintf(stderr, "FZ_PROP?\n");
    exit(2);
  }
  if (getenv("FZ_DICT") != nullptr) {
    loadDict(getenv("FZ_DICT"));
  }
  g_thorough = getenv("FZ_THOROUGH") != nullptr;
  atexit(dump);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const u8 *data, size_t size) {
  Ctx c;
  c.st = &g_st;
  c.thorough = g_thorough;
  c.src.buf = data;
  c.src.n = size;
  try {
    g_prop->fn(c);
  } catch (const CaseSkip &) {
    ++g_st.skipped;
    c.nontrivial = false;
  } catch (const CaseFail &f) {
    fprintf(stderr, "CASE FAILED: %s\n", f.msg.c_str());
    abort();
  } catch (const std::exception &e) {
    fprintf(stderr, "CASE FAILED: an exception left the code under test: %s\n", e.what());
    abort();
  }
  ++g_st.cases;
  if (c.nontrivial) {
    ++g_st.nontrivial;
    g_st.hashes.push_back(c.hash);
  }
  return 0;
}
