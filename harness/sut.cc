#include "sut.h"

#include <locale.h>

#include <cerrno>
#include <cfenv>
#include <cstdlib>
#include <exception>
#include <locale>
#include <new>
#include <sstream>

#include "expr/exception.h"
#include "expr/operand.h"
#include "expr/runner.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"

using namespace dingodb;
using expr::Operand;
using expr::Tuple;

// ---------------------------------------------------------------------------------------------- allocations

static thread_local int t_inSut = 0;
struct InSut {
  InSut() {
    ++t_inSut;
  }
  ~InSut() {
    --t_inSut;
  }
};

static thread_local sut::FailPlan *t_fail = nullptr;
[[maybe_unused]] static bool mustFail() {
  if (t_fail == nullptr || t_inSut <= 0) {
    return false;
  }
  u64 n = ++t_fail->seen;
  if (n < t_fail->from || (n != t_fail->from && (t_fail->every == 0 || (n - t_fail->from) % t_fail->every != 0))) {
    return false;
  }
  ++t_fail->failed;
  return true;
}
namespace sut {
bool canFail() {
#if defined(ALLOC_COUNT) || defined(ASAN_COUNT)
  return true;
#else
  return false;
#endif
}
void setFailPlan(FailPlan *p) {
  t_fail = p;
}
}  // namespace sut

#if defined(ALLOC_COUNT)

#include <atomic>
static std::atomic<i64> g_live{0};
static std::atomic<u64> g_bytes{0};
static std::atomic<u64> g_peak{0};
static bool g_huge = false;

// Own operator new/delete: every block has a header, fresh memory is filled with a pattern and freed memory
// with another one, and releasing something that is not live (or by the wrong form of delete) aborts.
namespace {
struct Hdr {
  u64 size;
  u32 magic;
  u8 tag, arr;
  uint16_t pad;
};
static_assert(sizeof(Hdr) == 16, "");
const u32 LIVE = 0x51AB11FE, DEAD = 0xDEADD00D;

void *doNew(size_t n, bool arr) {
  if (mustFail()) {
    throw std::bad_alloc();
  }
  if (n > (g_huge ? (u64)1 << 33 : (u64)1 << 29)) {  // a request this large is refused, but counted
    if (t_inSut > 0 && n > g_peak.load(std::memory_order_relaxed)) {
      g_peak.store(n, std::memory_order_relaxed);
    }
    throw std::bad_alloc();
  }
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
  if (h == nullptr) {
    throw std::bad_alloc();
  }
  h->size = n;
  h->magic = LIVE;
  h->tag = t_inSut > 0;
  h->arr = arr;
  if (h->tag != 0) {
    g_live.fetch_add(1, std::memory_order_relaxed);
    u64 b = g_bytes.fetch_add(n, std::memory_order_relaxed) + n;
    if (b > g_peak.load(std::memory_order_relaxed)) {
      g_peak.store(b, std::memory_order_relaxed);
    }
    memset(h + 1, 0xA5, n < 4096 ? n : 4096);
  }
  return h + 1;
}

void doDelete(void *p, bool arr) {
  if (p == nullptr) {
    return;
  }
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != LIVE) {
    fprintf(stderr, "ALLOC: release of a block that is not live (double free or invalid pointer)\n");
    abort();
  }
  if ((h->arr != 0) != arr) {
    fprintf(stderr, "ALLOC: new/delete form mismatch\n");
    abort();
  }
  h->magic = DEAD;
  if (h->tag != 0) {
    g_live.fetch_sub(1, std::memory_order_relaxed);
    g_bytes.fetch_sub(h->size, std::memory_order_relaxed);
    memset(p, 0x5A, h->size < 4096 ? h->size : 4096);
  }
  free(h);
}
}  // namespace

void *operator new(size_t n) {
  return doNew(n, false);
}
void *operator new[](size_t n) {
  return doNew(n, true);
}
void operator delete(void *p) noexcept {
  doDelete(p, false);
}
void operator delete[](void *p) noexcept {
  doDelete(p, true);
}
void operator delete(void *p, size_t) noexcept {
  doDelete(p, false);
}
void operator delete[](void *p, size_t) noexcept {
  doDelete(p, true);
}

namespace sut {
bool countsAllocs() {
  return true;
}
bool canHuge() {
  return true;
}
void allowHuge(bool on) {
  g_huge = on;
}
void resetAllocs() {
  g_live = 0;
  g_bytes = 0;
  g_peak = 0;
}
i64 liveAllocs() {
  return g_live;
}
u64 liveBytes() {
  return g_bytes;
}
u64 peakBytes() {
  return g_peak;
}
}  // namespace sut

#elif defined(ASAN_COUNT)

// Calls of operator new in the linked objects come here (--wrap), so that they can fail.
extern "C" void *__real__Znwm(size_t n);
extern "C" void *__real__Znam(size_t n);
extern "C" void *__wrap__Znwm(size_t n) {
  if (mustFail()) {
    throw std::bad_alloc();
  }
  return __real__Znwm(n);
}
extern "C" void *__wrap__Znam(size_t n) {
  if (mustFail()) {
    throw std::bad_alloc();
  }
  return __real__Znam(n);
}

// The same count through the sanitizer's allocation hooks.
#include <sanitizer/allocator_interface.h>
namespace {
const u32 CAP = 1 << 18;
struct Ent {
  const volatile void *p;
  u64 n;
};
Ent g_tab[CAP];
i64 g_live = 0;
u64 g_bytes = 0, g_peak = 0;
bool g_full = false;
const void *const GONE = (const void *)1;
u32 slot(const volatile void *p) {
  return (u32)(mix64((u64)p) & (CAP - 1));
}
void onMalloc(const volatile void *p, size_t n) {
  if (t_inSut <= 0 || g_full) {
    return;
  }
  if (g_live > CAP / 2) {
    g_full = true;
    return;
  }
  u32 i = slot(p);
  while (g_tab[i].p != nullptr && g_tab[i].p != GONE) {
    i = (i + 1) & (CAP - 1);
  }
  g_tab[i] = {p, n};
  ++g_live;
  g_bytes += n;
  if (g_bytes > g_peak) {
    g_peak = g_bytes;
  }
}
u64 g_gone = 0;
void onFree(const volatile void *p) {
  if (p == nullptr || g_live == 0) {
    return;
  }
  u32 i = slot(p);
  for (u32 k = 0; k < CAP && g_tab[i].p != nullptr; ++k, i = (i + 1) & (CAP - 1)) {
    if (g_tab[i].p == p) {
      --g_live;
      g_bytes -= g_tab[i].n;
      if (g_tab[(i + 1) & (CAP - 1)].p == nullptr) {
        g_tab[i].p = nullptr;
      } else {
        g_tab[i].p = GONE;
        ++g_gone;
      }
      return;
    }
  }
}
}  // namespace

namespace sut {
bool countsAllocs() {
  static const bool on = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0;
  return on && !g_full;
}
bool canHuge() {
  return false;
}
void allowHuge(bool) {
}
void resetAllocs() {
  countsAllocs();
  if (g_live != 0 || g_gone > CAP / 16 || g_full) {
    memset(g_tab, 0, sizeof g_tab);
    g_gone = 0;
  }
  g_full = false;
  g_live = 0;
  g_bytes = 0;
  g_peak = 0;
}
i64 liveAllocs() {
  return g_live;
}
u64 liveBytes() {
  return g_bytes;
}
u64 peakBytes() {
  return g_peak;
}
}  // namespace sut

#else

namespace sut {
bool countsAllocs() {
  return false;
}
bool canHuge() {
  return false;
}
void allowHuge(bool) {
}
void resetAllocs() {
}
i64 liveAllocs() {
  return 0;
}
u64 liveBytes() {
  return 0;
}
u64 peakBytes() {
  return 0;
}
}  // namespace sut

#endif

// ---------------------------------------------------------------------------------------------- work

#if defined(WORK_COUNT)

// The sources under test are compiled with a call in every basic block; calls which move, compare, hash or allocate
// memory are counted by size.  The C++ library is linked statically, so that this holds for its calls as well.
#define NOCOV __attribute__((no_sanitize_coverage))
static u64 g_work = 0;
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() {
  g_work += t_inSut > 0;
}
#define BYTES(N) (t_inSut > 0 ? (void)(g_work += 1 + (N) / 16) : (void)0)
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
void *__real_memset(void *d, int b, size_t n);
int __real_memcmp(const void *a, const void *b, size_t n);
void *__real__Znwm(size_t n);
void *__real__Znam(size_t n);
size_t __real__ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed);
NOCOV void *__wrap_memcpy(void *d, const void *s, size_t n) {
  BYTES(n);
  return __real_memcpy(d, s, n);
}
NOCOV void *__wrap_memmove(void *d, const void *s, size_t n) {
  BYTES(n);
  return __real_memmove(d, s, n);
}
NOCOV void *__wrap_memset(void *d, int b, size_t n) {
  BYTES(n);
  return __real_memset(d, b, n);
}
NOCOV int __wrap_memcmp(const void *a, const void *b, size_t n) {
  BYTES(n);
  return __real_memcmp(a, b, n);
}
NOCOV void *__wrap__Znwm(size_t n) {
  BYTES(n);
  return __real__Znwm(n);
}
NOCOV void *__wrap__Znam(size_t n) {
  BYTES(n);
  return __real__Znam(n);
}
NOCOV size_t __wrap__ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) {
  BYTES(n);
  return __real__ZSt11_Hash_bytesPKvmm(p, n, seed);
}
}
namespace sut {
bool countsWork() {
  return true;
}
u64 work() {
  return g_work;
}
}  // namespace sut

#else

namespace sut {
bool countsWork() {
  return false;
}
u64 work() {
  return 0;
}
}  // namespace sut

#endif

// ---------------------------------------------------------------------------------------------- conversion

namespace sut {

static Tuple *T(Tup *t) {
  return reinterpret_cast<Tuple *>(t);
}
static const Tuple *T(const Tup *t) {
  return reinterpret_cast<const Tuple *>(t);
}

static Operand toOperand(const Val &v) {
  switch (v.ty) {
  case T_I32:
    return Operand((int32_t)v.i);
  case T_I64:
    return Operand((int64_t)v.i);
  case T_BOOL:
    return Operand(v.i != 0);
  case T_F32:
    return Operand(v.f());
  case T_F64:
    return Operand(v.d);
  case T_STR:
    return Operand(expr::String(v.s));
  default:
    return Operand(nullptr);
  }
}

static bool tryRead(const Operand &o, u8 ty, Val &v) {
  try {
    switch (ty) {
    case T_I32:
      v.i = o.GetValue<int32_t>();
      break;
    case T_I64:
      v.i = o.GetValue<int64_t>();
      break;
    case T_BOOL: {
      bool b = o.GetValue<bool>();
      v.i = b;
      break;
    }
    case T_F32:
      v.d = (double)o.GetValue<float>();
      break;
    case T_F64:
      v.d = o.GetValue<double>();
      break;
    case T_STR: {
      auto s = o.GetValue<expr::String>();
      v.s.assign((*s).data(), (*s).size());
      break;
    }
    default:
      return false;
    }
  } catch (const std::exception &) {
    return false;
  }
  v.ty = ty;
  return true;
}

static Val fromOperand(const Operand &o, u8 hint) {
  Val v;
  if (o == nullptr) {
    return v;
  }
  if (hint != T_NULL && tryRead(o, hint, v)) {
    return v;
  }
  for (u8 t : {T_I32, T_I64, T_BOOL, T_F32, T_F64, T_STR}) {
    if (t != hint && tryRead(o, t, v)) {
      return v;
    }
  }
  v.ty = 15;  // not a value of any of the types
  return v;
}

static void note(Err &e, Ex x, const char *w) {
  e.ex = x;
  e.what = w;
}

// ---------------------------------------------------------------------------------------------- state of the process

namespace {
struct Punct : std::numpunct<char> {
  char dp, sep;
  std::string grp;
  Punct(char d, char t, const char *g) : dp(d), sep(t), grp(g) {
  }
  char do_decimal_point() const override {
    return dp;
  }
  char do_thousands_sep() const override {
    return sep;
  }
  std::string do_grouping() const override {
    return grp;
  }
  std::string do_truename() const override {
    return "wahr";
  }
  std::string do_falsename() const override {
    return "falsch";
  }
};
struct CLocales {
  std::vector<std::string> names;
  std::vector<locale_t> locs;
  std::vector<std::locale> cxx;
  CLocales() {
    const char *l = getenv("VERIF_LOCALES");
    std::istringstream in(l != nullptr ? l : "");
    std::string n;
    while (in >> n) {
      locale_t x = newlocale(LC_ALL_MASK, n.c_str(), nullptr);
      if (x != nullptr) {
        names.push_back(n);
        locs.push_back(x);
      }
    }
    cxx.push_back(std::locale::classic());
    cxx.emplace_back(std::locale::classic(), new Punct(',', '.', "\3"));
    cxx.emplace_back(std::locale::classic(), new Punct(',', '.', ""));
    cxx.emplace_back(std::locale::classic(), new Punct('.', ',', "\3"));
    cxx.emplace_back(std::locale::classic(), new Punct('.', '0', "\1"));
    cxx.emplace_back(std::locale::classic(), new Punct('5', '\'', "\2\3"));
  }
};
CLocales &locales() {
  static CLocales l;
  return l;
}
const EnvSpec *g_env = nullptr;
struct EnvGuard {
  bool on;
  locale_t old = nullptr;
  int saved = 0;
  EnvGuard() : on(g_env != nullptr) {
    if (on) {
      CLocales &l = locales();
      saved = errno;
      if (g_env->cxx > 0) {
        std::locale::global(l.cxx[(size_t)g_env->cxx]);
      }
      if (g_env->c > 0) {
        old = uselocale(l.locs[(size_t)g_env->c - 1]);
      }
      if (g_env->fp) {
        feraiseexcept(FE_ALL_EXCEPT);
      }
      errno = g_env->err;
    }
  }
  ~EnvGuard() {
    if (on) {
      if (g_env->cxx > 0) {
        std::locale::global(std::locale::classic());
      }
      if (g_env->c > 0) {
        uselocale(old);
      }
      feclearexcept(FE_ALL_EXCEPT);
      errno = saved;
    }
  }
};
}  // namespace
int envLocales() {
  return (int)locales().locs.size();
}
const char *envName(int c) {
  return c == 0 ? "C" : locales().names[(size_t)c - 1].c_str();
}
void setEnv(const EnvSpec *e) {
  g_env = e;
}

#define GUARD(STMT)                                  \
  err = Err();                                       \
  int saved = t_inSut;                               \
  try {                                              \
    InSut guard;                                     \
    EnvGuard env;                                    \
    STMT;                                            \
  } catch (const expr::ExprError &e) {               \
    t_inSut = saved;                                 \
    note(err, Ex::EXPR, e.what());                   \
  } catch (const std::exception &e) {                \
    t_inSut = saved;                                 \
    note(err, Ex::STD, e.what());                    \
  } catch (const CaseFail &) {                       \
    throw;                                           \
  } catch (...) {                                    \
    t_inSut = saved;                                 \
    note(err, Ex::OTHER, "not a std::exception");    \
  }

Tup *mkTuple(const Row &r) {
  InSut g;
  auto *t = new Tuple(r.size());
  for (size_t i = 0; i < r.size(); ++i) {
    (*t)[i] = toOperand(r[i]);
  }
  return reinterpret_cast<Tup *>(t);
}
Tup *mkHugeTuple(size_t n, u64 seed, size_t spaceFront, size_t spaceBack) {
  InSut g;
  auto p = std::make_shared<std::string>(n, 'q');
  Prng rnd(seed);
  auto mark = [&](size_t at) {
    for (size_t k = at < 40 ? 0 : at - 40; k < at + 40 && k < n; ++k) {
      (*p)[k] = (char)(33 + rnd.below(90));
    }
  };
  for (size_t k = 0; k < n; k += 50000017) {
    mark(k);
  }
  for (size_t k : {(size_t)1 << 31, ((size_t)1 << 32) - 1, n - ((size_t)1 << 31), n / 2, n - 1}) {
    mark(k);
  }
  for (size_t k = 0; k < spaceFront; ++k) {
    (*p)[k] = ' ';
  }
  for (size_t k = 0; k < spaceBack; ++k) {
    (*p)[n - 1 - k] = '\t';
  }
  auto *t = new Tuple(1);
  (*t)[0] = expr::Operand(expr::String(p));
  return reinterpret_cast<Tup *>(t);
}
Tup *mkTupleHow(const Row &r, u8 how) {
  InSut g;
  auto *t = new Tuple;
  if (how == 1) {
    t->reserve(r.size() * 2 + 5);
  }
  for (const auto &v : r) {
    t->push_back(toOperand(v));
  }
  if (how == 2) {
    for (int i = 0; i < 7; ++i) {
      t->push_back(Operand((int32_t)i));
    }
    t->resize(r.size());
  } else if (how == 3) {
    auto *u = new Tuple(*t);
    delete t;
    t = u;
  }
  return reinterpret_cast<Tup *>(t);
}
void freeTuple(const Tup *t) {
  delete T(t);
}
Row readTuple(const Tup *t, const Row *hint) {
  const Tuple &u = *T(t);
  Row r;
  r.reserve(u.size());
  for (size_t i = 0; i < u.size(); ++i) {
    r.push_back(fromOperand(u[i], hint != nullptr && i < hint->size() ? (*hint)[i].ty : (u8)T_NULL));
  }
  return r;
}
void setElem(Tup *t, size_t i, const Val &v) {
  InSut g;
  (*T(t))[i] = toOperand(v);
}
void setAll(Tup *t, const Row &r, u8 how) {
  InSut g;
  auto &x = *const_cast<Tuple *>(T(t));
  Tuple n;
  for (const auto &v : r) {
    n.push_back(toOperand(v));
  }
  switch (how & 3) {
  case 0: x.swap(n); break;
  case 1: x = n; break;
  case 2:
    x.clear();
    x.shrink_to_fit();
    for (const auto &v : n) {
      x.push_back(v);
    }
    break;
  default:
    x.resize(n.size());
    std::copy(n.begin(), n.end(), x.begin());
  }
}
size_t tupleSize(const Tup *t) {
  return T(t)->size();
}

struct Held {
  std::vector<Operand> v;
};
Held *mkHeld() {
  return new Held;
}
void freeHeld(Held *h) {
  delete h;
}
size_t heldSize(const Held *h) {
  return h->v.size();
}
Val heldAt(const Held *h, size_t i) {
  return fromOperand(h->v[i], T_NULL);
}

struct R {
  expr::Runner r;
};
R *mkRunner() {
  InSut g;
  return new R;
}
void freeRunner(R *r) {
  InSut g;
  delete r;
}
ptrdiff_t decode(R *r, const u8 *code, size_t len, Err &err) {
  const expr::Byte *p = code;
  GUARD(p = r->r.Decode(code, len));
  return p - code;
}
void bind(R *r, const Tup *t) {
  InSut g;
  r->r.BindTuple(T(t));
}
void run(R *r, Err &err) {
  GUARD(r->r.Run());
}
std::string hugeDiffers(R *r, const Tup *t, size_t at, size_t len) {
  const expr::String whole = (*reinterpret_cast<const Tuple *>(t))[0].GetValue<expr::String>();
  const expr::Operand v = r->r.Get();
  if (v == nullptr) {
    return "NULL";
  }
  const expr::String s = v.GetValue<expr::String>();
  if (s->size() != len) {
    return fmt("%zu bytes", s->size());
  }
  if (s->data() != whole->data() + at && memcmp(s->data(), whole->data() + at, len) != 0) {
    return "other bytes";
  }
  return "";
}
Row getAll(R *r, const Row *hint) {
  Tuple *t;
  {
    InSut g;
    t = r->r.GetAll();
  }
  Row row = readTuple(reinterpret_cast<Tup *>(t), hint);
  delete t;
  return row;
}
Row getAllOr(R *r, Err &err, const Row *hint) {
  Tuple *t = nullptr;
  GUARD(t = r->r.GetAll());
  Row row;
  if (t != nullptr) {
    row = readTuple(reinterpret_cast<Tup *>(t), hint);
    delete t;
  }
  return row;
}
Val get(R *r, Err &err, u8 hint) {
  Operand o;
  GUARD(o = r->r.Get());
  if (err) {
    return Val();
  }
  return fromOperand(o, hint);
}
void hold(R *r, Held *h) {
  h->v.push_back(r->r.Get());
}
void holdAll(R *r, Held *h) {
  Tuple *t = r->r.GetAll();
  for (const auto &o : *t) {
    h->v.push_back(o);
  }
  delete t;
}
u8 getType(R *r) {
  InSut g;
  return r->r.GetType();
}

template <class X>
static void getOpt(R *r, bool &has, Err &err, std::optional<X> &out) {
  GUARD(out = r->r.GetOptional<X>());
  has = !err && out.has_value();
}
Val getOptional(R *r, u8 ty, bool &has, Err &err) {
  switch (ty) {
  case T_I32: {
    std::optional<int32_t> o;
    getOpt(r, has, err, o);
    return has ? Val::I32(*o) : Val();
  }
  case T_I64: {
    std::optional<int64_t> o;
    getOpt(r, has, err, o);
    return has ? Val::I64(*o) : Val();
  }
  case T_BOOL: {
    std::optional<bool> o;
    getOpt(r, has, err, o);
    return has ? Val::B(*o) : Val();
  }
  case T_F32: {
    std::optional<float> o;
    getOpt(r, has, err, o);
    return has ? Val::F32(*o) : Val();
  }
  case T_F64: {
    std::optional<double> o;
    getOpt(r, has, err, o);
    return has ? Val::F64(*o) : Val();
  }
  default: {
    std::optional<expr::String> o;
    getOpt(r, has, err, o);
    return has ? Val::S(**o) : Val();
  }
  }
}

struct RR {
  rel::RelRunner r;
};
RR *mkRel() {
  InSut g;
  return new RR;
}
void freeRel(RR *r) {
  InSut g;
  delete r;
}
ptrdiff_t relDecode(RR *r, const u8 *code, size_t len, Err &err) {
  const expr::Byte *p = code;
  GUARD(p = r->r.Decode(code, len));
  return p - code;
}
const Tup *relPut(RR *r, const Tup *t, Err &err) {
  const Tuple *o = nullptr;
  GUARD(o = r->r.Put(T(t)));
  return reinterpret_cast<const Tup *>(o);
}
const Tup *relGet(RR *r, Err &err) {
  const Tuple *o = nullptr;
  GUARD(o = r->r.Get());
  return reinterpret_cast<const Tup *>(o);
}

// ---------------------------------------------------------------------------------------------- operands

struct Op {
  Operand o;
};
Op *mkOp(const Val &v) {
  if (v.ty == T_NULL) {
    return new Op{nullptr};
  }
  return new Op{toOperand(v)};
}
Op *mkOpShared(const Val &v) {
  if (v.ty == T_STR) {
    return new Op{Operand(std::make_shared<std::string>(v.s))};
  }
  if (v.ty == T_NULL) {
    return new Op{};
  }
  return mkOp(v);
}
Op *mkOpStringVariant(const Val &v, int variant) {
  switch (variant) {
  case 0:
    return new Op{Operand(expr::String(v.s))};
  case 1:
    return new Op{Operand(expr::String(v.s.data(), v.s.size()))};
  case 2:
    return new Op{Operand(expr::String(std::make_shared<std::string>(v.s)))};
  case 3:
    if (v.s.find('\0') == std::string::npos) {
      return new Op{Operand(expr::String(v.s.c_str()))};
    }
    return new Op{Operand(expr::String(v.s))};
  default:
    if (v.s.empty()) {
      return new Op{Operand(expr::String())};
    }
    return new Op{Operand(std::make_shared<std::string>(v.s))};
  }
}
Op *copyOp(const Op *o) {
  return new Op(*o);
}
void assignOp(Op *dst, const Op *src) {
  dst->o = src->o;
}
void freeOp(Op *o) {
  delete o;
}
bool opEq(const Op *a, const Op *b) {
  return a->o == b->o;
}
bool opNe(const Op *a, const Op *b) {
  return a->o != b->o;
}
bool opEqNull(const Op *a) {
  return a->o == nullptr;
}
bool opNeNull(const Op *a) {
  return a->o != nullptr;
}
u64 opHash(const Op *o) {
  return std::hash<Operand>()(o->o);
}
u64 strHash(const std::string &s) {
  InSut g;
  return std::hash<expr::String>()(expr::String(s));
}
u64 tupHash(const Tup *t) {
  InSut g;
  return std::hash<Tuple>()(*T(t));
}
bool tupEq(const Tup *a, const Tup *b) {
  InSut g;
  return *T(a) == *T(b);
}
Val readOp(const Op *o, u8 hint) {
  return fromOperand(o->o, hint);
}
bool opReadAs(const Op *o, u8 ty, Val &v, Err &err) {
  v = Val();
  switch (ty) {
  case T_I32: {
    GUARD(v = Val::I32(o->o.GetValue<int32_t>()));
    break;
  }
  case T_I64: {
    GUARD(v = Val::I64(o->o.GetValue<int64_t>()));
    break;
  }
  case T_BOOL: {
    GUARD(v = Val::B(o->o.GetValue<bool>()));
    break;
  }
  case T_F32: {
    GUARD(v = Val::F32(o->o.GetValue<float>()));
    break;
  }
  case T_F64: {
    GUARD(v = Val::F64(o->o.GetValue<double>()));
    break;
  }
  default: {
    GUARD(v = Val::S(*o->o.GetValue<expr::String>()));
    break;
  }
  }
  return !err;
}
std::string opPrint(const Op *o) {
  std::ostringstream ss;
  ss << o->o;
  return ss.str();
}

template <class X>
static Op *rt(const Op *o, bool &has, Err &err) {
  Op *res = nullptr;
  GUARD({
    std::any a = expr::any_optional_data_adaptor::FromOperand<X>(o->o);
    has = std::any_cast<std::optional<X>>(a).has_value();
    res = new Op{expr::any_optional_data_adaptor::ToOperand<X>(a)};
  });
  return res;
}
Op *roundTripAny(const Op *o, u8 ty, bool &has, Err &err, bool *stringPtr) {
  switch (ty) {
  case T_I32:
    return rt<int32_t>(o, has, err);
  case T_I64:
    return rt<int64_t>(o, has, err);
  case T_BOOL:
    return rt<bool>(o, has, err);
  case T_F32:
    return rt<float>(o, has, err);
  case T_F64:
    return rt<double>(o, has, err);
  default:
    if (stringPtr != nullptr && *stringPtr) {
      return rt<expr::String::ValueType>(o, has, err);
    }
    return rt<expr::String>(o, has, err);
  }
}
template <class X>
static Op *fa(const std::optional<X> &v, Err &err) {
  Op *res = nullptr;
  GUARD({
    std::any a = std::make_any<std::optional<X>>(v);
    res = new Op{expr::any_optional_data_adaptor::ToOperand<X>(a)};
  });
  return res;
}
Op *fromAny(const Val &v, u8 ty, Err &err) {
  bool n = v.isNull();
  switch (ty) {
  case T_I32:
    return fa<int32_t>(n ? std::optional<int32_t>() : std::optional<int32_t>((int32_t)v.i), err);
  case T_I64:
    return fa<int64_t>(n ? std::optional<int64_t>() : std::optional<int64_t>(v.i), err);
  case T_BOOL:
    return fa<bool>(n ? std::optional<bool>() : std::optional<bool>(v.i != 0), err);
  case T_F32:
    return fa<float>(n ? std::optional<float>() : std::optional<float>(v.f()), err);
  case T_F64:
    return fa<double>(n ? std::optional<double>() : std::optional<double>(v.d), err);
  default: {
    using P = expr::String::ValueType;
    return fa<P>(n ? std::optional<P>() : std::optional<P>(std::make_shared<std::string>(v.s)), err);
  }
  }
}
template <class T, class F>
static std::string arr(const Row &elems, F conv) {
  using P = std::shared_ptr<std::vector<T>>;
  auto p = std::make_shared<std::vector<T>>();
  for (const auto &v : elems) {
    p->push_back(conv(v));
  }
  std::vector<T> want = *p;
  try {
    Operand o(p);
    Operand o2(o), o3;
    o3 = o2;
    if (o == nullptr || !(o != nullptr)) {
      return "an array operand compares as NULL";
    }
    for (const Operand *q : {&o, &o2, &o3}) {
      P g = q->GetValue<P>();
      if (g == nullptr || *g != want) {
        return "an array operand does not read back as constructed";
      }
    }
    if (!(o == o3) || o != o3 || std::hash<Operand>()(o) != std::hash<Operand>()(o3)) {
      return "a copy of an array operand is not equal to it or hashes differently";
    }
    std::any a = expr::any_optional_data_adaptor::FromOperand<P>(o);
    auto opt = std::any_cast<std::optional<P>>(a);
    if (!opt.has_value() || **opt != want) {
      return "the optional of an array operand is empty or has other content";
    }
    Operand back = expr::any_optional_data_adaptor::ToOperand<P>(a);
    if (!(back == o)) {
      return "an array operand is not equal after conversion to an optional and back";
    }
    std::any n = expr::any_optional_data_adaptor::FromOperand<P>(Operand());
    if (std::any_cast<std::optional<P>>(n).has_value()) {
      return "the optional of a NULL array is not empty";
    }
    if (!(expr::any_optional_data_adaptor::ToOperand<P>(n) == nullptr)) {
      return "an empty array optional does not give NULL";
    }
    bool threw = false;
    try {
      (void)o.GetValue<int32_t>();
    } catch (const std::exception &) {
      threw = true;
    }
    if (!threw) {
      return "an array operand read as INT32 does not raise an error";
    }
  } catch (const std::exception &e) {
    return std::string("raised: ") + e.what();
  }
  return "";
}
std::string arrayCheck(int kind, const Row &elems) {
  switch (kind) {
  case 0:
    return arr<int32_t>(elems, [](const Val &v) { return (int32_t)v.i; });
  case 1:
    return arr<int64_t>(elems, [](const Val &v) { return (int64_t)v.i; });
  case 2:
    return arr<bool>(elems, [](const Val &v) { return v.i != 0; });
  case 3:
    return arr<float>(elems, [](const Val &v) { return v.f(); });
  case 4:
    return arr<double>(elems, [](const Val &v) { return v.d; });
  default:
    return arr<std::string>(elems, [](const Val &v) { return v.s; });
  }
}

bool strCmp(const std::string &a, const std::string &b, int which) {
  expr::String x(a), y(b);
  switch (which) {
  case 0:
    return x == y;
  case 1:
    return x >= y;
  case 2:
    return x > y;
  case 3:
    return x <= y;
  case 4:
    return x < y;
  default:
    return x != y;
  }
}
std::string strConcat(const std::string &a, const std::string &b) {
  return *(expr::String(a) + expr::String(b));
}

int hexToNibble(char c) {
  return expr::HexToNibble(c);
}
char nibbleToHex(int n) {
  return expr::NibbleToHex(n);
}
void hexToBytes(u8 *buf, const char *hex, size_t len) {
  InSut g;
  expr::HexToBytes(buf, hex, len);
}
void bytesToHex(char *hex, const u8 *buf, size_t len) {
  InSut g;
  expr::BytesToHex(hex, buf, len);
}
std::string hexOfBytes(const u8 *data, size_t len) {
  InSut g;
  return expr::HexOfBytes(data, len);
}

bool exactHeap() {
#if defined(ASAN_COUNT)
  return true;
#else
  return false;
#endif
}

}  // namespace sut
