// Choice source, values, statistics and the case context shared by all properties.
// Nothing here includes a header of the code under test.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i32 = int32_t;
using i64 = int64_t;
using Bytes = std::vector<u8>;

enum : u8 { T_NULL = 0, T_I32 = 1, T_I64 = 2, T_BOOL = 3, T_F32 = 4, T_F64 = 5, T_DEC = 6, T_STR = 7 };

// ---------------------------------------------------------------------------------------------- choices

inline u64 mix64(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

namespace sut {
bool canHuge();  // blocks of some GB, in the plain build
}

// A test case is a pure function of the bytes taken from here.  Past the end of a recorded sequence the
// bytes are zero, and generators put their simplest alternative first, so shorter/smaller means simpler.
struct Src {
  bool first = false;
  const u8 *buf = nullptr;
  size_t n = 0;
  bool rnd = false;
  u64 st = 0;
  u8 *rec = nullptr;
  volatile u64 *recn = nullptr;
  size_t cap = 1 << 20;
  size_t pos = 0;
  u64 w = 0;
  int wn = 0;

  u8 byte() {
    u8 b = 0;
    if (rnd) {
      if (pos < cap) {
        if (wn == 0) {
          w = mix64(st);
          st += 0x9E3779B97F4A7C15ull;
          wn = 8;
        }
        b = (u8)w;
        w >>= 8;
        --wn;
        if (rec != nullptr) {
          rec[pos] = b;
          *recn = pos + 1;
        }
      }
    } else if (pos < n) {
      b = buf[pos];
    }
    ++pos;
    return b;
  }
  bool over() const {  // out of recorded choices: generators should wind up
    return rnd ? pos >= cap : pos > n + 4096;
  }
  u64 bits(int bytes) {
    u64 v = 0;
    for (int i = 0; i < bytes; ++i) {
      v |= (u64)byte() << (8 * i);
    }
    return v;
  }
  u32 below(u32 k) {
    if (k <= 1) {
      return 0;
    }
    if (k <= 256) {
      return byte() % k;
    }
    if (k <= 65536) {
      return bits(2) % k;
    }
    return bits(4) % k;
  }
  u32 range(u32 a, u32 b) {  // inclusive
    return a + below(b - a + 1);
  }
  // True with a probability of about p/256; false is the simple outcome.
  bool chance(u32 p) {
    return byte() >= 256 - p;
  }
  // True in the first case of a run of the plain build only: for the one case which is too costly to be repeated.
  bool once() {
    if (rnd) {
      const u8 m[] = {(u8)(first && sut::canHuge() ? 0xB7 : 0), (u8)(first && sut::canHuge() ? 0x3D : 0)};
      for (u8 b : m) {
        if (pos < cap && rec != nullptr) {
          rec[pos] = b;
          *recn = pos + 1;
        }
        ++pos;
      }
      return first && sut::canHuge();
    }
    u64 v = bits(2);
    return v == 0x3DB7 && sut::canHuge();
  }
  bool rare(u32 k) {  // about 1/k, k up to 65536
    return bits(2) % k == k - 1;
  }
};

// A small generator seeded from choices, to expand bulk data without recording a choice per datum.
struct Prng {
  u64 s;
  explicit Prng(u64 seed) : s(seed) {
  }
  u64 next() {
    s += 0x9E3779B97F4A7C15ull;
    return mix64(s);
  }
  u32 below(u32 k) {
    return k == 0 ? 0 : (u32)(next() % k);
  }
};

// ---------------------------------------------------------------------------------------------- values

enum : u8 {
  F_ANY = 1,   // any value of the type
  F_ZS = 2,    // compare with == (sign of zero unspecified)
  F_ULP = 4,   // within a few units in the last place
  F_TOL = 8,   // within absolute tolerance `tol`
  F_NZ = 16,   // text of a zero: the sign may be dropped
};

struct Val {
  u8 ty = T_NULL;
  u8 fl = 0;
  i64 i = 0;
  double d = 0;
  double tol = 0;
  std::string s;

  static Val null() {
    return Val();
  }
  static Val I32(i32 v) {
    Val r;
    r.ty = T_I32;
    r.i = v;
    return r;
  }
  static Val I64(i64 v) {
    Val r;
    r.ty = T_I64;
    r.i = v;
    return r;
  }
  static Val B(bool v) {
    Val r;
    r.ty = T_BOOL;
    r.i = v;
    return r;
  }
  static Val F32(float v) {
    Val r;
    r.ty = T_F32;
    r.d = v;
    return r;
  }
  static Val F64(double v) {
    Val r;
    r.ty = T_F64;
    r.d = v;
    return r;
  }
  static Val S(std::string v) {
    Val r;
    r.ty = T_STR;
    r.s = std::move(v);
    return r;
  }
  bool isNull() const {
    return ty == T_NULL;
  }
  float f() const {
    return (float)d;
  }
};
using Row = std::vector<Val>;

bool sameVal(const Val &exp, const Val &got);    // by representation (NaN equals NaN), honouring exp.fl
bool equalVal(const Val &a, const Val &b);       // the library's notion: type and content, 0.0 == -0.0
bool sameRow(const Row &exp, const Row &got);
std::string show(const Val &v);
std::string show(const Row &r);
std::string hexOf(const u8 *p, size_t n, size_t max = 400);
inline std::string hexOf(const Bytes &b, size_t max = 400) {
  return hexOf(b.data(), b.size(), max);
}
u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ull);
u64 hashVal(const Val &v, u64 h);

// ---------------------------------------------------------------------------------------------- dictionary

struct Dict {
  std::vector<i64> ints;
  std::vector<double> dbls;
  std::vector<std::string> strs;
};
extern Dict g_dict;

// ---------------------------------------------------------------------------------------------- context

struct CaseFail {
  std::string msg;
};
struct CaseSkip {};  // generated input outside of the property's domain

struct Stats {
  u64 cases = 0, nontrivial = 0, skipped = 0, subchecks = 0;
  std::unordered_map<std::string, u64> classes;
  std::vector<u64> hashes;
  std::vector<std::string> samples;
};

struct Ctx {
  Src src;
  Stats *st = nullptr;
  bool wantDesc = false;
  std::string desc;
  bool nontrivial = false;
  u64 hash = 1469598103934665603ull;
  bool thorough = false;

  void label(const char *l) {
    if (st != nullptr) {
      ++st->classes[l];
    }
  }
  void mixHash(const void *p, size_t n) {
    hash = hashBytes(p, n, hash);
  }
  void mixHash(const Bytes &b) {
    mixHash(b.data(), b.size());
  }
  void mixHash(const Row &r) {
    for (const auto &v : r) {
      hash = hashVal(v, hash);
    }
  }
  void sub() {
    if (st != nullptr) {
      ++st->subchecks;
    }
  }
  void note(const std::string &s) {
    if (wantDesc && desc.size() < 6000) {
      desc += s;
      desc += '\n';
    }
  }
  [[noreturn]] void fail(const std::string &msg) {
    throw CaseFail{msg};
  }
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

using PropFn = void (*)(Ctx &);
struct Prop {
  const char *id;
  PropFn fn;
  const char *rule;  // how cases are made and what makes one non-trivial
};
extern const Prop PROPS[];
extern const size_t NPROPS;
