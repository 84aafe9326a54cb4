// Properties E01..E14: expressions.
#include <sys/time.h>

#include <algorithm>
#include <cstdlib>

#include "util.h"

// ---------------------------------------------------------------------------------------------- E01

void prop_E01(Ctx &c) {
  Ops ops;
  Row cols;
  anyExpr(c.src, ops, cols, c);
  Bytes code;
  encOps(code, ops, &c.src);
  if (c.src.chance(60)) {
    code.push_back(0);
  }
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.label(o.st == St::OK ? "outcome: value" : o.st == St::ERR ? "outcome: error" : "outcome: unspecified");
  int nonLeaf = 0;
  for (const auto &op : ops) {
    nonLeaf += !op.isLeaf();
  }
  c.nontrivial = o.st != St::ANY && (nonLeaf >= 2 || ops.size() >= 10);
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, o);
}

// ---------------------------------------------------------------------------------------------- packs

static void packProp(Ctx &c, SigFilter f, int nullPct, u32 maxN) {
  Ops ops;
  Row cols;
  PackOpts po;
  po.nullPct = nullPct;
  opPack(c.src, f, 1 + c.src.below(maxN), ops, cols, po);
  if (ops.empty()) {
    throw CaseSkip();
  }
  Bytes code;
  encOps(code, ops, &c.src);
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.label(o.st == St::OK ? "outcome: value" : o.st == St::ERR ? "outcome: error" : "outcome: unspecified");
  c.nontrivial = o.st != St::ANY;
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, o);
}

static bool isArith(const Sig &g) {
  return (g.code >= O_POS && g.code <= O_MOD && g.t != T_STR) || g.code == O_ABS || g.code == O_ABSC;
}

void prop_E02(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 150) {
    packProp(c, isArith, 8, 6);
    return;
  }
  Ops ops;
  Row cols;
  static const u8 NUM[] = {T_I32, T_I64, T_F32, T_F64};
  if (m < 205) {
    // a/b*b + a%b = a, over several pairs
    c.label("law: a/b*b + a%b = a");
    for (u32 n = 1 + s.below(4); n > 0; --n) {
      u8 t = s.chance(128) ? T_I32 : T_I64;
      Val a = genInt(s, t), b = genRelated(s, a, t);
      for (const Val *v : {&a, &b}) {
        supply(s, ops, cols, *v, t);
      }
      ops.push_back(opOf(O_DIV, t));
      supply(s, ops, cols, b, t);
      ops.push_back(opOf(O_MUL, t));
      for (const Val *v : {&a, &b}) {
        supply(s, ops, cols, *v, t);
      }
      ops.push_back(opOf(O_MOD, t));
      ops.push_back(opOf(O_ADD, t));
      supply(s, ops, cols, a, t);
      ops.push_back(opOf(O_EQ, t));
    }
  } else {
    // arithmetic on results of arithmetic
    c.label("arithmetic tree");
    u8 t = NUM[s.below(4)];
    u32 n = 2 + s.below(8);
    for (u32 k = 0; k < n; ++k) {
      supply(s, ops, cols, genVal(s, t), t);
      if (s.chance(80)) {
        static const u8 U[] = {O_NEG, O_ABS, O_POS, O_ABSC};
        ops.push_back(opOf(U[s.below(3 + s.chance(40))], t));
      }
      if (k > 0) {
        static const u8 B[] = {O_ADD, O_SUB, O_MUL, O_DIV, O_MOD};
        ops.push_back(opOf(B[s.below(t == T_I32 || t == T_I64 ? 5 : 4)], t));
      }
    }
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.nontrivial = o.st != St::ANY;
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, o);
}

void prop_E03(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  Ops ops;
  Row cols;
  auto nullOf = [&](u8 t) {  // a NULL obtained in some way
    u8 k = s.byte() % 6;
    if (k < 2) {
      ops.push_back(opNull(t));
    } else if (k < 4 || t == T_BOOL || t == T_STR) {
      cols.push_back(Val());
      ops.push_back(opVar(t, (i32)cols.size() - 1));
    } else {  // x / 0
      Val z = t == T_I32 ? Val::I32(0) : t == T_I64 ? Val::I64(0) : t == T_F32 ? Val::F32(0) : Val::F64(0);
      supply(s, ops, cols, genVal(s, t), t);
      supply(s, ops, cols, z, t);
      ops.push_back(opOf(O_DIV, t));
    }
  };
  if (m < 110) {
    c.label("strict operator with a NULL operand");
    for (u32 n = 1 + s.below(6); n > 0; --n) {
      const Sig *g;
      do {
        g = &sigs()[s.below((u32)sigs().size())];
      } while (g->code == O_AND || g->code == O_OR || (g->code >= O_ISNULL && g->code <= O_ISFALSE));
      Val a[3];
      genArgs(s, *g, a, 0);
      u32 mask = 1 + s.below((1u << g->n) - 1);
      for (int k = 0; k < g->n; ++k) {
        if ((mask >> k & 1) != 0) {
          nullOf(g->a[k]);
        } else {
          supply(s, ops, cols, a[k], g->a[k]);
        }
      }
      ops.push_back(opOf(g->code, g->t));
    }
  } else if (m < 190) {
    c.label("three-valued logic");
    // random formulas over NOT/AND/OR with leaves from all sources
    int depth = 0;
    for (u32 n = 2 + s.below(14); n > 0; --n) {
      u8 k = s.byte();
      if (depth >= 2 && k < 110) {
        ops.push_back(opOf((k & 1) != 0 ? O_AND : O_OR));
        --depth;
      } else if (depth >= 1 && k < 140) {
        ops.push_back(opOf(O_NOT));
      } else {
        u8 v = s.byte();
        if (v % 3 == 0) {
          nullOf(T_BOOL);
        } else if (v % 16 < 12) {
          supply(s, ops, cols, Val::B(v % 3 == 1), T_BOOL);
        } else if (v % 16 < 14) {  // a comparison, possibly with NULL
          u8 t = genType(s);
          Val x = genVal(s, t, H_SHORT);
          supply(s, ops, cols, x, t);
          if (s.chance(70)) {
            nullOf(t);
          } else {
            supply(s, ops, cols, genRelated(s, x, t, H_SHORT), t);
          }
          ops.push_back(opOf((u8)(O_EQ + v / 16 % 6), t));
        } else {
          static const u8 T[] = {T_I32, T_I64, T_F32, T_F64};
          u8 t = T[v / 16 % 4];
          supply(s, ops, cols, genVal(s, t), t);
          ops.push_back(opOf(O_CAST, (u8)(T_BOOL << 4 | t)));
        }
        ++depth;
      }
    }
  } else {
    c.label("IS_NULL/IS_TRUE/IS_FALSE partition");
    for (u32 n = 1 + s.below(4); n > 0; --n) {
      u8 t = genType(s);
      bool nul = s.chance(60);
      Val v = nul ? Val() : (t != T_STR && t != T_BOOL && s.chance(70)) ? genVal(s, t, H_SMALL) : genVal(s, t);
      if (!nul && (t == T_F32 || t == T_F64) && s.chance(40)) {
        v.d = s.chance(128) ? -0.0 : 0.0;
      }
      int before = (int)ops.size();
      (void)before;
      for (u8 k = O_ISNULL; k <= O_ISFALSE; ++k) {
        if (nul) {
          nullOf(t);
        } else {
          supply(s, ops, cols, v, t);
        }
        ops.push_back(opOf(k, t));
      }
    }
  }
  if (ops.empty()) {
    throw CaseSkip();
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.nontrivial = o.st == St::OK;
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, o);
}

void prop_E04(Ctx &c) {
  Src &s = c.src;
  u8 t = genType(s);
  Ops ops;
  Row cols;
  std::vector<Val> v;
  u32 n = 2 + s.below(3);
  for (u32 k = 0; k < n; ++k) {
    v.push_back(k == 0 ? genVal(s, t) : genRelated(s, v[s.below(k)], t));
  }
  bool nan = false;
  for (auto &x : v) {
    nan |= (t == T_F32 || t == T_F64) && std::isnan(x.d);
  }
  if (nan) {
    c.label("with NaN");
  }
  if (t == T_STR) {
    c.label("strings");
  }
  u8 which = s.byte();
  for (u32 a = 0; a < n; ++a) {
    for (u32 b = 0; b < n; ++b) {
      if (n > 2 && ((which >> ((a * n + b) & 7)) & 1) == 0) {
        continue;
      }
      for (u8 k = 0; k < 8; ++k) {
        supply(s, ops, cols, v[a], t);
        supply(s, ops, cols, v[b], t);
        ops.push_back(opOf(k < 6 ? (u8)(O_EQ + k) : k == 6 ? (u8)O_MIN : (u8)O_MAX, t));
      }
    }
  }
  if (ops.empty()) {
    throw CaseSkip();
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.nontrivial = true;
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, o);
}

static bool isNumCast(const Sig &g) {
  return (g.code == O_CAST || g.code == O_CASTC) && (g.t >> 4) != T_STR && (g.t & 15) != T_STR;
}
static bool isTextCast(const Sig &g) {
  return (g.code == O_CAST || g.code == O_CASTC) && ((g.t >> 4) == T_STR) != ((g.t & 15) == T_STR);
}

void prop_E05(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 90) {
    packProp(c, isNumCast, 4, 6);
    return;
  }
  if (m < 125) {
    // several casts in a row, there and back again
    static const u8 T[] = {T_I32, T_I64, T_BOOL, T_F32, T_F64};
    Ops ops;
    Row cols;
    u8 t = T[s.below(5)];
    u8 prev = t;
    supply(s, ops, cols, genVal(s, t), t);
    u32 n = 2 + s.below(4);
    for (u32 k = 0; k < n; ++k) {
      u8 d = s.chance(110) ? prev : T[s.below(5)];
      ops.push_back(opOf(s.chance(70) ? O_CASTC : O_CAST, (u8)(d << 4 | t)));
      prev = t;
      t = d;
    }
    c.label("casts in a row");
    Bytes code;
    encOps(code, ops, &s);
    describe(c, ops, code, cols);
    Outcome o = evalOps(ops, &cols);
    c.nontrivial = o.st != St::ANY;
    finishHash(c, code, cols);
    checkExpr(c, ops, code, cols, o);
    return;
  }
  // one (checked) cast of a value near a boundary of its target
  static const u8 T[] = {T_I32, T_I64, T_BOOL, T_F32, T_F64};
  u8 src = T[s.below(5)], dst = T[s.below(5)];
  bool chk = s.chance(140);
  Val v = genVal(s, src);
  if ((src == T_F32 || src == T_F64) && s.chance(128)) {
    // k + 1/2, +- ulps, over the whole range of magnitudes where halves exist
    int e = (int)s.below(src == T_F32 ? 24 : 53);
    double b = std::floor(ldexp(1.0 + (double)s.bits(4) / 4294967296.0, e)) + (s.chance(128) ? 0.5 : 0.0);
    v.d = src == T_F32 ? (double)(float)b : b;
    int u = (int)s.below(5) - 2;
    for (; u > 0; --u) {
      v.d = src == T_F32 ? (double)nextafterf((float)v.d, INFINITY) : nextafter(v.d, INFINITY);
    }
    for (; u < 0; ++u) {
      v.d = src == T_F32 ? (double)nextafterf((float)v.d, -INFINITY) : nextafter(v.d, -INFINITY);
    }
    if (s.chance(128)) {
      v.d = -v.d;
    }
    c.label("half-way values");
  }
  Ops ops;
  Row cols;
  if (s.chance(40)) {
    supply(s, ops, cols, Val::I32(7), T_I32);
  }
  supply(s, ops, cols, v, src);
  ops.push_back(opOf(chk ? O_CASTC : O_CAST, (u8)(dst << 4 | src)));
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.label(o.st == St::ERR ? "checked cast must raise" : o.st == St::OK ? "cast value" : "unspecified");
  c.nontrivial = src != dst;
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, o);
}

void prop_E06(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 130) {
    packProp(c, isTextCast, 4, 4);
    return;
  }
  Ops ops;
  Row cols;
  if (m < 190) {
    // integer -> text -> integer is the identity; also through the other width
    c.label("integer round trip");
    u8 t = s.chance(128) ? T_I32 : T_I64;
    Val v = genInt(s, t);
    supply(s, ops, cols, v, t);
    ops.push_back(opOf(s.chance(60) ? O_CASTC : O_CAST, (u8)(T_STR << 4 | t)));
    ops.push_back(opOf(s.chance(60) ? O_CASTC : O_CAST, (u8)((t == T_I32 && s.chance(60) ? T_I64 : t) << 4 | T_STR)));
    Bytes code;
    encOps(code, ops, &s);
    describe(c, ops, code, cols);
    c.nontrivial = true;
    finishHash(c, code, cols);
    checkExpr(c, ops, code, cols, evalOps(ops, &cols));
    return;
  }
  // floating point -> text -> floating point: within the printed precision; and the text itself
  c.label("floating-point round trip");
  u8 t = s.chance(90) ? T_F32 : T_F64;
  Val v = genFlt(s, t, H_FINITE);
  supply(s, ops, cols, v, t);
  ops.push_back(opOf(O_CAST, (u8)(T_STR << 4 | t)));
  Ops head = ops;
  ops.push_back(opOf(O_CAST, (u8)(t << 4 | T_STR)));
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  c.nontrivial = true;
  finishHash(c, code, cols);
  Runner r;
  mustDecode(c, r.r, code);
  Tuple tp(cols);
  sut::bind(r.r, tp.t);
  sut::Err e;
  sut::run(r.r, e);
  if (e) {
    c.fail("round trip of " + show(v) + " through text raised " + e.what);
  }
  Val g = sut::get(r.r, e, t);
  double eps = t == T_F32 ? 1.2e-7 : 2.3e-16;
  if (g.ty != t || !(fabs(g.d - v.d) <= 0.5000001e-15 + fabs(v.d) * eps)) {
    c.fail("round trip of " + show(v) + " through text gave " + show(g));
  }
  Bytes code2;
  encOps(code2, head, nullptr);
  checkExpr(c, head, code2, cols, evalOps(head, &cols));
}

static bool isStrFn(const Sig &g) {
  return (g.code == O_FUN && g.t >= 0x20) || (g.code == O_ADD && g.t == T_STR);
}
// A long text: white space, a body, white space, each of any part of its length.
static std::string longText(Src &s, u32 hi) {
  u32 n = bigSize(s, 300, hi);
  u32 a = s.chance(100) ? 0 : s.chance(100) ? n - std::min(n, s.below(20)) : (u32)((u64)n * s.byte() / 256);
  u32 z = s.chance(100) ? 0 : (u32)((u64)(n - a) * s.byte() / 256);
  Prng p(s.bits(2));
  u8 how = s.byte();
  std::string r(n, ' ');
  for (u32 k = 0; k < n; ++k) {
    u64 w = p.next();
    r[k] = k < a || k >= n - z ? " \t\n\v\f\r"[w % 6] : (how & 1) != 0 ? (char)w : (char)('A' + w % 58);
  }
  return r;
}

// Whether there is memory enough, by far.
static bool memoryFor(u64 gb) {
  auto number = [](const char *file, const char *key) -> u64 {
    u64 v = 0;
    FILE *f = fopen(file, "r");
    if (f != nullptr) {
      char b[200];
      while (v == 0 && fgets(b, sizeof b, f) != nullptr) {
        if (strncmp(b, key, strlen(key)) == 0) {
          v = strtoull(b + strlen(key), nullptr, 10);
        }
      }
      fclose(f);
    }
    return v;
  };
  if (number("/proc/meminfo", "MemAvailable:") < gb * 1000000) {
    return false;
  }
  u64 most = number("/sys/fs/cgroup/memory.max", ""), used = number("/sys/fs/cgroup/memory.current", "");
  return most == 0 || most > used + gb * 1000000000;  // "max" reads as 0
}

// Texts of more than 2^31 bytes, once.
static void hugeTexts(Ctx &c) {
  Src &s = c.src;
  const i64 n = ((i64)1 << 31) + 50000000 + (i64)s.bits(3);
  const i64 front = s.below(4), back = s.below(4);
  struct Tuples {
    sut::Tup *t;
    ~Tuples() {
      if (t != nullptr) {
        sut::freeTuple(t);
      }
      sut::allowHuge(false);
    }
  };
  struct itimerval it {};  // more time than for other cases
  it.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &it, nullptr);
  sut::allowHuge(true);
  Tuples T{nullptr};
  const u64 seed = s.bits(4);
  try {
    T.t = sut::mkHugeTuple((size_t)n, seed, (size_t)front, (size_t)back);
  } catch (const std::bad_alloc &) {
    c.label("no memory for texts of more than 2^31 bytes");
    return;
  }
  c.label("texts of more than 2^31 bytes");
  c.nontrivial = true;
  c.hash = hashBytes(&n, 8);
  u32 costly = 0;
  for (u32 k = 0; k < 120; ++k) {
    static const u8 F[] = {FN_SUBSTR3, FN_SUBSTR2, FN_MID3, FN_MID2, FN_LEFT, FN_RIGHT, FN_TRIM, FN_LTRIM, FN_RTRIM, FN_CONCAT};
    u8 f = F[s.below(10)];
    const i64 B[] = {0, 3, -3, INT32_MAX, INT32_MIN, n - ((i64)1 << 32), ((i64)1 << 32) - n, (i64)s.bits(4) - ((i64)1 << 31),
                     (i64)s.bits(3), -(i64)s.bits(2), -50000000, 1};
    auto arg = [&]() -> i64 {
      return std::max<i64>(INT32_MIN, std::min<i64>(INT32_MAX, B[s.below(12)] + (i64)s.below(5) - 2));
    };
    i64 a = arg(), b = arg(), at = 0, end = n;
    if ((f == FN_LEFT || f == FN_RIGHT) && s.chance(160)) {
      a = 1 + s.below(5000);
    }
    if (f == FN_SUBSTR3 && s.chance(160)) {
      b = std::min<i64>(INT32_MAX, a + s.below(2000));
    }
    Ops ops{opVar(T_STR, 0)};
    switch (f) {
    case FN_SUBSTR3:
    case FN_SUBSTR2:
      at = std::max<i64>(a, 0);
      end = f == FN_SUBSTR3 ? std::min(b, n) : n;
      break;
    case FN_MID3:
    case FN_MID2:
      at = a > 0 ? a - 1 : a < 0 && a >= -n ? n + a : n;
      end = f == FN_MID3 ? std::min(n, at + std::max<i64>(b, 0)) : n;
      break;
    case FN_LEFT: end = std::max<i64>(a, 0); break;
    case FN_RIGHT: at = n - std::max<i64>(a, 0); break;
    case FN_TRIM: at = front; end = n - back; break;
    case FN_LTRIM: at = front; break;
    case FN_RTRIM: end = n - back; break;
    default: break;
    }
    if (at > end) {
      at = end = 0;
    }
    bool shared = end - at == n && f != FN_MID2 && f != FN_MID3 && f != FN_TRIM && f != FN_LTRIM && f != FN_RTRIM;
    if (end - at > 2000000 && !shared && ++costly > 2) {
      continue;
    }
    if (f == FN_CONCAT) {
      ops.push_back(opConst(Val::S("")));
      if (s.chance(128)) {
        std::swap(ops[0], ops[1]);
      }
    } else {
      if (f < FN_TRIM || f >= FN_SUBSTR3) {
        ops.push_back(opConst(Val::I32((i32)a)));
      }
      if (f == FN_SUBSTR3 || f == FN_MID3) {
        ops.push_back(opConst(Val::I32((i32)b)));
      }
    }
    ops.push_back(opOf(O_FUN, f));
    Bytes code;
    encOps(code, ops, nullptr);
    if (c.wantDesc) {
      c.desc += fmt("text of %lld bytes, ", (long long)n) + hexOf(code.data(), code.size(), 100) + "\n";
    }
    Runner r;
    sut::Err e;
    sut::decode(r.r, code.data(), code.size(), e);
    sut::bind(r.r, T.t);
    if (!e) {
      sut::run(r.r, e);
    }
    if (e && e.what.find("bad_alloc") != std::string::npos) {
      continue;
    }
    std::string d = e ? "the error " + e.what : sut::hugeDiffers(r.r, T.t, (size_t)at, (size_t)(end - at));
    if (!d.empty()) {
      c.fail(fmt("function 0x%02X with %lld, %lld on a text of %lld bytes should give the bytes [%lld, %lld), but gives ", f,
                 (long long)a, (long long)b, (long long)n, (long long)at, (long long)end) + d);
    }
    if (c.st != nullptr) {
      ++c.st->subchecks;
    }
  }
}

void prop_E07(Ctx &c) {
  Src &s = c.src;
  if (s.once()) {
    if (memoryFor(12)) {
      hugeTexts(c);
    } else {
      c.label("too little memory for texts of more than 2^31 bytes");
    }
    return;
  }
  if (!s.rare(1500)) {
    packProp(c, isStrFn, 4, 5);
    return;
  }
  // long texts, with positions and lengths around their ends, their parts' ends and the bounds of the integers
  std::vector<const Sig *> fs;
  for (const auto &g : sigs()) {
    if (isStrFn(g)) {
      fs.push_back(&g);
    }
  }
  Ops ops;
  Row cols;
  for (u32 k = 1 + s.below(3); k > 0; --k) {
    const Sig &g = *fs[s.below((u32)fs.size())];
    std::string t = longText(s, 140000);
    i64 n = (i64)t.size(), first = 0, last = n;
    while (first < n && strchr(" \t\n\v\f\r", t[(size_t)first]) != nullptr && t[(size_t)first] != 0) {
      ++first;
    }
    while (last > first && strchr(" \t\n\v\f\r", t[(size_t)last - 1]) != nullptr && t[(size_t)last - 1] != 0) {
      --last;
    }
    for (u8 q = 0; q < g.n; ++q) {
      if (g.a[q] != T_STR) {
        const i64 B[] = {0, 1, n, -n, n / 2, first, last, 65536, -65536, 32768, (i64)(s.bits(4) % (u64)(n + 1)), INT32_MAX, INT32_MIN};
        i64 v = B[s.below(13)] + (i64)s.below(5) - 2;
        supply(s, ops, cols, Val::I32((i32)std::max<i64>(INT32_MIN, std::min<i64>(INT32_MAX, v))), T_I32);
      } else {
        supply(s, ops, cols, Val::S(q == 0 ? t : s.chance(128) ? longText(s, 70000) : genStr(s)), T_STR);
      }
    }
    ops.push_back(opOf(g.code, g.t));
  }
  Bytes code;
  encOps(code, ops, nullptr);
  describe(c, ops, code, cols);
  c.label("long texts");
  c.nontrivial = true;
  finishHash(c, code, cols);
  checkExpr(c, ops, code, cols, evalOps(ops, &cols));
}

// ---------------------------------------------------------------------------------------------- E08

static long double trueFn(u8 f, long double x) {
  switch (f) {
  case FN_CEIL: return ceill(x);
  case FN_FLOOR: return floorl(x);
  case FN_SIN: return sinl(x);
  case FN_COS: return cosl(x);
  case FN_TAN: return tanl(x);
  case FN_ASIN: return asinl(x);
  case FN_ACOS: return acosl(x);
  case FN_ATAN: return atanl(x);
  case FN_SINH: return sinhl(x);
  case FN_COSH: return coshl(x);
  case FN_TANH: return tanhl(x);
  case FN_EXP: return expl(x);
  default: return logl(x);
  }
}

void prop_E08(Ctx &c) {
  Src &s = c.src;
  static const u8 F[] = {FN_CEIL, FN_FLOOR, FN_SIN, FN_COS, FN_TAN, FN_ASIN, FN_ACOS, FN_ATAN, FN_SINH, FN_COSH,
                         FN_TANH, FN_EXP, FN_LOG};
  Ops ops;
  Row cols, exp;
  u32 n = 1 + s.below(6);
  for (u32 k = 0; k < n; ++k) {
    u8 f = F[s.below(13)];
    Val v = genFlt(s, T_F64);
    u8 m = s.byte();
    if (m < 60 && (f == FN_ASIN || f == FN_ACOS)) {
      v.d = (double)(i32)s.bits(4) / 2147483648.0;
    } else if (m < 90) {
      v.d = (double)(i32)s.bits(4) / 16777216.0;  // -128..128
    } else if (m < 110) {
      v.d = (double)(i32)s.below(2000) * 0.78539816339744830962 - 780;
    } else if (m < 120) {
      v.d = 700 + (double)s.below(65536) / 4096;
      if ((m & 1) != 0) {
        v.d = -v.d;
      }
    }
    if (s.chance(10)) {
      v = Val();
    }
    supply(s, ops, cols, v, T_F64);
    ops.push_back(opOf(O_FUN, f));
    if (v.isNull()) {
      exp.push_back(v);
      continue;
    }
    long double tr = trueFn(f, v.d);
    Val e = Val::F64((double)tr);
    // where the function is exactly zero, the sign is that of IEEE 754 (-0.0 for CEIL(-0.5), SIN(-0.0))
    e.fl = f == FN_CEIL || f == FN_FLOOR || tr == 0 ? 0 : F_ULP;
    exp.push_back(e);
    c.sub();
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  c.nontrivial = true;
  finishHash(c, code, cols);
  Outcome o;
  o.stack = exp;
  checkExpr(c, ops, code, cols, o);
}

// ---------------------------------------------------------------------------------------------- E09

void prop_E09(Ctx &c) {
  Src &s = c.src;
  Ops ops;
  Row exp, none;
  u32 n = 1 + s.below(s.chance(20) ? 200 : 12);
  bool longStr = false;
  for (u32 k = 0; k < n; ++k) {
    u8 t = genType(s);
    u8 m = s.byte();
    if (m < 16) {
      ops.push_back(opNull(t));
      exp.emplace_back();
      continue;
    }
    Val v = genVal(s, t);
    if (t == T_STR && m >= 240 && s.rare(400)) {  // lengths of three and four varint bytes
      static const u32 L[] = {131072, 1u << 20, (1u << 21) - 1, 1u << 21, (1u << 21) + 1};
      u32 len = L[s.below(5)];
      Prng p(s.bits(2));
      v.s.resize(len);
      for (auto &ch : v.s) {
        ch = (char)p.next();
      }
    }
    if (t == T_STR && v.s.size() >= 128) {
      longStr = true;
    }
    if ((t == T_I32 || t == T_I64) && m >= 120) {
      ops.push_back(opConstN(v));
    } else {
      ops.push_back(opConst(v));
    }
    exp.push_back(v);
    if (m >= 246) {  // an operator after the immediate
      static const u8 K[] = {O_ISNULL};
      ops.push_back(opOf(K[0], t));
      exp.back() = Val::B(false);
    }
  }
  Bytes code;
  encOps(code, ops, &s);
  if (s.chance(60)) {
    code.push_back(0);
  }
  if (longStr) {
    c.label("string of 128 bytes or more");
  }
  describe(c, ops, code, none);
  c.nontrivial = true;
  finishHash(c, code, none);
  Outcome o;
  o.stack = exp;
  checkExpr(c, ops, code, none, o);
}

// Many variables and constants, each a result; columns below `limit` (0: any).
static void appendWide(Src &s, const Row &cols, Ops &ops, u32 n, u32 limit = 0) {
  std::vector<u8> ty;
  for (size_t k = 0; k < cols.size() && (limit == 0 || k < limit); ++k) {
    ty.push_back(cols[k].isNull() ? (u8)T_I32 : cols[k].ty);
  }
  Stage st;
  widenProject(s, ty, st, n);
  ops.insert(ops.end(), st.ops.begin(), st.ops.end());
}

// ---------------------------------------------------------------------------------------------- E10

void prop_E10(Ctx &c) {
  Src &s = c.src;
  static const u32 W[] = {1, 2, 3, 5, 8, 20, 127, 128, 129, 256, 500};
  u32 w = W[s.below(s.chance(50) ? 11 : 6)];
  if (s.rare(500)) {
    w = 16380 + s.below(10);
  }
  if (s.rare(1500)) {
    static const u32 X[] = {255, 32760, 65530, 131066};
    w = X[s.below(4)] + s.below(14);
  }
  auto genWide = [&](u32 width) {
    Row r;
    Prng p(s.bits(2));
    Row pool;
    for (u32 k = 0; k < 4; ++k) {
      pool.push_back(s.chance(50) ? Val() : genVal(s, genType(s), H_SHORT));
    }
    for (u32 k = 0; k < width; ++k) {
      u32 q = p.below(8);
      if (q < 4) {
        r.push_back(pool[q]);
      } else if (q < 6) {
        r.push_back(Val::I32((i32)k));
      } else {
        r.push_back(Val::S("c" + std::to_string(k)));
      }
    }
    return r;
  };
  std::vector<Row> rows;
  u32 nt = 1 + s.below(4);
  for (u32 k = 0; k < nt; ++k) {
    rows.push_back(genWide(w + (k > 0 ? s.below(3) : 0)));
  }
  Ops ops;
  u32 nv = 1 + s.below(8);
  if (s.rare(2000)) {
    appendWide(s, rows[0], ops, bigSize(s, 50, 1000), w);
    c.label("many variables");
  }
  for (u32 k = 0; k < nv; ++k) {
    u32 i = s.chance(70) ? w - 1 - s.below(std::min(w, 3u)) : s.below(w);
    const Val &v = rows[0][i];
    u8 ty = v.isNull() ? genType(s) : v.ty;
    ops.push_back(opVar(ty, (i32)i));
    if (s.chance(20)) {
      ops.push_back(opConst(genVal(s, genType(s), H_SHORT)));
    }
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, rows[0]);
  finishHash(c, code, rows[0]);
  Runner r;
  mustDecode(c, r.r, code);
  std::vector<sut::Tup *> tt;
  struct Free {
    std::vector<sut::Tup *> &v;
    ~Free() {
      for (auto *t : v) {
        sut::freeTuple(t);
      }
    }
  } fr{tt};
  for (auto &x : rows) {
    tt.push_back(sut::mkTuple(x));
  }
  int bound = -1;
  u32 steps = 1 + s.below(10);
  int runs = 0, rebinds = 0, muts = 0;
  for (u32 k = 0; k < steps; ++k) {
    u8 m = s.byte();
    if (m < 90 || k == 0) {
      if (k == 0 && m >= 235) {
        c.label("run with no tuple bound");
      } else {
        int nb = (int)s.below(nt);
        rebinds += nb != bound && bound >= 0;
        bound = nb;
        sut::bind(r.r, tt[(size_t)bound]);
        c.note(fmt("bind tuple %d", bound));
      }
    } else if (m < 150) {  // change the contents of a tuple (bound or not)
      u32 w2 = s.below(nt);
      u32 i = s.chance(200) ? (u32)ops[s.below((u32)ops.size())].idx : s.below((u32)rows[w2].size());
      if (i < rows[w2].size()) {
        Val v = s.chance(50) ? Val() : genVal(s, rows[w2][i].isNull() ? genType(s) : rows[w2][i].ty, H_SHORT);
        rows[w2][i] = v;
        sut::setElem(tt[w2], i, v);
        ++muts;
        c.note(fmt("tuple %u[%u] = ", w2, i) + show(v));
      }
    } else if (m >= 248 && w < 1000) {  // all of it, at another width
      u32 w2 = s.below(nt);
      rows[w2] = genWide(w + s.below(8));
      for (const auto &op : ops) {
        if ((op.code & 0xF0) == 0x30 && s.chance(128)) {
          rows[w2][(u32)op.idx] = s.chance(50) ? Val() : genVal(s, op.code & 0x0F, H_SHORT);
        }
      }
      if (s.chance(80)) {  // bound while it was narrower, or empty
        sut::setAll(tt[w2], Row(rows[w2].begin(), rows[w2].begin() + s.below(w)), s.byte());
        sut::bind(r.r, tt[w2]);
        bound = (int)w2;
      }
      sut::setAll(tt[w2], rows[w2], s.byte());
      ++muts;
      if (c.wantDesc) {
        c.note(fmt("tuple %u = ", w2) + show(rows[w2]));
      }
    } else if (m < 160) {
      sut::bind(r.r, nullptr);
      bound = -1;
      c.note("bind null");
    }
    sut::Err e;
    sut::run(r.r, e);
    ++runs;
    Outcome o = evalOps(ops, bound >= 0 ? &rows[(size_t)bound] : nullptr);
    checkOutcome(c, r.r, e, o, fmt("run %d (tuple %d)", runs, bound).c_str());
  }
  if (rebinds > 0) {
    c.label("re-bound");
  }
  if (muts > 0) {
    c.label("tuple changed between runs");
  }
  if (w >= 128) {
    c.label("128 or more columns");
  }
  c.nontrivial = runs >= 2 || w >= 100;
}

// ---------------------------------------------------------------------------------------------- E11

void prop_E11(Ctx &c) {
  Src &s = c.src;
  u32 n = 1 + s.below(4);
  std::vector<Ops> es(n);
  Row cols;
  std::vector<size_t> ends;
  Bytes code;
  bool zeroImm = false;
  for (u32 k = 0; k < n; ++k) {
    if (s.chance(30)) {
      // empty expression
    } else if (s.chance(110)) {  // zero bytes in immediates
      zeroImm = true;
      for (u32 j = 1 + s.below(4); j > 0; --j) {
        switch (s.below(6)) {
        case 0: es[k].push_back(opConst(Val::I32(0))); break;
        case 1: es[k].push_back(opConst(Val::F64(s.chance(128) ? 0.0 : 1.0))); break;
        case 2: es[k].push_back(opConst(Val::F32(0.5f))); break;
        case 3: es[k].push_back(opConst(Val::S(std::string(s.below(5), '\0') + genStr(s, H_SHORT)))); break;
        case 4: es[k].push_back(opConst(Val::I64(128))); break;
        default: {
          if (cols.empty()) {
            cols.push_back(Val::I32(5));
          }
          es[k].push_back(opVar(T_I32, 0));
        }
        }
      }
    } else {
      EGen g(s);
      g.cols = &cols;
      g.budget = 12;
      g.gen(genType(s), 3, H_SHORT);
      es[k] = std::move(g.ops);
    }
    encOps(code, es[k], &s);
    bool last = k + 1 == n;
    if (!last || s.chance(160)) {
      code.push_back(0);
    }
    ends.push_back(code.size());
  }
  bool eoe = code.size() > 0 && ends.back() > 0 && code.back() == 0;
  // Bytes after the last end byte: anything
  u32 tail = 0;
  Bytes plain;
  encOps(plain, es[n - 1], nullptr);
  DecRes dr = refDecode(code.data() + (n > 1 ? ends[n - 2] : 0), code.size() - (n > 1 ? ends[n - 2] : 0));
  eoe = dr.st == Dec::ACCEPT && dr.used > 0 && dr.ops.size() == es[n - 1].size() && code.back() == 0;
  // code.back()==0 may also be part of an immediate: only a real end byte allows a tail
  {
    Bytes again = code;
    again.push_back(0xFF);
    DecRes d2 = refDecode(again.data() + (n > 1 ? ends[n - 2] : 0), again.size() - (n > 1 ? ends[n - 2] : 0));
    eoe = d2.st == Dec::ACCEPT && d2.used + (n > 1 ? ends[n - 2] : 0) == code.size();
  }
  if (eoe && s.chance(160)) {
    tail = 1 + s.below(12);
    for (u32 k = 0; k < tail; ++k) {
      code.push_back(s.byte());
    }
    c.label("followed by arbitrary bytes");
  }
  if (zeroImm) {
    c.label("zero bytes in immediates");
  }
  if (c.wantDesc) {
    for (auto &e : es) {
      c.note("expr: " + show(e));
    }
    c.note("code: " + hexOf(code));
    c.note("tuple: " + show(cols));
  }
  finishHash(c, code, cols);
  c.nontrivial = n > 1 || tail > 0 || zeroImm;
  Runner one;
  Tuple t(cols);
  size_t at = 0;
  for (u32 k = 0; k < n; ++k) {
    Runner fresh;
    sut::R *r = s.chance(128) ? one.r : fresh.r;
    Bytes rest(code.begin() + (long)at, code.end());
    sut::Err e;
    ptrdiff_t off;
    {
      CodeBuf b(rest);
      off = sut::decode(r, b.p, b.n, e);
    }
    if (e) {
      c.fail(fmt("expression %u is refused: ", k) + e.what);
    }
    if (at + (size_t)off != ends[k]) {
      c.fail(fmt("decoding expression %u from offset %zu returned offset %zu, expected %zu", k, at, at + (size_t)off,
                 ends[k]));
    }
    at = ends[k];
    sut::bind(r, t.t);
    sut::run(r, e);
    checkOutcome(c, r, e, evalOps(es[k], &cols), fmt("expression %u", k).c_str());
    c.sub();
  }
}

// ---------------------------------------------------------------------------------------------- E12

void prop_E12(Ctx &c) {
  Src &s = c.src;
  Ops ops;
  Row cols;
  u8 m = s.byte();
  if (m < 120) {
    // one operator, operands often NULL
    const Sig &g = sigs()[s.below((u32)sigs().size())];
    Val a[3];
    genArgs(s, g, a, 60);
    for (int k = 0; k < g.n; ++k) {
      supply(s, ops, cols, a[k], g.a[k]);
    }
    ops.push_back(opOf(g.code, g.t));
  } else if (m < 150) {
    u8 t = genType(s);
    supply(s, ops, cols, s.chance(80) ? Val() : genVal(s, t), t);
  } else {
    EGen g(s);
    g.cols = &cols;
    g.nullPct = 40;
    g.budget = 30;
    g.gen(genType(s), 4);
    ops = std::move(g.ops);
  }
  Bytes code;
  encOps(code, ops, &s);
  if (s.chance(60)) {
    code.push_back(0);
  }
  describe(c, ops, code, cols);
  finishHash(c, code, cols);
  u8 ty = staticType(ops);
  Runner r;
  if (s.chance(40)) {  // the runner was used for something else before
    Ops o2 = {opConst(genVal(s, genType(s), H_SHORT))};
    Bytes c2;
    encOps(c2, o2, nullptr);
    mustDecode(c, r.r, c2);
    c.note("decoded before: " + show(o2));
    u8 how = s.byte();
    if ((how & 1) != 0 && sut::getType(r.r) != staticType(o2)) {
      c.fail(fmt("GetType() gives %u, the expression has type %u", sut::getType(r.r), staticType(o2)));
    }
    if ((how & 2) != 0) {
      sut::Err e;
      sut::run(r.r, e);
    }
    c.label("runner used before");
  }
  mustDecode(c, r.r, code);
  if (sut::getType(r.r) != ty) {
    c.fail(fmt("GetType() gives %u, the expression has type %u", sut::getType(r.r), ty));
  }
  Tuple t(cols);
  sut::bind(r.r, t.t);
  sut::Err e;
  sut::run(r.r, e);
  if (!e) {
    Val v = sut::get(r.r, e, ty);
    if (e) {
      c.fail("no result: " + e.what);
    }
    c.label(v.isNull() ? "NULL result" : "value");
    c.nontrivial = true;
    if (!v.isNull() && v.ty != ty) {
      c.fail(fmt("the result %s is not of the reported type %u", show(v).c_str(), ty));
    }
  }
  if (sut::getType(r.r) != ty) {
    c.fail(fmt("GetType() gives %u after the run, the expression has type %u", sut::getType(r.r), ty));
  }
}

// ---------------------------------------------------------------------------------------------- E13

static Bytes brokenCode(Src &s, const Bytes &good) {
  Bytes b = good;
  switch (s.below(5)) {
  case 0:
    b.push_back(0x16);
    break;
  case 1:
    b.push_back(0x81);
    b.push_back(s.chance(128) ? 0x03 : 0x0F);
    break;
  case 2:
    b.push_back(0x17);
    b.push_back(0x05);
    b.push_back('a');
    break;
  case 3:
    b.push_back(0x15);
    b.push_back(0x05);
    break;
  default:
    b.push_back(0xF1);
    b.push_back(s.chance(128) ? 0x00 : 0x40);
  }
  return b;
}

struct SomeExpr {
  Ops ops;
  Bytes code;
};

void prop_E13(Ctx &c) {
  Src &s = c.src;
  // A shared tuple so that every expression can be bound to every tuple of the same layout.
  Row base;
  std::vector<SomeExpr> es;
  u32 ne = 2 + s.below(3);
  for (u32 k = 0; k < ne; ++k) {
    SomeExpr x;
    EGen g(s);
    g.cols = &base;
    g.budget = 10;
    u32 parts = 1 + s.below(3);
    if (s.chance(40)) {
      parts = 4 + s.below(12);
      g.budget = 30;
    }
    for (u32 j = 0; j < parts; ++j) {
      g.gen(genType(s), 2, H_SHORT);
    }
    x.ops = std::move(g.ops);
    if (s.rare(400)) {  // many results
      appendWide(s, base, x.ops, bigSize(s, 50, 2000));
      c.label("has an expression of many results");
    }
    if (s.chance(50)) {  // raises an error after pushing something
      x.ops.push_back(opConst(Val::I32(INT32_MIN)));
      x.ops.push_back(opOf(O_ABSC, T_I32));
      c.label("has an expression that raises");
    }
    encOps(x.code, x.ops, &s);
    if (s.chance(100)) {
      x.code.push_back(0);
    }
    es.push_back(std::move(x));
  }
  std::vector<Row> rows{base};
  for (u32 k = s.below(3); k > 0; --k) {
    Row r = base;
    for (auto &v : r) {
      if (s.chance(90)) {
        v = s.chance(60) ? Val() : genVal(s, v.isNull() ? (u8)T_I32 : v.ty, H_SHORT);
      }
    }
    rows.push_back(r);
  }
  std::vector<std::unique_ptr<Tuple>> tt;
  for (auto &r : rows) {
    tt.emplace_back(new Tuple(r));
  }
  Runner r;
  int cur = -1;     // decoded expression
  int bound = -1;
  int runs = 0, fails = 0, decodes = 0;
  Bytes all;
  u32 steps = 3 + s.below(16);
  if (s.rare(300)) {
    steps = bigSize(s, 20, 400);
    c.label("long history");
  }
  for (u32 k = 0; k < steps; ++k) {
    u8 m = s.byte();
    if (cur < 0 || m < 60) {
      cur = (int)s.below(ne);
      mustDecode(c, r.r, es[(size_t)cur].code);
      ++decodes;
      c.note(fmt("decode %d: ", cur) + show(es[(size_t)cur].ops));
      all.push_back((u8)cur);
    } else if (m < 90) {
      Bytes bad = brokenCode(s, s.chance(128) ? es[s.below(ne)].code : Bytes());
      // after an end byte the broken part would not be decoded: strip it
      Bytes noEoe;
      u32 w = s.below(ne);
      encOps(noEoe, es[w].ops, nullptr);
      bad = brokenCode(s, s.chance(128) ? noEoe : Bytes());
      CodeBuf b(bad);
      sut::Err e;
      sut::decode(r.r, b.p, b.n, e);
      if (!e) {
        c.fail("broken code is accepted: " + hexOf(bad));
      }
      ++fails;
      cur = -1;
      c.note("failed decode " + hexOf(bad));
      all.push_back(0xF0);
      continue;
    } else if (m < 140) {
      bound = (int)s.below((u32)tt.size());
      sut::bind(r.r, tt[(size_t)bound]->t);
      c.note(fmt("bind %d", bound));
      all.push_back((u8)(0x40 + bound));
    } else if (m < 150) {
      bound = -1;
      sut::bind(r.r, nullptr);
      c.note("bind nothing");
    } else if (m < 170 && bound >= 0 && !base.empty()) {
      // another element in the bound tuple
      Row &w = rows[(size_t)bound];
      u32 i = s.below((u32)w.size());
      u8 ty = base[i].isNull() ? (u8)T_I32 : base[i].ty;
      w[i] = s.chance(60) ? Val() : genVal(s, ty, H_SHORT);
      sut::setElem(const_cast<sut::Tup *>(tt[(size_t)bound]->t), i, w[i]);
      c.note(fmt("element %u of the bound tuple set to ", i) + show(w[i]));
      all.push_back((u8)(0x60 + (i & 15)));
    } else if (m < 185 && bound >= 0) {
      // another tuple, which may have the address of the one released
      rows[(size_t)bound] = rows[s.below((u32)rows.size())];
      sut::freeTuple(tt[(size_t)bound]->t);
      tt[(size_t)bound]->t = sut::mkTuple(rows[(size_t)bound]);
      sut::bind(r.r, tt[(size_t)bound]->t);
      c.note("released the bound tuple and bound a new one");
      all.push_back(0x70);
    }
    if (m >= 30) {
      sut::Err e, e2;
      sut::run(r.r, e);
      ++runs;
      Runner f;
      mustDecode(c, f.r, es[(size_t)cur].code);
      if (bound >= 0) {
        sut::bind(f.r, tt[(size_t)bound]->t);
      }
      sut::run(f.r, e2);
      c.note(fmt("run -> %s", e ? "error" : "ok"));
      all.push_back(0x80);
      if ((bool)e != (bool)e2) {
        c.fail(fmt("run %d: used runner: %s; fresh runner: %s", runs, e ? e.what.c_str() : "no error",
                   e2 ? e2.what.c_str() : "no error"));
      }
      if (e.ex == sut::Ex::OTHER) {
        c.fail("something not derived from std::exception was thrown");
      }
      if (!e) {
        Row b = sut::getAll(f.r);
        Row a = sut::getAll(r.r, &b);
        if (!sameRow(b, a)) {
          c.fail(fmt("run %d: used runner gives ", runs) + show(a) + ", fresh runner gives " + show(b));
        }
        if (s.rare(700)) {  // the same run many times
          u32 many = s.rare(c.thorough ? 10 : 40) ? 65520 + s.below(3000) : bigSize(s, 10, 5000);
          c.note(fmt("run %u times", many));
          c.label("run many times");
          for (u32 j = 0; j < many; ++j) {
            sut::run(r.r, e);
            if (e) {
              c.fail(fmt("run %u of the same expression and tuple raised an error: ", j + 2) + e.what);
            }
            Row a3 = sut::getAll(r.r, &b);
            if (!sameRow(b, a3)) {
              c.fail(fmt("run %u of the same expression and tuple gives ", j + 2) + show(a3) + ", the first gave " + show(b));
            }
          }
        }
        if (s.rare(700)) {  // many rounds of decoding and running, this expression and another by turns
          u32 many = s.rare(c.thorough ? 10 : 100) ? 65520 + s.below(3000) : bigSize(s, 10, 3000);
          u32 other = s.below(ne);
          bool turns = s.chance(128), refused = s.chance(60);
          Bytes bad{0x11, 0x01, 0xFF};  // a constant, then an unknown code
          c.note(fmt("decode and run %u times", many));
          c.label("decoded many times");
          for (u32 j = 0; j < many; ++j) {
            if (turns) {
              mustDecode(c, r.r, es[other].code);
              if (j % 3 == 0) {
                sut::run(r.r, e);
              }
            }
            if (refused) {
              CodeBuf cb(bad);
              sut::decode(r.r, cb.p, cb.n, e);
              if (!e) {
                c.fail("broken code is accepted: " + hexOf(bad));
              }
            }
            mustDecode(c, r.r, es[(size_t)cur].code);
            sut::run(r.r, e);
            if (e) {
              c.fail(fmt("round %u of decoding and running the same expression raised an error: ", j + 2) + e.what);
            }
            Row a3 = sut::getAll(r.r, &b);
            if (!sameRow(b, a3)) {
              c.fail(fmt("round %u of decoding and running the same expression gives ", j + 2) + show(a3) + ", the first gave " + show(b));
            }
          }
        }
        // reading is repeatable
        for (u32 j = s.below(3); j > 0; --j) {
          Row a2 = sut::getAll(r.r, &b);
          if (!sameRow(b, a2)) {
            c.fail("reading the results again gives " + show(a2) + ", first " + show(b));
          }
          if (!b.empty()) {
            sut::Err e3;
            Val g = sut::get(r.r, e3, b.back().ty);
            if (e3 || !sameVal(b.back(), g)) {
              c.fail("Get() again gives " + show(g) + ", expected " + show(b.back()));
            }
          }
        }
        if (sut::getType(r.r) != sut::getType(f.r)) {
          c.fail("the reported type differs from a fresh runner's");
        }
      } else {
        ++fails;
        if (s.rare(900)) {  // the same failing run many times: nothing piles up for the next one
          u32 many = s.rare(c.thorough ? 10 : 100) ? 65520 + s.below(3000) : bigSize(s, 10, 3000);
          c.note(fmt("failing run %u times", many));
          c.label("failed many times");
          for (u32 j = 0; j < many; ++j) {
            sut::run(r.r, e);
            if (!e) {
              c.fail(fmt("run %u of the same expression and tuple does not raise the error the first did", j + 2));
            }
          }
        }
      }
    }
  }
  if (fails > 0) {
    c.label("with failures in the history");
  }
  c.nontrivial = runs >= 2 && (decodes >= 2 || fails > 0 || runs >= 3);
  c.mixHash(all);
  for (auto &e : es) {
    c.mixHash(e.code);
  }
  c.mixHash(base);
}

// ---------------------------------------------------------------------------------------------- E14

void prop_E14(Ctx &c) {
  Src &s = c.src;
  Row cols;
  Ops ops;
  u8 m = s.byte();
  if (m < 120) {  // string functions on shared strings
    c.label("string functions");
    PackOpts po;
    po.errors = false;
    opPack(s, isStrFn, 1 + s.below(6), ops, cols, po);
    // the same strings again, as results of their own
    u32 n = (u32)cols.size();
    for (u32 k = 0; k < n && k < 4; ++k) {
      if (cols[k].ty == T_STR) {
        ops.push_back(opVar(T_STR, (i32)k));
      }
    }
    // chains of functions over one string
    if (s.chance(128)) {
      Val v = Val::S(genStr(s));
      supply(s, ops, cols, v, T_STR);
      for (u32 k = 1 + s.below(4); k > 0; --k) {
        static const u8 F[] = {FN_LOWER, FN_UPPER, FN_TRIM, FN_LTRIM, FN_RTRIM};
        ops.push_back(opOf(O_FUN, F[s.below(5)]));
        if (s.chance(70)) {
          supply(s, ops, cols, s.chance(128) ? Val::S("") : Val::S(genStr(s, H_SHORT)), T_STR);
          ops.push_back(s.chance(128) ? opOf(O_ADD, T_STR) : opOf(O_FUN, FN_CONCAT));
        }
        if (s.chance(70)) {
          supply(s, ops, cols, genInt(s, T_I32, H_POS), T_I32);
          static const u8 G[] = {FN_LEFT, FN_RIGHT, FN_SUBSTR2, FN_MID2};
          ops.push_back(opOf(O_FUN, G[s.below(4)]));
        }
        if (s.chance(60)) {
          supply(s, ops, cols, Val::S(genStr(s, H_SHORT)), T_STR);
          ops.push_back(opOf(s.chance(128) ? O_MIN : O_MAX, T_STR));
        }
      }
    }
  } else {
    anyExpr(s, ops, cols, c);
  }
  if (ops.empty()) {
    throw CaseSkip();
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  finishHash(c, code, cols);
  Runner r;
  mustDecode(c, r.r, code);
  Tuple t(cols);
  // A second tuple of the same types
  Row cols2 = cols;
  for (auto &v : cols2) {
    if (s.chance(100)) {
      v = genVal(s, v.isNull() ? (u8)T_STR : v.ty, H_SHORT);
    }
    if (cols2.size() > 300) {
      break;
    }
  }
  Tuple t2(cols2);
  struct H {
    sut::Held *h;
    H() : h(sut::mkHeld()) {
    }
    ~H() {
      sut::freeHeld(h);
    }
  } held;
  Row want;  // what the held values looked like when taken
  Row first;
  bool have = false, firstErr = false, gotFirst = false;
  u32 runs = 2 + s.below(4);
  if (s.rare(100)) {
    runs = bigSize(s, 10, 300);
    c.label("many runs");
  }
  for (u32 k = 0; k < runs; ++k) {
    bool other = k > 0 && s.chance(90);
    sut::bind(r.r, other ? t2.t : t.t);
    sut::Err e;
    sut::run(r.r, e);
    if (!e && sut::heldSize(held.h) < 20000) {
      Row now = sut::getAll(r.r, have ? &first : nullptr);
      sut::holdAll(r.r, held.h);
      want.insert(want.end(), now.begin(), now.end());
      if (!other) {
        if (have && !sameRow(first, now)) {
          c.fail("running again gives " + show(now) + ", the first run gave " + show(first));
        }
        first = now;
        have = true;
      }
    }
    if (!other) {
      if (gotFirst && firstErr != (bool)e) {
        c.fail("running again: error raised in one run and not in the other: " + e.what);
      }
      firstErr = (bool)e;
      gotFirst = true;
    }
    for (int w = 0; w < 2; ++w) {
      const Row &exp = w != 0 ? cols2 : cols;
      Row got = sut::readTuple(w != 0 ? t2.t : t.t, &exp);
      if (!sameRow(exp, got)) {
        c.fail(fmt("the %s tuple was changed by run %u: ", w != 0 ? "second" : "bound", k) + show(got) + "\nwas " +
               show(exp));
      }
    }
  }
  // Another expression on the same runner and tuple, then look at everything held.
  {
    Ops o2;
    for (u32 k = 0; k < cols.size() && k < 3; ++k) {
      if (cols[k].ty == T_STR) {
        o2.push_back(opVar(T_STR, (i32)k));
        o2.push_back(opConst(Val::S("!")));
        o2.push_back(opOf(O_ADD, T_STR));
        o2.push_back(opOf(O_FUN, FN_UPPER));
      }
    }
    if (!o2.empty()) {
      Bytes c2;
      encOps(c2, o2, nullptr);
      mustDecode(c, r.r, c2);
      sut::bind(r.r, t.t);
      sut::Err e;
      sut::run(r.r, e);
    }
  }
  bool str = false;
  for (size_t k = 0; k < want.size(); ++k) {
    str |= want[k].ty == T_STR;
    Val g = sut::heldAt(held.h, k);
    if (!sameVal(want[k], g)) {
      c.fail(fmt("value #%zu held from an earlier run changed from ", k) + show(want[k]) + " to " + show(g));
    }
  }
  Row got = sut::readTuple(t.t, &cols);
  if (!sameRow(cols, got)) {
    c.fail("the bound tuple was changed: " + show(got));
  }
  if (str) {
    c.label("string values held");
  }
  c.nontrivial = have;
}
