#include "gen.h"

#include <algorithm>

void fixUp(Val &v) {
  if (v.ty == T_I32) {
    v.i = (i32)(u32)(u64)v.i;
  } else if (v.ty == T_F32) {
    v.d = (float)v.d;
  } else if (v.ty == T_BOOL) {
    v.i = v.i != 0;
  }
}

u8 genType(Src &s) {
  static const u8 T[] = {T_I32, T_I64, T_STR, T_F64, T_BOOL, T_F32};
  return T[s.below(6)];
}

Val genInt(Src &s, u8 ty, Hint h) {
  Val v;
  v.ty = ty;
  int w = ty == T_I32 ? 32 : 64;
  u8 m = s.byte();
  if (h == H_SMALL || h == H_EXACT || (h == H_POS && m < 170)) {
    v.i = (i64)s.below(h == H_POS ? 24 : 40) - (h == H_POS ? 8 : 10);
    if (h == H_POS && m > 150) {
      v.i *= 11;
    }
  } else if (m < 64) {
    v.i = (i64)s.below(33) - 16;
    if (v.i == -16) {
      v.i = 0;
    }
  } else if (m < 150) {  // around powers of two, either sign
    int k = (int)s.below((u32)w + 1);
    u64 p = k >= 64 ? 0 : (u64)1 << k;
    p += (u64)(i64)s.below(5) - 2;
    if (s.chance(128)) {
      p = 0 - p;
    }
    v.i = (i64)p;
  } else if (m < 165 && !g_dict.ints.empty()) {
    v.i = g_dict.ints[s.below((u32)g_dict.ints.size())] + (i64)s.below(3) - 1;
    if (s.chance(40)) {
      v.i = -v.i;
    }
  } else if (m < 180) {
    static const i64 S[] = {INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX, 0, -1, 1, 127, 128, 255, 256, 16383, 16384,
                            2097151, 2097152, 268435455, 268435456, 1000000007, -7777, -7778, 31, 4294967296,
                            9007199254740993, 16777217};
    v.i = S[s.below(sizeof S / sizeof *S)];
  } else if (m < 188 && w == 64) {  // around the middle of two neighbouring floats or doubles
    u32 b = s.chance(90) ? 54 : 25;
    u64 p = (s.bits((int)(b + 7) / 8) & (((u64)1 << (b - 1)) - 1)) | (u64)1 << (b - 1) | 1;
    p <<= s.below(64 - b);
    p += (u64)(i64)s.below(3) - 1;
    v.i = (i64)(s.chance(100) ? 0 - p : p);
  } else if (m < 200) {  // decimal powers
    u64 p = 1;
    for (u32 k = s.below(19); k > 0; --k) {
      p *= 10;
    }
    v.i = (i64)(p + s.below(3) - 1);
    if (s.chance(128)) {
      v.i = -v.i;
    }
  } else {
    u64 r = s.bits(w / 8);
    v.i = (i64)(r >> s.below((u32)w));
    if (s.chance(100)) {
      v.i = (i64)(0 - (u64)v.i);
    }
  }
  fixUp(v);
  return v;
}

Val genFlt(Src &s, u8 ty, Hint h) {
  Val v;
  v.ty = ty;
  u8 m = s.byte();
  if (h == H_EXACT) {
    v.d = ((double)s.below(4001) - 2000) / (s.chance(128) ? 8 : 1);
    if (v.d == 0 && s.chance(64)) {
      v.d = -0.0;
    }
    return v;
  }
  if (m < 50) {
    v.d = (double)s.below(41) - 20;
  } else if (m < 90) {  // halves and near-halves
    v.d = (double)s.below(2001) - 1000 + 0.5;
    u8 k = s.byte() & 7;
    if (k >= 6) {
      v.d = ty == T_F32 ? (double)nextafterf((float)v.d, k == 6 ? -1e30f : 1e30f) : nextafter(v.d, k == 6 ? -1e300 : 1e300);
    }
  } else if (m < 140) {  // around integer limits and powers of two, by some ulps or halves
    static const int K[] = {31, 32, 52, 53, 62, 63, 64, 23, 24, 22, 15, 16, 30, 51, 33};
    double p = ldexp(1.0, s.chance(150) ? (int)s.below(70) : K[s.below(15)]);
    u8 k = s.byte();
    p += ((double)(k % 9) - 4) * 0.5;
    if (k >= 200) {
      p = ty == T_F32 ? (double)nextafterf((float)p, (k & 1) != 0 ? 0.0f : INFINITY) : nextafter(p, (k & 1) != 0 ? 0.0 : INFINITY);
    }
    v.d = s.chance(128) ? -p : p;
  } else if (m < 165) {
    static const double S[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 4.9406564584124654e-324, 2.2250738585072014e-308,
                               1.7976931348623157e308, 1.401298464324817e-45, 1.1754943508222875e-38,
                               3.4028234663852886e38, 3.4028235677973366e38, 2.220446049250313e-16, 0.1, 0.2, 0.3,
                               1.0 / 3, 0.49999999999999994, 0.49999997, 0.9999999999999999, 1e15, 1e16, 1e-15, 5e-16,
                               4.9e-16, 1e22, 3.141592653589793, 1.5707963267948966, 2.718281828459045, 709.78271289338397,
                               -745.13321910194111, 1e300, -1e300};
    v.d = S[s.below(sizeof S / sizeof *S)];
  } else if (m < 170 && ty == T_F64) {  // around the middle of two neighbouring floats
    u32 u = (u32)s.bits(4) & 0x7FFFFFFF;
    float f, g;
    memcpy(&f, &u, 4);
    g = nextafterf(f, INFINITY);
    v.d = std::isfinite(g) ? ((double)f + (double)g) / 2 : 3.4028235677973366e38;
    u8 k = s.byte();
    if (k % 3 != 0) {
      v.d = nextafter(v.d, k % 3 == 1 ? INFINITY : 0.0);
    }
    if ((k & 0x80) != 0) {
      v.d = -v.d;
    }
  } else if (m < 175 && !g_dict.dbls.empty()) {
    v.d = g_dict.dbls[s.below((u32)g_dict.dbls.size())];
  } else if (m < 185 && !g_dict.ints.empty()) {
    v.d = (double)g_dict.ints[s.below((u32)g_dict.ints.size())];
  } else if (m < 215) {  // decimals
    double p = 1;
    for (u32 k = s.below(18); k > 0; --k) {
      p *= 10;
    }
    v.d = ((double)(i32)s.bits(4)) / p;
  } else if (m < 230) {
    v.d = (double)(i64)(s.bits(8) >> s.below(64));
    if (s.chance(128)) {
      v.d = -v.d;
    }
  } else {  // any bit pattern
    if (ty == T_F32) {
      u32 u = (u32)s.bits(4);
      float f;
      memcpy(&f, &u, 4);
      v.d = f;
    } else {
      u64 u = s.bits(8);
      memcpy(&v.d, &u, 8);
    }
  }
  if (h == H_FINITE && !std::isfinite(v.d)) {
    v.d = 1.5;
  }
  fixUp(v);
  if (h == H_FINITE && !std::isfinite(v.d)) {
    v.d = 1.5;
  }
  return v;
}

std::string genNumeral(Src &s, u8 ty) {
  std::string r;
  static const char *WS[] = {"", "", "", " ", "\t", "\n", "\r", "\v", "\f", "  \t"};
  const char *ws = WS[s.below(10)];
  r += ws;
  if (*ws && s.chance(20)) {  // a long run of white space
    for (u32 k = s.below(400); k > 0; --k) {
      r += ws[0];
    }
  }
  u8 m = s.byte();
  bool flt = ty == T_F32 || ty == T_F64;
  if (m < 60) {
    r += std::to_string(genInt(s, s.chance(128) ? T_I64 : T_I32).i);
  } else if (m < 120 && flt) {
    char b[64];
    Val d = genFlt(s, ty, H_FINITE);
    static const char *F[] = {"%.17g", "%.9g", "%g", "%.15f", "%.3f", "%e", "%.0f"};
    char lng[400];
    (void)b;
    snprintf(lng, sizeof lng, F[s.below(7)], d.d);
    r += lng;
  } else if (m < 135 && flt) {
    // the exact digits of the middle of two neighbours, or just beside it
    char b[1400];
    Val d = genFlt(s, ty, H_FINITE);
    long double mid;
    if (ty == T_F32) {
      mid = ((long double)(float)d.d + (long double)nextafterf((float)d.d, INFINITY)) / 2;
    } else {
      mid = ((long double)d.d + (long double)nextafter(d.d, INFINITY)) / 2;
    }
    if (!std::isfinite((double)mid)) {
      mid = 1;
    }
    if (fabsl(mid) > 1e-30L && fabsl(mid) < 1e30L && s.chance(128)) {
      snprintf(b, sizeof b, "%.240Lf", mid);
    } else {
      snprintf(b, sizeof b, "%.1100Le", mid);
    }
    std::string t(b);
    size_t e = t.find('e');
    std::string ex = e == std::string::npos ? "" : t.substr(e);
    t = t.substr(0, e);
    if (t.find('.') != std::string::npos) {
      t.erase(t.find_last_not_of('0') + 1);
    }
    u8 k = s.byte();
    if (k % 3 == 1) {
      t += std::string(k / 8, '0') + "1";
    } else if (k % 3 == 2 && t.back() != '.' && t.back() > '0') {
      --t.back();
      t += std::string(1 + k / 8, '9');
    }
    r += t + ex;
  } else if (m < 200) {
    static const char *SG[] = {"", "-", "+"};
    r += SG[s.below(3)];
    u8 z = s.byte();
    r += std::string(z < 60 ? s.below(4) : z < 80 ? s.below(400) : 0, '0');
    for (u32 k = s.below(s.chance(40) ? 25 : 12); k > 0; --k) {
      r += (char)('0' + s.below(10));
    }
    if (s.chance(flt ? 150 : 40)) {
      r += '.';
      for (u32 k = s.below(12); k > 0; --k) {
        r += (char)('0' + s.below(10));
      }
    }
    if (s.chance(flt ? 80 : 20)) {
      r += s.chance(128) ? 'e' : 'E';
      r += SG[s.below(3)];
      for (u32 k = s.below(4); k > 0; --k) {
        r += (char)('0' + s.below(10));
      }
    }
  } else {
    static const char *X[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807",
                              "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967296",
                              "18446744073709551616", "abc", "", "-", "+", ".", "--5", "1e308", "1e-310", "3.4e38", "-0",
                              "00000000000000000000012", "1.7976931348623157e308", "4.9e-324", "1e-400", "1e-46", "1e-40", "e5", ".5", "5.", "+.5e1x",
                              "0.1", "1,5", "12 34", "true", "\xc3\xa9" "1"};
    r += X[s.below(sizeof X / sizeof *X)];
  }
  if (s.chance(50)) {
    static const char *TL[] = {" ", "x", "e", ".", "e+", "abc", "\n", "-1", "_0"};
    r += TL[s.below(9)];
  }
  if (s.rare(40)) {
    r += std::string("\0" "7", 2);
  }
  return r;
}

u32 bigSize(Src &s, u32 lo, u32 hi) {
  static const u32 B[] = {10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 3000, 4096, 5000, 8192, 10000,
                          16384, 20000, 32768, 50000, 65536, 70000, 100000, 131072, 1u << 20, 1u << 21};
  u32 n = sizeof B / sizeof *B;
  u32 at = s.bits(2);
  i64 d = (i64)s.below(5) - 2;
  if (at % 4 == 3 && !g_dict.ints.empty()) {
    u32 m = (u32)g_dict.ints.size();
    for (u32 k = 0; k < m; ++k) {
      i64 v = g_dict.ints[(at / 4 + k) % m] + d;
      if (v >= (i64)lo && v <= (i64)hi) {
        return (u32)v;
      }
    }
  }
  for (u32 k = 0; k < n; ++k) {
    i64 v = (i64)B[(at / 4 + k) % n] + d;
    if (v >= (i64)lo && v <= (i64)hi) {
      return (u32)v;
    }
  }
  return hi;
}

std::string genStr(Src &s, Hint h) {
  if (h == H_NUMSTR) {
    return genNumeral(s, s.chance(128) ? T_F64 : T_I64);
  }
  u8 m = s.byte();
  size_t len;
  if (m < 40) {
    len = s.below(3);
  } else if (m < 170 || h == H_SHORT) {
    len = s.below(20);
  } else if (m < 215) {
    static const uint16_t L[] = {7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
    len = L[s.below(20)];
  } else if (m < 253) {
    len = s.below(200);
  } else {
    if (s.rare(24)) {
      static const u32 L[] = {16383, 16384, 16385, 65535, 65536, 65537, 70000, 4095, 4096, 4097, 32767, 32768};
      len = L[s.below(12)];
    } else {
      len = s.chance(128) ? 500 + s.below(3000) : bigSize(s, 40, 4100);
    }
  }
  u8 a = s.byte();
  if (a >= 245 && !g_dict.strs.empty()) {
    std::string r = g_dict.strs[s.below((u32)g_dict.strs.size())];
    if (s.chance(80)) {
      r += (char)s.byte();
    }
    return r;
  }
  std::string r;
  r.reserve(len);
  auto ch = [&](u8 b) -> char {
    switch (a % 8) {
    case 0:
      return (char)('a' + b % 3);
    case 1:
    case 2:
      return (char)(32 + b % 95);
    case 3:
      return (char)b;
    case 4:
      return " \t\n\v\f\ra\0Z\x1c\x85\xa0"[b % 12];
    case 5:
      return "aAzZ@[`{mM09"[b % 12];
    case 6:
      return (char)(b % 3 == 0 ? 0 : b % 3 == 1 ? 0xFF : 0x80 | (b & 0x7F));
    default:
      return (char)('A' + b % 58);
    }
  };
  if (len <= 40) {
    for (size_t k = 0; k < len; ++k) {
      r += ch(s.byte());
    }
  } else {
    Prng p(s.bits(2));
    for (size_t k = 0; k < len; ++k) {
      r += ch((u8)p.next());
    }
  }
  if (a >= 200 && a < 245 && len >= 2) {  // white space at the ends
    u8 b = s.byte();
    size_t x = b & 3, y = (b >> 2) & 3;
    for (size_t k = 0; k < x && k < r.size(); ++k) {
      r[k] = " \t\n\r"[(b >> 4) & 3];
    }
    for (size_t k = 0; k < y && k < r.size(); ++k) {
      r[r.size() - 1 - k] = " \v\f\n"[(b >> 6) & 3];
    }
  }
  return r;
}

Val genVal(Src &s, u8 ty, Hint h) {
  switch (ty) {
  case T_I32:
  case T_I64:
    return genInt(s, ty, h);
  case T_BOOL:
    return Val::B((s.byte() & 1) != 0);
  case T_F32:
  case T_F64:
    return genFlt(s, ty, h);
  default:
    return Val::S(genStr(s, h));
  }
}

Val genRelated(Src &s, const Val &a, u8 ty, Hint h) {
  if (a.ty != ty || s.chance(110)) {
    return genVal(s, ty, h);
  }
  Val v = a;
  v.fl = 0;
  u8 m = s.byte();
  switch (ty) {
  case T_I32:
  case T_I64:
    switch (m % 6) {
    case 0: break;
    case 1: v.i = (i64)((u64)v.i + 1); break;
    case 2: v.i = (i64)((u64)v.i - 1); break;
    case 3: v.i = (i64)(0 - (u64)v.i); break;
    case 4: v.i = ~v.i; break;
    default: v.i ^= (i64)((u64)1 << (m / 6 % (ty == T_I32 ? 32 : 64)));
    }
    break;
  case T_BOOL:
    v.i = v.i != 0 ? (m & 1) : 1 - (m & 1);
    break;
  case T_F32:
  case T_F64:
    switch (m % 5) {
    case 0: break;
    case 1: v.d = ty == T_F32 ? (double)nextafterf((float)v.d, INFINITY) : nextafter(v.d, INFINITY); break;
    case 2: v.d = ty == T_F32 ? (double)nextafterf((float)v.d, -INFINITY) : nextafter(v.d, -INFINITY); break;
    case 3: v.d = -v.d; break;
    default: v.d = v.d * 2;
    }
    break;
  default:
    switch (m % 6) {
    case 0: break;
    case 1: v.s += (char)s.byte(); break;
    case 2:
      if (!v.s.empty()) {
        v.s.pop_back();
      }
      break;
    case 3:
    case 4:
      if (!v.s.empty()) {
        v.s[s.below((u32)v.s.size())] ^= (char)(1u << (m / 6 % 8));
      }
      break;
    default: v.s += '\0';
    }
  }
  fixUp(v);
  if ((h == H_EXACT || h == H_FINITE) && (ty == T_F32 || ty == T_F64) && !std::isfinite(v.d)) {
    v.d = 0;
  }
  return v;
}

// ---------------------------------------------------------------------------------------------- expressions

const std::vector<int> &sigsReturning(u8 ty) {
  static std::vector<int> by[8];
  static bool init = false;
  if (!init) {
    for (size_t k = 0; k < sigs().size(); ++k) {
      const Sig &g = sigs()[k];
      if ((g.code == O_CAST || g.code == O_CASTC) && (g.t >> 4) == (g.t & 15)) {
        by[g.ret].push_back((int)k);
        continue;
      }
      by[g.ret].push_back((int)k);
    }
    init = true;
  }
  return by[ty];
}

void supply(Src &s, Ops &ops, Row &cols, const Val &v, u8 ty) {
  u8 m = s.byte() % 8;
  if (v.isNull()) {
    if (m < 4) {
      ops.push_back(opNull(ty));
      return;
    }
  } else if (m < 4) {
    if (m == 3 && (v.ty == T_I32 || v.ty == T_I64)) {
      ops.push_back(opConstN(v));
    } else {
      ops.push_back(opConst(v));
    }
    return;
  }
  if (m >= 5) {  // a column that holds this value already, so that an operator meets one object twice
    for (size_t k = cols.size(); k > 0 && k + 8 > cols.size(); --k) {
      if (cols[k - 1].ty == v.ty && sameVal(cols[k - 1], v)) {
        ops.push_back(opVar(ty, (i32)k - 1));
        return;
      }
    }
  }
  if (m == 7 && cols.size() < 300) {  // leave a gap
    for (u32 k = s.rare(400) ? 130 + s.below(140) : s.below(3); k > 0; --k) {
      cols.push_back(Val());
    }
  }
  cols.push_back(v);
  ops.push_back(opVar(ty, (i32)cols.size() - 1));
}

void EGen::leafOf(const Val &v, u8 ty) {
  supply(s, ops, *cols, v, ty);
}

void EGen::leaf(u8 ty, Hint h) {
  if (fixed) {
    u8 m = s.byte();
    if (m >= 90 && colTy != nullptr && !colTy->empty()) {
      u32 n = (u32)colTy->size();
      u32 st = s.below(n);
      for (u32 k = 0; k < n; ++k) {
        u32 c = (st + k) % n;
        if ((*colTy)[c] == ty) {
          ops.push_back(opVar(ty, (i32)c));
          return;
        }
      }
    }
    if (s.chance((u32)nullPct)) {
      ops.push_back(opNull(ty));
      return;
    }
    Val v = genVal(s, ty, h);
    if ((v.ty == T_I32 || v.ty == T_I64) && s.chance(40)) {
      ops.push_back(opConstN(v));
    } else {
      ops.push_back(opConst(v));
    }
    return;
  }
  if (s.chance((u32)nullPct)) {
    leafOf(Val(), ty);
    return;
  }
  if (cols != nullptr && !cols->empty() && s.chance(60)) {  // read a column again
    u32 n = (u32)cols->size();
    u32 st = s.below(n);
    for (u32 k = 0; k < n && k < 16; ++k) {
      u32 c = (st + k) % n;
      if ((*cols)[c].ty == ty || (*cols)[c].isNull()) {
        ops.push_back(opVar(ty, (i32)c));
        return;
      }
    }
  }
  leafOf(genVal(s, ty, h), ty);
}

void EGen::gen(u8 ty, int depth, Hint h) {
  --budget;
  if (depth <= 0 || budget <= 0 || s.byte() < 50) {
    leaf(ty, h);
    return;
  }
  const auto &c = sigsReturning(ty);
  for (int tries = 0; tries < 4; ++tries) {
    const Sig &g = sigs()[(size_t)c[s.below((u32)c.size())]];
    bool numText = (g.code == O_CAST || g.code == O_CASTC) && (g.t & 15) == T_STR && (g.t >> 4) != T_STR;
    bool mayErr = g.code == O_ABSC || g.code == O_CASTC || numText;
    if (mayErr && (!checked || exactOnly)) {
      continue;
    }
    if (exactOnly) {
      bool fromFlt = g.code == O_CAST && ((g.t & 15) == T_F32 || (g.t & 15) == T_F64);
      bool math = g.code == O_FUN && g.t < 0x20;
      bool mm = (g.code == O_MIN || g.code == O_MAX) && (g.t == T_F32 || g.t == T_F64);
      if (fromFlt || math || mm) {
        continue;
      }
    }
    bool fltSrc = (g.code == O_CAST || g.code == O_CASTC) && (ty == T_I32 || ty == T_I64);
    for (int k = 0; k < g.n; ++k) {
      Hint h2 = numText ? H_NUMSTR : g.code == O_FUN && g.t >= 0x20 && g.a[k] == T_I32 ? H_POS : H_NONE;
      if (exactOnly || (fltSrc && s.chance(200))) {
        h2 = h2 == H_NONE ? ((g.a[k] == T_F32 || g.a[k] == T_F64) ? H_EXACT : H_NONE) : h2;
      }
      if (h == H_SHORT && h2 == H_NONE) {
        h2 = H_SHORT;
      }
      gen(g.a[k], depth - 1, h2);
    }
    ops.push_back(opOf(g.code, g.t));
    return;
  }
  leaf(ty, h);
}

// ---------------------------------------------------------------------------------------------- relations

static bool hotColumn(u32 c, u32 n) {
  static const u32 H[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536};
  bool hot = c < 2 || c + 2 >= n;
  for (u32 h : H) {
    hot = hot || c == h;
  }
  return hot;
}

// A column to read: any, but in wide rows often one where an index gets longer.
static u32 pickCol(Src &s, size_t n) {
  static const u32 H[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536};
  if (n > 127 && s.chance(150)) {
    u8 m = s.byte();
    u32 h = H[m % 8];
    return h < n ? h : (u32)n - 1 - (m >> 3) % 4;
  }
  return s.below((u32)n);
}

Schema genSchema(Src &s, const SchemaOpts &o) {
  Schema sc;
  u32 n = 1 + s.below(o.maxCols);
  if (o.wide && s.rare(60)) {
    n += 120 + s.below(40);
    if (s.chance(50)) {
      n += 100 + s.below(60);
    }
  }
  if (o.none && s.rare(120)) {
    return sc;
  }
  if (o.wide && s.rare(3000)) {  // a vast row: every index an operator stores is put to the test
    static const u32 W[] = {1000, 4000, 16384, 32769, 33000, 65537, 66000, 70000};
    n = W[s.below(8)] + s.below(3);
    Prng p(s.bits(2));
    for (u32 c = 0; c < n; ++c) {
      u8 ty = hotColumn(c, n) ? genType(s) : (u8)T_I32;
      sc.ty.push_back(ty);
      std::vector<Val> pool;
      for (u32 j = 0; j < 3; ++j) {
        Val v;
        v.ty = ty;
        v.i = ty == T_BOOL ? (i64)(j & 1) : (i64)c * 3 + (i64)j - (p.below(4) == 0 ? 100000 : 0);
        if (ty == T_STR) {
          v.s = "c" + std::to_string(v.i);
          v.i = 0;
        } else if (ty == T_F32 || ty == T_F64) {
          v.d = (double)(v.i % 1000) / 8;
          v.i = 0;
        }
        pool.push_back(v);
      }
      sc.pool.push_back(pool);
      sc.nullPct.push_back(p.below(3) == 0 ? 60 : 0);
    }
    return sc;
  }
  for (u32 c = 0; c < n; ++c) {
    u8 ty = genType(s);
    sc.ty.push_back(ty);
    u32 k = 1 + s.below(s.chance(60) ? 12 : 4);
    std::vector<Val> pool;
    bool stride = s.chance(40);
    for (u32 j = 0; j < k; ++j) {
      Val v;
      if (n > 20) {
        v = ty == T_STR ? Val::S(std::string(1, (char)('a' + s.below(4)))) : genVal(s, ty, H_SMALL);
        if (ty == T_F32 || ty == T_F64) {
          v = genFlt(s, ty, H_EXACT);
        }
      } else if ((ty == T_F32 || ty == T_F64) && o.exact) {
        v = genFlt(s, ty, H_EXACT);
      } else if ((ty == T_I32 || ty == T_I64) && stride) {
        v.ty = ty;
        v.i = (i64)s.below(5) * 31 + (i64)s.below(3) - 1;
      } else if (!pool.empty() && s.chance(90)) {
        v = genRelated(s, pool.back(), ty, o.exact ? H_EXACT : H_FINITE);
      } else if (ty == T_STR) {
        v = genVal(s, ty, s.chance(30) ? H_NONE : H_SHORT);
      } else {
        v = genVal(s, ty, o.exact ? H_NONE : H_FINITE);
      }
      if (o.exact && (ty == T_F32 || ty == T_F64) && (!std::isfinite(v.d) || std::fabs(v.d) > 5000)) {
        v.d = 1;
      }
      if (o.exact && (ty == T_F32 || ty == T_F64)) {
        v.d = std::round(v.d * 8) / 8;
      }
      pool.push_back(v);
    }
    sc.pool.push_back(pool);
    u8 np = s.byte();
    sc.nullPct.push_back(np < 110 ? 0 : np < 230 ? 50 : np < 250 ? 140 : 255);
  }
  return sc;
}

Row genRow(Src &s, const Schema &sc) {
  if (sc.ty.size() > 500) {
    Prng p(s.bits(2));
    return bulkRow(p, sc, 0, -1);
  }
  Row r;
  for (size_t c = 0; c < sc.ty.size(); ++c) {
    if (s.chance(sc.nullPct[c])) {
      r.emplace_back();
    } else {
      r.push_back(sc.pool[c][s.below((u32)sc.pool[c].size())]);
    }
  }
  return r;
}

Row bulkRow(Prng &p, const Schema &sc, u64 serial, int uniqueCol) {
  Row r;
  for (size_t c = 0; c < sc.ty.size(); ++c) {
    u64 w = p.next();
    if ((int)c == uniqueCol) {
      u8 t = sc.ty[c];
      Val v;
      v.ty = t;
      if (t == T_STR) {
        v.s = "k" + std::to_string(serial);
      } else if (t == T_F32 || t == T_F64) {
        v.d = (double)(serial & 0xFFFFF);
      } else {
        v.i = (i64)serial;
      }
      fixUp(v);
      r.push_back(v);
    } else if ((w & 255) >= 256u - sc.nullPct[c]) {
      r.emplace_back();
    } else {
      r.push_back(sc.pool[c][(w >> 8) % sc.pool[c].size()]);
    }
  }
  return r;
}

static Ops genExpr(Src &s, const std::vector<u8> &ty, u8 want, bool errors, bool exact, int depth) {
  EGen g(s);
  Row none;
  g.cols = &none;
  g.colTy = const_cast<std::vector<u8> *>(&ty);
  g.fixed = true;
  g.checked = errors;
  g.exactOnly = exact;
  g.budget = 24;
  g.gen(want, depth, H_SHORT);
  return g.ops;
}

static void cmpCol(Src &s, const std::vector<u8> &ty, Ops &ops) {
  u32 c = pickCol(s, ty.size());
  u8 t = ty[c];
  ops.push_back(opVar(t, (i32)c));
  u8 m = s.byte();
  if (m < 60) {
    static const u8 K[] = {O_ISNULL, O_ISTRUE, O_ISFALSE};
    ops.push_back(opOf(K[m % 3], t));
    if (m >= 30) {
      ops.push_back(opOf(O_NOT));
    }
    return;
  }
  // against another column of the type or a constant
  for (u32 k = 0; k < ty.size() && k < 200; ++k) {
    u32 d = (c + 1 + k) % (u32)ty.size();
    if (ty[d] == t && s.chance(60)) {
      ops.push_back(opVar(t, (i32)d));
      ops.push_back(opOf((u8)(O_EQ + m % 6), t));
      return;
    }
  }
  ops.push_back(opConst(genVal(s, t, t == T_STR ? H_SHORT : H_SMALL)));
  ops.push_back(opOf((u8)(O_EQ + m % 6), t));
}

Stage genFilter(Src &s, const std::vector<u8> &ty, bool errors, bool exact) {
  Stage st;
  st.k = Stage::FILTER;
  if (s.chance(14)) {  // results below the last one do not matter
    for (u32 k = 1 + s.below(3); k > 0; --k) {
      st.ops.push_back(s.chance(128) ? opConst(Val::B(s.chance(128))) : opConst(genVal(s, genType(s), H_SHORT)));
    }
  }
  if (!ty.empty() && s.chance(170)) {
    cmpCol(s, ty, st.ops);
    if (s.chance(70)) {
      cmpCol(s, ty, st.ops);
      st.ops.push_back(opOf(s.chance(128) ? O_OR : O_AND));
    }
    if (s.chance(20)) {
      st.ops.push_back(opOf(O_NOT));
    }
  } else {
    st.ops = genExpr(s, ty, T_BOOL, errors, exact, 3);
  }
  return st;
}

Stage genProject(Src &s, std::vector<u8> &ty, bool errors, bool exact) {
  Stage st;
  st.k = Stage::PROJECT;
  u32 n = 1 + s.below(5);
  if (s.rare(150)) {
    n = 0;
  } else if (s.rare(80)) {
    n = 60 + s.below(240);
  } else if (s.rare(1500)) {
    n = bigSize(s, 300, 1200);
  }
  std::vector<u8> out;
  for (u32 k = 0; k < n; ++k) {
    if (!ty.empty() && (n > 50 || s.chance(140))) {
      u32 c = pickCol(s, ty.size());
      st.ops.push_back(opVar(ty[c], (i32)c));
      out.push_back(ty[c]);
      continue;
    }
    u8 t = genType(s);
    Ops e = genExpr(s, ty, t, errors, exact, 1 + (int)s.below(3));
    st.ops.insert(st.ops.end(), e.begin(), e.end());
    out.push_back(t);
  }
  ty = out;
  return st;
}

Stage genAgg(Src &s, std::vector<u8> &ty, bool grouped, u32 maxAggs, const std::vector<bool> *noKey) {
  Stage st;
  st.k = grouped ? Stage::GROUPED : Stage::UNGROUPED;
  std::vector<u8> out;
  if (grouped && !ty.empty()) {
    u32 n = s.below(10);
    n = n < 5 ? 1 : n < 7 ? 2 : n < 8 ? 3 : n < 9 ? 0 : 1 + s.below(6);
    if (s.rare(150)) {
      n = 7 + s.below(34);
    } else if (s.rare(600)) {
      n = bigSize(s, 60, 300);
    }
    for (u32 k = 0; k < n; ++k) {
      u32 c = pickCol(s, ty.size());
      if (noKey != nullptr && (*noKey)[c]) {
        continue;
      }
      st.keys.push_back((i32)c);
      out.push_back(ty[c]);
    }
  }
  u32 m = 1 + s.below(maxAggs);
  if (s.rare(40)) {
    m = 0;
  } else if (s.rare(100)) {
    m = 20 + s.below(150);
  } else if (s.rare(900)) {
    m = bigSize(s, 100, 600);
  }
  for (u32 k = 0; k < m; ++k) {
    AggSpec a;
    u8 w = s.byte();
    if (ty.empty() || w < 50) {
      a.code = G_COUNT_ALL;
    } else {
      a.col = (i32)pickCol(s, ty.size());
      u8 t = ty[(size_t)a.col];
      static const u8 G[] = {G_SUM, G_MIN, G_MAX, G_COUNT};
      a.code = (u8)(G[w % 4] | t);
      if (!aggSupported(a.code)) {
        a.code = (u8)((t == T_STR ? G_MAX : G_COUNT) | t);
      }
    }
    st.aggs.push_back(a);
    out.push_back(aggRet(a));
  }
  ty = out;
  return st;
}

void widenProject(Src &s, const std::vector<u8> &ty, Stage &st, u32 n) {
  Prng p(s.bits(3));
  st.ops.clear();
  for (u32 k = 0; k < n; ++k) {
    u64 w = p.next();
    if (!ty.empty() && (w & 1) != 0) {
      u32 c = (u32)((w >> 8) % ty.size());
      st.ops.push_back(opVar(ty[c], (i32)c));
    } else {
      st.ops.push_back(opConst(Val::I32((i32)k)));
    }
  }
}

static AggSpec bulkAgg(u64 w, const std::vector<u8> &ty) {
  AggSpec a;
  if (ty.empty() || (w & 7) == 0) {
    a.code = G_COUNT_ALL;
    return a;
  }
  static const u8 G[] = {G_SUM, G_MIN, G_MAX, G_COUNT};
  a.col = (i32)((w >> 8) % ty.size());
  u8 t = ty[(size_t)a.col];
  a.code = (u8)(G[(w >> 4) % 4] | t);
  if (!aggSupported(a.code)) {
    a.code = (u8)((t == T_STR ? G_MAX : G_COUNT) | t);
  }
  return a;
}

void widenAgg(Src &s, const std::vector<u8> &ty, Stage &st, u32 nKeys, u32 nAggs, const std::vector<bool> &noKey) {
  Prng p(s.bits(3));
  if (nKeys > 0) {
    std::vector<i32> can;
    for (size_t k = 0; k < ty.size(); ++k) {
      if (!noKey[k]) {
        can.push_back((i32)k);
      }
    }
    st.keys.clear();
    for (u32 k = 0; k < nKeys && !can.empty(); ++k) {
      st.keys.push_back(can[p.below((u32)can.size())]);
    }
  }
  if (nAggs > 0) {
    st.aggs.clear();
    for (u32 k = 0; k < nAggs; ++k) {
      st.aggs.push_back(bulkAgg(p.next(), ty));
    }
  }
}

Prog longChain(Src &s, const std::vector<u8> &ty0, u32 n) {
  Prog r;
  std::vector<u8> ty = ty0;
  Prng p(s.bits(3));
  u32 aggs = s.chance(128) ? 0 : 1 + s.below(4);
  for (u32 k = 0; k < n; ++k) {
    u64 w = p.next();
    Stage st;
    if (aggs > 0 && (w >> 40) % n < aggs) {
      st.k = (w & 1) != 0 ? Stage::GROUPED : Stage::UNGROUPED;
      std::vector<u8> out;
      for (u32 j = 0; st.k == Stage::GROUPED && j < ty.size() && j < 2; ++j) {
        if (ty[j] != T_F32 && ty[j] != T_F64) {
          st.keys.push_back((i32)j);
          out.push_back(ty[j]);
        }
      }
      for (u32 j = 0; j < 2; ++j) {
        st.aggs.push_back(bulkAgg(p.next() & ~(u64)7, ty));
        out.push_back(aggRet(st.aggs.back()));
      }
      ty = out;
    } else if (ty.empty() || (w & 3) == 0) {
      st.k = Stage::FILTER;
      if (ty.empty() || (w & 4) != 0) {
        st.ops = {opConst(Val::B(true))};
      } else {
        u32 c = (u32)((w >> 8) % ty.size());
        st.ops = {opVar(ty[c], (i32)c), opOf(O_ISNULL, ty[c]), opOf(O_NOT), opConst(Val::B(true)), opOf(O_OR)};
      }
    } else {
      st.k = Stage::PROJECT;
      std::vector<u8> out;
      u32 m = ty.size() > 4 ? 4 : (u32)ty.size();
      for (u32 j = 0; j < m; ++j) {
        u32 c = (w & 8) != 0 ? j : (u32)((j + 1) % ty.size());
        st.ops.push_back(opVar(ty[c], (i32)c));
        if (ty[c] == T_I32 || ty[c] == T_I64) {
          st.ops.push_back(opConst(ty[c] == T_I32 ? Val::I32((i32)(k % 1000)) : Val::I64((i64)(k % 1000))));
          st.ops.push_back(opOf(O_ADD, ty[c]));
        }
        out.push_back(ty[c]);
      }
      if (m < 4 && (w & 48) == 0) {
        st.ops.push_back(opConst(Val::I32((i32)k)));
        out.push_back(T_I32);
      }
      ty = out;
    }
    r.push_back(st);
  }
  return r;
}

Prog genProg(Src &s, const std::vector<u8> &ty0, const ProgOpts &o) {
  Prog p;
  std::vector<u8> ty = ty0;
  u32 n = 1 + s.below(o.maxStages);
  if (o.maxStages > 2 && s.rare(60)) {
    n += s.below(12);
    if (s.rare(14)) {
      n = bigSize(s, 10, 140);
    }
  }
  bool agg = false;
  for (u32 k = 0; k < n; ++k) {
    u8 m = s.byte();
    bool last = k + 1 == n;
    if (o.needAgg && last && !agg) {
      m = 200 + (m & 31);
    }
    bool errors = o.rowErrors && !agg;
    if (o.allowAgg && m >= 130) {
      bool grouped = m >= 165;
      p.push_back(genAgg(s, ty, grouped, o.maxAggs));
      agg = true;
    } else if (m < 65) {
      p.push_back(genFilter(s, ty, errors, !errors));
    } else {
      p.push_back(genProject(s, ty, errors, !errors));
    }
  }
  return p;
}
