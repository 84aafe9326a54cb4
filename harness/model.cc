#include "model.h"

#include <algorithm>
#include <cstdlib>

// ---------------------------------------------------------------------------------------------- operator table

namespace {

struct Table {
  std::vector<Sig> v;
  int16_t idx[256][256];
  void add(u8 code, u8 t, u8 ret, std::initializer_list<u8> a) {
    Sig s{};
    s.code = code;
    s.t = t;
    s.ret = ret;
    s.n = (u8)a.size();
    int k = 0;
    for (u8 x : a) {
      s.a[k++] = x;
    }
    idx[code][t] = (int16_t)v.size();
    v.push_back(s);
  }
  Table() {
    for (auto &r : idx) {
      for (auto &c : r) {
        c = -1;
      }
    }
    const u8 nums[] = {T_I32, T_I64, T_F32, T_F64};
    const u8 all[] = {T_I32, T_I64, T_BOOL, T_F32, T_F64, T_STR};
    for (u8 t : nums) {
      for (u8 c : {O_POS, O_NEG, O_ABS, O_ABSC}) {
        add(c, t, t, {t});
      }
      for (u8 c : {O_ADD, O_SUB, O_MUL, O_DIV}) {
        add(c, t, t, {t, t});
      }
    }
    add(O_ADD, T_STR, T_STR, {T_STR, T_STR});
    add(O_MOD, T_I32, T_I32, {T_I32, T_I32});
    add(O_MOD, T_I64, T_I64, {T_I64, T_I64});
    for (u8 t : all) {
      for (u8 c = O_EQ; c <= O_NE; ++c) {
        add(c, t, T_BOOL, {t, t});
      }
      for (u8 c = O_ISNULL; c <= O_ISFALSE; ++c) {
        add(c, t, T_BOOL, {t});
      }
      add(O_MIN, t, t, {t, t});
      add(O_MAX, t, t, {t, t});
    }
    add(O_NOT, 0, T_BOOL, {T_BOOL});
    add(O_AND, 0, T_BOOL, {T_BOOL, T_BOOL});
    add(O_OR, 0, T_BOOL, {T_BOOL, T_BOOL});
    for (u8 d : all) {
      for (u8 s : all) {
        if (d == T_BOOL && s == T_STR) {
          continue;
        }
        add(O_CAST, (u8)(d << 4 | s), d, {s});
        add(O_CASTC, (u8)(d << 4 | s), d, {s});
      }
    }
    add(O_FUN, FN_CEIL, T_F64, {T_F64});
    add(O_FUN, FN_FLOOR, T_F64, {T_F64});
    for (u8 f = FN_SIN; f <= FN_LOG; ++f) {
      add(O_FUN, f, T_F64, {T_F64});
    }
    add(O_FUN, FN_CONCAT, T_STR, {T_STR, T_STR});
    for (u8 f : {FN_LOWER, FN_UPPER, FN_TRIM, FN_LTRIM, FN_RTRIM}) {
      add(O_FUN, f, T_STR, {T_STR});
    }
    for (u8 f : {FN_LEFT, FN_RIGHT, FN_SUBSTR2, FN_MID2}) {
      add(O_FUN, f, T_STR, {T_STR, T_I32});
    }
    for (u8 f : {FN_SUBSTR3, FN_MID3}) {
      add(O_FUN, f, T_STR, {T_STR, T_I32, T_I32});
    }
  }
};

const Table &table() {
  static const Table t;
  return t;
}

}  // namespace

const std::vector<Sig> &sigs() {
  return table().v;
}
int sigIndex(u8 code, u8 t) {
  return table().idx[code][twoByte(code) ? t : 0];
}
bool dontCareCode(u8 code, u8 t) {
  return ((code == O_CAST || code == O_CASTC) && (t == 0x00 || t == 0x66)) || code == 0x36;
}

static const char *tyName(u8 t) {
  static const char *N[] = {"NULL", "I32", "I64", "BOOL", "F32", "F64", "DEC", "STR"};
  return t < 8 ? N[t] : "?";
}

const char *opName(u8 code, u8 t) {
  static thread_local char b[64];
  const char *n = nullptr;
  switch (code) {
  case O_POS: n = "POS"; break;
  case O_NEG: n = "NEG"; break;
  case O_ADD: n = "ADD"; break;
  case O_SUB: n = "SUB"; break;
  case O_MUL: n = "MUL"; break;
  case O_DIV: n = "DIV"; break;
  case O_MOD: n = "MOD"; break;
  case O_EQ: n = "EQ"; break;
  case O_GE: n = "GE"; break;
  case O_GT: n = "GT"; break;
  case O_LE: n = "LE"; break;
  case O_LT: n = "LT"; break;
  case O_NE: n = "NE"; break;
  case O_ISNULL: n = "IS_NULL"; break;
  case O_ISTRUE: n = "IS_TRUE"; break;
  case O_ISFALSE: n = "IS_FALSE"; break;
  case O_MIN: n = "MIN"; break;
  case O_MAX: n = "MAX"; break;
  case O_ABS: n = "ABS"; break;
  case O_ABSC: n = "ABS_C"; break;
  case O_NOT: return "NOT";
  case O_AND: return "AND";
  case O_OR: return "OR";
  case O_CAST:
  case O_CASTC:
    snprintf(b, sizeof b, "%s<%s,%s>", code == O_CAST ? "CAST" : "CAST_C", tyName(t >> 4), tyName(t & 15));
    return b;
  case O_FUN:
    snprintf(b, sizeof b, "FUN_%02X", t);
    return b;
  default:
    snprintf(b, sizeof b, "OP_%02X_%02X", code, t);
    return b;
  }
  snprintf(b, sizeof b, "%s<%s>", n, tyName(t));
  return b;
}

MOp opNull(u8 ty) {
  MOp o;
  o.code = ty;
  return o;
}
MOp opConst(const Val &v) {
  MOp o;
  o.imm = v;
  if (v.ty == T_NULL) {
    o.code = T_I32;
    return o;
  }
  o.code = (u8)((v.ty == T_BOOL && v.i == 0 ? 0x20 : 0x10) | v.ty);
  return o;
}
MOp opConstN(const Val &v) {
  MOp o;
  o.imm = v;
  o.code = (u8)(0x20 | v.ty);
  if (v.ty == T_I32) {
    o.imm.i = (i32)(0u - (u32)v.i);
  } else if (v.ty == T_I64) {
    o.imm.i = (i64)(0ull - (u64)v.i);
  }
  return o;
}
MOp opVar(u8 ty, i32 idx) {
  MOp o;
  o.code = (u8)(0x30 | ty);
  o.idx = idx;
  return o;
}
MOp opOf(u8 code, u8 t) {
  MOp o;
  o.code = code;
  o.t = t;
  return o;
}

std::string show(const Ops &ops) {
  std::string r;
  size_t n = 0;
  for (const auto &o : ops) {
    if (!r.empty()) {
      r += ' ';
    }
    if (++n > 120) {
      return r + fmt("... (%zu ops)", ops.size());
    }
    switch (o.code >> 4) {
    case 0: r += fmt("NULL<%s>", tyName(o.code & 15)); break;
    case 1: r += "C(" + show(o.imm) + ")"; break;
    case 2: r += "CN(" + show(o.imm) + ")"; break;
    case 3: r += fmt("VAR<%s>[%d]", tyName(o.code & 15), o.idx); break;
    default: r += opName(o.code, o.t);
    }
  }
  return r;
}

u8 staticType(const Ops &ops) {
  if (ops.empty()) {
    return T_NULL;
  }
  const auto &o = ops.back();
  if (o.isLeaf()) {
    return o.code & 15;
  }
  int k = sigIndex(o.code, o.t);
  return k < 0 ? (u8)T_NULL : sigs()[k].ret;
}

// ---------------------------------------------------------------------------------------------- encoding

void encVarint(Bytes &out, u64 v) {
  while (v >= 0x80) {
    out.push_back((u8)(v | 0x80));
    v >>= 7;
  }
  out.push_back((u8)v);
}

// width: 32 or 64; v is the two's complement pattern of that width
void encVarint(Bytes &out, u64 v, int width, Src *s) {
  bool neg32 = width == 32 && ((v >> 31) & 1) != 0;
  size_t pad = 0;
  if (s != nullptr) {
    u8 c = s->byte();
    if (neg32 && (c & 1) != 0) {
      v |= 0xFFFFFFFF00000000ull;
    }
    if (c >= 232) {
      pad = 1 + (c & 3);
    }
  }
  size_t at = out.size();
  encVarint(out, v);
  while (pad > 0 && out.size() - at < 10) {
    out.back() |= 0x80;
    out.push_back(0);
    --pad;
  }
}

static void encUnsigned(Bytes &out, u64 v, Src *s) {
  encVarint(out, v, 64, s);
}

void encOp(Bytes &out, const MOp &o, Src *s) {
  out.push_back(o.code);
  u8 ty = o.code & 15;
  switch (o.code >> 4) {
  case 0:
    return;
  case 1:
  case 2:
    if (ty == T_I32) {
      encVarint(out, (u32)o.imm.i, 32, s);
    } else if (ty == T_I64) {
      encVarint(out, (u64)o.imm.i, 64, s);
    } else if (ty == T_F32) {
      float f = o.imm.f();
      u32 u;
      memcpy(&u, &f, 4);
      for (int k = 3; k >= 0; --k) {
        out.push_back((u8)(u >> (8 * k)));
      }
    } else if (ty == T_F64) {
      u64 u;
      memcpy(&u, &o.imm.d, 8);
      for (int k = 7; k >= 0; --k) {
        out.push_back((u8)(u >> (8 * k)));
      }
    } else if (ty == T_STR) {
      encUnsigned(out, o.imm.s.size(), s);
      out.insert(out.end(), o.imm.s.begin(), o.imm.s.end());
    }
    return;
  case 3:
    encUnsigned(out, (u32)o.idx, s);
    return;
  default:
    if (twoByte(o.code)) {
      out.push_back(o.t);
    }
  }
}

void encOps(Bytes &out, const Ops &ops, Src *s) {
  for (const auto &o : ops) {
    encOp(out, o, s);
  }
}

// ---------------------------------------------------------------------------------------------- decoding

namespace {
enum class VI { OKAY, TRUNC, UNSPEC };
// width 32/64, sgn: signed target
VI refVarint(const u8 *p, size_t n, size_t &pos, int width, bool sgn, i64 &val) {
  u64 v = 0;
  size_t k = 0;
  while (true) {
    if (pos >= n) {
      return VI::TRUNC;
    }
    u8 b = p[pos++];
    if (k < 10) {
      u64 part = b & 0x7F;
      if (k < 9) {
        v |= part << (7 * k);
      } else {
        v |= part << 63;
      }
    }
    ++k;
    if ((b & 0x80) == 0) {
      break;
    }
  }
  bool odd = k > 10;
  if (width == 64) {
    val = (i64)v;
    return odd ? VI::UNSPEC : VI::OKAY;
  }
  val = sgn ? (i64)(i32)(u32)v : (i64)(u32)v;
  if (v > 0xFFFFFFFFull && !(sgn && (i64)v == (i64)(i32)(u32)v)) {
    odd = true;  // not a value of the type
  }
  return odd ? VI::UNSPEC : VI::OKAY;
}
}  // namespace

DecRes refDecode(const u8 *p, size_t n) {
  DecRes r;
  size_t pos = 0;
  bool unspec = false;
  auto refuse = [&](size_t at, bool unknown) {
    r.st = unspec ? Dec::UNSPEC : Dec::REFUSE;
    r.bad = at;
    r.unknown = unknown;
    return r;
  };
  while (pos < n) {
    size_t at = pos;
    u8 c = p[pos++];
    if (c == 0) {
      r.used = pos;
      r.st = unspec ? Dec::UNSPEC : Dec::ACCEPT;
      return r;
    }
    MOp o;
    o.code = c;
    u8 ty = c & 15;
    bool plain = ty == T_I32 || ty == T_I64 || ty == T_BOOL || ty == T_F32 || ty == T_F64 || ty == T_STR;
    if (c < 0x10) {
      if (!plain) {
        return refuse(at, true);
      }
    } else if (c < 0x30) {
      bool ngt = c >= 0x20;
      if (!plain || (ngt && ty != T_I32 && ty != T_I64 && ty != T_BOOL)) {
        return refuse(at, true);
      }
      o.imm.ty = ty;
      if (ty == T_I32 || ty == T_I64) {
        VI k = refVarint(p, n, pos, ty == T_I32 ? 32 : 64, true, o.imm.i);
        if (k == VI::TRUNC) {
          return refuse(at, false);
        }
        unspec |= k == VI::UNSPEC;
      } else if (ty == T_BOOL) {
        o.imm.i = ngt ? 0 : 1;
      } else if (ty == T_F32) {
        if (n - pos < 4) {
          return refuse(at, false);
        }
        u32 u = 0;
        for (int k = 0; k < 4; ++k) {
          u = u << 8 | p[pos++];
        }
        float f;
        memcpy(&f, &u, 4);
        o.imm.d = f;
      } else if (ty == T_F64) {
        if (n - pos < 8) {
          return refuse(at, false);
        }
        u64 u = 0;
        for (int k = 0; k < 8; ++k) {
          u = u << 8 | p[pos++];
        }
        memcpy(&o.imm.d, &u, 8);
      } else {
        i64 len = 0;
        VI k = refVarint(p, n, pos, 32, false, len);
        if (k == VI::TRUNC) {
          return refuse(at, false);
        }
        if (k == VI::UNSPEC) {
          r.st = Dec::UNSPEC;  // not even the position of what follows is specified
          return r;
        }
        if ((u64)len > n - pos) {
          return refuse(at, false);
        }
        o.imm.s.assign((const char *)p + pos, (size_t)len);
        pos += (size_t)len;
      }
    } else if (c < 0x40) {
      if (ty == T_DEC) {
        unspec = true;
      } else if (!plain) {
        return refuse(at, true);
      }
      i64 v = 0;
      VI k = refVarint(p, n, pos, 32, true, v);
      if (k == VI::TRUNC) {
        return refuse(at, false);
      }
      unspec |= k == VI::UNSPEC;
      o.idx = (i32)v;
    } else if (!twoByte(c)) {
      if (sigIndex(c, 0) < 0) {
        return refuse(at, true);
      }
    } else {
      if (pos >= n) {
        return refuse(at, false);
      }
      o.t = p[pos++];
      if (dontCareCode(c, o.t)) {
        unspec = true;
      } else if (sigIndex(c, o.t) < 0) {
        return refuse(at, true);
      }
    }
    r.ops.push_back(std::move(o));
  }
  r.used = pos;
  r.st = unspec ? Dec::UNSPEC : Dec::ACCEPT;
  return r;
}

// ---------------------------------------------------------------------------------------------- evaluation

static bool isSp(unsigned char c) {
  return c == ' ' || (c >= 9 && c <= 13);
}

// Three-way comparison of two values of one type; 2 if unordered.
static int cmp3(const Val &a, const Val &b) {
  if (a.ty == T_F32 || a.ty == T_F64) {
    if (a.d < b.d) {
      return -1;
    }
    if (a.d > b.d) {
      return 1;
    }
    return a.d == b.d ? 0 : 2;
  }
  if (a.ty == T_STR) {
    size_t n = std::min(a.s.size(), b.s.size());
    for (size_t i = 0; i < n; ++i) {
      unsigned char x = (unsigned char)a.s[i], y = (unsigned char)b.s[i];
      if (x != y) {
        return x < y ? -1 : 1;
      }
    }
    return a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size() ? 1 : 0;
  }
  return a.i < b.i ? -1 : a.i > b.i ? 1 : 0;
}

static Val intVal(u8 t, u64 bits) {
  return t == T_I32 ? Val::I32((i32)(u32)bits) : Val::I64((i64)bits);
}
static Val fltVal(u8 t, double d) {
  return t == T_F32 ? Val::F32((float)d) : Val::F64(d);
}
static Val anyVal(u8 t) {
  Val v;
  v.ty = t;
  v.fl = F_ANY;
  return v;
}

// Rounds to nearest, halves away from zero; false if the result does not fit.
static bool roundTo(double v, u8 t, i64 &r) {
  if (std::isnan(v) || std::isinf(v)) {
    return false;
  }
  double tr = std::trunc(v);
  double frac = v - tr;  // exact
  if (frac >= 0.5) {
    tr += 1;
  } else if (frac <= -0.5) {
    tr -= 1;
  }
  if (t == T_I32) {
    if (tr < -2147483648.0 || tr > 2147483647.0) {
      return false;
    }
  } else if (tr < -9223372036854775808.0 || tr >= 9223372036854775808.0) {
    return false;
  }
  r = (i64)tr;
  return true;
}

static St castStrInt(const std::string &s, u8 t, Val &out) {
  size_t i = 0;
  while (i < s.size() && isSp((unsigned char)s[i])) {
    ++i;
  }
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
    neg = s[i] == '-';
    ++i;
  }
  unsigned __int128 m = 0;
  bool big = false;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
    m = m * 10 + (unsigned)(s[i] - '0');
    if (m > (unsigned __int128)1 << 70) {
      big = true;
      m = (unsigned __int128)1 << 70;
    }
  }
  unsigned __int128 lim = t == T_I32 ? (unsigned __int128)1 << 31 : (unsigned __int128)1 << 63;
  if (big || m > (neg ? lim : lim - 1)) {
    return St::ERR;
  }
  u64 u = (u64)m;
  out = intVal(t, neg ? 0 - u : u);
  return St::OK;
}

static St castStrFlt(const std::string &s, u8 t, Val &out) {
  size_t i = 0;
  while (i < s.size() && isSp((unsigned char)s[i])) {
    ++i;
  }
  size_t b = i;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
    ++i;
  }
  if (i + 2 < s.size() && (strncasecmp(s.c_str() + i, "inf", 3) == 0 || strncasecmp(s.c_str() + i, "nan", 3) == 0)) {
    return St::ANY;  // inf, nan: not specified
  }
  if (i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && (isxdigit((unsigned char)s[i + 2]) || s[i + 2] == '.')) {
    return St::ANY;  // hexadecimal: not specified
  }
  size_t digits = 0;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
    ++i;
    ++digits;
  }
  if (i < s.size() && s[i] == '.') {
    size_t j = i + 1, k = 0;
    while (j < s.size() && s[j] >= '0' && s[j] <= '9') {
      ++j;
      ++k;
    }
    if (digits + k > 0) {
      i = j;
      digits += k;
    }
  }
  if (digits == 0) {
    out = fltVal(t, 0.0);
    out.fl = F_ZS;
    return St::OK;
  }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    size_t j = i + 1;
    if (j < s.size() && (s[j] == '+' || s[j] == '-')) {
      ++j;
    }
    if (j < s.size() && s[j] >= '0' && s[j] <= '9') {
      while (j < s.size() && s[j] >= '0' && s[j] <= '9') {
        ++j;
      }
      i = j;
    }
  }
  std::string num = s.substr(b, i - b);
  if (t == T_F32) {
    float f = strtof(num.c_str(), nullptr);
    if (std::isinf(f)) {
      return St::ERR;  // does not fit
    }
    out = Val::F32(f);
  } else {
    double d = strtod(num.c_str(), nullptr);
    if (std::isinf(d)) {
      return St::ERR;  // does not fit
    }
    out = Val::F64(d);
  }
  if (out.d == 0) {
    out.fl = F_ZS;
  }
  return St::OK;
}

static St doCast(u8 dst, u8 src, bool chk, const Val &a, Val &out, u8 &exprErr) {
  if (dst == src) {
    out = a;
    return St::OK;
  }
  if (dst == T_STR) {
    if (src == T_BOOL) {
      out = Val::S(a.i != 0 ? "true" : "false");
    } else if (src == T_I32 || src == T_I64) {
      // shortest decimal form, computed without the C library
      u64 m = a.i < 0 ? 0 - (u64)a.i : (u64)a.i;
      std::string r;
      do {
        r.insert(r.begin(), (char)('0' + m % 10));
        m /= 10;
      } while (m != 0);
      out = Val::S(a.i < 0 ? "-" + r : r);
    } else {
      if (std::isnan(a.d) || std::isinf(a.d)) {
        out = anyVal(T_STR);
        return St::OK;
      }
      char b[512];
      snprintf(b, sizeof b, "%.15f", a.d);
      std::string r(b);
      while (r.back() == '0' && r[r.size() - 2] != '.') {
        r.pop_back();
      }
      bool zero = r.find_first_of("123456789") == std::string::npos;
      out = Val::S(r);
      if (zero) {
        out.fl = F_NZ;
      }
    }
    return St::OK;
  }
  if (src == T_STR) {
    if (dst == T_I32 || dst == T_I64) {
      return castStrInt(a.s, dst, out);
    }
    return castStrFlt(a.s, dst, out);
  }
  bool sf = src == T_F32 || src == T_F64;
  switch (dst) {
  case T_BOOL:
    out = Val::B(sf ? a.d != 0 : a.i != 0);
    return St::OK;
  case T_F32:
    out = sf ? Val::F32((float)a.d) : Val::F32((float)a.i);
    return St::OK;
  case T_F64:
    out = sf ? Val::F64(a.d) : Val::F64((double)a.i);
    return St::OK;
  default:
    break;
  }
  if (!sf) {
    if (chk && dst == T_I32 && (a.i < INT32_MIN || a.i > INT32_MAX)) {
      exprErr = dst;
      return St::ERR;
    }
    out = intVal(dst, (u64)a.i);
    return St::OK;
  }
  i64 r;
  if (roundTo(a.d, dst, r)) {
    out = intVal(dst, (u64)r);
    return St::OK;
  }
  if (chk) {
    exprErr = dst;
    return St::ERR;
  }
  out = anyVal(dst);
  return St::OK;
}

static Val mathFn(u8 f, double x) {
  double r = 0;
  switch (f) {
  case FN_CEIL: {
    return Val::F64(std::ceil(x));
  }
  case FN_FLOOR: {
    return Val::F64(std::floor(x));
  }
  case FN_SIN: r = sin(x); break;
  case FN_COS: r = cos(x); break;
  case FN_TAN: r = tan(x); break;
  case FN_ASIN: r = asin(x); break;
  case FN_ACOS: r = acos(x); break;
  case FN_ATAN: r = atan(x); break;
  case FN_SINH: r = sinh(x); break;
  case FN_COSH: r = cosh(x); break;
  case FN_TANH: r = tanh(x); break;
  case FN_EXP: r = exp(x); break;
  case FN_LOG: r = log(x); break;
  default: break;
  }
  Val v = Val::F64(r);
  v.fl = F_ULP;
  return v;
}

static std::string subBytes(const std::string &s, i64 b, i64 e) {  // [b, e) clipped to the string
  std::string r;
  for (i64 k = std::max<i64>(b, 0); k < e && k < (i64)s.size(); ++k) {
    r += s[(size_t)k];
  }
  return r;
}

static Val strFn(u8 f, const Val *a) {
  const std::string &s = a[0].s;
  i64 n = (i64)s.size();
  switch (f) {
  case FN_CONCAT:
    return Val::S(s + a[1].s);
  case FN_LOWER:
  case FN_UPPER: {
    std::string r = s;
    for (auto &c : r) {
      if (f == FN_LOWER && c >= 'A' && c <= 'Z') {
        c = (char)(c + 32);
      } else if (f == FN_UPPER && c >= 'a' && c <= 'z') {
        c = (char)(c - 32);
      }
    }
    return Val::S(r);
  }
  case FN_TRIM:
  case FN_LTRIM:
  case FN_RTRIM: {
    i64 b = 0, e = n;
    while (f != FN_RTRIM && b < e && isSp((unsigned char)s[(size_t)b])) {
      ++b;
    }
    while (f != FN_LTRIM && e > b && isSp((unsigned char)s[(size_t)e - 1])) {
      --e;
    }
    return Val::S(s.substr((size_t)b, (size_t)(e - b)));
  }
  case FN_LEFT:
    return Val::S(subBytes(s, 0, a[1].i));
  case FN_RIGHT:
    return Val::S(a[1].i <= 0 ? std::string() : subBytes(s, n - a[1].i, n));
  case FN_SUBSTR2:
    return Val::S(subBytes(s, a[1].i, n));
  case FN_SUBSTR3:
    return Val::S(subBytes(s, a[1].i, a[2].i));
  case FN_MID2:
  case FN_MID3: {
    i64 p = a[1].i;
    i64 cnt = f == FN_MID3 ? a[2].i : n;
    i64 b;
    if (p >= 1 && p <= n) {
      b = p - 1;
    } else if (p < 0 && p >= -n) {
      b = n + p;
    } else {
      return Val::S("");
    }
    return Val::S(cnt <= 0 ? std::string() : subBytes(s, b, b + cnt));
  }
  default:
    return anyVal(T_STR);
  }
}

St applyOp(const Sig &sg, const Val *a, Val &out, u8 &exprErr) {
  u8 c = sg.code;
  // Unspecified operands make the result unspecified.
  for (int k = 0; k < sg.n; ++k) {
    if ((a[k].fl & (F_ANY | F_ZS | F_TOL | F_NZ)) != 0) {
      return St::ANY;
    }
  }
  bool typed = true, null = false;
  for (int k = 0; k < sg.n; ++k) {
    null |= a[k].isNull();
    typed &= a[k].isNull() || a[k].ty == sg.a[k];
  }
  if (c == O_AND || c == O_OR || c == O_NOT) {
    if (!typed) {
      // A deciding first operand may make the second one irrelevant.
      return c != O_NOT && sg.n == 2 && !(a[0].ty != T_BOOL && !a[0].isNull()) &&
                     (a[0].isNull() || (a[0].i != 0) == (c == O_OR))
                 ? St::ANY
                 : St::ERR;
    }
    auto tri = [](const Val &v) { return v.isNull() ? 1 : v.i != 0 ? 2 : 0; };  // FALSE < NULL < TRUE
    int r = c == O_NOT ? 2 - tri(a[0]) : c == O_AND ? std::min(tri(a[0]), tri(a[1])) : std::max(tri(a[0]), tri(a[1]));
    out = r == 1 ? Val() : Val::B(r == 2);
    return St::OK;
  }
  if (c == O_ISNULL || c == O_ISTRUE || c == O_ISFALSE) {
    if (!typed) {
      return St::ANY;
    }
    if (null) {
      out = Val::B(c == O_ISNULL);
      return St::OK;
    }
    bool tr = a[0].ty == T_STR ? false : (a[0].ty == T_F32 || a[0].ty == T_F64) ? a[0].d != 0 : a[0].i != 0;
    out = Val::B(c == O_ISNULL ? false : c == O_ISTRUE ? tr : !tr);
    return St::OK;
  }
  if ((c == O_CAST || c == O_CASTC) && (sg.t >> 4) == (sg.t & 15)) {
    if (!typed) {
      return St::ANY;
    }
    out = a[0];
    return St::OK;
  }
  if (null) {
    out = Val();
    return typed ? St::OK : St::ANY;
  }
  if (!typed) {
    return St::ERR;
  }
  u8 t = sg.t;
  switch (c) {
  case O_POS:
    out = a[0];
    return St::OK;
  case O_NEG:
    out = t == T_I32 || t == T_I64 ? intVal(t, 0 - (u64)a[0].i) : fltVal(t, -a[0].d);
    return St::OK;
  case O_ABS:
  case O_ABSC:
    if (t == T_I32 || t == T_I64) {
      i64 mn = t == T_I32 ? (i64)INT32_MIN : INT64_MIN;
      if (c == O_ABSC && a[0].i == mn) {
        exprErr = t;
        return St::ERR;
      }
      out = intVal(t, a[0].i < 0 ? 0 - (u64)a[0].i : (u64)a[0].i);
    } else {
      out = fltVal(t, std::fabs(a[0].d));
    }
    return St::OK;
  case O_ADD:
    if (t == T_STR) {
      out = Val::S(a[0].s + a[1].s);
      return St::OK;
    }
    [[fallthrough]];
  case O_SUB:
  case O_MUL:
  case O_DIV:
  case O_MOD:
    if (t == T_I32 || t == T_I64) {
      u64 x = (u64)a[0].i, y = (u64)a[1].i;
      if (c == O_ADD) {
        out = intVal(t, x + y);
      } else if (c == O_SUB) {
        out = intVal(t, x - y);
      } else if (c == O_MUL) {
        out = intVal(t, x * y);
      } else if (y == 0) {
        out = Val();
      } else {
        // on magnitudes, so that nothing can trap
        u64 mx = a[0].i < 0 ? 0 - x : x, my = a[1].i < 0 ? 0 - y : y;
        if (c == O_DIV) {
          u64 q = mx / my;
          out = intVal(t, (a[0].i < 0) != (a[1].i < 0) ? 0 - q : q);
        } else {
          u64 m = mx % my;
          out = intVal(t, a[0].i < 0 ? 0 - m : m);
        }
      }
    } else if (t == T_F32) {
      float x = a[0].f(), y = a[1].f();
      volatile float r = c == O_ADD ? x + y : c == O_SUB ? x - y : c == O_MUL ? x * y : y == 0 ? 0 : x / y;
      out = c == O_DIV && y == 0 ? Val() : Val::F32(r);
    } else {
      double x = a[0].d, y = a[1].d;
      volatile double r = c == O_ADD ? x + y : c == O_SUB ? x - y : c == O_MUL ? x * y : y == 0 ? 0 : x / y;
      out = c == O_DIV && y == 0 ? Val() : Val::F64(r);
    }
    return St::OK;
  case O_EQ:
  case O_GE:
  case O_GT:
  case O_LE:
  case O_LT:
  case O_NE: {
    int k = cmp3(a[0], a[1]);
    bool r = c == O_EQ   ? k == 0
             : c == O_NE ? k != 0
             : c == O_GE ? k == 0 || k == 1
             : c == O_GT ? k == 1
             : c == O_LE ? k == 0 || k == -1
                         : k == -1;
    out = Val::B(r);
    return St::OK;
  }
  case O_MIN:
  case O_MAX: {
    int k = cmp3(a[0], a[1]);
    if (k == 2) {
      out = anyVal(t);
      return St::OK;
    }
    out = (c == O_MIN) == (k <= 0) ? a[0] : a[1];
    if ((t == T_F32 || t == T_F64) && k == 0 && a[0].d == 0) {
      out.fl = F_ZS;
    }
    return St::OK;
  }
  case O_CAST:
  case O_CASTC:
    return doCast(t >> 4, t & 15, c == O_CASTC, a[0], out, exprErr);
  case O_FUN:
    out = t < 0x20 ? mathFn(t, a[0].d) : strFn(t, a);
    return St::OK;
  default:
    return St::ANY;
  }
}

Outcome evalOps(const Ops &ops, const Row *tuple) {
  Outcome r;
  auto &st = r.stack;
  for (size_t k = 0; k < ops.size(); ++k) {
    const auto &o = ops[k];
    switch (o.code >> 4) {
    case 0:
      st.emplace_back();
      continue;
    case 1:
      st.push_back(o.imm);
      continue;
    case 2: {
      Val v = o.imm;
      if (v.ty != T_BOOL) {
        v = intVal(v.ty, 0 - (u64)v.i);
      }
      st.push_back(v);
      continue;
    }
    case 3:
      if (tuple == nullptr) {
        r.st = St::ERR;
        r.why = "no tuple bound";
        return r;
      }
      if (o.idx < 0 || (size_t)o.idx >= tuple->size()) {
        r.st = St::ANY;
        return r;
      }
      st.push_back((*tuple)[(size_t)o.idx]);
      continue;
    default:
      break;
    }
    int si = sigIndex(o.code, o.t);
    if (si < 0) {
      r.st = St::ANY;
      return r;
    }
    const Sig &sg = sigs()[(size_t)si];
    if (st.size() < sg.n) {
      r.st = St::ANY;
      r.why = "too few operands";
      return r;
    }
    Val out;
    u8 ee = 0;
    St k2 = applyOp(sg, &st[st.size() - sg.n], out, ee);
    if (k2 != St::OK) {
      r.st = k2;
      r.exprErr = ee;
      r.why = fmt("operator #%zu %s", k, opName(o.code, o.t));
      return r;
    }
    st.resize(st.size() - sg.n);
    st.push_back(std::move(out));
  }
  return r;
}

// ---------------------------------------------------------------------------------------------- relations

bool aggSupported(u8 c) {
  u8 t = c & 15;
  bool num = t == T_I32 || t == T_I64 || t == T_F32 || t == T_F64;
  switch (c & 0xF0) {
  case G_COUNT:
    return t == 0 || num || t == T_BOOL || t == T_STR;
  case G_SUM:
    return num;
  case G_MAX:
  case G_MIN:
    return num || t == T_STR;
  default:
    return false;
  }
}
u8 aggRet(const AggSpec &a) {
  return (a.code & 0xF0) == G_COUNT ? (u8)T_I64 : (u8)(a.code & 15);
}

std::string show(const Prog &p) {
  std::string r;
  for (const auto &s : p) {
    if (!r.empty()) {
      r += " | ";
    }
    switch (s.k) {
    case Stage::FILTER:
      r += "FILTER " + show(s.ops);
      break;
    case Stage::PROJECT:
      r += "PROJECT " + show(s.ops);
      break;
    default:
      if (s.k == Stage::GROUPED) {
        r += "GROUP BY (";
        for (size_t i = 0; i < s.keys.size() && i < 30; ++i) {
          r += fmt(i != 0 ? ",%d" : "%d", s.keys[i]);
        }
        r += ")";
      } else {
        r += "AGGREGATE";
      }
      for (size_t i = 0; i < s.aggs.size() && i < 30; ++i) {
        static const char *N[] = {"?", "COUNT", "SUM", "MAX", "MIN"};
        const auto &a = s.aggs[i];
        r += a.code == G_COUNT_ALL ? std::string(" COUNT_ALL")
                                   : fmt(" %s<%s>[%d]", N[(a.code >> 4) % 5], tyName(a.code & 15), a.col);
      }
    }
  }
  return r;
}

void encStage(Bytes &out, const Stage &st, Src *s, bool eoe) {
  switch (st.k) {
  case Stage::FILTER:
  case Stage::PROJECT:
    out.push_back(st.k == Stage::FILTER ? 0x71 : 0x72);
    encOps(out, st.ops, s);
    if (eoe) {
      out.push_back(0);
    }
    return;
  case Stage::GROUPED:
    out.push_back(0x73);
    out.push_back(0x61);
    encVarint(out, st.keys.size(), 64, s);
    for (i32 k : st.keys) {
      encVarint(out, (u32)k, 64, s);
    }
    break;
  case Stage::UNGROUPED:
    out.push_back(0x74);
    break;
  }
  encVarint(out, st.aggs.size(), 64, s);
  for (const auto &a : st.aggs) {
    out.push_back(a.code);
    if (a.code != G_COUNT_ALL) {
      encVarint(out, (u32)a.col, 64, s);
    }
  }
}

void encProg(Bytes &out, const Prog &p, Src *s, bool lastEoe) {
  for (size_t k = 0; k < p.size(); ++k) {
    encStage(out, p[k], s, lastEoe || k + 1 < p.size());
  }
}

RelDecRes refDecodeRel(const u8 *p, size_t n) {
  RelDecRes r;
  size_t pos = 0;
  bool unspec = false;
  auto bad = [&] {
    r.st = unspec ? Dec::UNSPEC : Dec::REFUSE;
    return r;
  };
  while (pos < n) {
    Stage st;
    u8 c = p[pos++];
    if (c == 0 && !r.prog.empty() && (r.prog.back().k == Stage::GROUPED || r.prog.back().k == Stage::UNGROUPED)) {
      // README shows an EOE after aggregations, the tests have none: either is fine.
      r.st = Dec::UNSPEC;
      return r;
    }
    if (c == 0x71 || c == 0x72) {
      st.k = c == 0x71 ? Stage::FILTER : Stage::PROJECT;
      DecRes d = refDecode(p + pos, n - pos);
      if (d.st == Dec::UNSPEC) {
        r.st = Dec::UNSPEC;
        return r;
      }
      if (d.st == Dec::REFUSE) {
        return bad();
      }
      pos += d.used;
      st.ops = std::move(d.ops);
    } else if (c == 0x73 || c == 0x74) {
      st.k = c == 0x73 ? Stage::GROUPED : Stage::UNGROUPED;
      i64 v = 0;
      VI k;
      if (c == 0x73) {
        if (pos >= n || p[pos] != 0x61) {
          return bad();
        }
        ++pos;
        k = refVarint(p, n, pos, 64, false, v);
        if (k == VI::TRUNC) {
          return bad();
        }
        if (k == VI::UNSPEC) {
          r.st = Dec::UNSPEC;
          return r;
        }
        for (u64 j = 0, m = (u64)v; j < m; ++j) {
          k = refVarint(p, n, pos, 32, true, v);
          if (k == VI::TRUNC) {
            return bad();
          }
          unspec |= k == VI::UNSPEC;
          st.keys.push_back((i32)v);
        }
      }
      k = refVarint(p, n, pos, 64, false, v);
      if (k == VI::TRUNC) {
        return bad();
      }
      if (k == VI::UNSPEC) {
        r.st = Dec::UNSPEC;
        return r;
      }
      for (u64 j = 0, m = (u64)v; j < m; ++j) {
        if (pos >= n) {
          return bad();
        }
        AggSpec a;
        a.code = p[pos++];
        if (!aggSupported(a.code)) {
          return bad();
        }
        if (a.code != G_COUNT_ALL) {
          k = refVarint(p, n, pos, 32, true, v);
          if (k == VI::TRUNC) {
            return bad();
          }
          unspec |= k == VI::UNSPEC;
          a.col = (i32)v;
        }
        st.aggs.push_back(a);
      }
    } else {
      return bad();
    }
    r.prog.push_back(std::move(st));
  }
  r.st = unspec ? Dec::UNSPEC : Dec::ACCEPT;
  return r;
}

// The weight of the lowest bit set in x.
static double lowestBit(double x) {
  if (x == 0 || !std::isfinite(x)) {
    return HUGE_VAL;
  }
  int e;
  auto m = (u64)std::ldexp(std::frexp(std::fabs(x), &e), 53);
  return std::ldexp(1, e - 53 + __builtin_ctzll(m));
}

St aggAdd(const AggSpec &a, AggState &s, const Row &r) {
  if (a.code == G_COUNT_ALL) {
    ++s.cnt;
    return St::OK;
  }
  if (a.col < 0 || (size_t)a.col >= r.size()) {
    return St::ANY;
  }
  const Val &v = r[(size_t)a.col];
  if (v.isNull()) {
    return St::OK;
  }
  u8 t = a.code & 15;
  if ((a.code & 0xF0) == G_COUNT) {
    if (v.ty != t) {
      return St::ANY;
    }
    ++s.cnt;
    return St::OK;
  }
  if (v.ty != t) {
    return St::ANY;  // an error raised inside an aggregation: its effect on the row's other aggregates is unspecified
  }
  if ((v.fl & (F_ANY | F_ULP | F_NZ)) != 0) {
    return St::ANY;
  }
  ++s.cnt;
  bool flt = t == T_F32 || t == T_F64;
  if (flt) {
    s.absSum += std::fabs(v.d);
    s.absSmall = std::fmin(s.absSmall, lowestBit(v.d));
    if (!s.v.isNull() && ((v.fl | s.v.fl) & F_TOL) != 0) {
      return St::ANY;
    }
  }
  if (s.v.isNull()) {
    s.v = v;
    return St::OK;
  }
  switch (a.code & 0xF0) {
  case G_SUM:
    if (flt) {
      double z = t == T_F32 ? (double)(float)(s.v.d + v.d) : s.v.d + v.d;
      s.v.d = z;
      if (z == 0) {
        s.v.fl |= F_ZS;
      } else {
        s.v.fl &= (u8)~F_ZS;
      }
    } else {
      s.v = intVal(t, (u64)s.v.i + (u64)v.i);
    }
    return St::OK;
  default: {
    int k = cmp3(s.v, v);
    if (k == 2) {
      s.v.fl = F_ANY;
      return St::OK;
    }
    bool takeNew = (a.code & 0xF0) == G_MAX ? k < 0 : k > 0;
    bool zs = flt && k == 0 && v.d == 0;
    if ((s.v.fl & F_ANY) != 0) {
      return St::OK;
    }
    if (takeNew) {
      s.v = v;
    } else if (zs) {
      s.v.fl |= F_ZS;
    }
    return St::OK;
  }
  }
}

Val aggResult(const AggSpec &a, const AggState &s) {
  if ((a.code & 0xF0) == G_COUNT) {
    // a count of nothing may only occur for COUNT<T> when every value was NULL
    return s.cnt == 0 ? Val() : Val::I64((i64)s.cnt);
  }
  Val v = s.v;
  if ((a.code & 0xF0) == G_SUM && (v.ty == T_F32 || v.ty == T_F64)) {
    double mx = v.ty == T_F32 ? 3.4028234663852886e38 : 1.7976931348623157e308;
    double eps = v.ty == T_F32 ? 1.1920928955078125e-07 : 2.220446049250313e-16;
    if (std::isnan(v.d) || std::isinf(s.absSum)) {
      if (std::isinf(s.absSum) && s.cnt > 1) {
        v.fl |= F_ANY;
      }
    } else if (!(s.absSum < s.absSmall * (v.ty == T_F32 ? 0x1p24 : 0x1p53))) {
      // Some order of adding the values up may round (the order of groups is not specified).
      if (s.absSum > mx) {
        v.fl |= F_ANY;
      } else {
        v.fl |= F_TOL;
        v.tol = s.absSum * eps * (double)(s.cnt + 1);
      }
    }
  }
  return v;
}

static u64 keyHash(const Row &k) {
  u64 h = 7;
  for (const auto &v : k) {
    if ((v.ty == T_F32 || v.ty == T_F64) && v.d == 0) {
      h = mix64(h ^ v.ty);
    } else {
      h = hashVal(v, h);
    }
  }
  return h;
}

St RelModel::put(const Row &r, size_t at, std::vector<Row> &out) {
  Row cur = r;
  for (; at < prog.size(); ++at) {
    const Stage &sg = prog[at];
    switch (sg.k) {
    case Stage::FILTER: {
      Outcome o = evalOps(sg.ops, &cur);
      if (o.st != St::OK) {
        return o.st;
      }
      if (o.stack.empty()) {
        return St::ANY;
      }
      const Val &v = o.stack.back();
      if (v.fl != 0) {
        return St::ANY;
      }
      if (v.isNull()) {
        return St::OK;
      }
      if (v.ty != T_BOOL) {
        return St::ERR;
      }
      if (v.i == 0) {
        return St::OK;
      }
      break;
    }
    case Stage::PROJECT: {
      Outcome o = evalOps(sg.ops, &cur);
      if (o.st != St::OK) {
        return o.st;
      }
      cur = std::move(o.stack);
      break;
    }
    default: {
      Row key;
      for (i32 k : sg.keys) {
        if (k < 0 || (size_t)k >= cur.size()) {
          return St::ANY;
        }
        const Val &v = cur[(size_t)k];
        if ((v.fl & (F_ANY | F_ULP | F_TOL | F_NZ)) != 0 || ((v.ty == T_F32 || v.ty == T_F64) && std::isnan(v.d))) {
          return St::ANY;
        }
        key.push_back(v);
      }
      auto &ss = stt[at];
      u64 h = keyHash(key);
      size_t gi = (size_t)-1;
      auto rg = ss.index.equal_range(h);
      for (auto it = rg.first; it != rg.second; ++it) {
        const Row &k2 = ss.groups[it->second].key;
        bool eq = true;
        for (size_t j = 0; j < key.size() && eq; ++j) {
          eq = equalVal(k2[j], key[j]);
        }
        if (eq) {
          gi = it->second;
          break;
        }
      }
      if (gi == (size_t)-1) {
        gi = ss.groups.size();
        Group g;
        g.key = key;
        for (auto &v : g.key) {
          if ((v.ty == T_F32 || v.ty == T_F64) && v.d == 0) {
            v.fl |= F_ZS;
          }
        }
        g.ag.resize(sg.aggs.size());
        ss.groups.push_back(std::move(g));
        ss.index.emplace(h, gi);
      }
      for (size_t j = 0; j < sg.aggs.size(); ++j) {
        St k = aggAdd(sg.aggs[j], ss.groups[gi].ag[j], cur);
        if (k != St::OK) {
          return k;
        }
      }
      return St::OK;
    }
    }
  }
  out.push_back(std::move(cur));
  return St::OK;
}

std::vector<Row> RelModel::flushStage(size_t at, St &) {
  std::vector<Row> rows;
  auto &ss = stt[at];
  for (auto &g : ss.groups) {
    Row r = g.key;
    for (size_t j = 0; j < g.ag.size(); ++j) {
      r.push_back(aggResult(prog[at].aggs[j], g.ag[j]));
    }
    rows.push_back(std::move(r));
  }
  ss.groups.clear();
  ss.index.clear();
  return rows;
}

St RelModel::drain(std::vector<Row> &out) {
  St worst = St::OK;
  for (size_t at = 0; at < prog.size(); ++at) {
    if (prog[at].k != Stage::GROUPED && prog[at].k != Stage::UNGROUPED) {
      continue;
    }
    St st = St::OK;
    for (const auto &r : flushStage(at, st)) {
      St k = put(r, at + 1, out);
      if (k != St::OK) {
        worst = St::ANY;  // errors while fetching: unspecified
      }
    }
  }
  return worst;
}

std::string diffMultiset(const std::vector<Row> &exp, const std::vector<Row> &got) {
  if (exp.size() != got.size()) {
    std::string r = fmt("%zu rows expected, %zu returned", exp.size(), got.size());
    for (size_t i = 0; i < exp.size() && i < 6; ++i) {
      r += "\n  expected " + show(exp[i]);
    }
    for (size_t i = 0; i < got.size() && i < 6; ++i) {
      r += "\n  returned " + show(got[i]);
    }
    return r;
  }
  // Hash by the exactly comparable fields, then match greedily within buckets; `unsure` fields are left out.
  size_t width = exp.empty() ? 0 : exp[0].size();
  std::vector<bool> unsure(width, false);
  for (const auto &r : exp) {
    for (size_t j = 0; j < r.size() && j < width; ++j) {
      if (r[j].fl != 0 && r[j].fl != F_ZS) {
        unsure[j] = true;
      }
    }
  }
  auto rh = [&](const Row &r) {
    Row k;
    for (size_t j = 0; j < r.size(); ++j) {
      if (j < width && !unsure[j]) {
        Val v = r[j];
        if ((v.ty == T_F32 || v.ty == T_F64)) {
          if (v.d == 0) {
            v.d = 0.0;
          } else if (std::isnan(v.d)) {
            v.d = NAN;
          }
        }
        k.push_back(v);
      }
    }
    return keyHash(k);
  };
  std::unordered_multimap<u64, size_t> m;
  m.reserve(exp.size() * 2);
  for (size_t i = 0; i < exp.size(); ++i) {
    m.emplace(rh(exp[i]), i);
  }
  for (const auto &g : got) {
    auto rg = m.equal_range(rh(g));
    bool found = false;
    for (auto it = rg.first; it != rg.second; ++it) {
      if (sameRow(exp[it->second], g)) {
        m.erase(it);
        found = true;
        break;
      }
    }
    if (!found) {
      std::string r = "row returned but not expected (or too often): " + show(g);
      for (size_t i = 0; i < exp.size() && i < 12; ++i) {
        r += "\n  expected " + show(exp[i]);
      }
      return r;
    }
  }
  return "";
}
