#include "core.h"

#include <cstdarg>

Dict g_dict;

std::string fmt(const char *f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

static u64 dbits(double d) {
  u64 u;
  memcpy(&u, &d, 8);
  return u;
}

static bool near(double a, double b, bool f32, double ulps) {
  if (std::isnan(a) || std::isnan(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  if (a == b) {
    return true;
  }
  double lim = f32 ? 3.4028234663852886e38 : 1.7976931348623157e308;
  double eps = f32 ? 1.1920928955078125e-07 : 2.220446049250313e-16;
  double tiny = f32 ? 1.401298464324817e-45 : 4.9406564584124654e-324;
  if (std::isinf(a) || std::isinf(b)) {
    double fin = std::isinf(a) ? b : a;
    if (std::isinf(fin)) {
      return false;
    }
    return std::signbit(a) == std::signbit(b) && fabs(fin) >= lim * (1 - ulps * eps);
  }
  double m = std::max(fabs(a), fabs(b));
  return fabs(a - b) <= std::max(m * eps * ulps, tiny * ulps);
}

bool sameVal(const Val &e, const Val &g) {
  if (e.ty != g.ty) {
    return false;
  }
  if ((e.fl & F_ANY) != 0) {
    return true;
  }
  switch (e.ty) {
  case T_NULL:
    return true;
  case T_I32:
  case T_I64:
  case T_BOOL:
    return e.i == g.i;
  case T_F32:
  case T_F64:
    if (std::isnan(e.d) || std::isnan(g.d)) {
      return std::isnan(e.d) && std::isnan(g.d);
    }
    if ((e.fl & F_TOL) != 0) {
      return e.d == g.d || fabs(e.d - g.d) <= e.tol;
    }
    if ((e.fl & F_ULP) != 0) {
      return near(e.d, g.d, e.ty == T_F32, 4);
    }
    if ((e.fl & F_ZS) != 0) {
      return e.d == g.d;
    }
    return dbits(e.d) == dbits(g.d);
  case T_STR:
    if ((e.fl & F_NZ) != 0 && !e.s.empty() && e.s[0] == '-') {
      return e.s == g.s || e.s.substr(1) == g.s;
    }
    return e.s == g.s;
  default:
    return false;
  }
}

bool equalVal(const Val &a, const Val &b) {
  if (a.ty != b.ty) {
    return false;
  }
  switch (a.ty) {
  case T_NULL:
    return true;
  case T_F32:
  case T_F64:
    return a.d == b.d;
  case T_STR:
    return a.s == b.s;
  default:
    return a.i == b.i;
  }
}

bool sameRow(const Row &e, const Row &g) {
  if (e.size() != g.size()) {
    return false;
  }
  for (size_t i = 0; i < e.size(); ++i) {
    if (!sameVal(e[i], g[i])) {
      return false;
    }
  }
  return true;
}

std::string show(const Val &v) {
  std::string a = (v.fl & F_ANY) != 0 ? "any " : "";
  switch (v.ty) {
  case T_NULL:
    return "NULL";
  case T_I32:
    return a + fmt("i32:%lld", (long long)v.i);
  case T_I64:
    return a + fmt("i64:%lld", (long long)v.i);
  case T_BOOL:
    return a + (v.i != 0 ? "true" : "false");
  case T_F32:
    return a + fmt("f32:%.9g(%a)", v.d, v.d);
  case T_F64:
    return a + fmt("f64:%.17g(%a)", v.d, v.d);
  case T_STR: {
    std::string r = a + fmt("str[%zu]:\"", v.s.size());
    size_t n = 0;
    for (unsigned char c : v.s) {
      if (++n > 80) {
        r += "...";
        break;
      }
      if (c >= 32 && c < 127 && c != '"' && c != '\\') {
        r += (char)c;
      } else {
        r += fmt("\\x%02x", c);
      }
    }
    return r + "\"";
  }
  default:
    return fmt("type%d?", v.ty);
  }
}

std::string show(const Row &r) {
  std::string s = fmt("(%zu)[", r.size());
  for (size_t i = 0; i < r.size(); ++i) {
    if (i >= 40) {
      s += " ...";
      break;
    }
    s += (i != 0 ? ", " : "") + show(r[i]);
  }
  return s + "]";
}

std::string hexOf(const u8 *p, size_t n, size_t max) {
  std::string s;
  static const char *H = "0123456789abcdef";
  for (size_t i = 0; i < n && i < max; ++i) {
    s += H[p[i] >> 4];
    s += H[p[i] & 15];
  }
  if (n > max) {
    s += fmt("...(%zu bytes)", n);
  }
  return s;
}

u64 hashBytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    u64 w;
    memcpy(&w, b + i, 8);
    h = mix64(h ^ w);
  }
  u64 w = n;
  for (; i < n; ++i) {
    w = (w << 8) | b[i];
  }
  return mix64(h ^ w);
}

u64 hashVal(const Val &v, u64 h) {
  h = mix64(h ^ v.ty);
  switch (v.ty) {
  case T_NULL:
    return h;
  case T_F32:
  case T_F64:
    return mix64(h ^ dbits(v.d));
  case T_STR:
    return hashBytes(v.s.data(), v.s.size(), h);
  default:
    return mix64(h ^ (u64)v.i);
  }
}
