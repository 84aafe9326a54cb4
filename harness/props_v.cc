// Properties V01..V04: operands, tuples, optionals, hexadecimal text.
#include "util.h"

namespace {

struct Opnd {
  sut::Op *o;
  explicit Opnd(sut::Op *p) : o(p) {
  }
  Opnd(Opnd &&x) noexcept : o(x.o) {
    x.o = nullptr;
  }
  Opnd(const Opnd &) = delete;
  Opnd &operator=(const Opnd &) = delete;
  ~Opnd() {
    if (o != nullptr) {
      sut::freeOp(o);
    }
  }
};

Opnd construct(Src &s, const Val &v) {
  u8 k = s.byte() % 8;
  if (k < 3 || (v.ty != T_STR && v.ty != T_NULL)) {
    return Opnd(sut::mkOp(v));
  }
  if (k == 3 || v.ty == T_NULL) {
    return Opnd(sut::mkOpShared(v));
  }
  return Opnd(sut::mkOpStringVariant(v, k - 4));
}

Val genAny(Src &s) {
  u8 t = s.byte() % 7;
  if (t == 6) {
    return Val();
  }
  static const u8 TY[] = {T_I32, T_I64, T_BOOL, T_F32, T_F64, T_STR};
  return genVal(s, TY[t]);
}

// The same number or text as another type, an equal value, a close one, or another one.
Val genOther(Src &s, const Val &a) {
  u8 k = s.byte() % 8;
  if (k < 3) {
    return a;
  }
  if (k < 5 && !a.isNull()) {
    return genRelated(s, a, a.ty);
  }
  if (k == 5) {  // same content, other type
    u8 t = genType(s);
    double d = a.ty == T_F32 || a.ty == T_F64 ? a.d : (double)a.i;
    if (!(fabs(d) < 2e9)) {
      d = 0;
    }
    Val r;
    switch (t) {
    case T_I32:
      return Val::I32((i32)d);
    case T_I64:
      return Val::I64((i64)d);
    case T_BOOL:
      return Val::B(d != 0);
    case T_F32:
      return Val::F32((float)d);
    case T_F64:
      return Val::F64(d);
    default:
      return Val::S(a.ty == T_STR ? a.s + "" : fmt("%lld", (long long)d));
    }
  }
  if (k == 6 && (a.ty == T_F32 || a.ty == T_F64) && a.d == 0) {
    Val r = a;
    r.d = -a.d;
    return r;
  }
  if (k == 6 && a.ty == T_STR) {  // a change in one place
    Val r = a;
    if (r.s.empty()) {
      r.s = std::string(1, '\0');
    } else {
      size_t at = s.below((u32)r.s.size());
      u8 m = s.byte() % 3;
      if (m == 0) {
        r.s[at] = (char)(r.s[at] ^ (1 << s.below(8)));
      } else if (m == 1) {
        r.s.erase(at);
      } else {
        r.s += '\0';
      }
    }
    return r;
  }
  return genAny(s);
}

}  // namespace

// ---------------------------------------------------------------------------------------------- V01

void prop_V01(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 130) {  // a few operands, all pairs
    u32 n = 2 + s.below(4);
    std::vector<Val> v;
    std::vector<Opnd> o;
    for (u32 k = 0; k < n; ++k) {
      v.push_back(k == 0 ? genAny(s) : genOther(s, v[s.below(k)]));
      o.push_back(construct(s, v.back()));
    }
    c.note("operands " + show(v));
    c.mixHash(v);
    bool eqSeen = false, neSame = false;
    for (u32 i = 0; i < n; ++i) {
      if (sut::opEqNull(o[i].o) != v[i].isNull() || sut::opNeNull(o[i].o) == v[i].isNull()) {
        c.fail("comparing " + show(v[i]) + " with nullptr gives the wrong answer");
      }
      for (u32 j = 0; j < n; ++j) {
        bool exp = equalVal(v[i], v[j]);
        if (i == j && (v[i].ty == T_F32 || v[i].ty == T_F64) && std::isnan(v[i].d)) {
          exp = false;
        }
        bool e = sut::opEq(o[i].o, o[j].o), ne = sut::opNe(o[i].o, o[j].o);
        c.sub();
        if (e != exp) {
          c.fail(show(v[i]) + " == " + show(v[j]) + " gives " + (e ? "true" : "false"));
        }
        if (ne == e) {
          c.fail(show(v[i]) + " != " + show(v[j]) + " is not the negation of ==");
        }
        if (e && sut::opHash(o[i].o) != sut::opHash(o[j].o)) {
          c.fail("equal operands " + show(v[i]) + " and " + show(v[j]) + " have different hash values");
        }
        if (i != j) {
          eqSeen |= e;
          neSame |= !e && v[i].ty == v[j].ty;
          c.label(e ? "pair: equal" : v[i].ty == v[j].ty ? "pair: same type, different" : "pair: different types");
        }
      }
    }
    c.nontrivial = eqSeen || neSame;
    return;
  }
  if (m < 190) {  // strings by themselves
    std::string a = genStr(s), b = genOther(s, Val::S(a)).s;
    c.note("strings " + show(Val::S(a)) + " " + show(Val::S(b)));
    c.mixHash(Row{Val::S(a), Val::S(b)});
    int cmp = a.compare(b);
    static const char *N[] = {"==", ">=", ">", "<=", "<", "!="};
    bool exp[] = {cmp == 0, cmp >= 0, cmp > 0, cmp <= 0, cmp < 0, cmp != 0};
    for (int w = 0; w < 6; ++w) {
      c.sub();
      if (sut::strCmp(a, b, w) != exp[w]) {
        c.fail("strings " + show(Val::S(a)) + " " + N[w] + " " + show(Val::S(b)) + " gives the wrong answer");
      }
    }
    if (cmp == 0 && sut::strHash(a) != sut::strHash(b)) {
      c.fail("equal strings have different hash values");
    }
    if (sut::strConcat(a, b) != a + b) {
      c.fail("concatenation of " + show(Val::S(a)) + " and " + show(Val::S(b)) + " is not both in order");
    }
    c.label(cmp == 0 ? "strings: equal" : "strings: different");
    c.nontrivial = !a.empty() || !b.empty();
    return;
  }
  // tuples
  u32 n = s.below(7);
  if (s.chance(25)) {
    n = s.below(70);
  }
  Row a, b;
  bool same = true;
  u8 few = s.chance(128) ? 60 : 3;
  for (u32 k = 0; k < n; ++k) {
    a.push_back(genAny(s));
    b.push_back(s.chance(few) ? genOther(s, a.back()) : a.back());
  }
  if (s.chance(30)) {
    b.push_back(genAny(s));
  } else if (s.chance(20) && n >= 2) {
    std::swap(b[0], b[1]);
  }
  same = a.size() == b.size();
  for (u32 k = 0; same && k < a.size(); ++k) {
    same = equalVal(a[k], b[k]);
  }
  c.note("tuples " + show(a) + " " + show(b));
  c.mixHash(a);
  c.mixHash(b);
  Tuple x(a), y(sut::mkTupleHow(b, s.below(4)));
  bool e = sut::tupEq(x.t, y.t);
  if (sut::tupEq(y.t, x.t) != e) {
    c.fail("tuples " + show(a) + " and " + show(b) + " compare differently in the other order");
  }
  c.sub();
  if (e != same) {
    c.fail(std::string("tuples ") + show(a) + " and " + show(b) + (e ? " compare equal" : " compare different"));
  }
  if (e && sut::tupHash(x.t) != sut::tupHash(y.t)) {
    c.fail("equal tuples " + show(a) + " and " + show(b) + " have different hash values");
  }
  c.label(e ? "tuples: equal" : "tuples: different");
  c.nontrivial = n > 0;
}

// ---------------------------------------------------------------------------------------------- V02

static void readsBack(Ctx &c, const sut::Op *o, const Val &v, const char *what) {
  Val g = sut::readOp(o, v.ty);
  c.sub();
  if (!sameVal(v, g)) {
    c.fail(std::string(what) + ": holds " + show(g) + " instead of " + show(v));
  }
}

void prop_V02(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  static const u8 TY[] = {T_I32, T_I64, T_BOOL, T_F32, T_F64, T_STR};
  if (m < 170) {
    Val v = genAny(s);
    c.note("operand of " + show(v));
    c.hash = hashVal(v, c.hash);
    c.nontrivial = true;
    Opnd o = construct(s, v);
    readsBack(c, o.o, v, "a new operand");
    for (u8 t : TY) {
      Val g;
      sut::Err e;
      bool ok = sut::opReadAs(o.o, t, g, e);
      c.sub();
      if (t == v.ty) {
        if (!ok || !sameVal(v, g)) {
          c.fail("reading " + show(v) + " as its own type gives " + (ok ? show(g) : e.what));
        }
      } else if (ok) {
        c.fail(fmt("reading %s as type %d gives %s instead of an error", show(v).c_str(), t, show(g).c_str()));
      } else if (e.ex == sut::Ex::OTHER) {
        c.fail("reading an operand as another type raised something which is not a std::exception");
      }
    }
    std::string pr = sut::opPrint(o.o);
    bool flt = v.ty == T_F32 || v.ty == T_F64;
    std::string wantPr = v.isNull() ? "(null)" : v.ty == T_STR ? v.s : flt ? fmt("%g", v.d) : fmt("%lld", (long long)v.i);
    if (pr != wantPr && !(flt && !std::isfinite(v.d))) {
      c.fail("printing " + show(v) + " gives '" + pr + "'");
    }
    // copies
    Opnd cp(sut::copyOp(o.o));
    readsBack(c, cp.o, v, "a copy");
    Val w = genAny(s);
    c.note("another operand of " + show(w));
    Opnd x = construct(s, w);
    sut::assignOp(cp.o, x.o);
    readsBack(c, cp.o, w, "an assigned operand");
    readsBack(c, o.o, v, "the original of a copy which was assigned to");
    {
      Opnd tmp(sut::copyOp(o.o));
      sut::assignOp(x.o, tmp.o);
    }
    readsBack(c, x.o, v, "an operand assigned from a copy that is gone");
    readsBack(c, cp.o, w, "an operand whose source was assigned to");
    // optionals
    u8 t = v.isNull() ? TY[s.below(6)] : v.ty;
    for (int sp = 0; sp < (t == T_STR ? 2 : 1); ++sp) {
      bool has = false, strPtr = sp == 1;
      sut::Err e;
      sut::Op *r = sut::roundTripAny(o.o, t, has, e, &strPtr);
      Opnd ro(r);
      c.sub();
      if (e) {
        c.fail("converting " + show(v) + " to an optional raised: " + e.what);
      }
      if (has != !v.isNull()) {
        c.fail("the optional of " + show(v) + (has ? " has a value" : " is empty"));
      }
      readsBack(c, ro.o, v, "operand to optional and back");
      if (!(!v.isNull() && (v.ty == T_F32 || v.ty == T_F64) && std::isnan(v.d)) && !sut::opEq(ro.o, o.o)) {
        c.fail("the operand converted to an optional and back is not equal to the original");
      }
    }
    sut::Err e;
    Opnd f(sut::fromAny(v, t, e));
    if (e) {
      c.fail("converting an optional of " + show(v) + " raised: " + e.what);
    }
    readsBack(c, f.o, v, "operand from an optional");
    c.label(v.isNull() ? "NULL" : v.ty == T_STR ? "string" : "number");
    return;
  }
  if (m < 190) {
    c.label("array");
    int kind = (int)s.below(6);
    Row el;
    u32 an = s.below(6);
    if (s.rare(60)) {
      an = bigSize(s, 10, 300);
    }
    for (; an > 0; --an) {
      el.push_back(genVal(s, TY[kind], H_SHORT));
      if (el.back().ty == T_F32 || el.back().ty == T_F64) {
        if (std::isnan(el.back().d)) {
          el.back().d = 1;
        }
      }
    }
    c.note("array of " + show(el));
    c.mixHash(el);
    c.nontrivial = true;
    std::string p = sut::arrayCheck(kind, el);
    if (!p.empty()) {
      c.fail(p);
    }
    return;
  }
  // optional result of a run
  c.label("optional result");
  Ops ops;
  Row cols;
  u8 t = genType(s);
  EGen g(s);
  g.cols = &cols;
  g.nullPct = 60;
  g.checked = false;
  g.budget = 12;
  if (s.chance(128)) {
    supply(s, ops, cols, s.chance(90) ? Val() : genVal(s, t), t);
  } else {
    g.gen(t, 1 + (int)s.below(3));
    ops = g.ops;
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  finishHash(c, code, cols);
  Outcome o = evalOps(ops, &cols);
  if (o.st != St::OK || o.stack.size() != 1) {
    throw CaseSkip();
  }
  const Val &want = o.stack.back();
  if ((want.fl & F_ANY) != 0) {
    throw CaseSkip();
  }
  Runner r;
  mustDecode(c, r.r, code);
  Tuple tu(cols);
  sut::bind(r.r, tu.t);
  sut::Err e;
  sut::run(r.r, e);
  if (e) {
    c.fail("running raised: " + e.what);
  }
  bool has = false;
  Val got = sut::getOptional(r.r, t, has, e);
  if (e) {
    c.fail("the optional result raised: " + e.what);
  }
  if (has == want.isNull()) {
    c.fail("the result is " + show(want) + " but the optional result " + (has ? "has a value" : "is empty"));
  }
  if (has && !sameVal(want, got)) {
    c.fail("the optional result is " + show(got) + " instead of " + show(want));
  }
  if (has) {  // as another type
    u8 t2 = genType(s);
    if (t2 != t) {
      sut::Err e2;
      bool h2 = false;
      Val g2 = sut::getOptional(r.r, t2, h2, e2);
      if (!e2) {
        c.fail(fmt("the optional result %s read as type %d gives %s instead of an error", show(want).c_str(), t2,
                   h2 ? show(g2).c_str() : "empty"));
      }
    }
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------- V03

static std::string upperHex(const u8 *p, size_t n) {
  static const char *H = "0123456789ABCDEF";
  std::string r;
  for (size_t k = 0; k < n; ++k) {
    r += H[p[k] >> 4];
    r += H[p[k] & 15];
  }
  return r;
}

void prop_V03(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 150) {
    u32 n;
    u8 k = s.byte();
    n = k < 200 ? s.below(24) : k < 250 ? s.below(700) : s.rare(300) ? bigSize(s, 20000, 140000) : s.below(c.thorough ? 200000 : 20000);
    Bytes b;
    Prng p(s.bits(4));
    for (u32 i = 0; i < n; ++i) {
      b.push_back(n < 24 ? s.byte() : (u8)p.next());
    }
    c.note("bytes " + hexOf(b));
    c.mixHash(b);
    c.nontrivial = n > 0;
    c.label(n == 0 ? "no bytes" : n < 24 ? "few bytes" : "many bytes");
    std::string want = upperHex(b.data(), n);
    // exactly-sized buffers
    char *hx = (char *)malloc(2 * n + (n == 0));
    u8 *by = (u8 *)malloc(n + (n == 0));
    u8 *src = (u8 *)malloc(n + (n == 0));
    memcpy(src, b.data(), n);
    sut::bytesToHex(hx, src, n);
    std::string got(hx, 2 * n);
    bool same = got == want;
    std::string viaOf = sut::hexOfBytes(src, n);
    std::string txt = want;
    for (auto &ch : txt) {  // either case
      if (ch >= 'A' && (p.next() & 1) != 0) {
        ch = (char)(ch + 32);
      }
    }
    memcpy(hx, txt.data(), 2 * n);
    memset(by, 0xEE, n);
    sut::hexToBytes(by, hx, 2 * n);
    bool back = memcmp(by, b.data(), n) == 0;
    std::string gotBack = hexOf(by, n);
    free(hx);
    free(by);
    free(src);
    c.sub();
    if (!same) {
      c.fail("hexadecimal text of " + hexOf(b) + " is " + got.substr(0, 400));
    }
    if (viaOf != want) {
      c.fail("hexadecimal string of " + hexOf(b) + " is " + viaOf.substr(0, 400) + fmt(" (%zu characters)", viaOf.size()));
    }
    if (!back) {
      c.fail("converting " + txt.substr(0, 400) + " to bytes gives " + gotBack);
    }
    return;
  }
  if (m < 175) {
    c.label("every character and digit");
    u8 from = s.byte();
    c.mixHash(&from, 1);
    for (int k = 0; k < 256; ++k) {
      char ch = (char)(k + from);
      int want = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
      int got = sut::hexToNibble(ch);
      if (want < 0 ? got >= 0 : got != want) {
        c.fail(fmt("character 0x%02x as a hexadecimal digit gives %d instead of %d", (u8)ch, got, want));
      }
    }
    for (int k = 0; k < 16; ++k) {
      if (sut::nibbleToHex(k) != "0123456789ABCDEF"[k]) {
        c.fail(fmt("digit %d as a character gives 0x%02x", k, (u8)sut::nibbleToHex(k)));
      }
    }
    for (int k : {-1, 16, 17, 26, 35, 255, 256, -16, 1 << 20, (int)(u32)s.bits(4)}) {
      if ((k < 0 || k > 15) && isxdigit((u8)sut::nibbleToHex(k)) != 0) {
        c.fail(fmt("%d, which is no digit, gives the digit '%c'", k, sut::nibbleToHex(k)));
      }
    }
    c.nontrivial = true;
    return;
  }
  // message of a refused expression or program
  Ops ops;
  Row cols;
  Bytes code;
  auto tail = [&](Bytes &b) {
    u32 n = s.below(12);
    if (s.rare(40)) {
      n = bigSize(s, 10, 5000);
    }
    Prng p(s.bits(2));
    for (u32 k = 0; k < n; ++k) {
      b.push_back(k < 12 ? s.byte() : (u8)p.next());
    }
  };
  if (m < 225) {
    EGen g(s);
    g.cols = &cols;
    g.budget = 10;
    g.gen(genType(s), (int)s.below(3));
    encOps(code, g.ops, &s);
    size_t at = code.size();
    (void)at;
    u8 bad = s.byte();
    code.push_back(bad);
    tail(code);
    DecRes d = refDecode(code.data(), code.size());
    if (d.st != Dec::REFUSE || !d.unknown) {
      throw CaseSkip();
    }
    c.note("code " + hexOf(code));
    c.mixHash(code);
    c.label("message of a refused expression");
    Runner r;
    sut::Err e;
    {
      CodeBuf cb(code);
      sut::decode(r.r, cb.p, cb.n, e);
    }
    if (!e) {
      c.fail("an unknown operator code was accepted");
    }
    std::string want = upperHex(code.data() + d.bad, code.size() - d.bad);
    if (e.what.find(want) == std::string::npos) {
      c.fail("the error message '" + e.what + "' does not contain the text " + want + " of the code from the unknown operator");
    }
    // and no more than that
    size_t q = e.what.find(want);
    if (d.bad > 0) {
      std::string longer = upperHex(code.data() + d.bad - 1, code.size() - d.bad + 1);
      if (e.what.find(longer) != std::string::npos && longer.find(want) != 0) {
        c.fail("the error message '" + e.what + "' begins before the unknown operator at " + fmt("%zu", d.bad));
      }
    }
    (void)q;
    c.nontrivial = true;
    return;
  }
  // relational program with an unknown leading byte
  Prog p;
  if (s.chance(140)) {
    std::vector<u8> ty = {T_I32, T_STR, T_F64};
    ProgOpts po;
    po.maxStages = 2;
    p = genProg(s, ty, po);
    encProg(code, p, &s);
  }
  size_t at = code.size();
  u8 lead;
  do {
    lead = s.byte();
    if (s.over()) {
      lead = 0x10;
    }
  } while (lead >= 0x71 && lead <= 0x74);
  if (at > 0 && lead == 0) {
    lead = 0x75;
  }
  if (s.chance(50)) {
    // a grouped aggregation whose grouping columns are not an array of INT32
    code.push_back(0x73);
    lead = lead == 0x61 ? 0x62 : lead;
    c.label("message for an unknown array type");
  }
  code.push_back(lead);
  tail(code);
  c.note("program " + hexOf(code));
  c.mixHash(code);
  c.label("message of a refused program");
  Rel r;
  sut::Err e;
  {
    CodeBuf cb(code);
    sut::relDecode(r.r, cb.p, cb.n, e);
  }
  if (!e) {
    c.fail("a program with an unknown instruction was accepted");
  }
  std::string want = upperHex(code.data() + at, code.size() - at);
  if (e.what.find(want) == std::string::npos) {
    c.fail("the error message '" + e.what + "' does not contain the text " + want + " of the code from the unknown instruction");
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------- V04

// The library's error for code which ends too early: that for the beginning of a constant.
static sut::Err truncatedError() {
  Runner r;
  sut::Err e;
  CodeBuf cb(Bytes{0x11});
  sut::decode(r.r, cb.p, cb.n, e);
  return e;
}

static sut::Err refused(Ctx &c, const Bytes &code, bool rel) {
  sut::Err e;
  CodeBuf cb(code);
  if (rel) {
    Rel r;
    sut::relDecode(r.r, cb.p, cb.n, e);
  } else {
    Runner r;
    sut::decode(r.r, cb.p, cb.n, e);
  }
  c.sub();
  if (!e) {
    c.fail("code which must be refused was accepted: " + hexOf(code));
  }
  return e;
}

static void ownError(Ctx &c, const sut::Err &e, const char *what) {
  if (e.ex != sut::Ex::EXPR) {
    c.fail(std::string(what) + " must be reported by the library's own error, got: " + e.what);
  }
}

void prop_V04(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  Row cols;
  Bytes code;
  if (m < 90) {
    // cut short inside an operator
    bool rel = s.chance(90);
    if (rel) {
      if (s.chance(100)) {
        std::vector<u8> ty = {T_I32, T_STR, T_F64};
        ProgOpts po;
        po.maxStages = 2;
        encProg(code, genProg(s, ty, po), &s);
      }
      code.push_back(s.chance(128) ? 0x71 : 0x72);
    }
    EGen g(s);
    g.cols = &cols;
    g.budget = 20;
    g.gen(genType(s), (int)s.below(4));
    Bytes body;
    if (s.chance(150)) {
      encOps(body, g.ops, &s);
    }
    Bytes last;
    do {
      last.clear();
      MOp op;
      u8 k = s.byte();
      if (k < 110) {
        u8 ty = genType(s);
        op = opConst(genVal(s, ty));
      } else if (k < 160) {
        op = opVar(genType(s), (i32)(s.byte() % 4 == 0 ? s.bits(4) & 0x7FFFFFFF : s.byte()));
      } else {
        const Sig &g2 = sigs()[s.below((u32)sigs().size())];
        op = opOf(g2.code, g2.t);
      }
      encOp(last, op, &s);
      if (s.over()) {
        last = Bytes{O_ADD, T_I32};
      }
    } while (last.size() < 2);
    size_t keep = 1 + s.below((u32)last.size() - 1);
    if (s.chance(60)) {
      keep = last.size() - 1;
    }
    last.resize(keep);
    body.insert(body.end(), last.begin(), last.end());
    DecRes d = refDecode(body.data(), body.size());
    if (d.st != Dec::REFUSE || d.unknown) {
      throw CaseSkip();
    }
    code.insert(code.end(), body.begin(), body.end());
    c.note("code " + hexOf(code));
    c.mixHash(code);
    c.label(rel ? "program cut short inside an operator" : "expression cut short inside an operator");
    sut::Err want = truncatedError();
    sut::Err e = refused(c, code, rel);
    ownError(c, want, "a constant without its value");
    ownError(c, e, "code which ends too early");
    if (e.what != want.what) {
      c.fail("the error for code which ends too early is '" + e.what + "', and '" + want.what + "' for another such code");
    }
    c.nontrivial = code.size() > 1;
    return;
  }
  if (m < 160) {
    // an array with fewer elements than it says
    if (s.chance(80)) {
      std::vector<u8> ty = {T_I32, T_STR, T_F64};
      ProgOpts po;
      po.maxStages = 2;
      encProg(code, genProg(s, ty, po), &s);
    }
    u8 w = s.byte();
    u64 n = w < 120 ? 1 + s.below(40) : w < 170 ? 1 + bigSize(s, 1, 100000) : w < 200 ? (u64)1 << (10 + s.below(53)) : 1 + (s.bits(8) >> (1 + s.below(63)));
    if (s.chance(80)) {
      n += s.below(5);
    }
    u64 k = s.below((u32)std::min<u64>(n, s.rare(100) ? 3000 : 12));
    if (n < 60 && s.chance(100)) {
      k = n - 1;
    }
    bool keys = s.chance(110), grouped = keys || s.chance(128);
    code.push_back(grouped ? 0x73 : 0x74);
    if (grouped) {
      code.push_back(0x61);
      if (!keys) {
        u32 q = s.below(4);
        encVarint(code, q, 64, &s);
        for (u32 j = 0; j < q; ++j) {
          encVarint(code, s.byte(), 64, &s);
        }
      }
    }
    encVarint(code, n, 64, &s);
    for (u64 j = 0; j < k; ++j) {
      if (!keys) {
        u8 a;
        do {
          a = (u8)((1 + s.byte() % 4) << 4 | s.byte() % 8);
        } while (!aggSupported(a) && !s.over());
        if (s.over()) {
          a = G_COUNT_ALL;
        }
        code.push_back(a);
        if (a == G_COUNT_ALL) {
          continue;
        }
      }
      encVarint(code, s.byte() % 8 == 0 ? s.bits(4) & 0x7FFFFFFF : s.byte(), 64, &s);
    }
    c.note(fmt("array of %llu elements, %llu given; program ", (unsigned long long)n, (unsigned long long)k) + hexOf(code));
    c.mixHash(code);
    c.label(n >> 31 ? "array of 2^31 elements or more" : keys ? "grouping columns missing" : "aggregations missing");
    sut::Err e = refused(c, code, true);
    ownError(c, e, "an array with too few elements");
    bool said = false;
    std::string bad;
    for (size_t q = 0; q < e.what.size();) {
      if (e.what[q] < '0' || e.what[q] > '9') {
        ++q;
        continue;
      }
      size_t z = q;
      while (z < e.what.size() && e.what[z] >= '0' && e.what[z] <= '9') {
        ++z;
      }
      std::string num = e.what.substr(q, z - q);
      bool minus = q > 0 && e.what[q - 1] == '-';
      if (!minus && num == std::to_string(n)) {
        said = true;
      } else if (minus || num.size() > 19 || strtoull(num.c_str(), nullptr, 10) >= n || strtoull(num.c_str(), nullptr, 10) < k) {
        bad = e.what.substr(minus ? q - 1 : q, z - q + (minus ? 1 : 0));
      }
      q = z;
    }
    // which number is which, if the text says so in these words
    size_t rq = e.what.find("requires ");
    if (rq != std::string::npos && e.what.compare(rq + 9, std::to_string(n).size() + 1, std::to_string(n) + " ") != 0) {
      said = false;
    }
    if (!said) {
      c.fail(fmt("the error does not say that %llu elements are required: ", (unsigned long long)n) + e.what);
    }
    if (!bad.empty()) {
      c.fail(fmt("%llu elements are required and %llu are given, the error says %s: ", (unsigned long long)n, (unsigned long long)k, bad.c_str()) + e.what);
    }
    c.nontrivial = true;
    return;
  }
  if (m < 190) {
    // an unknown aggregation
    if (s.chance(80)) {
      std::vector<u8> ty = {T_I32, T_STR, T_F64};
      ProgOpts po;
      po.maxStages = 2;
      encProg(code, genProg(s, ty, po), &s);
    }
    bool grouped = s.chance(128);
    code.push_back(grouped ? 0x73 : 0x74);
    if (grouped) {
      code.push_back(0x61);
      u32 q = s.below(4);
      encVarint(code, q, 64, &s);
      for (u32 j = 0; j < q; ++j) {
        encVarint(code, s.byte(), 64, &s);
      }
    }
    u32 n = 1 + s.below(s.chance(20) ? 400 : 6), at = s.below(n);
    encVarint(code, n, 64, &s);
    Prng p(s.bits(4));
    u8 bad = s.byte();
    while (aggSupported(bad)) {
      bad = (u8)(bad * 5 + 3);
    }
    for (u32 j = 0; j < n; ++j) {
      u8 a;
      do {
        a = (u8)p.next();
      } while (!aggSupported(a));
      code.push_back(j == at ? bad : a);
      if (a != G_COUNT_ALL || j == at) {
        code.push_back((u8)p.next() & 0x7F);
      }
    }
    c.note(fmt("unknown aggregation %02X; program ", bad) + hexOf(code));
    c.mixHash(code);
    c.label("unknown aggregation");
    sut::Err e = refused(c, code, true);
    ownError(c, e, "an unknown aggregation");
    if (e.what.find(upperHex(&bad, 1)) == std::string::npos) {
      c.fail("the error does not contain the code " + upperHex(&bad, 1) + " of the unknown aggregation: " + e.what);
    }
    if (e.what == truncatedError().what) {
      c.fail("an unknown aggregation is reported as code which ends too early");
    }
    c.nontrivial = true;
    return;
  }
  if (m < 215) {
    // a variable, and no tuple
    EGen g(s);
    g.cols = &cols;
    g.budget = 10;
    g.checked = false;
    g.gen(genType(s), (int)s.below(3));
    Ops ops;
    bool vars = !cols.empty();
    for (const auto &o : g.ops) {
      vars |= (o.code & 0xF0) == 0x30;
      ops.push_back(o);
    }
    if (vars || evalOps(ops, nullptr).st != St::OK) {
      ops.clear();
    }
    ops.push_back(opVar(genType(s), (i32)s.byte()));
    encOps(code, ops, &s);
    c.note("code " + hexOf(code) + ", no tuple: " + show(ops));
    c.mixHash(code);
    c.label("variable without a tuple");
    sut::Err e[2];
    for (int k = 0; k < 2; ++k) {
      Runner r;
      mustDecode(c, r.r, k != 0 ? Bytes{0x31, 0} : code);
      sut::run(r.r, e[k]);
      if (!e[k]) {
        c.fail("a variable was read though no tuple is bound");
      }
    }
    if (e[0].what != e[1].what) {
      c.fail("without a tuple the error is '" + e[0].what + "', and '" + e[1].what + "' for another variable");
    }
    c.nontrivial = ops.size() > 1;
    return;
  }
  // a value which exceeds the limits, within an expression
  EGen g(s);
  g.cols = &cols;
  g.budget = 10;
  g.checked = false;
  g.gen(genType(s), (int)s.below(2));
  Ops ops = g.ops;
  if (evalOps(ops, &cols).st != St::OK) {
    ops.clear();
    cols.clear();
  }
  static const u8 W[][2] = {{O_CASTC, 0x12}, {O_CASTC, 0x14}, {O_CASTC, 0x15}, {O_CASTC, 0x24}, {O_CASTC, 0x25}, {O_ABSC, 1}, {O_ABSC, 2}};
  const u8 *w = W[s.byte() % 7];
  u8 ty = w[0] == O_CASTC ? w[1] & 15 : w[1];
  Val v = genVal(s, ty);
  if (w[0] == O_ABSC) {
    v = ty == T_I32 ? Val::I32(INT32_MIN) : Val::I64(INT64_MIN);
  } else if (ty == T_F32 || ty == T_F64) {
    if (fabs(v.d) < 9.3e18 && s.chance(220)) {
      v.d = (v.d < 0 ? -1 : 1) * (w[1] >> 4 == T_I32 ? 2147483650.0 : 9.3e18) * (1 + s.byte() / 8.0);
    }
    fixUp(v);
  } else if (v.i == (i32)v.i) {
    v.i += (v.i < 0 ? -1 : 1) * ((i64)1 << 31 << s.below(8));
  }
  supply(s, ops, cols, v, ty);
  ops.push_back(opOf(w[0], w[1]));
  if (s.chance(80)) {
    ops.push_back(opOf(O_NEG, w[0] == O_CASTC ? w[1] >> 4 : w[1]));
  }
  Outcome o = evalOps(ops, &cols);
  if (o.st != St::ERR || o.exprErr == 0) {
    throw CaseSkip();
  }
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  finishHash(c, code, cols);
  c.label("value exceeds the limits");
  checkExpr(c, ops, code, cols, o);
  c.nontrivial = true;
}
