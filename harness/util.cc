#include "util.h"

#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>

namespace {
const size_t REGION = 4 << 20;
u8 *region() {
  static u8 *end = nullptr;
  if (end == nullptr) {
    u8 *m = (u8 *)mmap(nullptr, REGION + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m != (u8 *)MAP_FAILED && mprotect(m + REGION, 65536, PROT_NONE) == 0) {
      end = m + REGION;
    }
  }
  return end;
}
bool g_inUse = false;
}  // namespace

CodeBuf::CodeBuf(const Bytes &b) : n(b.size()), orig(b) {
  heap = sut::exactHeap() || g_inUse || n > REGION - 4096 || region() == nullptr;
  if (heap) {
    p = (u8 *)malloc(n == 0 ? 1 : n);
    if (n == 0) {
      free(p);
      p = (u8 *)malloc(1);
    }
  } else {
    g_inUse = true;
    p = region() - n;
  }
  if (n > 0) {
    memcpy(p, b.data(), n);
  }
}

bool CodeBuf::intact() const {
  return n == 0 || memcmp(p, orig.data(), n) == 0;
}

CodeBuf::~CodeBuf() {
  memset(p, 0xEE, n);
  if (heap) {
    free(p);
  } else {
    g_inUse = false;
  }
}

void describe(Ctx &c, const Ops &ops, const Bytes &code, const Row &tuple) {
  if (c.wantDesc) {
    c.note("expr: " + show(ops));
    c.note("code: " + hexOf(code));
    c.note("tuple: " + show(tuple));
  }
}

void finishHash(Ctx &c, const Bytes &code, const Row &tuple) {
  c.mixHash(code);
  c.mixHash(tuple);
}

void mustDecode(Ctx &c, sut::R *r, const Bytes &code) {
  CodeBuf b(code);
  sut::Err e;
  ptrdiff_t off = sut::decode(r, b.p, b.n, e);
  if (e) {
    c.fail("a well-formed expression is refused: " + e.what + "\ncode " + hexOf(code));
  }
  if (off != (ptrdiff_t)b.n) {
    c.fail(fmt("decoding returned position %td of %zu", off, b.n) + "\ncode " + hexOf(code));
  }
  if (!b.intact()) {
    c.fail("decoding changed the code it was given: " + hexOf(code));
  }
}

void mustDecodeRel(Ctx &c, sut::RR *r, const Bytes &code) {
  CodeBuf b(code);
  sut::Err e;
  ptrdiff_t off = sut::relDecode(r, b.p, b.n, e);
  if (e) {
    c.fail("a well-formed relational program is refused: " + e.what + "\ncode " + hexOf(code));
  }
  if (off != (ptrdiff_t)b.n) {
    c.fail(fmt("decoding returned position %td of %zu", off, b.n) + "\ncode " + hexOf(code));
  }
  if (!b.intact()) {
    c.fail("decoding changed the code it was given: " + hexOf(code));
  }
}

void checkOutcome(Ctx &c, sut::R *r, const sut::Err &e, const Outcome &o, const char *what) {
  if (e.ex == sut::Ex::OTHER) {
    c.fail(std::string(what) + ": something not derived from std::exception was thrown");
  }
  if (o.st == St::ANY) {
    return;
  }
  if (o.st == St::ERR) {
    if (!e) {
      c.fail(std::string(what) + ": an error must be raised (" + o.why + "), but the run gave " + show(sut::getAll(r)));
    }
    if (o.exprErr && e.ex != sut::Ex::EXPR) {
      c.fail(std::string(what) + ": the library's own error must be raised (" + o.why + "), got: " + e.what);
    }
    if (o.exprErr) {
      const char *need[2][3] = {{"INT32", "-2147483648", "2147483647"}, {"INT64", "-9223372036854775808", "9223372036854775807"}};
      for (const char *w : need[o.exprErr == T_I64]) {
        if (e.what.find(w) == std::string::npos) {
          c.fail(std::string(what) + ": the error must say that the value exceeds the limits of " + need[o.exprErr == T_I64][0] + " (" + o.why + "), got: " + e.what);
        }
      }
    }
    return;
  }
  if (e) {
    c.fail(std::string(what) + ": unexpected error: " + e.what + "\nexpected " + show(o.stack));
  }
  Row got = sut::getAll(r, &o.stack);
  if (!sameRow(o.stack, got)) {
    std::string m = std::string(what) + ": wrong result";
    if (o.stack.size() == got.size()) {
      for (size_t k = 0; k < got.size(); ++k) {
        if (!sameVal(o.stack[k], got[k])) {
          m += fmt(" at result #%zu: expected ", k) + show(o.stack[k]) + ", got " + show(got[k]);
          break;
        }
      }
    }
    c.fail(m + "\nexpected " + show(o.stack) + "\ngot      " + show(got));
  }
  if (!o.stack.empty()) {
    sut::Err e2;
    Val top = sut::get(r, e2, o.stack.back().ty);
    if (e2 || !sameVal(o.stack.back(), top)) {
      c.fail(std::string(what) + ": Get() gives " + (e2 ? "error " + e2.what : show(top)) + ", expected " +
             show(o.stack.back()));
    }
  }
}

void checkExpr(Ctx &c, const Ops &, const Bytes &code, const Row &tuple, const Outcome &o) {
  Runner r;
  mustDecode(c, r.r, code);
  Tuple t(tuple);
  sut::bind(r.r, t.t);
  sut::Err e;
  sut::run(r.r, e);
  checkOutcome(c, r.r, e, o, "run");
}

// ---------------------------------------------------------------------------------------------- operator packs

void genArgs(Src &s, const Sig &g, Val *a, int nullPct) {
  bool cast = g.code == O_CAST || g.code == O_CASTC;
  bool text = cast && (g.t & 15) == T_STR && (g.t >> 4) != T_STR;
  for (int k = 0; k < g.n; ++k) {
    if (nullPct > 0 && s.chance((u32)nullPct)) {
      a[k] = Val();
      continue;
    }
    if (text) {
      a[k] = s.chance(20) ? Val::S(genStr(s)) : Val::S(genNumeral(s, g.t >> 4));
    } else if (g.code == O_FUN && g.t >= 0x20 && g.a[k] == T_I32) {
      u8 m = s.byte();
      i64 n = (i64)a[0].s.size();
      if (m < 110) {
        a[k] = genInt(s, T_I32, H_POS);
      } else if (m < 200) {  // around the length
        a[k] = Val::I32((i32)((m & 1) != 0 ? n : -n) + (i32)s.below(5) - 2);
      } else {
        a[k] = genInt(s, T_I32);
      }
    } else if (k > 0 && a[0].ty == g.a[k] && g.a[k] != T_BOOL) {
      a[k] = genRelated(s, a[0], g.a[k]);
    } else {
      a[k] = genVal(s, g.a[k]);
    }
  }
}

void opPack(Src &s, SigFilter f, u32 n, Ops &ops, Row &cols, const PackOpts &o) {
  static std::unordered_map<void *, std::vector<int>> cache;
  auto &list = cache[(void *)f];
  if (list.empty()) {
    for (size_t k = 0; k < sigs().size(); ++k) {
      if (f(sigs()[k])) {
        list.push_back((int)k);
      }
    }
  }
  if (o.junk && s.chance(40)) {
    for (u32 k = s.below(4); k > 0; --k) {
      u8 t = genType(s);
      supply(s, ops, cols, s.chance(60) ? Val() : genVal(s, t, H_SHORT), t);
    }
  }
  Ops last;
  for (u32 k = 0; k < n; ++k) {
    const Sig &g = sigs()[(size_t)list[s.below((u32)list.size())]];
    Val a[3];
    genArgs(s, g, a, o.nullPct);
    Val out;
    u8 ee = 0;
    St st = applyOp(g, a, out, ee);
    if (st != St::OK) {
      if (o.errors && last.empty()) {
        for (int j = 0; j < g.n; ++j) {
          supply(s, last, cols, a[j], g.a[j]);
        }
        last.push_back(opOf(g.code, g.t));
      }
      continue;
    }
    for (int j = 0; j < g.n; ++j) {
      supply(s, ops, cols, a[j], g.a[j]);
    }
    ops.push_back(opOf(g.code, g.t));
  }
  if (!last.empty() && s.chance(90)) {
    ops.insert(ops.end(), last.begin(), last.end());
  }
}

void anyExpr(Src &s, Ops &ops, Row &cols, Ctx &c) {
  u8 m = s.byte();
  if (m < 120) {
    c.label("shape: tree");
    EGen g(s);
    g.cols = &cols;
    g.budget = 10 + (int)s.below(60);
    g.gen(genType(s), 2 + (int)s.below(6));
    ops = std::move(g.ops);
  } else if (m < 175) {
    c.label("shape: operator pack");
    opPack(s, [](const Sig &) { return true; }, 1 + s.below(8), ops, cols, PackOpts());
  } else if (m < 215) {
    c.label("shape: several expressions");
    u32 n = 2 + s.below(6);
    EGen g(s);
    g.cols = &cols;
    g.checked = false;
    for (u32 k = 0; k < n; ++k) {
      g.budget = 20;
      g.gen(genType(s), 3);
    }
    ops = std::move(g.ops);
  } else if (m < 228) {
    c.label("shape: many operands on the stack");
    // n operands, then n-1 binary operators
    u8 t = s.chance(128) ? T_I64 : s.chance(128) ? T_I32 : T_STR;
    u32 n = 2 + s.below(s.chance(30) ? 700 : 80);
    if (s.rare(1500)) {
      n = bigSize(s, 700, 70000);
    }
    Prng p(s.bits(2));
    Row vals;
    for (u32 k = 0; k < n; ++k) {
      if (k < 6) {
        vals.push_back(genVal(s, t, H_SHORT));
      } else {
        vals.push_back(vals[p.below(6)]);
        if (t != T_STR) {
          vals.back().i ^= (i64)p.below(100);
          fixUp(vals.back());
        }
      }
      if (k % 16 == 5) {
        supply(s, ops, cols, vals.back(), t);
      } else {
        ops.push_back(opConst(vals.back()));
      }
    }
    u8 sel = s.byte();
    for (u32 k = 0; k + 1 < n; ++k) {
      static const u8 B[] = {O_ADD, O_SUB, O_MUL, O_ADD, O_MIN, O_MAX};
      u8 o = t == T_STR ? (u8)(sel % 3 == 0 ? O_ADD : B[4 + p.below(2)]) : B[p.below(sel % 2 == 0 ? 3 : 6)];
      ops.push_back(opOf(o, t));
    }
  } else if (m < 240) {
    c.label("shape: long chain");
    u8 t = s.chance(128) ? T_I32 : T_F64;
    supply(s, ops, cols, genVal(s, t), t);
    u32 n = 10 + s.below(s.chance(20) ? 4000 : 200);
    if (s.rare(1500)) {
      n = bigSize(s, 4000, 70000);
    }
    Prng p(s.bits(2));
    for (u32 k = 0; k < n; ++k) {
      switch (p.below(5)) {
      case 0:
        ops.push_back(opOf(O_NEG, t));
        break;
      case 1:
        ops.push_back(opOf(O_POS, t));
        break;
      case 2:
        ops.push_back(opOf(O_CAST, (u8)(t << 4 | t)));
        break;
      case 3:
        ops.push_back(opConst(t == T_I32 ? Val::I32((i32)p.below(300)) : Val::F64(p.below(300) / 4.0)));
        ops.push_back(opOf(p.below(2) != 0 ? O_ADD : O_SUB, t));
        break;
      default:
        ops.push_back(opConst(t == T_I32 ? Val::I32((i32)p.below(7)) : Val::F64(p.below(7))));
        ops.push_back(opOf(O_MAX, t));
      }
    }
    // MIN/MAX of zeros of different sign would leave the sign open
    if (t == T_F64) {
      for (auto &o : ops) {
        if (o.code == (0x10 | T_F64) && o.imm.d == 0) {
          o.imm.d = 0.5;
        }
      }
    }
  } else if (m < 252) {
    c.label("shape: wide stack");
    u32 n = 20 + s.below(s.chance(25) ? 2000 : 120);
    if (s.rare(1500)) {
      n = bigSize(s, 2000, 70000);
    }
    Prng p(s.bits(2));
    Row base;
    for (u32 k = 0; k < 5; ++k) {
      base.push_back(s.chance(30) ? Val() : genVal(s, genType(s), H_SHORT));
    }
    for (u32 k = 0; k < n; ++k) {
      const Val &v = base[p.below(5)];
      if (p.below(8) == 0) {
        cols.push_back(v);
        ops.push_back(opVar(v.isNull() ? (u8)T_I32 : v.ty, (i32)cols.size() - 1));
      } else {
        ops.push_back(v.isNull() ? opNull(T_STR) : opConst(v));
      }
    }
  } else {
    c.label("shape: wide tuple");
    static const u32 W[] = {127, 128, 129, 255, 256, 300, 1000};
    u32 w = W[s.below(7)];
    if (s.rare(40)) {
      static const u32 V[] = {16383, 16385, 32767, 32769, 65535, 65537, 70000};
      w = V[s.below(7)];
    }
    for (u32 k = 0; k < w; ++k) {
      cols.push_back(Val::I32((i32)k));
    }
    for (u32 k = 0; k < 6; ++k) {
      u32 i = s.chance(100) ? w - 1 : s.below(w);
      ops.push_back(opVar(T_I32, (i32)i));
    }
    EGen g(s);
    g.cols = &cols;
    g.gen(genType(s), 3);
    ops.insert(ops.end(), g.ops.begin(), g.ops.end());
  }
  if (ops.empty()) {
    ops.push_back(opConst(Val::I32(1)));
  }
}
