// Properties S01..S08: decoding of arbitrary bytes, running of arbitrary programs, ownership, independence, resources.
#include <algorithm>
#include <cerrno>
#include <atomic>
#include <exception>
#include <thread>

#include <pthread.h>

#include "relrun.h"

namespace {

// A leaf or operator, mostly one that exists, with immediate bytes of all kinds.
void token(Src &s, Bytes &b) {
  u8 m = s.byte();
  if (m < 70) {
    const Sig &g = sigs()[s.below((u32)sigs().size())];
    b.push_back(g.code);
    if (twoByte(g.code)) {
      b.push_back(g.t);
    }
  } else if (m < 200) {
    Bytes t;
    u8 ty = genType(s);
    switch (m % 4) {
    case 0:
      encOp(t, opNull(ty), &s);
      break;
    case 1:
      encOp(t, opVar(ty, (i32)s.below(6)), &s);
      break;
    default:
      encOp(t, (m & 8) != 0 && (ty == T_I32 || ty == T_I64) ? opConstN(genInt(s, ty)) : opConst(genVal(s, ty, H_SHORT)), &s);
    }
    b.insert(b.end(), t.begin(), t.end());
  } else if (m < 225) {  // an operator code with a type byte of some kind
    static const u8 C[] = {0x80, 0x81, 0x83, 0x85, 0x87, 0x91, 0xA1, 0xB1, 0xB3, 0xB4, 0xF0, 0xF1, 0xF2, 0xFC, 0x97, 0xA4, 0xB5, 0x88};
    b.push_back(C[s.below(sizeof C)]);
    b.push_back(s.byte());
  } else if (m < 240) {  // immediates of unusual length
    static const u8 C[] = {0x11, 0x12, 0x21, 0x22, 0x31, 0x37, 0x17};
    b.push_back(C[s.below(7)]);
    for (u32 k = s.below(14); k > 0; --k) {
      b.push_back((u8)(0x80 | s.byte()));
    }
    b.push_back(s.byte() & 0x7F);
  } else if (m < 246) {  // a string shorter or longer than announced
    u32 n = s.below(40);
    b.push_back(0x17);
    encVarint(b, s.chance(60) ? (u64)s.bits(5) : (u64)s.below(60), 64, nullptr);
    for (u32 k = 0; k < n; ++k) {
      b.push_back(s.byte());
    }
  } else {
    for (u32 k = 1 + s.below(3); k > 0; --k) {
      b.push_back(s.byte());
    }
  }
}

void mutate(Src &s, Bytes &b) {
  for (u32 k = 1 + s.below(3); k > 0; --k) {
    u8 m = s.byte();
    size_t n = b.size();
    if (m < 80 && n > 0) {
      b.resize(s.below((u32)n));  // cut off
    } else if (m < 140 && n > 0) {
      b[s.below((u32)n)] = s.byte();
    } else if (m < 160 && n > 0) {
      b[s.below((u32)n)] ^= (u8)(1 << s.below(8));
    } else if (m < 190) {
      b.insert(b.begin() + (long)s.below((u32)n + 1), s.byte());
    } else if (m < 215 && n > 0) {
      size_t at = s.below((u32)n);
      b.erase(b.begin() + (long)at, b.begin() + (long)std::min(n, at + 1 + s.below(3)));
    } else if (m < 235 && n > 1) {  // repeat a part
      size_t at = s.below((u32)n), len = std::min<size_t>(n - at, 1 + s.below(12));
      Bytes part(b.begin() + (long)at, b.begin() + (long)(at + len));
      b.insert(b.begin() + (long)s.below((u32)n), part.begin(), part.end());
    } else {
      b.push_back(s.byte());
    }
  }
}

Bytes exprBytes(Src &s, Ctx &c) {
  Bytes b;
  u8 m = s.byte();
  if (m < 60) {
    c.label("bytes: arbitrary");
    u32 n = s.below(s.chance(40) ? 200 : 24);
    for (u32 k = 0; k < n; ++k) {
      b.push_back(s.byte());
    }
  } else if (m < 140) {
    c.label("bytes: tokens");
    for (u32 k = 1 + s.below(10); k > 0; --k) {
      token(s, b);
    }
  } else if (m < 235) {
    c.label("bytes: mutated expression");
    EGen g(s);
    Row cols;
    g.cols = &cols;
    g.budget = 14;
    for (u32 k = 1 + s.below(2); k > 0; --k) {
      g.gen(genType(s), 3, H_SHORT);
    }
    encOps(b, g.ops, &s);
    if (s.chance(100)) {
      b.push_back(0);
    }
    if (s.chance(210)) {
      mutate(s, b);
    }
  } else {
    c.label("bytes: long");
    Prng p(s.bits(4));
    u32 n = 100 + s.below(3000);
    static const u8 K[] = {0x51, 0x01, 0x13, 0x23, 0x11, 0x31, 0x07, 0xA1, 0x91};
    u8 kind = s.byte();
    for (u32 k = 0; k < n; ++k) {
      b.push_back(kind < 100 ? K[p.below(9)] : kind < 180 ? K[p.below(4)] : (u8)p.next());
    }
    if (kind >= 100 && kind < 180 && s.chance(128)) {
      token(s, b);
    }
  }
  return b;
}

// The tuple for an accepted program: wide enough for its variables; false if that is impossible.
bool tupleFor(Src &s, const Ops &ops, Row &t, u32 limit) {
  i64 mx = -1;
  for (const auto &o : ops) {
    if ((o.code >> 4) == 3) {
      if (o.idx < 0) {
        return false;
      }
      mx = std::max<i64>(mx, o.idx);
    }
  }
  if (mx >= (i64)limit) {
    return false;
  }
  t.assign((size_t)(mx + 1), Val());
  if (mx > 200) {
    for (i64 k = 0; k <= mx; ++k) {
      t[(size_t)k] = Val::I32((i32)k);
    }
  }
  for (const auto &o : ops) {
    if ((o.code >> 4) == 3) {
      u8 ty = s.chance(40) ? genType(s) : (o.code & 15);
      t[(size_t)o.idx] = ty == T_DEC || s.chance(40) ? Val() : genVal(s, ty, H_SHORT);
    }
  }
  return true;
}

void stillUsable(Ctx &c, sut::R *r) {
  Ops ops{opConst(Val::I32(40)), opVar(T_I32, 1), opOf(O_ADD, T_I32), opConst(Val::S("ab"))};
  Bytes code;
  encOps(code, ops, nullptr);
  Row cols{Val(), Val::I32(2)};
  mustDecode(c, r, code);
  Tuple t(cols);
  sut::bind(r, t.t);
  sut::Err e;
  sut::run(r, e);
  checkOutcome(c, r, e, evalOps(ops, &cols), "another expression on the same runner afterwards");
}

void stillUsableRel(Ctx &c, sut::RR *r) {
  Bytes code;
  Prog p;
  Stage f, a;
  f.k = Stage::FILTER;
  f.ops = {opVar(T_I32, 0), opConst(Val::I32(1)), opOf(O_GT, T_I32)};
  a.k = Stage::GROUPED;
  a.keys = {0};
  a.aggs.resize(1);
  p = {f, a};
  encProg(code, p, nullptr);
  mustDecodeRel(c, r, code);
  sut::Err e;
  for (int k = 0; k < 3; ++k) {
    Tuple t{sut::relPut(r, sut::mkTuple(Row{Val::I32(k)}), e)};
    if (e || t.t != nullptr) {
      c.fail("another program on the same runner: Put " + (e ? e.what : std::string("returned a row")));
    }
  }
  Tuple t{sut::relGet(r, e)};
  Row exp{Val::I32(2), Val::I64(1)};
  if (e || t.t == nullptr || !sameRow(exp, sut::readTuple(t.t))) {
    c.fail("another program on the same runner gives a wrong result");
  }
  Tuple t2{sut::relGet(r, e)};
  if (e || t2.t != nullptr) {
    c.fail("another program on the same runner gives too many rows");
  }
}

}  // namespace

void prop_S01(Ctx &c) {
  Src &s = c.src;
  Bytes b = exprBytes(s, c);
  DecRes d = refDecode(b.data(), b.size());
  if (c.wantDesc) {
    c.note("bytes: " + hexOf(b));
    c.note(d.st == Dec::ACCEPT ? "accepted: " + show(d.ops) : d.st == Dec::REFUSE ? fmt("refused at %zu", d.bad) : "unspecified");
  }
  c.mixHash(b);
  c.label(d.st == Dec::ACCEPT ? "to be accepted" : d.st == Dec::REFUSE ? (d.unknown ? "to be refused: unknown code" : "to be refused: truncated") : "unspecified");
  c.nontrivial = b.size() >= 2 && d.st != Dec::UNSPEC;
  Runner r;
  sut::Err e;
  ptrdiff_t off;
  {
    CodeBuf buf(b);
    off = sut::decode(r.r, buf.p, buf.n, e);
    if (!buf.intact()) {
      c.fail("decoding changed the bytes it was given: " + hexOf(b));
    }
  }
  if (e.ex == sut::Ex::OTHER) {
    c.fail("something not derived from std::exception was thrown");
  }
  if (!e && (off < 0 || off > (ptrdiff_t)b.size())) {
    c.fail(fmt("returned position %td is outside of the %zu bytes", off, b.size()));
  }
  if (d.st == Dec::REFUSE && !e) {
    c.fail(fmt("accepted (position %td), but must be refused for the code at offset %zu: ", off, d.bad) + hexOf(b));
  }
  if (d.st == Dec::ACCEPT) {
    if (e) {
      c.fail("refused (" + e.what + "), but is an encoding of " + show(d.ops));
    }
    if (off != (ptrdiff_t)d.used) {
      c.fail(fmt("returned position %td, expected %zu", off, d.used));
    }
    Row t;
    if (tupleFor(s, d.ops, t, 3000)) {
      if (c.wantDesc) {
        c.note("tuple: " + show(t));
      }
      c.mixHash(t);
      c.label("run");
      Tuple tp(t);
      sut::bind(r.r, tp.t);
      sut::Err e2;
      sut::run(r.r, e2);
      checkOutcome(c, r.r, e2, evalOps(d.ops, &t), "run");
    }
  }
  if (s.chance(100)) {
    stillUsable(c, r.r);
  }
}

// ---------------------------------------------------------------------------------------------- S02

static Bytes relBytes(Src &s, Ctx &c) {
  Bytes b;
  u8 m = s.byte();
  if (m < 30) {
    c.label("bytes: arbitrary");
    u32 n = s.below(s.chance(40) ? 200 : 24);
    for (u32 k = 0; k < n; ++k) {
      b.push_back(s.byte());
    }
  } else if (m < 110) {
    c.label("bytes: tokens");
    for (u32 k = 1 + s.below(5); k > 0; --k) {
      u8 q = s.byte();
      if (q < 100) {
        b.push_back((u8)(0x71 + (q & 1)));
        for (u32 j = s.below(4); j > 0; --j) {
          token(s, b);
        }
        if (q < 90) {
          b.push_back(0);
        }
      } else if (q < 240) {
        if (q < 170) {
          b.push_back(0x73);
          b.push_back(s.chance(16) ? s.byte() : 0x61);
          u32 n = s.below(5);
          encVarint(b, s.chance(40) ? (u64)s.bits(1 + s.below(8)) : n, 64, &s);
          for (u32 j = 0; j < n; ++j) {
            encVarint(b, s.chance(20) ? (u64)s.bits(4) : s.below(6), 64, &s);
          }
        } else {
          b.push_back(0x74);
        }
        u32 n = s.below(5);
        encVarint(b, s.chance(40) ? (u64)s.bits(1 + s.below(8)) : n, 64, &s);
        for (u32 j = 0; j < n; ++j) {
          u8 code = s.chance(16) ? s.byte() : (u8)((1 + s.below(4)) << 4 | genType(s));
          if (s.chance(60)) {
            code = 0x10;
          }
          b.push_back(code);
          if (code != 0x10) {
            encVarint(b, s.chance(16) ? (u64)s.bits(4) : s.below(6), 64, &s);
          }
        }
      } else {
        b.push_back(s.byte());
      }
    }
  } else if (m < 245) {
    c.label("bytes: mutated program");
    SchemaOpts so;
    Schema sc = genSchema(s, so);
    ProgOpts po;
    po.rowErrors = true;
    po.maxStages = 3;
    encProg(b, genProg(s, sc.ty, po), &s, !s.chance(60));
    if (s.chance(200)) {
      mutate(s, b);
    }
  } else {
    c.label("bytes: long");
    Prng p(s.bits(4));
    u32 n = 20 + s.below(600);
    u8 kind = s.byte();
    for (u32 k = 0; k < n; ++k) {
      if (kind < 100) {
        b.insert(b.end(), {0x72, 0x31, 0x00, 0x00});
      } else if (kind < 180) {
        b.insert(b.end(), {0x74, 0x01, 0x10});
      } else {
        b.insert(b.end(), {0x71, 0x13, 0x00});
      }
    }
    if (s.chance(160)) {
      mutate(s, b);
    }
  }
  return b;
}

// The highest column index used by stages reading the input directly (before the first operator which changes the
// layout); later stages are checked by the model as rows reach them.
static bool relRunnable(const Prog &p, u32 &width) {
  i64 w = 1;
  i64 cur = -1;  // -1: width of the input
  auto need = [&](i64 i) {
    if (i < 0 || i > 400) {
      return false;
    }
    if (cur < 0) {
      w = std::max(w, i + 1);
      return true;
    }
    return i < cur;
  };
  for (const auto &st : p) {
    i64 depth = 0;
    for (const auto &o : st.ops) {
      if ((o.code >> 4) == 3 && !need(o.idx)) {
        return false;
      }
      int si = sigIndex(o.code, o.t);
      depth += o.isLeaf() ? 1 : si < 0 ? 0 : 1 - sigs()[(size_t)si].n;
      if (depth < 0) {
        return false;  // lacks operands
      }
    }
    for (i32 k : st.keys) {
      if (!need(k)) {
        return false;
      }
    }
    for (const auto &a : st.aggs) {
      if (a.code != G_COUNT_ALL && !need(a.col)) {
        return false;
      }
    }
    if (st.k == Stage::PROJECT) {
      cur = depth;
    } else if (st.k != Stage::FILTER) {
      cur = (i64)(st.keys.size() + st.aggs.size());
    } else if (depth < 1) {
      return false;
    }
  }
  width = (u32)w;
  return true;
}

void prop_S02(Ctx &c) {
  Src &s = c.src;
  Bytes b = relBytes(s, c);
  RelDecRes d = refDecodeRel(b.data(), b.size());
  if (c.wantDesc) {
    c.note("bytes: " + hexOf(b));
    c.note(d.st == Dec::ACCEPT ? "accepted: " + show(d.prog) : d.st == Dec::REFUSE ? "refused" : "unspecified");
  }
  c.mixHash(b);
  c.label(d.st == Dec::ACCEPT ? "to be accepted" : d.st == Dec::REFUSE ? "to be refused" : "unspecified");
  c.nontrivial = b.size() >= 2 && d.st != Dec::UNSPEC;
  u64 limit = 8192 * (u64)b.size() + (1 << 20);
  std::vector<Row> rows;
  u32 width = 0;
  bool run = d.st == Dec::ACCEPT && !d.prog.empty() && relRunnable(d.prog, width);
  if (run) {
    c.label("run");
    // the types the input columns are read with
    std::vector<u8> ty(width, T_NULL);
    bool direct = true;
    for (const auto &st : d.prog) {
      for (const auto &o : st.ops) {
        if (direct && (o.code >> 4) == 3 && ty[(size_t)o.idx] == T_NULL) {
          ty[(size_t)o.idx] = o.code & 15;
        }
      }
      for (const auto &a : st.aggs) {
        if (direct && a.code != G_COUNT_ALL && ty[(size_t)a.col] == T_NULL) {
          ty[(size_t)a.col] = a.code & 15;
        }
      }
      direct = direct && st.k == Stage::FILTER;
    }
    for (u32 k = 1 + s.below(4); k > 0; --k) {
      Row r;
      for (u32 j = 0; j < width; ++j) {
        u8 t = ty[j] == T_NULL || ty[j] == T_DEC || s.chance(12) ? genType(s) : ty[j];
        r.push_back(s.chance(30) || j > 20 ? Val() : genVal(s, t, H_SHORT));
      }
      rows.push_back(r);
    }
  }
  bool again = s.chance(110);
  i64 live = 0;
  for (int tries = 0; tries < 3; ++tries) {
    sut::resetAllocs();
    {
      RelRun rr(c, d.prog);
      sut::Err e;
      ptrdiff_t off;
      {
        CodeBuf buf(b);
        off = sut::relDecode(rr.r.r, buf.p, buf.n, e);
        if (!buf.intact()) {
          c.fail("decoding changed the bytes it was given: " + hexOf(b));
        }
      }
      if (e.ex == sut::Ex::OTHER) {
        c.fail("something not derived from std::exception was thrown");
      }
      if (sut::countsAllocs() && sut::peakBytes() > limit) {
        c.fail(fmt("decoding %zu bytes allocated %llu bytes", b.size(), (unsigned long long)sut::peakBytes()));
      }
      if (d.st == Dec::REFUSE && !e) {
        c.fail(fmt("accepted (position %td), but must be refused: ", off) + hexOf(b));
      }
      if (d.st == Dec::ACCEPT) {
        if (e) {
          c.fail("refused (" + e.what + "), but is an encoding of " + show(d.prog));
        }
        if (off != (ptrdiff_t)b.size()) {
          c.fail(fmt("returned position %td, expected %zu", off, b.size()));
        }
      }
      if (run) {
        try {
          for (const auto &r : rows) {
            rr.put(r);
          }
          rr.drain();
        } catch (const Abandon &) {
        }
      }
      if (again) {
        stillUsableRel(c, rr.r.r);
      }
    }
    live = sut::liveAllocs();
    if (!sut::countsAllocs() || live == 0) {
      break;
    }
  }
  if (sut::countsAllocs() && live != 0) {
    c.fail(fmt("%lld allocations were not released after the runner was destroyed", (long long)live));
  }
}

// ---------------------------------------------------------------------------------------------- S03

static void s03Expr(Ctx &c, sut::R *r, const Bytes &pre, u8 code, int t, const Bytes &post) {
  Bytes b = pre;
  b.push_back(code);
  if (t >= 0) {
    b.push_back((u8)t);
  }
  b.insert(b.end(), post.begin(), post.end());
  DecRes d = refDecode(b.data(), b.size());
  if (d.st == Dec::UNSPEC) {
    return;
  }
  CodeBuf buf(b);
  sut::Err e;
  ptrdiff_t off = sut::decode(r, buf.p, buf.n, e);
  c.sub();
  if (e.ex == sut::Ex::OTHER) {
    c.fail("something not derived from std::exception was thrown");
  }
  if (d.st == Dec::REFUSE && !e) {
    c.fail(fmt("the code %02X %02X is accepted, but is not a supported operator: ", code, t & 255) + hexOf(b));
  }
  if (d.st == Dec::ACCEPT) {
    if (e) {
      c.fail(fmt("the code %02X %02X is refused, but is supported (", code, t & 255) + e.what + "): " + hexOf(b));
    }
    if (off != (ptrdiff_t)d.used) {
      c.fail(fmt("code %02X %02X: position %td returned, expected %zu", code, t & 255, off, d.used));
    }
    // (a cast of a type to itself may add nothing, and then there may be no operator to have a type)
    auto same = [](const MOp &o) { return (o.code == O_CAST || o.code == O_CASTC) && (o.t >> 4) == (o.t & 15); };
    if (!d.ops.empty() && !same(d.ops.back())) {
      u8 ty = staticType(d.ops), got = sut::getType(r);
      if (ty != T_NULL && ty != got) {
        c.fail(fmt("code %02X %02X: GetType() gives %u, expected %u", code, t & 255, got, ty));
      }
    }
  }
}

void prop_S03(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  Bytes pre, post;
  Row none;
  // context before: one or two complete expressions; after: nothing, an end byte, operators, arbitrary bytes
  if (s.chance(150)) {
    EGen g(s);
    g.cols = &none;
    g.budget = 6;
    g.gen(genType(s), 2, H_SHORT);
    encOps(pre, g.ops, &s);
  }
  u8 q = s.byte();
  if (q < 40) {
    // nothing
  } else if (q < 90) {
    post.push_back(0);
  } else if (q < 150) {
    for (u32 k = 1 + s.below(3); k > 0; --k) {
      token(s, post);
    }
  } else if (q < 200) {
    post = {0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01, 0x01};
  } else {
    for (u32 k = 1 + s.below(12); k > 0; --k) {
      post.push_back(s.byte());
    }
  }
  if (c.wantDesc) {
    c.note("before: " + hexOf(pre) + "  after: " + hexOf(post));
  }
  c.mixHash(pre);
  c.mixHash(post);
  c.mixHash(&m, 1);
  c.nontrivial = true;
  if (m < 110) {
    c.label("one operator code with every second byte");
    u8 code = s.byte();
    c.mixHash(&code, 1);
    c.note(fmt("operator code %02X with all 256 second bytes, and alone", code));
    Runner r;
    s03Expr(c, r.r, pre, code, -1, post);
    s03Expr(c, r.r, pre, code, -1, Bytes());
    for (int t = 0; t < 256; ++t) {
      s03Expr(c, r.r, pre, code, t, post);
    }
  } else if (m < 116) {
    c.label("all operator codes with all second bytes");
    c.note("all 65536 pairs of operator code and second byte");
    Runner r;
    for (int code = 0; code < 256; ++code) {
      s03Expr(c, r.r, pre, (u8)code, -1, post);
      for (int t = 0; t < 256; ++t) {
        s03Expr(c, r.r, pre, (u8)code, t, post);
      }
    }
  } else if (m < 190) {
    // relational and aggregation codes in context
    c.label("all relational and aggregation codes");
    Bytes rp;
    SchemaOpts so;
    so.maxCols = 3;
    Schema sc = genSchema(s, so);
    ProgOpts po;
    po.maxStages = 2;
    if (s.chance(128)) {
      encProg(rp, genProg(s, sc.ty, po), nullptr);
    }
    c.note("program before: " + hexOf(rp));
    c.mixHash(rp);
    Rel r;
    auto check = [&](const Bytes &b, const char *what, int code) {
      RelDecRes d = refDecodeRel(b.data(), b.size());
      if (d.st == Dec::UNSPEC) {
        return;
      }
      CodeBuf buf(b);
      sut::Err e;
      sut::relDecode(r.r, buf.p, buf.n, e);
      c.sub();
      if (e.ex == sut::Ex::OTHER) {
        c.fail("something not derived from std::exception was thrown");
      }
      if ((d.st == Dec::REFUSE) != (bool)e) {
        c.fail(fmt("%s %02X is %s: ", what, code, e ? "refused, but is supported" : "accepted, but is not supported") + hexOf(b));
      }
    };
    u8 nAgg = (u8)(1 + s.below(3)), at = (u8)s.below(nAgg);
    for (int code = 0; code < 256; ++code) {
      for (int k = 0; k < 2; ++k) {
        Bytes b = rp;
        b.push_back((u8)code);
        if (k == 1) {
          b.insert(b.end(), post.begin(), post.end());
        }
        check(b, "relational operator code", code);
      }
      Bytes b = rp;
      b.insert(b.end(), {0x73, (u8)code, 0x01, 0x00, 0x01, 0x10});
      check(b, "array type of the grouping columns", code);
      for (int grouped = 0; grouped < 2; ++grouped) {
        for (int imm = 0; imm < 2; ++imm) {
          b = rp;
          if (grouped != 0) {
            b.insert(b.end(), {0x73, 0x61, 0x01, 0x00});
          } else {
            b.push_back(0x74);
          }
          b.push_back(nAgg);
          for (u8 j = 0; j < nAgg; ++j) {
            if (j == at) {
              b.push_back((u8)code);
              if (imm != 0) {
                b.push_back(0x01);
              }
            } else {
              b.push_back(0x10);
            }
          }
          check(b, "aggregation code", code);
        }
      }
    }
  } else if (m < 196) {
    // codes of the type which is not supported yet and which need no support for it: refused, or what they denote,
    // but never skipped
    c.label("variables and casts of unsupported type");
    Row row, exp;
    for (u32 k = 1 + s.below(4); k > 0; --k) {
      row.push_back(s.chance(128) ? Val() : genVal(s, genType(s), H_SHORT));
    }
    Bytes b = pre;
    Ops o0;
    Outcome po;
    {
      DecRes d = refDecode(pre.data(), pre.size());
      if (d.st != Dec::ACCEPT) {
        throw CaseSkip();
      }
      po = evalOps(d.ops, &row);
      if (po.st != St::OK) {
        throw CaseSkip();
      }
      exp = po.stack;
    }
    bool var = s.chance(128);
    if (var) {
      u32 i = s.below((u32)row.size());
      b.push_back(0x36);
      b.push_back((u8)i);
      exp.push_back(row[i]);
    } else {
      u8 t = s.chance(128) ? 0x66 : 0x00;
      u8 nt = (u8)(1 + s.below(5));
      b.insert(b.end(), {nt, s.chance(128) ? (u8)O_CAST : (u8)O_CASTC, t});
      exp.emplace_back();
    }
    Val after = genVal(s, genType(s), H_SHORT);
    encOp(b, opConst(after), nullptr);
    exp.push_back(after);
    c.note("code " + hexOf(b));
    c.mixHash(b);
    Runner r;
    Tuple t(row);
    CodeBuf buf(b);
    sut::Err e;
    ptrdiff_t off = sut::decode(r.r, buf.p, buf.n, e);
    if (e) {
      return;
    }
    if (off != (ptrdiff_t)b.size()) {
      c.fail(fmt("accepted, but position %td of %zu is returned", off, b.size()));
    }
    sut::bind(r.r, t.t);
    sut::run(r.r, e);
    if (e) {
      c.fail("accepted, but running it raises: " + e.what);
    }
    Row got = sut::getAll(r.r, &exp);
    if (!sameRow(exp, got)) {
      c.fail("accepted, but it gives " + show(got) + " instead of " + show(exp));
    }
  } else {
    // a supported code means exactly its own operator
    c.label("supported codes decode as themselves");
    const auto &sg = sigs();
    u32 base = s.below((u32)sg.size());
    Row cols;
    Ops ops;
    for (u32 k = 0; k < 6; ++k) {
      const Sig &g = sg[(base + k) % sg.size()];
      for (int tries = 0; tries < 4; ++tries) {
        Val a[3], out;
        u8 ee = 0;
        genArgs(s, g, a, 0);
        if (applyOp(g, a, out, ee) != St::OK) {
          continue;
        }
        for (int j = 0; j < g.n; ++j) {
          supply(s, ops, cols, a[j], g.a[j]);
        }
        ops.push_back(opOf(g.code, g.t));
        break;
      }
    }
    if (ops.empty()) {
      throw CaseSkip();
    }
    Bytes code;
    encOps(code, ops, &s);
    describe(c, ops, code, cols);
    finishHash(c, code, cols);
    checkExpr(c, ops, code, cols, evalOps(ops, &cols));
  }
}

// ---------------------------------------------------------------------------------------------- S04

static void wildOps(Src &s, Ops &ops, Row &cols, Ctx &c) {
  u8 m = s.byte();
  auto leaf = [&](u8 ty) {
    Val v = s.chance(40) ? Val() : genVal(s, ty, H_SHORT);
    u8 k = s.byte();
    if (k < 120) {
      ops.push_back(v.isNull() ? opNull(ty) : opConst(v));
    } else {
      cols.push_back(v);
      // the declared type may differ from the value's
      ops.push_back(opVar(k < 200 ? ty : genType(s), (i32)cols.size() - 1));
    }
  };
  if (m < 90) {
    c.label("one operator, operands of arbitrary types");
    const Sig &g = sigs()[s.below((u32)sigs().size())];
    u32 n = s.chance(40) ? s.below(4) : g.n;
    for (u32 k = 0; k < n; ++k) {
      leaf(k < g.n && s.chance(110) ? g.a[k] : genType(s));
    }
    ops.push_back(opOf(g.code, g.t));
  } else if (m < 170) {
    c.label("well-typed expression with a fault");
    EGen g(s);
    g.cols = &cols;
    g.budget = 20;
    g.gen(genType(s), 4);
    ops = std::move(g.ops);
    for (u32 k = 1 + s.below(2); k > 0 && !ops.empty(); --k) {
      size_t at = s.below((u32)ops.size());
      switch (s.below(4)) {
      case 0:
        ops.erase(ops.begin() + (long)at);
        break;
      case 1: {
        const Sig &q = sigs()[s.below((u32)sigs().size())];
        ops.insert(ops.begin() + (long)at, opOf(q.code, q.t));
        break;
      }
      case 2: {
        const Sig &q = sigs()[s.below((u32)sigs().size())];
        ops[at] = opOf(q.code, q.t);
        break;
      }
      default: {
        u8 ty = genType(s);
        ops[at] = opConst(genVal(s, ty, H_SHORT));
      }
      }
    }
    if (!cols.empty() && s.chance(80)) {  // the tuple does not match
      cols[s.below((u32)cols.size())] = genVal(s, genType(s), H_SHORT);
    }
  } else {
    c.label("arbitrary operators");
    for (u32 k = 1 + s.below(12); k > 0; --k) {
      if (s.chance(130)) {
        const Sig &q = sigs()[s.below((u32)sigs().size())];
        ops.push_back(opOf(q.code, q.t));
      } else {
        leaf(genType(s));
      }
    }
  }
  if (ops.empty()) {
    ops.push_back(opOf(O_NOT));
  }
}

void prop_S04(Ctx &c) {
  Src &s = c.src;
  Ops ops;
  Row cols;
  wildOps(s, ops, cols, c);
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  finishHash(c, code, cols);
  Outcome o = evalOps(ops, &cols);
  c.label(o.st == St::OK ? "outcome: value" : o.st == St::ERR ? "outcome: error" : "outcome: unspecified");
  c.nontrivial = o.st != St::OK;
  Runner r;
  mustDecode(c, r.r, code);
  Tuple t(cols);
  bool bound = !s.chance(12);
  if (bound) {
    sut::bind(r.r, t.t);
  } else {
    o = evalOps(ops, nullptr);
  }
  for (u32 k = 1 + s.below(2); k > 0; --k) {
    sut::Err e;
    sut::run(r.r, e);
    checkOutcome(c, r.r, e, o, "run");
    // whatever is on the stack can be looked at
    Row left = sut::getAll(r.r);
    for (const auto &v : left) {
      if (v.ty > T_STR) {
        c.fail("a result is not a value of any type");
      }
    }
    sut::Err e2;
    Val v = sut::get(r.r, e2);
    if (e2.ex == sut::Ex::OTHER) {
      c.fail("something not derived from std::exception was thrown by Get");
    }
    if (left.empty() != (bool)e2) {
      c.fail(left.empty() ? "Get() on an empty result gives " + show(v) : "Get() raised an error: " + e2.what);
    }
  }
  if (s.chance(90)) {
    stillUsable(c, r.r);
  }
}

// ---------------------------------------------------------------------------------------------- S05

namespace {

// A history is replayed from the same choices until it does not leak, at most three times: caches which are filled
// once are no leak.
template <class F>
void accounted(Ctx &c, F f) {
  Src at = c.src;
  for (int k = 0; k < 3; ++k) {
    sut::resetAllocs();
    f();
    if (!sut::countsAllocs()) {
      return;
    }
    i64 n = sut::liveAllocs();
    if (n == 0) {
      return;
    }
    if (k == 2 || n < 0) {
      c.fail(fmt("%lld allocations are still alive after everything was destroyed", (long long)n));
    }
    if (k < 2) {
      size_t used = c.src.pos;
      (void)used;
      c.src = at;
    }
  }
}

void relHistory(Ctx &c, u32 &puts, u32 &errors, u32 &held, u32 &bads) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 4;
  Schema sc = genSchema(s, so);
  ProgOpts po;
  po.maxStages = 4;
  po.rowErrors = true;
  po.maxAggs = 3;
  std::vector<Bytes> codes;
  std::vector<Prog> progs;
  for (u32 k = 1 + s.below(3); k > 0; --k) {
    Prog p = genProg(s, sc.ty, po);
    Bytes b;
    encProg(b, p, &s);
    codes.push_back(b);
    progs.push_back(p);
    c.mixHash(b);
    noteProg(c, p, b);
  }
  std::unique_ptr<Rel> r(new Rel);
  bool ready = false;
  u32 pending = 0;
  u32 steps = 3 + s.below(16);
  if (s.rare(250)) {
    steps = bigSize(s, 20, 300);
  }
  for (u32 k = 0; k < steps; ++k) {
    u8 m = s.byte();
    c.mixHash(&m, 1);
    if (!ready || m < 24) {
      const Bytes &b = codes[s.below((u32)codes.size())];
      c.note(pending != 0 ? "decode with rows held" : "decode");
      held += pending != 0;
      mustDecodeRel(c, r->r, b);
      ready = true;
      pending = 0;
    } else if (m < 44) {
      Bytes b = brokenProg(s, s.chance(150) ? progs[s.below((u32)progs.size())] : Prog());
      if (s.chance(60) && b.size() > 1) {
        b.resize(1 + s.below((u32)b.size() - 1));
      }
      if (refDecodeRel(b.data(), b.size()).st != Dec::REFUSE) {
        continue;
      }
      c.note("refused decode " + hexOf(b));
      CodeBuf buf(b);
      sut::Err e;
      sut::relDecode(r->r, buf.p, buf.n, e);
      if (!e) {
        c.fail("a broken program is accepted: " + hexOf(b));
      }
      ++bads;
      held += pending != 0;
      pending = 0;
      ready = false;
    } else if (m < 60) {
      c.note(pending != 0 ? "destroy with rows held" : "destroy");
      held += pending != 0;
      r.reset(new Rel);
      ready = false;
      pending = 0;
    } else if (m < 190) {
      u32 n = 1 + s.below(s.chance(40) ? 30 : 4);
      if (s.rare(1000)) {
        n = bigSize(s, 60, 4100);
      }
      for (u32 j = 0; j < n; ++j) {
        Row row = genRow(s, sc);
        if (s.chance(30)) {  // values which do not match: errors inside filters, projections and aggregations
          row[s.below((u32)row.size())] = genVal(s, genType(s), H_SHORT);
        }
        c.mixHash(row);
        if (c.wantDesc) {
          c.note("put " + show(row));
        }
        sut::Err e;
        Tuple t{sut::relPut(r->r, sut::mkTuple(row), e)};
        ++puts;
        ++pending;
        errors += (bool)e;
        if (e.ex == sut::Ex::OTHER) {
          c.fail("something not derived from std::exception was thrown by Put");
        }
        if (t.t != nullptr) {
          sut::readTuple(t.t);
        }
      }
    } else {
      u32 n = m < 215 ? 1 + s.below(3) : 1000000;
      c.note(n < 10 ? fmt("fetch up to %u", n) : "fetch all");
      for (u32 j = 0; j < n; ++j) {
        sut::Err e;
        Tuple t{sut::relGet(r->r, e)};
        if (e.ex == sut::Ex::OTHER) {
          c.fail("something not derived from std::exception was thrown by Get");
        }
        errors += (bool)e;
        if (e) {
          if (j > 3000) {
            break;
          }
          continue;
        }
        if (t.t == nullptr) {
          pending = 0;
          break;
        }
        sut::readTuple(t.t);
      }
    }
  }
  held += pending != 0;
}

void exprHistory(Ctx &c, u32 &runs, u32 &errors, u32 &bads) {
  Src &s = c.src;
  std::unique_ptr<Runner> r(new Runner);
  Row cols;
  std::vector<Ops> es;
  for (u32 k = 1 + s.below(3); k > 0; --k) {
    Ops o;
    if (s.chance(128)) {
      EGen g(s);
      g.cols = &cols;
      g.budget = 12;
      g.gen(genType(s), 3, H_SHORT);
      o = std::move(g.ops);
    } else {
      wildOps(s, o, cols, c);
    }
    es.push_back(o);
  }
  Tuple t(cols);
  if (c.wantDesc) {
    c.note("tuple " + show(cols));
  }
  c.mixHash(cols);
  bool ready = false;
  for (u32 k = 3 + s.below(10); k > 0; --k) {
    u8 m = s.byte();
    c.mixHash(&m, 1);
    if (!ready || m < 50) {
      const Ops &o = es[s.below((u32)es.size())];
      Bytes b;
      encOps(b, o, &s);
      c.mixHash(b);
      c.note("decode " + show(o));
      mustDecode(c, r->r, b);
      sut::bind(r->r, t.t);
      ready = true;
    } else if (m < 90) {
      Bytes b;
      encOps(b, es[s.below((u32)es.size())], nullptr);
      static const u8 TAIL[][3] = {{0x16, 0, 0}, {0x17, 0x20, 'a'}, {0x15, 0, 0}, {0xF1, 0x50, 0}, {0x81, 0x17, 0}};
      const u8 *tl = TAIL[s.below(5)];
      b.insert(b.end(), tl, tl + 3);
      if (refDecode(b.data(), b.size()).st != Dec::REFUSE) {
        continue;
      }
      c.note("refused decode " + hexOf(b));
      CodeBuf buf(b);
      sut::Err e;
      sut::decode(r->r, buf.p, buf.n, e);
      if (!e) {
        c.fail("broken code is accepted: " + hexOf(b));
      }
      ++bads;
      ready = false;
    } else if (m < 110) {
      c.note("destroy");
      r.reset(new Runner);
      ready = false;
    } else {
      sut::Err e;
      sut::run(r->r, e);
      ++runs;
      errors += (bool)e;
      sut::getAll(r->r);
    }
  }
}

}  // namespace

void prop_S05(Ctx &c) {
  Src &s = c.src;
  u32 puts = 0, errors = 0, held = 0, bads = 0, runs = 0;
  if (s.chance(190) || s.over()) {
    c.label("relational history");
    accounted(c, [&] {
      puts = errors = held = bads = 0;
      relHistory(c, puts, errors, held, bads);
    });
  } else {
    c.label("expression history");
    accounted(c, [&] {
      runs = errors = bads = 0;
      exprHistory(c, runs, errors, bads);
    });
  }
  if (errors > 0) {
    c.label("with errors raised by evaluation");
  }
  if (held > 0) {
    c.label("destroyed or decoded again with rows held");
  }
  if (bads > 0) {
    c.label("with refused decodes");
  }
  c.nontrivial = puts + runs >= 2;
}

// ---------------------------------------------------------------------------------------------- S06

namespace {

struct Job {
  bool rel = false;
  Ops ops;
  Prog prog;
  Bytes code;
  Bytes bad;              // if not empty, refused code which is decoded before the program
  bool again = false;     // decoded again for every round
  std::vector<u32> rows;  // indices into the shared rows, in order of use
  u32 rounds = 1;
};

struct Worker {
  const Job *j = nullptr;
  const std::vector<Row> *rows = nullptr;
  const std::vector<const sut::Tup *> *shared = nullptr;
  std::vector<Row> out;
  std::vector<std::string> errs;
  u32 pos = 0, round = 0;
  int state = 0;  // 0: refused code to decode, 1: program to decode, 2: rows
  sut::R *r = nullptr;
  sut::RR *rr = nullptr;
  bool done = false;
  ~Worker() {
    if (r != nullptr) {
      sut::freeRunner(r);
    }
    if (rr != nullptr) {
      sut::freeRel(rr);
    }
  }
  void err(const sut::Err &e) {
    errs.push_back(fmt("%u/%u ", round, pos) + e.what);
    out.push_back(Row{Val::S("error")});
  }
  // One step; false when finished.
  bool step() {
    if (done) {
      return false;
    }
    sut::Err e;
    if (r == nullptr && rr == nullptr) {
      if (j->rel) {
        rr = sut::mkRel();
      } else {
        r = sut::mkRunner();
      }
      state = j->bad.empty() ? 1 : 0;
    }
    if (state == 0) {
      Bytes copy = j->bad;
      if (j->rel) {
        sut::relDecode(rr, copy.data(), copy.size(), e);
      } else {
        sut::decode(r, copy.data(), copy.size(), e);
      }
      err(e);
      state = 1;
      return true;
    }
    if (state == 1) {
      Bytes copy = j->code;
      state = 2;
      if (j->rel) {
        sut::relDecode(rr, copy.data(), copy.size(), e);
      } else {
        sut::decode(r, copy.data(), copy.size(), e);
      }
      if (e) {
        err(e);
        done = true;
      }
      return true;
    }
    if (pos < j->rows.size()) {
      u32 k = j->rows[pos++];
      if (j->rel) {
        const sut::Tup *t = sut::relPut(rr, sut::mkTuple((*rows)[k]), e);
        if (e) {
          err(e);
        } else if (t != nullptr) {
          out.push_back(sut::readTuple(t));
          sut::freeTuple(t);
        } else {
          out.emplace_back();
        }
      } else {
        sut::bind(r, (*shared)[k]);
        sut::run(r, e);
        if (e) {
          err(e);
        } else {
          out.push_back(sut::getAll(r));
        }
      }
      return true;
    }
    if (j->rel) {
      const sut::Tup *t = sut::relGet(rr, e);
      if (e) {
        err(e);
        done = true;
        return true;
      }
      if (t != nullptr) {
        out.push_back(sut::readTuple(t));
        sut::freeTuple(t);
        return true;
      }
      out.push_back(Row{Val::S("end")});
    }
    pos = 0;
    if (++round >= j->rounds) {
      done = true;
    }
    if (j->again) {
      state = j->bad.empty() ? 1 : 0;
    }
    return true;
  }
};


}  // namespace

void prop_S06(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 5;
  Schema sc = genSchema(s, so);
  std::vector<Row> rows;
  u32 n = 2 + s.below(12);
  for (u32 k = 0; k < n; ++k) {
    rows.push_back(genRow(s, sc));
  }
  std::vector<std::unique_ptr<Tuple>> own;
  std::vector<const sut::Tup *> shared;
  for (const auto &r : rows) {
    own.emplace_back(new Tuple(r));
    shared.push_back(own.back()->t);
  }
  u32 nj = 2 + s.below(4);
  if (s.rare(60)) {
    nj = bigSize(s, 10, 40);
  }
  std::vector<Job> jobs(nj);
  for (u32 q = 0; q < nj; ++q) {
    Job &j = jobs[q];
    if (q > 0 && s.chance(60)) {
      j = jobs[q - 1];  // the same program on another runner
    } else if (s.chance(128)) {
      j.rel = true;
      ProgOpts po;
      po.maxStages = 3;
      po.rowErrors = s.chance(128);
      po.maxAggs = 3;
      j.prog = genProg(s, sc.ty, po);
      encProg(j.code, j.prog, nullptr);
    } else {
      EGen g(s);
      Row none;
      g.cols = &none;
      g.colTy = &sc.ty;
      g.fixed = true;
      g.budget = 24;
      for (u32 k = 1 + s.below(3); k > 0; --k) {
        g.gen(genType(s), 3, H_SHORT);
      }
      j.ops = std::move(g.ops);
      encOps(j.code, j.ops, nullptr);
    }
    if (c.wantDesc) {
      c.note(fmt("runner %u: ", q) + (j.rel ? show(j.prog) : show(j.ops)));
    }
    j.rows.clear();
    for (u32 k = 1 + s.below(12); k > 0; --k) {
      j.rows.push_back(s.below(n));
    }
    j.rounds = 1 + s.below(3);
    j.bad.clear();
    if (s.chance(70)) {
      c.label("with refused codes");
      if (s.chance(128)) {
        j.bad = j.code;
        if (!j.rel && !j.bad.empty() && j.bad.back() == 0) {
          j.bad.pop_back();
        }
      }
      static const u8 X[] = {0x16, 0x75, 0x5F, 0x83};
      j.bad.push_back(X[s.below(4)]);
      for (u32 k = s.below(20); k > 0; --k) {
        j.bad.push_back((u8)(0x80 | s.byte()));
      }
    }
    j.again = s.chance(60);
    c.mixHash(j.code);
    c.mixHash(j.rows.data(), j.rows.size() * 4);
  }
  for (const auto &r : rows) {
    c.mixHash(r);
  }
  bool threads = s.chance(128);
  bool first = s.chance(128);  // before they are used alone: whatever is set up at the first use is set up by all of them at once
  if (threads && s.rare(40)) {
    for (auto &j : jobs) {
      j.rounds = bigSize(s, 10, 300);
    }
    c.label("many rounds");
  }
  // alone
  std::vector<std::unique_ptr<Worker>> solo, mixed;
  for (auto &j : jobs) {
    for (auto *v : {&solo, &mixed}) {
      v->emplace_back(new Worker);
      v->back()->j = &j;
      v->back()->rows = &rows;
      v->back()->shared = &shared;
    }
  }
  auto alone = [&] {
    for (auto &w : solo) {
      while (w->step()) {
      }
    }
  };
  if (!first) {
    alone();
  }
  if (threads) {
    c.label("a thread each");
    std::vector<std::thread> th;
    std::atomic<u32> ready{0};
    for (auto &w : mixed) {
      Worker *p = w.get();
      th.emplace_back([p, &ready, nj] {
        ready.fetch_add(1, std::memory_order_relaxed);  // relaxed: orders nothing between the threads
        for (u32 spin = 0; ready.load(std::memory_order_relaxed) < nj && spin < 200000; ++spin) {
        }
        while (p->step()) {
        }
      });
    }
    for (auto &t : th) {
      t.join();
    }
  } else {
    c.label("interleaved");
    bool more = true;
    u64 turns = 0;
    while (more) {
      u32 k = s.below(nj);
      for (u32 q = 1 + s.below(3); q > 0; --q) {
        mixed[k]->step();
      }
      if (++turns > 200) {
        for (auto &w : mixed) {
          while (w->step()) {
          }
        }
      }
      more = false;
      for (auto &w : mixed) {
        more |= !w->done;
      }
    }
  }
  if (first) {
    c.label("together first, then alone");
    alone();
  }
  u32 errs = 0;
  for (u32 q = 0; q < nj; ++q) {
    errs += (u32)solo[q]->errs.size();
    if (solo[q]->errs != mixed[q]->errs) {
      c.fail(fmt("runner %u: errors differ between using it alone and with others", q));
    }
    std::string d = diffMultiset(solo[q]->out, mixed[q]->out);
    if (!d.empty()) {
      c.fail(fmt("runner %u gives other results than when used alone: ", q) + d);
    }
  }
  for (u32 k = 0; k < n; ++k) {
    if (!sameRow(rows[k], sut::readTuple(shared[k], &rows[k]))) {
      c.fail(fmt("shared tuple %u was changed", k));
    }
  }
  if (errs > 0) {
    c.label("with errors");
  }
  c.nontrivial = nj >= 2;
}

// ---------------------------------------------------------------------------------------------- S07

static bool isText(const Sig &g) {
  return ((g.code == O_CAST || g.code == O_CASTC) && ((g.t & 15) == T_STR || (g.t >> 4) == T_STR)) || (g.code == O_FUN && g.t >= 0x20);
}
static bool isFloaty(const Sig &g) {
  return g.code == O_FUN ? g.t < 0x20 : g.t == T_F32 || g.t == T_F64 || g.code == O_CAST || g.code == O_CASTC;
}

struct UseEnv {
  explicit UseEnv(const sut::EnvSpec *e) {
    sut::setEnv(e);
  }
  ~UseEnv() {
    sut::setEnv(nullptr);
  }
};

void prop_S07(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  sut::EnvSpec env;
  env.cxx = (int)s.below(sut::ENV_CXX + 1);
  env.c = (int)s.below((u32)sut::envLocales() + 1);
  static const int E[] = {0, ERANGE, EINVAL, EDOM};
  env.err = E[s.below(4)];
  env.fp = s.chance(128);
  c.note(fmt("C locale %s, C++ locale %d, errno %d, floating-point flags %d", sut::envName(env.c), env.cxx, env.err, env.fp));
  c.label(env.c > 0 ? sut::envName(env.c) : env.cxx > 0 ? "another C++ locale" : env.err != 0 ? "errno set" : "plain");
  c.nontrivial = env.c > 0 || env.cxx > 0 || env.err != 0 || env.fp;
  u64 es[4] = {(u64)env.cxx, (u64)env.c, (u64)env.err, (u64)env.fp};
  c.mixHash(es, sizeof es);
  if (m < 30) {
    SchemaOpts so;
    Schema sc = genSchema(s, so);
    ProgOpts po;
    po.maxStages = 3;
    Prog p = genProg(s, sc.ty, po);
    UseEnv use(&env);
    RelRun rr(c, p);
    try {
      rr.decode(p, &s);
      for (u32 n = s.below(20); n > 0; --n) {
        rr.put(genRow(s, sc));
      }
      rr.drain();
    } catch (const Abandon &) {
    }
    return;
  }
  Ops ops;
  Row cols;
  PackOpts po;
  po.nullPct = 6;
  if (m < 170) {
    opPack(s, isText, 1 + s.below(5), ops, cols, po);
  } else if (m < 215) {
    opPack(s, isFloaty, 1 + s.below(5), ops, cols, po);
  } else {
    anyExpr(s, ops, cols, c);
  }
  if (ops.empty()) {
    throw CaseSkip();
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  Outcome o = evalOps(ops, &cols);
  finishHash(c, code, cols);
  UseEnv use(&env);
  checkExpr(c, ops, code, cols, o);
}

// ---------------------------------------------------------------------------------------------- S08

namespace {

// The bytes the library holds at the end of a round must stop growing.  `round` does the same things every time.
template <class F>
void steady(Ctx &c, F round, const char *what) {
  for (int k = 0; k < 6; ++k) {  // buffers find their size
    round();
  }
  if (!sut::countsAllocs()) {
    return;
  }
  u64 at[6] = {sut::liveBytes()};
  static const int N[] = {40, 60, 100, 200, 400};
  for (int w = 0; w < 5; ++w) {
    for (int k = 0; k < N[w]; ++k) {
      round();
    }
    at[w + 1] = sut::liveBytes();
    if (!sut::countsAllocs() || at[w + 1] < at[w] + (u64)N[w] / 2) {
      return;
    }
    // Grew: whether it keeps growing is seen with further rounds.
  }
  c.fail(std::string(what) + fmt(": the memory held keeps growing, by %llu, %llu, %llu, %llu and %llu bytes in %d, %d, %d, %d and %d rounds",
                                 (unsigned long long)(at[1] - at[0]), (unsigned long long)(at[2] - at[1]),
                                 (unsigned long long)(at[3] - at[2]), (unsigned long long)(at[4] - at[3]),
                                 (unsigned long long)(at[5] - at[4]), N[0], N[1], N[2], N[3], N[4]));
}

// Some stages which go on with what `ty` says, then codes which are refused.
Bytes refusedRel(Src &s, const Prog &p) {
  for (int tries = 0; tries < 4; ++tries) {
    Bytes b = brokenProg(s, s.chance(150) ? p : Prog());
    if (refDecodeRel(b.data(), b.size()).st == Dec::REFUSE) {
      return b;
    }
  }
  return Bytes{0x75};
}

void relSteady(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 4;
  Schema sc = genSchema(s, so);
  ProgOpts po;
  po.maxStages = 4;
  po.rowErrors = s.chance(100);
  po.maxAggs = 3;
  Prog p = genProg(s, sc.ty, po);
  Bytes code, bad;
  encProg(code, p, &s);
  noteProg(c, p, code);
  c.mixHash(code);
  std::vector<Row> rows;
  RelModel m(p);
  for (u32 k = s.below(8); k > 0; --k) {
    Row r = genRow(s, sc);
    if (s.chance(20)) {  // an error, most likely
      r[s.below((u32)r.size())] = genVal(s, genType(s), H_SHORT);
    }
    std::vector<Row> out;
    if (m.put(r, 0, out) == St::ANY) {
      m.reset();
      continue;
    }
    rows.push_back(r);
    if (c.wantDesc) {
      c.note("row " + show(r));
    }
    c.mixHash(r);
  }
  u8 how = s.byte();
  bool again = (how & 1) != 0, drain = (how & 2) != 0;
  if ((how & 12) == 12) {
    bad = refusedRel(s, p);
    again = true;
    c.note("refused before every decoding: " + hexOf(bad));
  }
  c.mixHash(&how, 1);
  if (!again && !drain) {
    // Groups may only be as many as there are different keys (NaN is different from itself).
    auto count = [&] {
      size_t n = 0;
      for (const auto &st : m.stt) {
        n += st.groups.size();
      }
      return n;
    };
    m.reset();
    size_t n[2];
    for (auto &k : n) {
      for (const auto &r : rows) {
        std::vector<Row> out;
        if (m.put(r, 0, out) == St::ANY) {
          drain = true;
        }
      }
      k = count();
    }
    drain = drain || n[0] != n[1];
  }
  // Other keys and texts in every round: what was once seen is not kept either.
  bool fresh = (again || drain) && (how & 16) != 0;
  if (fresh) {
    c.label("other values in every round");
  }
  c.label(again ? "relational, decoded in every round" : drain ? "relational, drained in every round" : "relational, rows put without end");
  c.note(std::string(again ? "decoded " : "") + (drain ? "drained " : "") + "in every round");
  c.nontrivial = again || !rows.empty();
  sut::resetAllocs();
  Rel r;
  if (!again) {
    mustDecodeRel(c, r.r, code);
  }
  u64 serial = 0;
  u32 bads = 1 + (how >> 5 & 1) + (how >> 6 & 1);
  bool never = (how & 128) != 0;  // refused codes only
  auto round = [&] {
    for (u32 k = 0; !bad.empty() && k < bads; ++k) {
      CodeBuf buf(bad);
      sut::Err e;
      sut::relDecode(r.r, buf.p, buf.n, e);
    }
    if (!bad.empty() && never) {
      return;
    }
    if (again) {
      mustDecodeRel(c, r.r, code);
    }
    ++serial;
    for (const auto &row : rows) {
      Row x = row;
      for (size_t k = 0; fresh && k < x.size(); ++k) {
        u64 h = mix64(serial * 64 + k);
        if (x[k].ty == T_I32 || x[k].ty == T_I64) {
          x[k].i ^= (i64)(h & 0xFFFF);
        } else if (x[k].ty == T_STR) {
          x[k].s += fmt("%016llx", (unsigned long long)h);
        }
      }
      sut::Err e;
      Tuple t{sut::relPut(r.r, sut::mkTuple(x), e)};
    }
    for (u32 k = 0; drain && k < 1000; ++k) {
      sut::Err e;
      Tuple t{sut::relGet(r.r, e)};
      if (!e && t.t == nullptr) {
        break;
      }
    }
  };
  steady(c, round, "relational runner");
}

void exprSteady(Ctx &c) {
  Src &s = c.src;
  Row cols;
  std::vector<Bytes> codes;
  for (u32 k = 1 + s.below(2); k > 0; --k) {
    Ops o;
    u8 m = s.byte();
    if (m < 110) {
      EGen g(s);
      g.cols = &cols;
      g.budget = 16;
      g.gen(genType(s), 4, H_SHORT);
      o = std::move(g.ops);
    } else if (m < 160) {
      opPack(s, [](const Sig &) { return true; }, 1 + s.below(8), o, cols, PackOpts());
    } else {
      wildOps(s, o, cols, c);
    }
    Bytes b;
    encOps(b, o, &s);
    if (c.wantDesc) {
      c.note("expression " + show(o) + "\ncode " + hexOf(b));
    }
    c.mixHash(b);
    codes.push_back(b);
  }
  Row other = cols;
  for (auto &v : other) {
    if (s.chance(90)) {
      v = s.chance(60) ? Val() : genVal(s, genType(s), H_SHORT);
    }
  }
  if (c.wantDesc) {
    c.note("tuples " + show(cols) + " and " + show(other));
  }
  c.mixHash(cols);
  c.mixHash(other);
  u8 how = s.byte();
  bool again = (how & 1) != 0 || codes.size() > 1, twice = (how & 2) != 0, bad = (how & 12) == 12, read = (how & 16) != 0;
  c.mixHash(&how, 1);
  c.label(again ? "expression, decoded in every round" : "expression, run in every round");
  c.nontrivial = true;
  static const u8 TAIL[][3] = {{0x16, 0, 0}, {0x17, 0x20, 'a'}, {0x15, 0, 0}, {0xF1, 0x50, 0}, {0x81, 0x17, 0}};
  Bytes broken;
  if (bad) {
    broken = codes[0];
    while (!broken.empty() && broken.back() == 0) {
      broken.pop_back();
    }
    const u8 *tl = TAIL[s.below(5)];
    broken.insert(broken.end(), tl, tl + 3);
    c.note("also tried in every round: " + hexOf(broken));
  }
  Tuple t(cols), t2(other);
  sut::resetAllocs();
  Runner r;
  bool first = true;
  auto round = [&] {
    for (const auto &code : codes) {
      for (int k = 0; bad && k < 1 + (how >> 5 & 1) + (how >> 6 & 1); ++k) {
        CodeBuf buf(broken);
        sut::Err e;
        sut::decode(r.r, buf.p, buf.n, e);
      }
      if (bad && (how & 128) != 0) {  // refused codes only
        continue;
      }
      if (again || bad || first) {
        mustDecode(c, r.r, code);
        first = false;
      }
      for (int k = 0; k < 1 + twice; ++k) {
        sut::bind(r.r, k == 0 ? t.t : t2.t);
        sut::Err e;
        sut::run(r.r, e);
        if (read) {
          sut::getAll(r.r);
          sut::Err e2;
          sut::get(r.r, e2);
        }
      }
    }
  };
  steady(c, round, "expression runner");
}

// Runs f on a thread whose stack holds little more than what a call needs.
template <class F>
void onSmallStack(F f) {
  struct A {
    F *f;
    std::exception_ptr e;
  } a{&f, nullptr};
  pthread_attr_t at;
  pthread_attr_init(&at);
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  size_t sz = (size_t)1 << 20;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
  size_t sz = (size_t)1 << 20;
#else
  size_t sz = (size_t)192 << 10;
#endif
#else
  size_t sz = (size_t)192 << 10;
#endif
  pthread_attr_setstacksize(&at, sz);
  pthread_t th;
  int rc = pthread_create(
      &th, &at,
      [](void *p) -> void * {
        A *x = (A *)p;
        try {
          (*x->f)();
        } catch (...) {
          x->e = std::current_exception();
        }
        return nullptr;
      },
      &a);
  pthread_attr_destroy(&at);
  if (rc != 0) {
    throw CaseSkip();
  }
  pthread_join(th, nullptr);
  if (a.e) {
    std::rethrow_exception(a.e);
  }
}

void longProg(Ctx &c) {
  Src &s = c.src;
  u32 n = 20 + s.below(400);
  if (s.chance(110)) {
    n = bigSize(s, 1000, 6000);
  } else if (s.chance(40)) {
    n = bigSize(s, 6000, 24000);
  }
  Prng pr(s.bits(2));
  u8 mask = s.byte();
  Prog p;
  bool agg = false;
  for (u32 k = 0; k < n; ++k) {
    Stage st;
    u32 w = pr.below(16);
    switch (mask == 0 ? 0 : (mask >> (2 * (w & 3)) & 3)) {
    case 0:
      st.k = Stage::FILTER;
      if (w & 4) {
        st.ops = {opConst(Val::B(true))};
      } else {
        st.ops = {opVar(T_I32, 0), opOf(O_ISNULL, T_I32), opOf(O_NOT)};
      }
      break;
    case 1:
      st.k = Stage::PROJECT;
      st.ops = {opVar(T_I32, 0), opConst(Val::I32(w)), opOf(O_ADD, T_I32), opVar(T_STR, 1)};
      break;
    case 2:
      st.k = Stage::UNGROUPED;
      st.aggs = {{G_MAX | T_I32, 0}, {G_MIN | T_STR, 1}};
      agg = true;
      break;
    default:
      st.k = Stage::GROUPED;
      st.keys = {0};
      st.aggs = {{G_MAX | T_STR, 1}};
      agg = true;
      break;
    }
    p.push_back(st);
  }
  Bytes code;
  encProg(code, p, nullptr);
  if (c.wantDesc) {
    c.note(fmt("chain of %u operators, ", n) + hexOf(Bytes(code.begin(), code.begin() + (long)std::min<size_t>(code.size(), 60))) + " ...");
  }
  c.mixHash(code);
  c.label(agg ? "small stack, long chain with aggregations" : "small stack, long chain");
  std::vector<Row> rows;
  for (u32 k = s.below(4); k > 0; --k) {
    rows.push_back({genVal(s, T_I32, H_SMALL), genVal(s, T_STR, H_SHORT)});
    c.note("row " + show(rows.back()));
  }
  c.mixHash(&mask, 1);
  RelModel m(p);
  std::vector<std::vector<Row>> exp;
  for (const auto &r : rows) {
    exp.emplace_back();
    if (m.put(r, 0, exp.back()) != St::OK) {
      throw CaseSkip();
    }
  }
  std::vector<Row> rest, got;
  if (m.drain(rest) != St::OK) {
    throw CaseSkip();
  }
  u8 how = s.byte();
  c.nontrivial = n >= 1000;
  onSmallStack([&] {
    Rel r;
    mustDecodeRel(c, r.r, code);
    for (size_t k = 0; k < rows.size(); ++k) {
      sut::Err e;
      Tuple t{sut::relPut(r.r, sut::mkTuple(rows[k]), e)};
      if (e) {
        c.fail("Put raised an error: " + e.what);
      }
      if ((t.t == nullptr) != exp[k].empty() || (t.t != nullptr && !sameRow(exp[k][0], sut::readTuple(t.t, &exp[k][0])))) {
        c.fail("Put returned " + (t.t == nullptr ? std::string("nothing") : show(sut::readTuple(t.t))) + ", expected " +
               (exp[k].empty() ? std::string("nothing") : show(exp[k][0])));
      }
    }
    if ((how & 1) == 0) {
      for (u32 k = 0; k < 100; ++k) {
        sut::Err e;
        Tuple t{sut::relGet(r.r, e)};
        if (e) {
          c.fail("Get raised an error: " + e.what);
        }
        if (t.t == nullptr) {
          break;
        }
        got.push_back(sut::readTuple(t.t));
      }
      std::string d = diffMultiset(rest, got);
      if (!d.empty()) {
        c.fail("fetched rows differ: " + d);
      }
    }
    if ((how & 2) != 0) {  // refused at the end
      Bytes b = code;
      b.push_back(0x75);
      CodeBuf buf(b);
      sut::Err e;
      sut::relDecode(r.r, buf.p, buf.n, e);
      if (!e) {
        c.fail("accepted with an unknown code at the end");
      }
    }
    if ((how & 4) != 0) {
      mustDecodeRel(c, r.r, code);
    }
  });
}

void longExpr(Ctx &c) {
  Src &s = c.src;
  Ops ops;
  Row cols;
  u32 n = bigSize(s, 300, s.chance(60) ? 60000 : 6000);
  Prng p(s.bits(2));
  u8 m = s.byte();
  if (m < 80) {
    c.label("small stack, long expression of one operand");
    supply(s, ops, cols, Val::I32((i32)s.below(100)), T_I32);
    for (u32 k = 0; k < n; ++k) {
      switch (p.below(3)) {
      case 0:
        ops.push_back(opOf(O_NEG, T_I32));
        break;
      case 1:
        ops.push_back(opConst(Val::I32((i32)p.below(9))));
        ops.push_back(opOf(O_ADD, T_I32));
        break;
      default:
        ops.push_back(opOf(O_POS, T_I32));
      }
    }
  } else if (m < 150) {
    c.label("small stack, many operands");
    for (u32 k = 0; k < n; ++k) {
      ops.push_back(opConst(Val::I64((i64)p.below(1000))));
    }
    for (u32 k = 0; k + 1 < n; ++k) {
      ops.push_back(opOf(p.below(2) == 0 ? O_ADD : O_MAX, T_I64));
    }
  } else {
    c.label("small stack, long text");
    std::string t;
    for (u32 k = 0; k < n * 4; ++k) {
      t.push_back(k < n ? ' ' : (char)(32 + p.below(90)));
    }
    t += std::string(p.below(3) * n, ' ');
    supply(s, ops, cols, Val::S(t), T_STR);
    for (u32 k = 1 + s.below(5); k > 0; --k) {
      static const u8 F[] = {FN_LOWER, FN_UPPER, FN_TRIM, FN_LTRIM, FN_RTRIM, FN_CONCAT, FN_LEFT, FN_SUBSTR2};
      u8 f = F[s.below(8)];
      if (f == FN_CONCAT) {
        ops.push_back(opConst(Val::S(std::string(p.below(4), 'x'))));
      } else if (f == FN_LEFT || f == FN_SUBSTR2) {
        ops.push_back(opConst(Val::I32((i32)(1 + p.below(2 * n)))));
      }
      ops.push_back(opOf(O_FUN, f));
    }
  }
  Bytes code;
  encOps(code, ops, nullptr);
  if (c.wantDesc) {
    c.note(fmt("%zu operators, %zu bytes", ops.size(), code.size()));
  }
  Outcome o = evalOps(ops, &cols);
  finishHash(c, code, cols);
  c.nontrivial = n >= 1000;
  onSmallStack([&] { checkExpr(c, ops, code, cols, o); });
}

}  // namespace

void prop_S08(Ctx &c) {
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 110) {
    relSteady(c);
  } else if (m < 185) {
    exprSteady(c);
  } else if (m < 225) {
    longProg(c);
  } else {
    longExpr(c);
  }
}

// ---------------------------------------------------------------------------------------------- S09

namespace {

// Allocations fail while one of these is alive.
struct Failing {
  explicit Failing(sut::FailPlan *p) {
    sut::setFailPlan(p);
  }
  ~Failing() {
    sut::setFailPlan(nullptr);
  }
};

struct Oom {
  Ctx &c;
  sut::FailPlan plan;
  explicit Oom(Ctx &ctx) : c(ctx) {
  }
  // Runs f(err) with failing allocations.  True if any failed: then there must be an error, or the result is as usual
  // (the library may do without).
  template <class F>
  bool operator()(const char *what, sut::Err &e, F f) {
    u64 before = plan.failed;
    {
      Failing on(&plan);
      f(e);
    }
    if (plan.failed == before) {
      return false;
    }
    if (c.wantDesc) {
      c.note(fmt("%s: %llu allocations fail (the last is #%llu): ", what, (unsigned long long)(plan.failed - before), (unsigned long long)plan.seen) +
             (e ? e.what : std::string("no error")));
    }
    if (e.ex == sut::Ex::OTHER) {
      c.fail(std::string(what) + ": an allocation failed and something not derived from std::exception was thrown");
    }
    return true;
  }
};

void planFailures(Src &s, sut::FailPlan &p, u64 total) {
  u8 m = s.byte();
  p.seen = p.failed = 0;
  p.from = 1 + s.bits(2) % (total + 1);
  p.every = m < 140 ? 0 : m < 170 ? 1 : 1 + s.below(12);
}

void oomExpr(Ctx &c) {
  Src &s = c.src;
  Row cols;
  Ops ops;
  u8 m = s.byte();
  if (m < 110) {
    EGen g(s);
    g.cols = &cols;
    g.budget = 20;
    g.gen(genType(s), 4, s.chance(128) ? H_SHORT : H_NONE);
    ops = std::move(g.ops);
  } else if (m < 180) {
    opPack(s, [](const Sig &g) { return g.a[0] == T_STR || g.ret == T_STR; }, 1 + s.below(6), ops, cols, PackOpts());
  } else {
    anyExpr(s, ops, cols, c);
  }
  if (ops.empty() || ops.size() > 3000) {
    throw CaseSkip();
  }
  Bytes code;
  encOps(code, ops, &s);
  describe(c, ops, code, cols);
  finishHash(c, code, cols);
  Outcome o = evalOps(ops, &cols);
  u32 rounds = 1 + s.below(3), runs = 1 + s.below(3);
  auto pass = [&](Oom &oom) {
    Runner r;
    Tuple t(cols);
    for (u32 k = 0; k < rounds; ++k) {
      {
        CodeBuf b(code);
        sut::Err e;
        ptrdiff_t off = 0;
        bool hit = oom("decode", e, [&](sut::Err &x) { off = sut::decode(r.r, b.p, b.n, x); });
        if (e && !hit) {
          c.fail("a well-formed expression is refused: " + e.what);
        }
        if (e) {
          mustDecode(c, r.r, code);
        } else if (off != (ptrdiff_t)b.n) {
          c.fail(fmt("decoding returned position %td of %zu", off, b.n));
        }
      }
      sut::bind(r.r, t.t);
      for (u32 j = 0; j < runs; ++j) {
        sut::Err e;
        bool hit = oom("run", e, [&](sut::Err &x) { sut::run(r.r, x); });
        if (e && hit && o.st == St::OK) {  // what is left can be looked at, then it is run again
          sut::getAll(r.r);
          sut::Err e2;
          sut::run(r.r, e2);
          checkOutcome(c, r.r, e2, o, "run after a failed allocation");
        } else if (!hit) {
          checkOutcome(c, r.r, e, o, "run");
        }
        if (o.st != St::OK) {
          continue;
        }
        sut::Err e3;
        Row got;
        hit = oom("read all", e3, [&](sut::Err &x) { got = sut::getAllOr(r.r, x, &o.stack); });
        if (e3 && !hit) {
          c.fail("GetAll raised an error: " + e3.what);
        }
        if (e3) {
          got = sut::getAll(r.r, &o.stack);
        }
        if (!sameRow(o.stack, got)) {
          c.fail("GetAll gives " + show(got) + ", expected " + show(o.stack));
        }
      }
    }
  };
  Oom dry(c);
  dry.plan.from = ~(u64)0;
  pass(dry);
  Oom oom(c);
  planFailures(s, oom.plan, dry.plan.seen);
  c.mixHash(&oom.plan.from, 8);
  c.mixHash(&oom.plan.every, 8);
  c.label(oom.plan.every == 0 ? "expression, one failure" : "expression, repeated failures");
  pass(oom);
  c.nontrivial = oom.plan.failed > 0;
}

void oomRel(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 4;
  Schema sc = genSchema(s, so);
  ProgOpts po;
  po.maxStages = 4;
  po.rowErrors = s.chance(60);
  po.maxAggs = 3;
  Prog p = genProg(s, sc.ty, po);
  Bytes code, bad;
  encProg(code, p, &s);
  noteProg(c, p, code);
  c.mixHash(code);
  if (s.chance(60)) {
    bad = refusedRel(s, p);
  }
  bool agg = false;
  for (const auto &st : p) {
    agg = agg || st.k == Stage::GROUPED || st.k == Stage::UNGROUPED;
  }
  std::vector<std::vector<Row>> rounds(1 + s.below(3));
  size_t n = 0;
  for (auto &r : rounds) {
    for (u32 k = s.below(s.chance(30) ? 40 : 6); k > 0; --k) {
      r.push_back(genRow(s, sc));
      c.mixHash(r.back());
      ++n;
    }
  }
  bool again = s.chance(60);
  auto pass = [&](Oom &oom) {
    Rel r;
    bool ready = false;
    for (const auto &rows : rounds) {
      if (!ready || again) {
        if (!bad.empty()) {
          CodeBuf b(bad);
          sut::Err e;
          oom("decode of refused code", e, [&](sut::Err &x) { sut::relDecode(r.r, b.p, b.n, x); });
          if (!e) {
            c.fail("a broken relational program is accepted");
          }
        }
        CodeBuf b(code);
        sut::Err e;
        ptrdiff_t off = 0;
        bool hit = oom("decode", e, [&](sut::Err &x) { off = sut::relDecode(r.r, b.p, b.n, x); });
        if (e && !hit) {
          c.fail("a well-formed relational program is refused: " + e.what);
        }
        if (e) {
          mustDecodeRel(c, r.r, code);
        } else if (off != (ptrdiff_t)b.n) {
          c.fail(fmt("decoding returned position %td of %zu", off, b.n));
        }
        ready = true;
      }
      RelModel m(p);
      bool dirty = false;  // an allocation failed in this round, with an aggregation
      for (const auto &row : rows) {
        std::vector<Row> out;
        St st = m.put(row, 0, out);
        if (st == St::ANY) {
          throw CaseSkip();
        }
        for (int tries = 0; tries < 2; ++tries) {
          if (c.wantDesc) {
            c.note("put " + show(row));
          }
          const sut::Tup *in = sut::mkTuple(row);
          sut::Err e;
          const sut::Tup *res = nullptr;
          bool hit = false;
          if (tries == 0) {
            hit = oom("put", e, [&](sut::Err &x) { res = sut::relPut(r.r, in, x); });
          } else {
            res = sut::relPut(r.r, in, e);
          }
          Tuple back{res};
          if (hit && e) {
            dirty = dirty || agg;
            continue;  // once more
          }
          if (dirty) {
            break;
          }
          if ((bool)e != (st == St::ERR)) {
            c.fail(e ? "Put raised an error: " + e.what : "Put must raise an error for row " + show(row));
          }
          if (!e) {
            Row got;
            if (res != nullptr) {
              got = sut::readTuple(res, out.empty() ? nullptr : &out[0]);
            }
            if ((res != nullptr) == out.empty() || (res != nullptr && !sameRow(out[0], got))) {
              c.fail("Put returned " + (res == nullptr ? std::string("nothing") : show(got)) + ", expected " +
                     (out.empty() ? std::string("nothing") : show(out[0])));
            }
          }
          break;
        }
      }
      std::vector<Row> exp, got;
      if (m.drain(exp) != St::OK) {
        throw CaseSkip();
      }
      size_t limit = (n + 8) * (p.size() + 1) * 2 + 100, k = 0;
      for (; k < limit; ++k) {
        sut::Err e;
        const sut::Tup *res = nullptr;
        bool hit = oom("fetch", e, [&](sut::Err &x) { res = sut::relGet(r.r, x); });
        Tuple back{res};
        if (e) {
          if (!hit && !dirty) {
            c.fail("Get raised an error: " + e.what);
          }
          dirty = true;  // a row on its way may be lost
          continue;
        }
        if (res == nullptr) {
          break;
        }
        got.push_back(sut::readTuple(res, exp.empty() ? nullptr : &exp[0]));
      }
      if (k == limit) {  // may be for ever in want of memory
        for (k = 0; k < limit; ++k) {
          sut::Err e;
          Tuple back{sut::relGet(r.r, e)};
          if (!e && back.t == nullptr) {
            break;
          }
        }
        if (k == limit) {
          c.fail("fetching never ends after failed allocations");
        }
      }
      if (!dirty) {
        std::string d = diffMultiset(exp, got);
        if (!d.empty()) {
          c.fail("fetched rows differ: " + d);
        }
      }
    }
  };
  Oom dry(c);
  dry.plan.from = ~(u64)0;
  pass(dry);
  Oom oom(c);
  planFailures(s, oom.plan, dry.plan.seen);
  c.mixHash(&oom.plan.from, 8);
  c.mixHash(&oom.plan.every, 8);
  c.label(oom.plan.every == 0 ? "relational, one failure" : "relational, repeated failures");
  pass(oom);
  c.nontrivial = oom.plan.failed > 0;
}

}  // namespace

void prop_S09(Ctx &c) {
  if (!sut::canFail()) {
    throw CaseSkip();
  }
  if (c.src.chance(150)) {
    oomRel(c);
  } else {
    oomExpr(c);
  }
}
