// Property S10: the work grows no faster than the input.
#include <cmath>
#include <functional>

#include "relrun.h"

namespace {

const u64 SCALE = 16;    // how much larger the larger input is
const u64 TOLERANCE = 3;  // the work on it may be SCALE * TOLERANCE times as much
const u64 SLACK = 600;

// The parts of a scenario, each with the work it took.
struct Work {
  std::vector<std::pair<const char *, u64>> parts;
  template <class F>
  void operator()(const char *what, F f) {
    u64 b = sut::work();
    f();
    add(what, sut::work() - b);
  }
  void add(const char *what, u64 w) {
    for (auto &p : parts) {
      if (strcmp(p.first, what) == 0) {
        p.second += w;
        return;
      }
    }
    parts.emplace_back(what, w);
  }
  void forget(const char *what) {
    for (size_t k = 0; k < parts.size(); ++k) {
      if (strcmp(parts[k].first, what) == 0) {
        parts.erase(parts.begin() + (long)k);
        return;
      }
    }
  }
};

// Does `f` at size n and at SCALE * n; each part may take `grow` times the work (and TOLERANCE).
template <class F>
void growth(Ctx &c, const char *of, u64 n, u64 grow, F f) {
  Work a, b;
  f(a, n);
  f(b, n * SCALE);
  for (const auto &p : b.parts) {
    for (const auto &q : a.parts) {
      if (strcmp(p.first, q.first) != 0) {
        continue;
      }
      c.sub();
      if (c.wantDesc) {
        c.note(fmt("%s: %llu for %llu %s, %llu for %llu", p.first, (unsigned long long)q.second, (unsigned long long)n, of,
                   (unsigned long long)p.second, (unsigned long long)(n * SCALE)));
      }
      if (p.second > grow * TOLERANCE * (q.second + SLACK)) {
        c.fail(fmt("%s takes %llu units of work for %llu %s and %llu for %llu: %.1f times as much, where %llu times was to be expected", p.first,
                   (unsigned long long)q.second, (unsigned long long)n, of, (unsigned long long)p.second, (unsigned long long)(n * SCALE),
                   (double)p.second / (double)(q.second == 0 ? 1 : q.second), (unsigned long long)grow));
      }
    }
  }
}

void measured(Ctx &c, Work &w, sut::R *r, const Bytes &code) {
  CodeBuf b(code);
  sut::Err e;
  w("decoding", [&] { sut::decode(r, b.p, b.n, e); });
  if (e) {
    c.fail("a well-formed expression is refused: " + e.what);
  }
}

void measuredRel(Ctx &c, Work &w, sut::RR *r, const Bytes &code) {
  CodeBuf b(code);
  sut::Err e;
  w("decoding", [&] { sut::relDecode(r, b.p, b.n, e); });
  if (e) {
    c.fail("a well-formed relational program is refused: " + e.what);
  }
}

// Small expressions of one result each, with the tuple they need.
struct Blocks {
  Row cols;
  std::vector<Ops> ops;
  u8 ty;
  explicit Blocks(Src &s, u32 n, u8 type = 0) : ty(type) {
    for (u32 k = 0; k < n; ++k) {
      EGen g(s);
      g.cols = &cols;
      g.budget = 10;
      g.gen(ty != 0 ? ty : genType(s), 3, H_SHORT);
      ops.push_back(g.ops);
    }
  }
};

void exprLength(Ctx &c) {
  Src &s = c.src;
  u8 how = s.byte();
  u8 ty = genType(s);
  bool fold = (how & 3) != 0;  // into one result, at once or at the end
  Blocks bl(s, 1 + s.below(4), fold ? ty : 0);
  static const u8 NUM[] = {O_ADD, O_SUB, O_MUL, O_MIN, O_MAX};
  u8 op = ty == T_BOOL ? (s.chance(128) ? O_AND : O_OR) : ty == T_STR ? (s.chance(128) ? O_MIN : O_MAX) : NUM[s.below(5)];
  u8 opT = ty == T_BOOL ? 0 : ty;
  u32 n = 40 + s.below(200);
  c.label(!fold ? "length: many results" : (how & 3) == 1 ? "length: folded at once" : "length: folded at the end");
  c.mixHash(&how, 1);
  c.mixHash(&n, 4);
  auto make = [&](u64 m, Bytes &code) {
    Ops ops;
    u64 k = 0;
    for (; ops.size() < m; ++k) {
      const Ops &b = bl.ops[(size_t)(k % bl.ops.size())];
      ops.insert(ops.end(), b.begin(), b.end());
      if ((how & 3) == 1 && k > 0) {
        ops.push_back(opOf(op, opT));
      }
    }
    for (u64 j = 1; (how & 3) > 1 && j < k; ++j) {
      ops.push_back(opOf(op, opT));
    }
    encOps(code, ops, nullptr);
    return k;
  };
  Bytes once;
  make(n, once);
  if (c.wantDesc) {
    c.note("code: " + hexOf(once));
    c.note("tuple: " + show(bl.cols));
  }
  c.mixHash(once);
  growth(c, "operators", n, SCALE, [&](Work &w, u64 m) {
    Bytes code;
    make(m, code);
    Tuple t(bl.cols);
    Runner r;
    sut::Err e;
    measured(c, w, r.r, code);
    sut::bind(r.r, t.t);
    w("running", [&] { sut::run(r.r, e); });
    u64 b = sut::work();
    sut::getAll(r.r);
    w.add("reading all results", sut::work() - b);
    w("running again", [&] { sut::run(r.r, e); });
    measured(c, w, r.r, code);
    w("releasing the runner", [&] {
      sut::freeRunner(r.r);
      r.r = nullptr;
    });
  });
  // What is not about all operators takes the same work however many there are.
  growth(c, "operators", n, 1, [&](Work &w, u64 m) {
    Bytes code;
    make(m, code);
    Tuple t(bl.cols);
    Runner r;
    sut::Err e;
    mustDecode(c, r.r, code);
    w("binding a tuple", [&] { sut::bind(r.r, t.t); });
    sut::run(r.r, e);
    if (!e) {
      w("reading the last result", [&] { sut::get(r.r, e); });
    }
    w("asking for the type", [&] { sut::getType(r.r); });
  });
  c.nontrivial = true;
}

// The width of the tuple alone does not matter.
void exprWidth(Ctx &c) {
  Src &s = c.src;
  Blocks bl(s, 1 + s.below(3));
  if (bl.cols.empty()) {
    bl.cols.push_back(Val::I32(7));
    bl.ops.push_back({opVar(T_I32, 0)});
  }
  bool front = s.chance(128);  // the columns used are the first or the last
  Val fill = s.chance(128) ? Val::S("some text that is too long to be kept in place") : Val::I64(5);
  u32 n = 20 + s.below(300), times = 20;
  c.label("width of the tuple");
  Ops all;
  for (const auto &b : bl.ops) {
    all.insert(all.end(), b.begin(), b.end());
  }
  Bytes seen;
  encOps(seen, all, nullptr);
  c.mixHash(seen);
  c.mixHash(bl.cols);
  c.mixHash(&n, 4);
  if (c.wantDesc) {
    c.note("code: " + hexOf(seen));
    c.note("tuple: " + show(bl.cols) + (front ? " and columns behind" : " behind other columns"));
  }
  growth(c, "columns", n, 1, [&](Work &w, u64 m) {
    Row row(m, fill);
    Ops ops = all;
    size_t at = front ? 0 : (size_t)m;
    row.insert(row.begin() + (long)at, bl.cols.begin(), bl.cols.end());
    for (auto &o : ops) {
      if (o.isLeaf() && (o.code >> 4) == 3) {
        o.idx += (i32)at;
      }
    }
    Bytes code;
    encOps(code, ops, nullptr);
    Tuple t(row);
    Runner r;
    sut::Err e;
    mustDecode(c, r.r, code);
    for (u32 k = 0; k < times; ++k) {
      w("binding a tuple", [&] { sut::bind(r.r, t.t); });
      w("running", [&] { sut::run(r.r, e); });
    }
  });
  c.nontrivial = true;
}

// The length of texts.
void textLength(Ctx &c) {
  Src &s = c.src;
  u32 n = 100 + s.below(900);
  u8 kind = s.byte() % 8;
  u64 seed = s.bits(4);
  c.label("length of texts");
  c.mixHash(&n, 4);
  c.mixHash(&kind, 1);
  c.mixHash(&seed, 8);
  auto text = [&](u64 m) {
    Prng p(seed);
    std::string t;
    switch (kind) {
    case 0:
      return std::string(m, ' ');
    case 1:
      return std::string(m, 'a');
    case 2:  // blank, text, blank
      t = std::string(m / 3, ' ') + std::string(m / 3, 'x');
      t.resize(m, '\t');
      return t;
    case 3:  // a long numeral
      for (u64 k = 0; k < m; ++k) {
        t.push_back(k == m / 2 ? '.' : (char)('0' + p.below(10)));
      }
      return t;
    case 4:
      t = std::string(m - 2, ' ') + "12";
      return t;
    case 5:
      t = std::string(m - 1, '0') + "7";
      return t;
    default:
      for (u64 k = 0; k < m; ++k) {
        t.push_back((char)(kind == 6 ? p.below(256) : 32 + p.below(90)));
      }
      return t;
    }
  };
  u32 nOps = 1 + s.below(4);
  std::vector<std::pair<u8, i32>> steps;
  for (u32 k = 0; k < nOps; ++k) {
    static const u8 F[] = {FN_LOWER, FN_UPPER, FN_TRIM, FN_LTRIM, FN_RTRIM, FN_CONCAT, FN_LEFT, FN_RIGHT, FN_SUBSTR2, FN_SUBSTR3, FN_MID2, FN_MID3};
    steps.emplace_back(F[s.below(12)], (i32)s.below(200) - 100);
    c.mixHash(&steps.back().first, 1);
    c.mixHash(&steps.back().second, 4);
  }
  u8 last = s.byte() % 6;
  bool var = s.chance(128);
  c.mixHash(&last, 1);
  growth(c, "bytes of text", n, SCALE, [&](Work &w, u64 m) {
    std::string t = text(m);
    Row cols{Val::S(t)};
    Ops ops;
    ops.push_back(var ? opVar(T_STR, 0) : opConst(Val::S(t)));
    for (const auto &st : steps) {
      i32 k = st.second;
      switch (st.first) {
      case FN_CONCAT:
        ops.push_back(opVar(T_STR, 0));
        break;
      case FN_LEFT:
      case FN_RIGHT:
        ops.push_back(opConst(Val::I32((i32)m - 1 - (k & 15))));
        break;
      case FN_SUBSTR2:
      case FN_MID2:
        ops.push_back(opConst(Val::I32(k == 0 ? 1 : k)));
        break;
      case FN_SUBSTR3:
      case FN_MID3:
        ops.push_back(opConst(Val::I32(1)));
        ops.push_back(opConst(Val::I32((i32)m - (k & 7))));
        break;
      default:
        break;
      }
      ops.push_back(opOf(O_FUN, st.first));
    }
    if (last < 3) {
      static const u8 K[] = {O_EQ, O_LT, O_MAX};
      ops.push_back(opVar(T_STR, 0));
      ops.push_back(opOf(K[last], T_STR));
    } else if (last == 3) {
      ops.push_back(opOf(O_CAST, (u8)(T_F64 << 4 | T_STR)));
    }
    Bytes code;
    encOps(code, ops, nullptr);
    if (c.wantDesc && m == n) {
      c.note("code: " + hexOf(code));
    }
    Tuple tp(cols);
    Runner r;
    sut::Err e;
    measured(c, w, r.r, code);
    sut::bind(r.r, tp.t);
    w("running", [&] { sut::run(r.r, e); });
    u64 b = sut::work();
    sut::getAll(r.r);
    w.add("reading all results", sut::work() - b);
    w("hashing the text", [&] { sut::strHash(t); });
    w("hashing the tuple", [&] { sut::tupHash(tp.t); });
    Bytes buf(t.begin(), t.end());
    std::string hex(2 * m, '0');
    w("converting to hexadecimal text", [&] { sut::hexOfBytes(buf.data(), buf.size()); });
    w("converting to hexadecimal digits", [&] { sut::bytesToHex(&hex[0], buf.data(), buf.size()); });
    w("converting from hexadecimal digits", [&] { sut::hexToBytes(buf.data(), hex.data(), hex.size()); });
  });
  c.nontrivial = true;
}

// One runner used for long: what it is asked takes the same work at any time.
void exprHistory(Ctx &c) {
  Src &s = c.src;
  Blocks bl(s, 1 + s.below(3));
  u8 how = s.byte();
  Ops all;
  for (const auto &b : bl.ops) {
    all.insert(all.end(), b.begin(), b.end());
  }
  if ((how & 8) != 0) {  // a run which fails
    all.push_back(opConst(Val::I32(INT32_MIN)));
    all.push_back(opOf(O_ABSC, T_I32));
  }
  Bytes code, bad{0x11, 0x01, 0xFF};
  encOps(code, all, nullptr);
  c.label("long use of a runner");
  c.mixHash(code);
  c.mixHash(bl.cols);
  c.mixHash(&how, 1);
  u32 n = 20 + s.below(60);
  if (c.wantDesc) {
    c.note("code: " + hexOf(code));
    c.note("tuple: " + show(bl.cols));
    c.note(std::string((how & 1) != 0 ? "decoded " : "") + ((how & 2) != 0 ? "refused " : "") + "in every round");
  }
  growth(c, "rounds", n, SCALE, [&](Work &w, u64 m) {
    Runner r;
    Tuple t(bl.cols), t2(bl.cols);
    sut::Err e;
    mustDecode(c, r.r, code);
    sut::bind(r.r, t.t);
    for (u64 k = 0; k < m; ++k) {
      if ((how & 2) != 0) {
        CodeBuf b(bad);
        w("refusing code", [&] { sut::decode(r.r, b.p, b.n, e); });
      }
      if ((how & 3) != 0) {
        measured(c, w, r.r, code);
      }
      w("binding a tuple", [&] { sut::bind(r.r, k % 2 == 0 ? t.t : t2.t); });
      w("running", [&] { sut::run(r.r, e); });
      if ((how & 4) == 0) {
        u64 b = sut::work();
        sut::getAll(r.r);
        w.add("reading all results", sut::work() - b);
      }
    }
    w("releasing the runner", [&] {
      sut::freeRunner(r.r);
      r.r = nullptr;
    });
  });
  c.nontrivial = true;
}

// Whether there were no errors.
bool drainAll(Work &w, sut::RR *r) {
  for (;;) {
    sut::Err e;
    const sut::Tup *t = nullptr;
    w("fetching", [&] { t = sut::relGet(r, e); });
    if (e || t == nullptr) {
      return !e;
    }
    sut::freeTuple(t);
  }
}

void putRow(Work &w, sut::RR *r, const Row &row) {
  const sut::Tup *in = sut::mkTuple(row);
  sut::Err e;
  const sut::Tup *out = nullptr;
  w("putting", [&] { out = sut::relPut(r, in, e); });
  if (out != nullptr) {
    sut::freeTuple(out);
  }
}

// Whether a grouping of p may get a NaN as a key, which makes a group of its own each time: puts the rows through what comes before.
bool nanKeys(Ctx &c, const Prog &p, u64 rounds, u32 per, bool drain, const std::function<Row(u64)> &row) {
  for (size_t k = 1; k < p.size(); ++k) {
    if (p[k].k != Stage::GROUPED || p[k].keys.empty()) {
      continue;
    }
    Bytes code;
    encProg(code, Prog(p.begin(), p.begin() + (long)k), nullptr);
    Rel r;
    mustDecodeRel(c, r.r, code);
    bool nan = false;
    auto look = [&](const sut::Tup *t) {
      Row out = sut::readTuple(t);
      sut::freeTuple(t);
      for (i32 key : p[k].keys) {
        if (key >= 0 && (size_t)key < out.size()) {
          const Val &v = out[(size_t)key];
          nan = nan || ((v.ty == T_F32 || v.ty == T_F64) && std::isnan(v.d));
        }
      }
    };
    u64 put = 0;
    for (u64 j = 0; j < rounds && !nan; ++j) {
      for (u32 i = 0; i < per; ++i) {
        sut::Err e;
        const sut::Tup *t = sut::relPut(r.r, sut::mkTuple(row(put++)), e);
        if (t != nullptr) {
          look(t);
        }
      }
      while (drain || j + 1 == rounds) {
        sut::Err e;
        const sut::Tup *t = sut::relGet(r.r, e);
        if (t == nullptr || e) {
          break;
        }
        look(t);
      }
    }
    if (nan) {
      return true;
    }
  }
  return false;
}

// Rows put into one relational runner: all at once, in rounds, decoded again...
void relHistory(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 4;
  Schema sc = genSchema(s, so);
  ProgOpts po;
  po.maxStages = 4;
  po.rowErrors = s.chance(60);
  po.maxAggs = 3;
  Prog p = genProg(s, sc.ty, po);
  // What passes a filter after a grouping depends on how many rows there were: without such filters.
  bool grouped = false;
  Prog q;
  for (auto &st : p) {
    if (st.k == Stage::FILTER && grouped) {
      continue;
    }
    grouped = grouped || st.k == Stage::GROUPED || st.k == Stage::UNGROUPED;
    q.push_back(std::move(st));
  }
  p = std::move(q);
  Bytes code;
  encProg(code, p, &s);
  noteProg(c, p, code);
  c.mixHash(code);
  u8 how = s.byte();
  bool again = (how & 3) == 1, drain = (how & 3) != 0;
  int uniq = (how & 4) != 0 ? (int)s.below((u32)sc.ty.size()) : -1;
  u64 seed = s.bits(4);
  u32 n = drain ? 15 + s.below(40) : 40 + s.below(260), per = drain ? 1 + s.below(4) : 1;
  c.mixHash(&how, 1);
  c.mixHash(&seed, 8);
  c.label(again ? "rounds of decoding, rows and fetching" : drain ? "rounds of rows and fetching" : "number of rows");
  {
    Prng rng(seed);
    if (nanKeys(c, p, n * SCALE, per, drain, [&](u64 k) { return bulkRow(rng, sc, k, uniq); })) {
      c.label("NaN keys left out");
      return;
    }
  }
  growth(c, drain ? "rounds" : "rows", n, SCALE, [&](Work &w, u64 m) {
    Rel r;
    Prng rng(seed);
    mustDecodeRel(c, r.r, code);
    // The few rows are a sample of the many, so that about the same share of them passes a filter.
    u64 put = 0;
    bool few = m == n, failed = false;
    for (u64 k = 0; k < m; ++k) {
      if (again) {
        measuredRel(c, w, r.r, code);
      }
      for (u32 j = 0; j < per; ++j) {
        putRow(w, r.r, bulkRow(rng, sc, few ? put * SCALE + (put * 7) % SCALE : put, uniq));
        ++put;
      }
      if (drain) {
        failed = !drainAll(w, r.r) || failed;
      }
    }
    if (!drain && (how & 8) != 0) {
      failed = !drainAll(w, r.r) || failed;
    }
    if (failed) {
      w.forget("fetching");  // an error cuts it short at any point
    }
    w("releasing the runner", [&] {
      sut::freeRel(r.r);
      r.r = nullptr;
    });
  });
  c.nontrivial = true;
}

// Groups: keys of one or several columns, taken from ordinary sequences.
void groups(Ctx &c) {
  Src &s = c.src;
  u32 nk = 1 + s.below(s.chance(40) ? 5 : 2);
  struct Col {
    u8 ty, how;
    i64 base, step;
    std::string prefix, suffix;
  };
  std::vector<Col> cols;
  u32 main = s.below(nk);
  for (u32 k = 0; k < nk; ++k) {
    Col col;
    col.ty = genType(s);
    if (k == main && col.ty == T_BOOL) {
      col.ty = T_I64;
    }
    col.how = k == main ? (u8)s.below(2) : (u8)(2 + s.below(2));
    col.base = (i64)s.below(100000) - 50000;
    static const i64 STEP[] = {1, 1, 2, 3, 7, 10, 64, 100, 1000, 1024};
    col.step = STEP[s.below(10)];
    col.prefix = std::string(s.below(s.chance(100) ? s.chance(120) ? 600 : 60 : 12), (char)('a' + s.below(26)));
    col.suffix = std::string(s.below(s.chance(100) ? s.chance(120) ? 600 : 60 : 6), (char)('a' + s.below(26)));
    cols.push_back(col);
  }
  Stage st;
  st.k = Stage::GROUPED;
  std::vector<u8> ty;
  for (const auto &col : cols) {
    st.keys.push_back((i32)ty.size());
    ty.push_back(col.ty);
  }
  st.aggs.resize(1);
  Prog p{st};
  Bytes code;
  encProg(code, p, nullptr);
  noteProg(c, p, code);
  u32 n = 60 + s.below(240);
  u64 seed = s.bits(4);
  c.mixHash(code);
  c.mixHash(&n, 4);
  c.mixHash(&seed, 8);
  c.label("number of groups");
  if (c.wantDesc) {
    for (const auto &col : cols) {
      c.note(fmt("column of type %d, kind %d, from %lld by %lld, ", col.ty, col.how, (long long)col.base, (long long)col.step) + col.prefix + "#" + col.suffix);
    }
  }
  growth(c, "groups", n, SCALE, [&](Work &w, u64 m) {
    Rel r;
    mustDecodeRel(c, r.r, code);
    for (u64 k = 0; k < m; ++k) {
      Row row;
      Prng rng(seed + k);
      for (const auto &col : cols) {
        i64 x;
        switch (col.how) {
        case 0:  // one after another
          x = col.base + (i64)k * col.step;
          break;
        case 1:  // at random
          x = (i64)(rng.next() & 0xFFFFFFFFFFFF);
          break;
        case 2:  // the same
          x = col.base;
          break;
        default:  // one of a few
          x = (i64)rng.below(5);
        }
        Val v;
        v.ty = col.ty;
        if (col.ty == T_STR) {
          v.s = col.prefix + std::to_string(x) + col.suffix;
        } else if (col.ty == T_F32 || col.ty == T_F64) {
          v.d = (double)x / (col.how == 1 ? 1 : 8);
        } else {
          v.i = x;
        }
        fixUp(v);
        row.push_back(v);
      }
      putRow(w, r.r, row);
    }
    drainAll(w, r.r);
  });
  c.nontrivial = true;
}

// Wide rows with as many expressions, keys or aggregations.
void relWidth(Ctx &c) {
  Src &s = c.src;
  u8 kind = s.byte() % 4;
  u8 ty = genType(s);
  Val v = genVal(s, ty, H_SHORT);
  u32 n = 20 + s.below(80), rows = 1 + s.below(4);
  c.label("width of rows and programs");
  c.mixHash(&kind, 1);
  c.mixHash(Row{v});
  c.mixHash(&n, 4);
  c.note("every column is " + show(v));
  static const char *const NAME[] = {"expressions", "terms of a predicate", "aggregations", "grouping columns"};
  growth(c, NAME[kind], n, SCALE, [&](Work &w, u64 m) {
    Stage st;
    st.k = kind == 0 ? Stage::PROJECT : kind == 1 ? Stage::FILTER : kind == 2 ? Stage::UNGROUPED : Stage::GROUPED;
    for (u64 k = 0; k < m; ++k) {
      i32 col = (i32)(m - 1 - k);
      switch (kind) {
      case 0:
        st.ops.push_back(opVar(ty, col));
        break;
      case 1:
        st.ops.push_back(opVar(ty, col));
        st.ops.push_back(opOf(O_ISNULL, ty));
        if (k > 0) {
          st.ops.push_back(opOf(O_OR));
        }
        break;
      case 2: {
        AggSpec a;
        a.code = (u8)(k % 2 == 0 || ty == T_BOOL || ty == T_STR ? G_COUNT | ty : G_SUM | ty);
        a.col = col;
        st.aggs.push_back(a);
        break;
      }
      default:
        st.keys.push_back(col);
      }
    }
    if (kind == 3) {
      st.aggs.resize(1);
    }
    Prog p{st};
    Bytes code;
    encProg(code, p, nullptr);
    Rel r;
    measuredRel(c, w, r.r, code);
    Row row(m, v);
    for (u32 k = 0; k < rows; ++k) {
      putRow(w, r.r, row);
    }
    drainAll(w, r.r);
    w("releasing the runner", [&] {
      sut::freeRel(r.r);
      r.r = nullptr;
    });
  });
  c.nontrivial = true;
}

// Chains of many operators.
void relLength(Ctx &c) {
  Src &s = c.src;
  u8 ty = s.chance(128) ? T_I64 : T_I32;
  u32 n = 10 + s.below(s.chance(60) ? 500 : 60), rows = 1 + s.below(4);
  std::vector<u8> kinds;
  for (u32 k = 1 + s.below(4); k > 0; --k) {
    kinds.push_back((u8)s.below(4));
  }
  int agg = s.chance(100) ? (int)s.below(100) : -1;  // where an aggregation comes, percent
  bool dropped = s.chance(40);
  c.label("length of a chain");
  c.mixHash(kinds.data(), kinds.size());
  c.mixHash(&n, 4);
  c.mixHash(&agg, sizeof agg);
  growth(c, "operators of a chain", n, SCALE, [&](Work &w, u64 m) {
    Prog p;
    for (u64 k = 0; k < m; ++k) {
      Stage st;
      if (agg >= 0 && k == m * (u64)agg / 100) {
        st.k = Stage::GROUPED;
        st.keys = {0};
        st.aggs.resize(1);
        p.push_back(st);
        continue;
      }
      switch (kinds[(size_t)(k % kinds.size())]) {
      case 0:
        st.k = Stage::FILTER;
        st.ops = {opVar(ty, 0), opOf(O_ISNULL, ty), opOf(O_NOT)};
        break;
      case 1:
        st.k = Stage::PROJECT;
        st.ops = {opVar(ty, 0), opConst(ty == T_I32 ? Val::I32(1) : Val::I64(1)), opOf(O_ADD, ty)};
        break;
      case 2:
        st.k = Stage::FILTER;
        st.ops = {opVar(ty, 0), opVar(ty, 0), opOf(O_GE, ty)};
        break;
      default:
        st.k = Stage::PROJECT;
        st.ops = {opVar(ty, 0)};
      }
      p.push_back(st);
    }
    if (dropped) {
      Stage st;
      st.k = Stage::FILTER;
      st.ops = {opVar(ty, 0), opOf(O_ISNULL, ty)};
      p.push_back(st);
    }
    Bytes code;
    encProg(code, p, nullptr);
    Rel r;
    measuredRel(c, w, r.r, code);
    for (u32 k = 0; k < rows; ++k) {
      putRow(w, r.r, Row{ty == T_I32 ? Val::I32((i32)k) : Val::I64(k)});
    }
    drainAll(w, r.r);
    w("releasing the runner", [&] {
      sut::freeRel(r.r);
      r.r = nullptr;
    });
  });
  c.nontrivial = true;
}

}  // namespace

void prop_S10(Ctx &c) {
  if (!sut::countsWork()) {
    throw CaseSkip();
  }
  Src &s = c.src;
  u8 m = s.byte();
  if (m < 45) {
    exprLength(c);
  } else if (m < 65) {
    exprWidth(c);
  } else if (m < 100) {
    textLength(c);
  } else if (m < 130) {
    exprHistory(c);
  } else if (m < 180) {
    relHistory(c);
  } else if (m < 210) {
    groups(c);
  } else if (m < 232) {
    relWidth(c);
  } else {
    relLength(c);
  }
}
