// Properties R01..R07: relational operators.
#include <algorithm>

#include "relrun.h"

namespace {

std::vector<Row> genRows(Src &s, const Schema &sc, u32 n) {
  std::vector<Row> rows;
  if (sc.ty.size() > 500) {
    n = std::min(n, std::max(3u, 60000u / (u32)sc.ty.size()));
  }
  if (n <= 24) {
    for (u32 k = 0; k < n; ++k) {
      rows.push_back(genRow(s, sc));
    }
    return rows;
  }
  Prng p(s.bits(4));
  int uniq = s.chance(128) ? (int)s.below((u32)sc.ty.size()) : -1;
  u32 mod = s.chance(128) ? 0xFFFFFFFFu : 1 + s.below(2000);
  for (u32 k = 0; k < n; ++k) {
    rows.push_back(bulkRow(p, sc, k % mod, uniq));
  }
  return rows;
}

void rowLabels(Ctx &c, size_t n) {
  c.label(n == 0 ? "rows: none" : n < 10 ? "rows: 1-9" : n < 100 ? "rows: 10-99" : n < 1000 ? "rows: 100-999" : "rows: 1000 or more");
}

}  // namespace

void prop_R01(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.exact = false;
  so.wide = true;
  so.none = true;
  Schema sc = genSchema(s, so);
  Prog p{genFilter(s, sc.ty, s.chance(60), false)};
  RelRun rr(c, p);
  try {
    rr.decode(p, &s);
    u32 n = rowCount(s, 400);
    if (s.rare(2500)) {
      n = bigSize(s, 400, 72000);
    }
    rowLabels(c, n);
    u32 rest = 0;
    for (const auto &row : genRows(s, sc, n)) {
      rr.put(row);
      ++rest;
      if (n < 40 && s.chance(20)) {
        rr.expectNothing(1);
      }
    }
    rr.expectNothing(2);
    c.nontrivial = rr.returned > 0 && rr.returned + rr.errors < rest;
    c.label(rr.returned == 0 ? "all dropped" : rr.returned == rest ? "all passed" : "some passed");
    if (rr.errors > 0) {
      c.label("with failing rows");
    }
  } catch (const Abandon &) {
    c.label("unspecified row: rest of the case not compared");
  }
}

void prop_R02(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.exact = false;
  so.wide = true;
  so.none = true;
  Schema sc = genSchema(s, so);
  std::vector<u8> ty = sc.ty;
  Prog p{genProject(s, ty, s.chance(60), false)};
  bool vast = s.rare(4000);
  if (vast) {
    u32 m = bigSize(s, 300, 70000);
    widenProject(s, sc.ty, p[0], m);
    ty.assign(m, T_I32);
    c.label("hundreds of results or more");
  }
  RelRun rr(c, p);
  try {
    rr.decode(p, vast ? nullptr : &s);
    u32 n = vast ? 1 + s.below(3) : rowCount(s, 300);
    if (!vast && s.rare(2500)) {
      n = bigSize(s, 300, p[0].ops.size() > 12 || sc.ty.size() > 20 ? 3000 : 72000);
    }
    rowLabels(c, n);
    for (const auto &row : genRows(s, sc, n)) {
      rr.put(row);
      if (n < 40 && s.chance(20)) {
        rr.expectNothing(1);
      }
    }
    rr.expectNothing(2);
    c.nontrivial = rr.returned > 0 && p[0].ops.size() > 1;
    if (rr.errors > 0) {
      c.label("with failing rows");
    }
    c.label(ty.size() == 0 ? "no expressions" : ty.size() == 1 ? "one expression" : ty.size() > 50 ? "many expressions" : "several expressions");
  } catch (const Abandon &) {
    c.label("unspecified row: rest of the case not compared");
  }
}

static void aggProp(Ctx &c, bool grouped) {
  Src &s = c.src;
  SchemaOpts so;
  so.exact = !s.chance(50);
  so.wide = true;
  so.none = true;
  so.maxCols = grouped ? 5 : 4;
  Schema sc = genSchema(s, so);
  std::vector<u8> ty = sc.ty;
  // NaN must not be a key
  std::vector<bool> noKey(ty.size(), false);
  for (size_t k = 0; k < ty.size(); ++k) {
    for (const auto &v : sc.pool[k]) {
      noKey[k] = noKey[k] || ((ty[k] == T_F32 || ty[k] == T_F64) && std::isnan(v.d));
    }
  }
  Prog p{genAgg(s, ty, grouped, 6, &noKey)};
  bool vast = s.rare(4000);
  if (vast) {
    u8 m = s.byte();
    u32 size = bigSize(s, 100, 70000);
    widenAgg(s, sc.ty, p[0], grouped && m < 170 ? size : 0, !grouped || m >= 128 ? size : 0, noKey);
    c.label("hundreds of keys or aggregates or more");
  }
  RelRun rr(c, p);
  u32 big = c.thorough ? 80000 : 72000;
  u32 n = rowCount(s, 400);
  if (s.rare(c.thorough ? 300 : 1500)) {
    n = rowCount(s, big) | 1024;
    if (n < 2000 && s.chance(128)) {
      n = 65530 + s.below(20);
    }
  }
  if (vast) {
    n = s.below(6);
  }
  if (n == 0 && s.chance(200)) {
    n = 1;
  }
  rowLabels(c, n);
  try {
    rr.decode(p, vast ? nullptr : &s);
    std::vector<Row> rows = genRows(s, sc, n);
    if (s.chance(60) && n > 0) {  // runs of equal rows, then others in between
      for (u32 k = 0; k + 1 < rows.size(); k += 3) {
        rows[k + 1] = rows[k];
      }
    }
    for (const auto &row : rows) {
      rr.put(row);
    }
    rr.drain();
    rr.expectNothing(2);
    c.nontrivial = n >= 2 && (!grouped || rr.fetched >= 2);
    if (grouped) {
      c.label(rr.fetched <= 1 ? "groups: 0-1" : rr.fetched < 10 ? "groups: 2-9" : rr.fetched < 1000 ? "groups: 10-999" : "groups: 1000 or more");
      c.label(p[0].keys.empty() ? "keys: 0" : p[0].keys.size() == 1 ? "keys: 1" : "keys: 2 or more");
    }
    c.label(p[0].aggs.size() == 1 ? "aggregates: 1" : p[0].aggs.size() < 10 ? "aggregates: up to 9" : "aggregates: 10 or more");
  } catch (const Abandon &) {
    c.label("unspecified: rest of the case not compared");
  }
}

void prop_R03(Ctx &c) {
  aggProp(c, false);
}
void prop_R04(Ctx &c) {
  aggProp(c, true);
}

void prop_R05(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.wide = s.chance(128);
  so.none = true;
  Schema sc = genSchema(s, so);
  ProgOpts po;
  po.maxStages = 5;
  po.rowErrors = s.chance(40);
  po.needAgg = s.chance(128);
  Prog p = genProg(s, sc.ty, po);
  bool vast = s.rare(2500);
  if (vast) {
    p = longChain(s, sc.ty, bigSize(s, 40, 3000));
    c.label("a chain of tens of operators or more");
  }
  int aggs = 0, after = 0;
  for (const auto &st : p) {
    if (st.k == Stage::GROUPED || st.k == Stage::UNGROUPED) {
      ++aggs;
    } else if (aggs > 0) {
      ++after;
    }
  }
  RelRun rr(c, p);
  u32 n = rowCount(s, 120);
  if (vast) {
    n = s.below(8);
  } else if (s.rare(400)) {
    n = rowCount(s, 3000);
  } else if (s.rare(5000) && p.size() < 8) {
    n = bigSize(s, 3000, 40000);
  }
  rowLabels(c, n);
  c.label(aggs == 0 ? "no aggregation" : aggs == 1 ? "one aggregation" : "several aggregations");
  if (after > 0) {
    c.label("operators behind an aggregation");
  }
  try {
    rr.decode(p, vast ? nullptr : &s);
    for (const auto &row : genRows(s, sc, n)) {
      rr.put(row);
    }
    if (aggs == 0) {
      rr.expectNothing(1);
    }
    rr.drain();
    rr.expectNothing(2);
    c.nontrivial = p.size() >= 2 && rr.returned + rr.fetched > 0;
  } catch (const Abandon &) {
    c.label("unspecified: rest of the case not compared");
  }
}

void prop_R06(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 4;
  Schema sc = genSchema(s, so);
  ProgOpts po;
  po.maxStages = 4;
  po.rowErrors = true;
  po.maxAggs = 3;
  std::vector<Prog> progs;
  // At times a column holds values of another type as well, which a filter in front notices.
  int alien = s.chance(50) ? (int)s.below((u32)sc.ty.size()) : -1;
  if (alien >= 0) {
    u8 t = genType(s);
    if (t == sc.ty[(size_t)alien]) {
      t = t == T_STR ? T_I32 : T_STR;
    }
    auto &pool = sc.pool[(size_t)alien];
    pool.insert(pool.begin() + (long)s.below((u32)pool.size() + 1), genVal(s, t, H_SHORT));
    c.label("values of another type");
  }
  for (u32 k = 1 + s.below(3); k > 0; --k) {
    po.needAgg = !s.chance(60);
    Prog p = genProg(s, sc.ty, po);
    if (alien >= 0) {
      u8 t = sc.ty[(size_t)alien];
      Stage f;
      f.k = Stage::FILTER;
      f.ops = {opVar(t, alien), opVar(t, alien), opOf(O_EQ, t), opOf(O_ISNULL, T_BOOL)};
      if (s.chance(180)) {
        f.ops.push_back(opOf(O_NOT));
      }
      p.insert(p.begin(), f);
    } else if (s.chance(110)) {  // a first operator which fails for some values of a column
      for (u32 j = 0; j < sc.ty.size(); ++j) {
        if (sc.ty[j] == T_I32 || sc.ty[j] == T_I64) {
          Stage f;
          f.k = Stage::FILTER;
          // 2147483648 - |x - c| ... simplest: checked ABS of (MIN when x equals the column's first value)
          const Val &v = sc.pool[j][0];
          Val mn = sc.ty[j] == T_I32 ? Val::I32(INT32_MIN) : Val::I64(INT64_MIN);
          f.ops = {opVar(sc.ty[j], (i32)j), opConst(v), opOf(O_SUB, sc.ty[j]), opConst(mn), opOf(O_ADD, sc.ty[j]),
                   opOf(O_ABSC, sc.ty[j]), opOf(O_ISNULL, sc.ty[j]), opOf(O_NOT)};
          p.insert(p.begin(), f);
          break;
        }
      }
    }
    progs.push_back(p);
  }
  RelRun rr(c, progs[0]);
  u32 steps = 3 + s.below(14);
  if (s.rare(250)) {
    steps = bigSize(s, 20, 300);
  }
  int rounds = 0, redecodes = 0, undrained = 0, bads = 0;
  auto burst = [&](u32 top) {  // many rounds of a row or two and their fetching, with or without decoding again
    u32 many = top > 65536 ? 65520 + s.below(3000) : bigSize(s, 20, top);
    u8 how = s.byte();
    std::vector<Row> few = genRows(s, sc, 1 + s.below(3));
    const Prog &p = progs[s.below((u32)progs.size())];
    Bytes code, other;
    encProg(code, p, nullptr);
    encProg(other, progs[s.below((u32)progs.size())], nullptr);
    rr.decode(p, nullptr);
    c.note(fmt("%u rounds of %zu rows", many, few.size()));
    c.label("many rounds");
    for (u32 k = 0; k < many; ++k) {
      if ((how & 3) == 1) {
        mustDecodeRel(c, rr.r.r, other);
      }
      if ((how & 3) < 2) {
        mustDecodeRel(c, rr.r.r, code);
        rr.m = RelModel(p);
        rr.failed = false;
      }
      for (const auto &row : few) {
        rr.put(row);
      }
      if ((how & 4) == 0 || k % 5 == 0) {
        rr.drain();
        rr.expectNothing(how >> 7);
      }
    }
  };
  u64 putsSince = 0;
  bool any = false;
  try {
    rr.decode(progs[0], &s);
    for (u32 k = 0; k < steps; ++k) {
      u8 m = s.byte();
      if (s.rare(2000)) {
        burst(s.rare(c.thorough ? 10 : 100) ? 70000 : 2200);
        any = true;
        ++redecodes;
        putsSince = 0;
        continue;
      }
      if (rr.failed || m >= 225) {
        if (!rr.failed && putsSince > 0 && rr.m.heldRows()) {
          ++undrained;
        }
        if (m % 3 == 0 && !rr.failed) {
          rr.decodeBad(brokenProg(s, s.chance(128) ? progs[s.below((u32)progs.size())] : Prog()));
          ++bads;
        } else {
          rr.decode(progs[s.below((u32)progs.size())], &s);
          ++redecodes;
        }
        putsSince = 0;
      } else if (m < 150) {
        u32 n = 1 + s.below(s.chance(30) ? 60 : 6);
        if (s.rare(1000)) {
          n = bigSize(s, 60, 4100);
        }
        for (const auto &row : genRows(s, sc, n)) {
          rr.put(row);
          ++putsSince;
        }
        any = true;
      } else {
        rr.drain();
        rr.expectNothing((int)s.below(3));
        rounds += putsSince > 0;
        putsSince = 0;
      }
    }
    if (!rr.failed) {
      rr.drain();
      rr.expectNothing(1);
      rounds += putsSince > 0;
    }
  } catch (const Abandon &) {
    c.label("unspecified: rest of the history not compared");
  }
  if (rounds >= 2) {
    c.label("two or more rounds");
  }
  if (redecodes > 0) {
    c.label("decoded again");
  }
  if (undrained > 0) {
    c.label("decoded again with rows held");
  }
  if (bads > 0) {
    c.label("refused decode in the history");
  }
  if (rr.errors > 0) {
    c.label("failing rows");
  }
  c.nontrivial = any && (rounds >= 2 || redecodes > 0 || rr.errors > 0);
}

// Runs an aggregation over rows without a model; returns what it yields.
static std::vector<Row> aggRun(Ctx &c, const Bytes &code, const std::vector<Row> &rows, const std::vector<u32> &order) {
  Rel r;
  mustDecodeRel(c, r.r, code);
  sut::Err e;
  for (u32 k : order) {
    Tuple t{sut::relPut(r.r, sut::mkTuple(rows[k]), e)};
    if (e) {
      c.fail("Put raised an error for row " + show(rows[k]) + ": " + e.what);
    }
    if (t.t != nullptr) {
      c.fail("an aggregation returned a row while rows are put: " + show(sut::readTuple(t.t)));
    }
  }
  std::vector<Row> got;
  while (true) {
    Tuple t{sut::relGet(r.r, e)};
    if (e) {
      c.fail("Get raised an error: " + e.what);
    }
    if (t.t == nullptr) {
      return got;
    }
    got.push_back(sut::readTuple(t.t));
    if (got.size() > rows.size() + 10) {
      c.fail("more rows fetched than were put");
    }
  }
}

static void loosen(std::vector<Row> &rows) {
  for (auto &r : rows) {
    for (auto &v : r) {
      if ((v.ty == T_F32 || v.ty == T_F64) && v.d == 0) {
        v.fl = F_ZS;
      }
    }
  }
}

void prop_R07(Ctx &c) {
  Src &s = c.src;
  SchemaOpts so;
  so.maxCols = 5;
  so.exact = true;
  Schema sc = genSchema(s, so);
  std::vector<u8> ty = sc.ty;
  bool grouped = s.chance(160);
  Stage st = genAgg(s, ty, grouped, 5);
  u32 n = 2 + rowCount(s, 400);
  std::vector<Row> rows = genRows(s, sc, n);
  n = (u32)rows.size();
  Prog p{st};
  Bytes code;
  encProg(code, p, nullptr);
  noteProg(c, p, code);
  for (const auto &r : rows) {
    c.mixHash(r);
    if (n < 60 && c.wantDesc) {
      c.note("row " + show(r));
    }
  }
  c.mixHash(code);
  std::vector<u32> order(n);
  for (u32 k = 0; k < n; ++k) {
    order[k] = k;
  }
  std::vector<Row> base = aggRun(c, code, rows, order);
  loosen(base);
  for (size_t k = 0; k < st.aggs.size(); ++k) {  // single-precision sums are exact up to 2^24 eighths only
    if (st.aggs[k].code == (G_SUM | T_F32)) {
      double sum = 0;
      for (const auto &r : rows) {
        sum += std::fabs(r[(size_t)st.aggs[k].col].d);
      }
      if (sum * 8 >= 16777216.0) {
        for (auto &r : base) {
          if (st.keys.size() + k < r.size()) {
            r[st.keys.size() + k].fl = F_ANY;
          }
        }
        c.label("inexact sum left out");
      }
    }
  }
  // against the model, too: both orders could be wrong in the same way
  {
    RelModel m(p);
    std::vector<Row> out, exp;
    bool known = true;
    for (const auto &r : rows) {
      known = known && m.put(r, 0, out) == St::OK;
    }
    known = known && m.drain(exp) == St::OK;
    if (known) {
      std::string d = diffMultiset(exp, base);
      if (!d.empty()) {
        c.fail("result of the original order: " + d);
      }
    }
  }
  // permutations
  u32 perms = 1 + s.below(3);
  for (u32 q = 0; q < perms; ++q) {
    std::vector<u32> o = order;
    u8 how = s.byte();
    if (how < 60) {
      std::reverse(o.begin(), o.end());
    } else if (how < 110) {
      std::rotate(o.begin(), o.begin() + (long)s.below(n), o.end());
    } else {
      Prng pr(s.bits(3));
      for (u32 k = n - 1; k > 0; --k) {
        std::swap(o[k], o[pr.below(k + 1)]);
      }
    }
    std::vector<Row> got = aggRun(c, code, rows, o);
    std::string d = diffMultiset(base, got);
    if (!d.empty()) {
      c.fail("another order of the rows gives another result: " + d);
    }
    c.sub();
  }
  // partitions, merged by a second aggregation over the partial results
  u32 parts = 2 + s.below(4);
  std::vector<std::vector<u32>> part(parts);
  Prng pr(s.bits(3));
  u8 skew = s.byte();
  for (u32 k = 0; k < n; ++k) {
    part[skew < 40 ? (k * parts / n) : skew < 80 ? (pr.below(20) == 0 ? pr.below(parts) : 0) : pr.below(parts)].push_back(k);
  }
  std::vector<Row> partial;
  for (const auto &o : part) {
    for (auto &r : aggRun(c, code, rows, o)) {
      partial.push_back(r);
    }
  }
  Stage mg;
  mg.k = st.k;
  for (size_t k = 0; k < st.keys.size(); ++k) {
    mg.keys.push_back((i32)k);
  }
  for (size_t k = 0; k < st.aggs.size(); ++k) {
    AggSpec a;
    a.col = (i32)(st.keys.size() + k);
    u8 g = st.aggs[k].code & 0xF0;
    a.code = g == G_COUNT ? (u8)(G_SUM | T_I64) : (u8)(g | (st.aggs[k].code & 15));
    mg.aggs.push_back(a);
  }
  Bytes code2;
  encProg(code2, Prog{mg}, nullptr);
  std::vector<u32> o2(partial.size());
  for (u32 k = 0; k < o2.size(); ++k) {
    o2[k] = k;
  }
  std::vector<Row> merged = aggRun(c, code2, partial, o2);
  std::string d = diffMultiset(base, merged);
  if (!d.empty()) {
    c.fail(fmt("aggregating in %u parts and merging gives another result: ", parts) + d);
  }
  c.label(grouped ? "grouped" : "ungrouped");
  rowLabels(c, n);
  c.nontrivial = n >= 3;
}
