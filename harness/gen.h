// Generators of values, expressions, tuples and relational programs.
#pragma once
#include "model.h"

enum Hint { H_NONE, H_NUMSTR, H_POS, H_SMALL, H_FINITE, H_EXACT, H_SHORT };

Val genInt(Src &s, u8 ty, Hint h = H_NONE);
Val genFlt(Src &s, u8 ty, Hint h = H_NONE);
std::string genStr(Src &s, Hint h = H_NONE);
std::string genNumeral(Src &s, u8 ty);
Val genVal(Src &s, u8 ty, Hint h = H_NONE);          // never NULL
Val genRelated(Src &s, const Val &a, u8 ty, Hint h = H_NONE);  // often equal or close to a
// A size in [lo, hi]: powers of two and ten, around them, and integers found in the sources under test.
u32 bigSize(Src &s, u32 lo, u32 hi);
u8 genType(Src &s);  // one of the six types
void fixUp(Val &v);  // narrows the representation to the type

// Typed expressions.  Columns are added to `cols` as needed unless `fixed`.
struct EGen {
  Src &s;
  Row *cols = nullptr;            // the tuple being built
  std::vector<u8> *colTy = nullptr;  // declared types of the columns (fixed mode)
  bool fixed = false;
  int nullPct = 12;               // of 256: a NULL leaf
  bool checked = true;            // operators which may raise errors
  bool exactOnly = false;         // no operators with unspecified or error outcomes (used behind aggregations)
  int budget = 60;
  Ops ops;
  explicit EGen(Src &src) : s(src) {
  }
  void leaf(u8 ty, Hint h);
  void leafOf(const Val &v, u8 ty);  // supplies a given value in some way
  void gen(u8 ty, int depth, Hint h = H_NONE);
};

// A value supplied as an operand: constant, negated constant, typed NULL, or variable.
void supply(Src &s, Ops &ops, Row &cols, const Val &v, u8 ty);

const std::vector<int> &sigsReturning(u8 ty);

// Schema and rows.
struct Schema {
  std::vector<u8> ty;
  std::vector<std::vector<Val>> pool;  // values the column draws from
  std::vector<u8> nullPct;             // of 256
};
struct SchemaOpts {
  u32 maxCols = 6;
  bool exact = true;    // floats whose sums are exact, no NaN or infinities
  bool wide = false;
  bool none = false;    // at times no columns at all
};
Schema genSchema(Src &s, const SchemaOpts &o);
Row genRow(Src &s, const Schema &sc);
Row bulkRow(Prng &p, const Schema &sc, u64 serial, int uniqueCol);

struct ProgOpts {
  u32 maxStages = 4;
  bool allowAgg = true;
  bool rowErrors = false;   // stages before the first aggregation may raise errors on some rows
  bool needAgg = false;
  u32 maxAggs = 4;
};
Stage genFilter(Src &s, const std::vector<u8> &ty, bool errors, bool exact);
Stage genProject(Src &s, std::vector<u8> &ty, bool errors, bool exact);
// The same kind of stage with very many results, aggregates or keys (no errors, nothing unspecified), over columns `ty`.
void widenProject(Src &s, const std::vector<u8> &ty, Stage &st, u32 n);
void widenAgg(Src &s, const std::vector<u8> &ty, Stage &st, u32 nKeys, u32 nAggs, const std::vector<bool> &noKey);
// A long chain of cheap operators, at times with aggregations between.
Prog longChain(Src &s, const std::vector<u8> &ty, u32 n);
Stage genAgg(Src &s, std::vector<u8> &ty, bool grouped, u32 maxAggs, const std::vector<bool> *noKey = nullptr);
Prog genProg(Src &s, const std::vector<u8> &ty, const ProgOpts &o);
