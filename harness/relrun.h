// Drives a relational runner alongside the relational model.
#pragma once
#include "util.h"

struct Abandon {};  // the rest of the case is unspecified

struct RelRun {
  Ctx &c;
  Rel r;
  RelModel m;
  u64 puts = 0, returned = 0, errors = 0, fetched = 0, drains = 0;
  bool failed = false;  // a failed decode left no program
  RelRun(Ctx &ctx, const Prog &p) : c(ctx), m(p) {
  }
  void decode(const Prog &p, Src *s);
  void decodeBad(const Bytes &b);
  // Puts one row; compares what is returned.  Throws Abandon if the model has no opinion.
  void put(const Row &row);
  // Fetches until nothing is returned; compares.
  void drain();
  // Further fetching returns nothing.
  void expectNothing(int times);
};

// Row counts of interest: mostly small, at times at boundaries up to `big`.
u32 rowCount(Src &s, u32 big);
void noteProg(Ctx &c, const Prog &p, const Bytes &code);
// One well-formed program which is refused after some operators, or nearly at once.
Bytes brokenProg(Src &s, const Prog &base);
