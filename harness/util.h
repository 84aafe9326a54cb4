// Helpers shared by the properties.
#pragma once
#include <cstdlib>

#include "gen.h"
#include "sut.h"

// The encoded bytes in memory which ends exactly at the end of the code: directly before an inaccessible page, or
// (under AddressSanitizer) in a heap block of exactly that size.  The memory is scribbled over or released by the
// destructor; the library must not need it after decoding (its callers decode from local buffers).
struct CodeBuf {
  u8 *p;
  size_t n;
  explicit CodeBuf(const Bytes &b);
  ~CodeBuf();
  CodeBuf(const CodeBuf &) = delete;
  CodeBuf &operator=(const CodeBuf &) = delete;
  bool intact() const;  // still the bytes that were put in

 private:
  Bytes orig;
  bool heap;
};

struct Runner {
  sut::R *r;
  Runner() : r(sut::mkRunner()) {
  }
  ~Runner() {
    if (r != nullptr) {
      sut::freeRunner(r);
    }
  }
  Runner(const Runner &) = delete;
  Runner &operator=(const Runner &) = delete;
};
struct Tuple {
  const sut::Tup *t;
  explicit Tuple(const Row &r) : t(sut::mkTuple(r)) {
  }
  explicit Tuple(const sut::Tup *owned) : t(owned) {
  }
  ~Tuple() {
    if (t != nullptr) {
      sut::freeTuple(t);
    }
  }
  Tuple(const Tuple &) = delete;
  Tuple &operator=(const Tuple &) = delete;
};
struct Rel {
  sut::RR *r;
  Rel() : r(sut::mkRel()) {
  }
  ~Rel() {
    if (r != nullptr) {
      sut::freeRel(r);
    }
  }
  Rel(const Rel &) = delete;
  Rel &operator=(const Rel &) = delete;
};

// Decodes code which must be accepted and consumed completely.
void mustDecode(Ctx &c, sut::R *r, const Bytes &code);
void mustDecodeRel(Ctx &c, sut::RR *r, const Bytes &code);
// Compares the state after run() (error e) with the model's outcome.
void checkOutcome(Ctx &c, sut::R *r, const sut::Err &e, const Outcome &o, const char *what);
// Fresh runner: decode, bind, run, compare.
void checkExpr(Ctx &c, const Ops &ops, const Bytes &code, const Row &tuple, const Outcome &o);

// Appends `n` applications of operators accepted by the filter, each to generated operands; applications which end
// in an error are put last (at most one).
using SigFilter = bool (*)(const Sig &);
struct PackOpts {
  int nullPct = 20;
  bool junk = true;
  bool errors = true;
};
void opPack(Src &s, SigFilter f, u32 n, Ops &ops, Row &cols, const PackOpts &o);
void genArgs(Src &s, const Sig &g, Val *a, int nullPct);

// A general expression of one of many shapes.
void anyExpr(Src &s, Ops &ops, Row &cols, Ctx &c);

void describe(Ctx &c, const Ops &ops, const Bytes &code, const Row &tuple);
void finishHash(Ctx &c, const Bytes &code, const Row &tuple);
