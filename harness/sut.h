// Thin interface to the code under test.  sut.cc is the only file which includes its headers.
#pragma once
#include "core.h"

namespace sut {

enum class Ex { NONE, STD, EXPR, OTHER };
struct Err {
  Ex ex = Ex::NONE;
  std::string what;
  explicit operator bool() const {
    return ex != Ex::NONE;
  }
};

// State of the process during the calls below that take an Err (decoding, running, reading, putting, fetching).
struct EnvSpec {
  int cxx = 0;     // global C++ locale: 0 classic, 1..ENV_CXX others
  int c = 0;       // C locale of the thread: 0 "C", 1.. those listed in VERIF_LOCALES
  int err = 0;     // errno
  bool fp = false; // all floating-point exception flags raised
};
const int ENV_CXX = 5;
int envLocales();           // how many C locales besides "C" there are
const char *envName(int c);
void setEnv(const EnvSpec *e);  // null: as it was

struct R;
struct Tup;  // an expr::Tuple
Tup *mkTuple(const Row &r);
Tup *mkTupleHow(const Row &r, u8 how);  // the same tuple by another history: appended, with room to spare, cut short, a copy
// A tuple of one text of n bytes, most of them alike, and `back` fails unless the only result of the run is the part
// [at, at+len) of that text, or NULL in case it is to be so.
Tup *mkHugeTuple(size_t n, u64 seed, size_t spaceFront, size_t spaceBack);
std::string hugeDiffers(R *r, const Tup *t, size_t at, size_t len);
void freeTuple(const Tup *t);
Row readTuple(const Tup *t, const Row *hint = nullptr);
void setElem(Tup *t, size_t i, const Val &v);
void setAll(Tup *t, const Row &r, u8 how);  // other contents for the same tuple, in other memory or (mostly) the same
size_t tupleSize(const Tup *t);

// Values kept from earlier runs (copies of the library's operands, strings shared).
struct Held;
Held *mkHeld();
void freeHeld(Held *h);
size_t heldSize(const Held *h);
Val heldAt(const Held *h, size_t i);

struct R;  // expr::Runner
R *mkRunner();
void freeRunner(R *r);
// Returns the offset of the returned position from `code`; check err first.
ptrdiff_t decode(R *r, const u8 *code, size_t len, Err &err);
void bind(R *r, const Tup *t);
void run(R *r, Err &err);
Row getAll(R *r, const Row *hint = nullptr);
Row getAllOr(R *r, Err &err, const Row *hint = nullptr);  // the same, errors reported
Val get(R *r, Err &err, u8 hint = T_NULL);
void hold(R *r, Held *h);      // keeps Get()
void holdAll(R *r, Held *h);   // keeps GetAll()
u8 getType(R *r);
// GetOptional<T>(): has is false for empty; err is set if it raised.
Val getOptional(R *r, u8 ty, bool &has, Err &err);

struct RR;  // rel::RelRunner
RR *mkRel();
void freeRel(RR *r);
ptrdiff_t relDecode(RR *r, const u8 *code, size_t len, Err &err);
const Tup *relPut(RR *r, const Tup *t, Err &err);
const Tup *relGet(RR *r, Err &err);

// Operand-level checks.
struct Op;
Op *mkOp(const Val &v);                 // by the most direct constructor
Op *mkOpShared(const Val &v);           // strings: from a shared_ptr
Op *mkOpStringVariant(const Val &v, int variant);  // String(std::string)/(char*,len)/(char*)/()
Op *copyOp(const Op *o);
void assignOp(Op *dst, const Op *src);
void freeOp(Op *o);
bool opEq(const Op *a, const Op *b);
bool opNe(const Op *a, const Op *b);
bool opEqNull(const Op *a);
bool opNeNull(const Op *a);
u64 opHash(const Op *o);
u64 strHash(const std::string &s);
u64 tupHash(const Tup *t);
bool tupEq(const Tup *a, const Tup *b);
Val readOp(const Op *o, u8 hint = T_NULL);
bool opReadAs(const Op *o, u8 ty, Val &v, Err &err);  // GetValue<ty>
std::string opPrint(const Op *o);
Op *roundTripAny(const Op *o, u8 ty, bool &hasValue, Err &err, bool *stringPtr);  // FromOperand then ToOperand
Op *fromAny(const Val &v, u8 ty, Err &err);          // ToOperand from an optional built here
// Operands holding arrays (kind 0..5: int32, int64, bool, float, double, string): returns a complaint or "".
std::string arrayCheck(int kind, const Row &elems);
bool strCmp(const std::string &a, const std::string &b, int which);  // String's own ==,!=,<,<=,>,>=
std::string strConcat(const std::string &a, const std::string &b);

int hexToNibble(char c);
char nibbleToHex(int n);
void hexToBytes(u8 *buf, const char *hex, size_t len);
void bytesToHex(char *hex, const u8 *buf, size_t len);
std::string hexOfBytes(const u8 *data, size_t len);

// Allocations made inside the code under test (and of tuples handed to it) that are still live.
bool countsAllocs();
void allowHuge(bool on);  // requests of more than 512 MB are refused unless this is on
// Allocation failures: while a plan is set, of the allocations made inside the code under test by this thread the
// `from`-th and every `every`-th after it fail (every 0: only that one).
struct FailPlan {
  u64 from = 0, every = 0, seen = 0, failed = 0;
};
bool canFail();
void setFailPlan(FailPlan *p);
bool exactHeap();  // the allocator reports any access beyond a heap block
void resetAllocs();
i64 liveAllocs();
u64 liveBytes();  // such bytes
bool countsWork();
u64 work();  // work done inside the code under test so far: branches taken plus bytes moved, compared and allocated
u64 peakBytes();  // highest number of such bytes alive since resetAllocs()

}  // namespace sut
