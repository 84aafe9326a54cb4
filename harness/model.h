// Reference model written from README.md: encodings, operator table, postfix evaluation, relational operators.
#pragma once
#include <cmath>
#include <memory>

#include "core.h"

// ---------------------------------------------------------------------------------------------- expressions

enum : u8 {
  O_POS = 0x81, O_NEG, O_ADD, O_SUB, O_MUL, O_DIV, O_MOD,
  O_EQ = 0x91, O_GE, O_GT, O_LE, O_LT, O_NE,
  O_ISNULL = 0xA1, O_ISTRUE, O_ISFALSE,
  O_MIN = 0xB1, O_MAX, O_ABS, O_ABSC,
  O_NOT = 0x51, O_AND, O_OR,
  O_CAST = 0xF0, O_FUN = 0xF1, O_CASTC = 0xFC,
};
enum : u8 {
  FN_CEIL = 0x01, FN_FLOOR = 0x02, FN_SIN = 0x07, FN_COS, FN_TAN, FN_ASIN, FN_ACOS, FN_ATAN, FN_SINH, FN_COSH,
  FN_TANH, FN_EXP, FN_LOG,
  FN_CONCAT = 0x21, FN_LOWER, FN_UPPER, FN_LEFT, FN_RIGHT, FN_TRIM, FN_LTRIM = 0x28, FN_RTRIM = 0x2A,
  FN_SUBSTR3 = 0x2C, FN_SUBSTR2, FN_MID3, FN_MID2,
};

struct Sig {
  u8 code, t, ret, n;
  u8 a[3];
};
const std::vector<Sig> &sigs();
int sigIndex(u8 code, u8 t);               // -1 if (code, t) is not supported
bool dontCareCode(u8 code, u8 t);          // cast of NULL/DECIMAL to itself, VAR<DECIMAL>
const char *opName(u8 code, u8 t);
inline bool twoByte(u8 code) {
  return (code & 0x80) != 0;
}

struct MOp {
  u8 code = 0;
  u8 t = 0;
  Val imm;      // CONST / CONST_N: the encoded value
  i32 idx = 0;  // VAR
  bool isLeaf() const {
    return code < 0x40;
  }
};
using Ops = std::vector<MOp>;

MOp opNull(u8 ty);
MOp opConst(const Val &v);   // CONST_<T>, or CONST_N for FALSE
MOp opConstN(const Val &v);  // the negated form whose value is v (ints and FALSE)
MOp opVar(u8 ty, i32 idx);
MOp opOf(u8 code, u8 t = 0);
std::string show(const Ops &o);

u8 staticType(const Ops &ops);  // type of the last operator's result

// Encoding; with a source, valid alternative varint lengths are used at times.
void encVarint(Bytes &out, u64 v, int width, Src *s);
void encVarint(Bytes &out, u64 v);
void encOp(Bytes &out, const MOp &op, Src *s);
void encOps(Bytes &out, const Ops &ops, Src *s);

enum class Dec { ACCEPT, REFUSE, UNSPEC };
struct DecRes {
  Dec st = Dec::ACCEPT;
  size_t used = 0;   // bytes consumed when accepted
  size_t bad = 0;    // offset of the offending operator when refused
  bool unknown = false;  // refused for an unknown code rather than for truncation
  Ops ops;
};
DecRes refDecode(const u8 *p, size_t n);

enum class St { OK, ERR, ANY };
struct Outcome {
  St st = St::OK;
  u8 exprErr = 0;  // T_I32 or T_I64: the error must be the value-exceeds-limits error of that type
  Row stack;
  std::string why;
};
// Applies one operator to its operands (by position).
St applyOp(const Sig &sg, const Val *a, Val &out, u8 &exprErr);
Outcome evalOps(const Ops &ops, const Row *tuple);

// ---------------------------------------------------------------------------------------------- relations

enum : u8 { G_COUNT_ALL = 0x10, G_COUNT = 0x10, G_SUM = 0x20, G_MAX = 0x30, G_MIN = 0x40 };
struct AggSpec {
  u8 code = G_COUNT_ALL;  // including the type nibble
  i32 col = 0;
};
bool aggSupported(u8 code);
u8 aggRet(const AggSpec &a);

struct Stage {
  enum K { FILTER, PROJECT, GROUPED, UNGROUPED } k = FILTER;
  Ops ops;
  std::vector<i32> keys;
  std::vector<AggSpec> aggs;
};
using Prog = std::vector<Stage>;
std::string show(const Prog &p);
void encStage(Bytes &out, const Stage &st, Src *s, bool eoe = true);
void encProg(Bytes &out, const Prog &p, Src *s, bool lastEoe = true);

struct RelDecRes {
  Dec st = Dec::ACCEPT;
  Prog prog;
};
RelDecRes refDecodeRel(const u8 *p, size_t n);

// Folds values of one column the way the aggregate does.
struct AggState {
  Val v;
  double absSum = 0;
  double absSmall = HUGE_VAL;  // 2^k for the lowest bit k set in any of the (float) values
  u64 cnt = 0;
};
struct RelModel {
  struct Group {
    Row key;
    std::vector<AggState> ag;
  };
  struct StState {
    std::vector<Group> groups;                       // in order of appearance
    std::unordered_multimap<u64, size_t> index;
  };
  Prog prog;
  std::vector<StState> stt;
  explicit RelModel(Prog p) : prog(std::move(p)) {
    stt.resize(prog.size());
  }
  // Feeds one row to stage `at`; a row leaving the chain is appended to out.
  // St::ERR: evaluation of this row raised an error (in a filter or project).  ANY: unspecified from here on.
  St put(const Row &r, size_t at, std::vector<Row> &out);
  // All rows fetched after the puts so far; leaves every stage empty.
  St drain(std::vector<Row> &out);
  void reset() {
    stt.clear();
    stt.resize(prog.size());
  }
  bool heldRows() const {
    for (const auto &s : stt) {
      if (!s.groups.empty()) {
        return true;
      }
    }
    return false;
  }
  std::vector<Row> flushStage(size_t at, St &st);
};
St aggAdd(const AggSpec &a, AggState &s, const Row &r);
Val aggResult(const AggSpec &a, const AggState &s);

// Multiset comparison (order irrelevant) honouring flags of the expected rows; empty string if equal.
std::string diffMultiset(const std::vector<Row> &exp, const std::vector<Row> &got);
