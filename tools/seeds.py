# The planted bugs: bug(id, property, needs, what it breaks, [(file, old, new)...], demo, ...).

bug("e01-idempotent", "E01", "two adjacent MAX (or MIN) operators of one type, as in 'a b c MAX MAX'",
    "A MIN, MAX, ABS or POS operator that directly repeats the previous one is dropped as if it were idempotent, so operands are left on the stack.",
    [("expr/operator_vector.cc", """  const auto *op = ops[type];
  if (op != nullptr) {
    Add(op);
    return true;
  }
  return false;
}

bool OperatorVector::AddCastOperator""", """  const auto *op = ops[type];
  // Applying one of these twice in a row is the same as applying it once.
  bool idempotent = (ops == OP_POS || ops == OP_ABS || ops == OP_MIN || ops == OP_MAX);
  if (op != nullptr) {
    if (!idempotent || m_vector.empty() || m_vector.back() != op) {
      Add(op);
    }
    return true;
  }
  return false;
}

bool OperatorVector::AddCastOperator""")],
    """
int main() {
  CHECK(Eval("11 01 11 02 B2 01") == Operand(2));
  Runner r;
  Code c("11 05 11 01 11 03 B2 01 B2 01");
  Dec(r, c);
  r.Run();
  CHECK(r.Get() == Operand(5));
  std::unique_ptr<Tuple> t(r.GetAll());
  CHECK(t->size() == 1);
}
""")

bug("e01-stack-ring", "E01", "an expression that needs more than 64 operands on the stack at once",
    "Popping below the 64th operand drops the bottom half of the stack, which loses operands of deeply nested expressions.",
    [("expr/operand_stack.h", """  void Push(T v) {
    m_stack.push_back(v);
  }""", """  void Push(T v) {
    // Expressions do not nest this deep, so these are left-overs.
    if (m_stack.size() >= 64) {
      m_stack.pop_front();
    }
    m_stack.push_back(v);
  }""")],
    """
int main() {
  std::string h;
  for (int i = 0; i < 70; ++i) h += "1101";
  for (int i = 0; i < 69; ++i) h += "8301";
  CHECK(Eval(h.c_str()) == Operand(70));
}
""")

bug("e02-subnormal-divisor", "E02", "a floating-point division whose divisor is subnormal but not zero",
    "Floating-point division by a subnormal number gives NULL as if the divisor were zero.",
    [("expr/calc/arithmetic.h", """template <typename T>
Operand Div(T v0, T v1) {
  if (v1 != 0) {
""", """template <typename T>
Operand Div(T v0, T v1) {
  bool zero = (v1 == 0);
  if constexpr (std::is_floating_point_v<T>) {
    // The quotient is meaningless if there are no significant digits.
    zero = (v1 > -std::numeric_limits<T>::min() && v1 < std::numeric_limits<T>::min());
  }
  if (!zero) {
"""), ("expr/calc/arithmetic.h", """#include "../operand.h"
""", """#include <limits>

#include "../operand.h"
""")],
    """
int main() {
  Tuple t{Operand(1e-320), Operand(5e-324)};
  CHECK(Eval("35 00 35 01 86 05", &t) == Operand(1e-320 / 5e-324));
  Tuple z{Operand(1.0), Operand(0.0)};
  CHECK(Eval("35 00 35 01 86 05", &z) == nullptr);
}
""")

bug("e02-abs-int64", "E02", "the absolute value of a 64-bit integer that needs more than 53 bits",
    "ABS of INT64 goes through double and loses the low bits of large values.",
    [("expr/calc/mathematic.cc", """  if (std::is_same_v<int64_t, long>) {
    return labs(v);
  }
  return llabs(v);""", """  // One implementation for both aliases.
  return v < 0 ? (int64_t)std::fabs(v) : v;""")],
    """
int main() {
  Tuple t{Operand((int64_t)-9007199254740993LL)};
  CHECK(Eval("32 00 B3 02", &t) == Operand((int64_t)9007199254740993LL));
}
""")

bug("e03-is-true-nan", "E03", "IS_TRUE applied to a NaN",
    "A NaN is neither NULL, nor TRUE, nor FALSE.",
    [("expr/calc/special.h", "  return v != nullptr && v.GetValue<T>();", "  return v != nullptr && (v.GetValue<T>() > 0 || v.GetValue<T>() < 0);")],
    """
int main() {
  for (double d : {0.0, -0.0, 1.5, -1.5, (double)NAN, (double)INFINITY}) {
    Tuple t{Operand(d)};
    int n = 0;
    n += Eval("35 00 A1 05", &t) == Operand(true);
    n += Eval("35 00 A2 05", &t) == Operand(true);
    n += Eval("35 00 A3 05", &t) == Operand(true);
    CHECK(n == 1);
  }
}
""")

bug("e03-or-null-left", "E03", "OR with a NULL left operand and a TRUE right operand",
    "NULL OR TRUE gives NULL while TRUE OR NULL gives TRUE.",
    [("expr/operator.cc", """  } else if (calc::IsTrue<bool>(v1)) {
    stack.Push(true);
  } else {""", """  } else {
    // Unknown whatever the other one is.""")],
    """
int main() {
  CHECK(Eval("13 03 53") == Operand(true));
  CHECK(Eval("03 13 53") == Operand(true));
  CHECK(Eval("03 23 53") == nullptr);
  CHECK(Eval("23 03 53") == nullptr);
}
""")

bug("e04-nul-bytes", "E04", "strings that differ only after an embedded zero byte, compared with < (not <= or MIN)",
    "< on strings stops at the first zero byte.",
    [("expr/expr_string.h", "    return *m_ptr < *v.m_ptr;", "    return strcmp(m_ptr->c_str(), v.m_ptr->c_str()) < 0;"),
     ("expr/expr_string.h", "#include <memory>\n", "#include <cstring>\n#include <memory>\n")],
    """
int main() {
  Tuple t{Operand(String("a\\0b", 3)), Operand(String("a\\0c", 3))};
  CHECK(Eval("37 00 37 01 95 07", &t) == Operand(true));
  CHECK(Eval("37 01 37 00 93 07", &t) == Operand(true));
  CHECK(Eval("37 01 37 00 95 07", &t) == Operand(false));
}
""")

bug("e04-ge-nan", "E04", "a >= or <= comparison with a NaN operand",
    ">= is computed as the negation of <, so comparing with NaN gives TRUE.",
    [("expr/calc/relational.h", "  return v0 >= v1;", "  return !(v0 < v1);")],
    """
int main() {
  Tuple t{Operand((double)NAN), Operand(1.0)};
  CHECK(Eval("35 00 35 01 92 05", &t) == Operand(false));
  CHECK(Eval("35 01 35 00 92 05", &t) == Operand(false));
  CHECK(Eval("35 01 35 01 92 05", &t) == Operand(true));
}
""")

bug("e05-sign-test", "E05", "a checked cast of a 64-bit integer that lies outside 32 bits but whose low half has the same sign",
    "The checked cast INT64 to INT32 only compares signs, so it returns the low bits of e.g. 2^32 + 5.",
    [("expr/calc/casting.cc", "  if (r == v) {", "  // Truncation shows as a change of the sign.\n  if ((r < 0) == (v < 0)) {")],
    """
int main() {
  Tuple t{Operand((int64_t)4294967301LL)};
  bool thrown = false;
  try {
    Eval("32 00 FC 12", &t);
  } catch (const ExprError &) {
    thrown = true;
  }
  CHECK(thrown);
  Tuple u{Operand((int64_t)-7)};
  CHECK(Eval("32 00 FC 12", &u) == Operand(-7));
}
""")

bug("e05-half-up", "E05", "a double whose sum with 0.5 is not representable, as the largest one below 0.5 or an odd integer above 2^52",
    "Rounding by adding 0.5 and truncating is off by one where the sum is rounded.",
    [("expr/calc/casting.cc", """int64_t Cast(double v) {
  return llround(v);""", """int64_t Cast(double v) {
  return (int64_t)(v < 0 ? v - 0.5 : v + 0.5);""")],
    """
int main() {
  for (double d : {0.49999999999999994, -0.49999999999999994, 4503599627370497.0, -4503599627370497.0, 2.5, -2.5}) {
    Tuple t{Operand(d)};
    CHECK(Eval("35 00 F0 25", &t) == Operand((int64_t)std::llround(d)));
  }
}
""")

bug("e06-fixed-buffer", "E06", "a finite floating-point value of 1e48 or more cast to text",
    "The text of huge values is cut to 63 characters.",
    [("expr/calc/casting.cc", "  auto s = ss.str();\n", """  auto s = ss.str();
  // Enough for any value.
  if (s.size() > 63) {
    s.resize(63);
  }
""")],
    """
int main() {
  for (double d : {1.5, 1e47, 3e60, 1.7976931348623157e308}) {
    Tuple t{Operand(d)};
    auto s = Eval("35 00 F0 75", &t);
    CHECK(strtod(s.GetValue<String>()->c_str(), nullptr) == d);
  }
}
""")

bug("e06-stoi-wide", "E06", "text with an integer numeral that fits 64 bits but not 32, cast to INT32",
    "Casting text to INT32 parses a 64-bit integer and keeps the low half, so numerals that do not fit give a wrong number.",
    [("expr/calc/casting.cc", "    return std::stoi(*v);", "    return std::stol(*v);")],
    """
int main() {
  Tuple t{Operand(String("4294967297"))};
  bool thrown = false;
  try {
    Eval("37 00 F0 17", &t);
  } catch (const std::exception &) {
    thrown = true;
  }
  CHECK(thrown);
  Tuple u{Operand(String(" -12x"))};
  CHECK(Eval("37 00 F0 17", &u) == Operand(-12));
}
""")

bug("e07-mid-clamp", "E07", "MID with a negative position further back than the start of the string",
    "MID with two arguments treats a position before the start as the start instead of giving the empty string.",
    [("expr/calc/string_fun.cc", """  } else if (-len <= v1 && v1 < 0) {
    start = v1 + len;
  } else {
    return String();
  }
  return v0->substr(start);""", """  } else if (v1 < 0) {
    v1 = v1 < -len ? -len : v1;
    start = v1 + len;
  } else {
    return String();
  }
  return v0->substr(start);""")],
    """
int main() {
  Tuple t{Operand(String("abc")), Operand(-3), Operand(-4)};
  CHECK(Eval("37 00 31 01 F1 2F", &t) == Operand(String("abc")));
  CHECK(Eval("37 00 31 02 F1 2F", &t) == Operand(String("")));
}
""")

bug("e07-high-bytes", "E07", "TRIM of a string with a byte above 0x7F at its beginning that would be white space without its top bit",
    "TRIM also removes the leading bytes 0x89 to 0x8D and 0xA0, which are not white space.",
    [("expr/calc/string_fun.cc", "String Trim(String v) {\n  auto s = std::find_if_not(v->cbegin(), v->cend(), IsSpace);",
      "String Trim(String v) {\n  // Only 7 bits are significant.\n  auto s = std::find_if_not(v->cbegin(), v->cend(), [](char ch) { return IsSpace(ch & 0x7F); });")],
    """
int main() {
  Tuple t{Operand(String("\\x20\\xA0x\\xA0\\x20"))};
  CHECK(Eval("37 00 F1 28", &t) == Operand(String("\\xA0x\\xA0\\x20")));
  CHECK(Eval("37 00 F1 26", &t) == Operand(String("\\xA0x\\xA0")));
}
""")

bug("e08-floor-int", "E08", "FLOOR of a double beyond 2^63, of -0.0, of NaN or of an infinity",
    "FLOOR goes through a 64-bit integer, so it is wrong for values that do not fit and loses the sign of zero.",
    [("expr/operators.cc", "    [0x02] = new UnaryArithmeticOperator<TYPE_DOUBLE, ::floor>,", "    [0x02] = new UnaryArithmeticOperator<TYPE_DOUBLE, FastFloor>,"),
     ("expr/operators.cc", """const size_t FUN_NUM = 0x36;
""", """// Avoids the call of the library function.
static double FastFloor(double v) {
  auto i = (int64_t)v;
  return v < (double)i ? i - 1 : i;
}

const size_t FUN_NUM = 0x36;
""")],
    """
int main() {
  for (double d : {1.5, -1.5, 3.0, -3.0, 1e300, -1e300, 9.5e18, (double)INFINITY}) {
    Tuple t{Operand(d)};
    CHECK(Eval("35 00 F1 02", &t) == Operand(std::floor(d)));
  }
}
""")

bug("e08-sinh-exp", "E08", "TANH of an argument near zero or far from it",
    "TANH is computed from exponentials, which cancels for small and overflows for large arguments.",
    [("expr/operators.cc", "    [0x0F] = new UnaryArithmeticOperator<TYPE_DOUBLE, ::tanh>,", "    [0x0F] = new UnaryArithmeticOperator<TYPE_DOUBLE, TanhByExp>,"),
     ("expr/operators.cc", """const size_t FUN_NUM = 0x36;
""", """static double TanhByExp(double v) {
  auto e = ::exp(2 * v);
  return std::isinf(e) ? 1.0 : (e - 1) / (e + 1);
}

const size_t FUN_NUM = 0x36;
""")],
    """
int main() {
  for (double d : {1.0, -1.0, 1e-9, -1e-9, 3e-5, 800.0}) {
    Tuple t{Operand(d)};
    auto v = Eval("35 00 F1 0F", &t).GetValue<double>();
    CHECK(std::fabs(v - std::tanh(d)) <= 1e-14 * std::fabs(std::tanh(d)));
  }
}
""")

bug("e09-string-length", "E09", "a string constant of 65536 bytes or more",
    "The length of a string constant is kept in 16 bits, so a longer one is decoded to its length modulo 65536.",
    [("expr/expr_string.h", "  String(const char *str, size_t len) :", "  String(const char *str, uint16_t len) :"),
     ("expr/expr_string.h", "#include <memory>\n", "#include <cstdint>\n#include <memory>\n")],
    """
int main() {
  std::vector<Byte> c{0x17, 0x85, 0x80, 0x04};  // 65541 bytes
  for (int i = 0; i < 65541; ++i) c.push_back('a' + i % 26);
  auto v = Eval(Code(c)).GetValue<String>();
  CHECK(v->size() == 65541);
  CHECK(memcmp(v->data(), c.data() + 4, 65541) == 0);
}
""")

bug("e09-negated-long", "E09", "a negated INT64 constant that needs more than 32 bits",
    "The magnitude of a negated INT64 constant is decoded into 32 bits.",
    [("expr/operator_vector.cc", """    case CONST_N_INT64: {
      ++p;
      int64_t v;
""", """    case CONST_N_INT64: {
      ++p;
      int32_t v;
""")],
    """
int main() {
  CHECK(Eval("22 05") == Operand((int64_t)-5));
  CHECK(Eval("22 81 80 80 80 10") == Operand((int64_t)-4294967297LL));
}
""")

bug("e10-byte-index", "E10", "a variable index of 256 or more (and so a tuple with more than 256 elements)",
    "A variable keeps its index in one byte and reads the element at the index modulo 256.",
    [("expr/operator.h", """ private:
  int32_t m_index;
};""", """ private:
  // Tuples are narrow, so one byte is enough.
  Byte m_index;
};""")],
    """
int main() {
  Tuple t;
  for (int i = 0; i < 300; ++i) t.push_back(Operand(i));
  CHECK(Eval("31 05", &t) == Operand(5));
  CHECK(Eval("31 85 02", &t) == Operand(261));
}
""")

bug("e10-wide-index", "E10", "a variable index of 65536 or more",
    "Variable indices are looked up modulo 65536.",
    [("expr/operand_stack.h", "      m_stack.push_back((*m_tuple)[index]);", "      m_stack.push_back((*m_tuple)[(uint16_t)index]);")],
    """
int main() {
  Tuple t;
  for (int i = 0; i < 70000; ++i) t.push_back(Operand(i));
  CHECK(Eval("31 05", &t) == Operand(5));
  CHECK(Eval("31 81 80 04", &t) == Operand(65537));
}
""")

bug("e10-cached-var", "E10", "two runs of one expression with the bound tuple's contents changed in between",
    "Binding copies the tuple, so a change of the bound tuple's contents does not take effect on the next run.",
    [("expr/operand_stack.h", """  void BindTuple(const Tuple *tuple) {
    m_tuple = tuple;
  }""", """  void BindTuple(const Tuple *tuple) {
    // Keep a copy, the caller may release the tuple.
    m_copy.reset(tuple != nullptr ? new Tuple(*tuple) : nullptr);
    m_tuple = m_copy.get();
  }"""), ("expr/operand_stack.h", "  const Tuple *m_tuple;\n", "  const Tuple *m_tuple;\n  std::shared_ptr<const Tuple> m_copy;\n")],
    """
int main() {
  Tuple t{Operand(1)};
  Runner r;
  Code c("31 00");
  Dec(r, c);
  r.BindTuple(&t);
  r.Run();
  CHECK(r.Get() == Operand(1));
  t[0] = Operand(2);
  r.Run();
  CHECK(r.Get() == Operand(2));
}
""")

bug("e11-swallow-zeros", "E11", "an expression whose end byte is followed by further zero bytes",
    "Decoding consumes all zero bytes after the end of the expression, not just one.",
    [("expr/operator_vector.cc", """    case EOE:
      ++p;
      goto eoe;""", """    case EOE:
      while (p < code + len && *p == EOE) {
        ++p;
      }
      goto eoe;""")],
    """
int main() {
  Runner r;
  Code c("11 01 00 00 11 02");
  CHECK(r.Decode(c.p, c.n) == c.p + 3);
}
""")

bug("e12-div-float", "E12", "the reported type of a FLOAT division",
    "FLOAT division is declared to give DOUBLE while it gives FLOAT.",
    [("expr/operators.cc", "    [TYPE_FLOAT]   = new BinaryOperatorV2<TYPE_FLOAT, TYPE_FLOAT, TYPE_FLOAT, calc::Div>,",
      "    [TYPE_FLOAT]   = new BinaryOperatorV2<TYPE_DOUBLE, TYPE_FLOAT, TYPE_FLOAT, calc::Div>,")],
    """
int main() {
  Runner r;
  Code c("14 3F 80 00 00 14 40 00 00 00 86 04");
  Dec(r, c);
  r.Run();
  CHECK(r.Get() == Operand(0.5f));
  CHECK(r.GetType() == TYPE_FLOAT);
}
""")

bug("e13-left-over", "E13", "a run that raises an error with operands on the stack, then a successful run whose results are all read",
    "A run removes only the results of the last successful run, so operands left by a failed run stay below later results.",
    [("expr/runner.cc", """  m_operand_stack.Clear();
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
  }""", """  for (; m_results > 0; --m_results) {
    m_operand_stack.Pop();
  }
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
  }
  m_results = m_operand_stack.Size();"""),
     ("expr/runner.h", "  mutable OperandStack m_operand_stack;\n", "  mutable OperandStack m_operand_stack;\n  mutable size_t m_results = 0;\n")],
    """
int main() {
  Runner r;
  Tuple bad{Operand(1), Operand(String("x"))};
  Tuple good{Operand(1), Operand(2)};
  Code c("31 00 31 00 31 01 83 01");
  Dec(r, c);
  r.BindTuple(&bad);
  try {
    r.Run();
  } catch (const std::exception &) {
  }
  r.BindTuple(&good);
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  CHECK(t->size() == 2 && (*t)[0] == Operand(1) && (*t)[1] == Operand(3));
}
""")

bug("e13-failed-decode", "E13", "a decode that is refused after some operators, then a successful decode on the same runner",
    "Decoding releases the previous operators only if the previous decode succeeded.",
    [("expr/operator_vector.cc", "  Release();\n  bool successful = true;\n", "  if (m_complete) {\n    Release();\n  }\n  m_complete = false;\n  bool successful = true;\n"),
     ("expr/operator_vector.cc", "  if (successful) {\n    return p;", "  if (successful) {\n    m_complete = true;\n    return p;"),
     ("expr/operator_vector.h", "  std::vector<const Operator *> m_to_release;\n", "  std::vector<const Operator *> m_to_release;\n  bool m_complete = false;\n")],
    """
int main() {
  Runner r;
  Code bad("11 01 11 02 EE 01"), good("11 03");
  try {
    Dec(r, bad);
    CHECK(false);
  } catch (const std::exception &) {
  }
  Dec(r, good);
  r.Run();
  std::unique_ptr<Tuple> t(r.GetAll());
  CHECK(t->size() == 1 && (*t)[0] == Operand(3));
}
""")

bug("e14-lower-in-place", "E14", "LOWER of a variable or constant whose original value is looked at again afterwards",
    "LOWER changes the shared string in place, so the bound tuple and the expression's constants change.",
    [("expr/calc/string_fun.cc", """String Lower(String v) {
  std::string str(v->length(), '\\0');
""", """String Lower(String v) {
  // `v` is passed by value, so it can be reused.
  auto &str = *v.GetPtr();
"""), ("expr/calc/string_fun.cc", "ToLower);\n  return str;", "ToLower);\n  return v;")],
    """
int main() {
  Tuple t{Operand(String("AbC"))};
  CHECK(Eval("37 00 F1 22", &t) == Operand(String("abc")));
  CHECK(t[0] == Operand(String("AbC")));
}
""")

bug("e14-concat-append", "E14", "the same concatenation run twice, or its left operand read afterwards",
    "CONCAT appends to its left operand, which the tuple or the constant shares.",
    [("expr/calc/string_fun.cc", "      return *v0 + *v1;", "      v0.GetPtr()->append(*v1);\n      return v0;")],
    """
int main() {
  Runner r;
  Code c("17 01 61 17 01 62 F1 21");
  Dec(r, c);
  r.Run();
  CHECK(r.Get() == Operand(String("ab")));
  r.Run();
  CHECK(r.Get() == Operand(String("ab")));
}
""")

bug("s01-report-length", "S01", "an unknown code that is not the first byte of the expression",
    "The error for an unknown code renders as many bytes as the whole expression has, starting at the code, so it reads past the end.",
    [("expr/operator_vector.cc", "  throw UnknownCode(b, len - (b - code));", "  throw UnknownCode(b, len);")],
    """
int main() {
  Code c("11 01 11 02 83 01 11 03 EE 01");
  Runner r;
  try {
    Dec(r, c);
    CHECK(false);
  } catch (const UnknownCode &e) {
    CHECK(std::string(e.what()).find("EE01") != std::string::npos);
  }
}
""", flags="-O1 -g -fsanitize=address", env="ASAN_OPTIONS=detect_leaks=0 ")

bug("s02-elements-past-end", "S02", "a relational program cut off inside its list of aggregations, between two of them",
    "Decoding a list reads one byte past the end of the program before it notices that elements are missing.",
    [("expr/codec.h", "  for (i = 0; i < count && p < code + len; ++i) {", "  for (i = 0; i < count && p <= code + len; ++i) {")],
    """
int main() {
  Code c("74 03 21 00 21 01");
  RelRunner r;
  try {
    Dec(r, c);
    CHECK(false);
  } catch (const std::exception &) {
  }
  Code ok("74 02 21 00 21 01");
  Dec(r, ok);
}
""", flags="-O1 -g -fsanitize=address", env="ASAN_OPTIONS=detect_leaks=0 ")

bug("s03-cast-mask", "S03", "a cast whose source type nibble is 8 or above",
    "Only three bits of the source type of a cast are looked at, so undefined types are taken for others.",
    [("expr/operator_vector.cc", "  Byte src = (Byte)(b & 0x0F);", "  Byte src = (Byte)(b & 0x07);")],
    """
int main() {
  Runner r;
  Code ok("11 01 F0 21"), bad("11 01 F0 29");
  Dec(r, ok);
  bool thrown = false;
  try {
    Dec(r, bad);
  } catch (const std::exception &) {
    thrown = true;
  }
  CHECK(thrown);
}
""")

bug("s03-mod-double", "S03", "the remainder operator with a floating-point type",
    "MOD of DOUBLE, which is not supported, is accepted and computes the integer remainder of reinterpreted operands.",
    [("expr/operators.cc", """    [TYPE_INT64]   = new BinaryOperatorV2<TYPE_INT64, TYPE_INT64, TYPE_INT64, calc::Mod>,
    [TYPE_BOOL]    = nullptr,
    [TYPE_FLOAT]   = nullptr,
    [TYPE_DOUBLE]  = nullptr,""", """    [TYPE_INT64]   = new BinaryOperatorV2<TYPE_INT64, TYPE_INT64, TYPE_INT64, calc::Mod>,
    [TYPE_BOOL]    = nullptr,
    [TYPE_FLOAT]   = nullptr,
    [TYPE_DOUBLE]  = new BinaryOperatorV2<TYPE_INT64, TYPE_INT64, TYPE_INT64, calc::Mod>,""")],
    """
int main() {
  Runner r;
  Code bad("35 00 35 01 87 05");
  bool thrown = false;
  try {
    Dec(r, bad);
  } catch (const std::exception &) {
    thrown = true;
  }
  CHECK(thrown);
}
""")

bug("s04-get-if", "S04", "an operator applied to an operand of another type",
    "Reading a value as another type dereferences a null pointer instead of raising an error.",
    [("expr/operand.h", "    return std::get<T>(m_data);", "    return *std::get_if<T>(&m_data);")],
    """
int main() {
  Tuple t{Operand(String("x")), Operand(2)};
  bool thrown = false;
  try {
    Eval("31 00 31 01 83 01", &t);
  } catch (const std::exception &) {
    thrown = true;
  }
  CHECK(thrown);
}
""")

bug("s04-reinterpret", "S04", "an INT64 operator applied to an operand that holds INT32",
    "Reading an INT32 operand as INT64 widens it silently instead of raising an error.",
    [("expr/operand.h", "    return std::get<T>(m_data);", """    if constexpr (std::is_same_v<T, int64_t>) {
      if (const auto *p = std::get_if<int32_t>(&m_data)) {
        return *p;
      }
    }
    return std::get<T>(m_data);""")],
    """
int main() {
  Tuple t{Operand(1), Operand((int64_t)2)};
  bool thrown = false;
  try {
    Eval("32 00 32 01 83 02", &t);
  } catch (const std::exception &) {
    thrown = true;
  }
  CHECK(thrown);
}
""")

bug("s05-undrained-agg", "S05", "a runner with an ungrouped aggregation that is destroyed or re-decoded before its row has been fetched",
    "The accumulated row of an ungrouped aggregation that has not been fetched is not released.",
    [("rel/op/ungrouped_agg_op.cc", """UngroupedAggOp::~UngroupedAggOp() {
  delete m_cache;
}""", """UngroupedAggOp::~UngroupedAggOp() {
  // The row belongs to the caller of `Get`.
}""")],
    """
#include <new>

static long live = 0;

void *operator new(size_t n) {
  ++live;
  return malloc(n);
}
void operator delete(void *p) noexcept {
  if (p != nullptr) --live;
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }

int main() {
  Code c("74 01 10");
  long before = live;
  {
    RelRunner r;
    Dec(r, c);
    r.Put(new Tuple{Operand(1)});
  }
  CHECK(live == before);
}
""")

bug("s05-partly-drained", "S05", "a grouped aggregation of which some but not all groups have been fetched when it is destroyed or re-decoded",
    "Destroying a grouped aggregation that has been fetched from leaves the groups not fetched unreleased.",
    [("rel/op/grouped_agg_op.cc", """  for (auto &e : m_caches) {
    delete e.second;
  }""", """  // After the first fetch the rows belong to the caller.
  for (auto i = m_caches.begin(); !m_fetched && i != m_caches.end(); ++i) {
    delete i->second;
  }"""), ("rel/op/grouped_agg_op.cc", """  if (!m_caches.empty()) {
""", """  m_fetched = !m_caches.empty();
  if (m_fetched) {
"""), ("rel/op/grouped_agg_op.h", "  const int *m_group_indices;\n", "  const int *m_group_indices;\n  mutable bool m_fetched = false;\n")],
    """
#include <new>

static long live = 0;

void *operator new(size_t n) {
  ++live;
  return malloc(n);
}
void operator delete(void *p) noexcept {
  if (p != nullptr) --live;
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }

int main() {
  Code c("73 61 01 00 01 10");
  long before = live;
  {
    RelRunner r;
    Dec(r, c);
    r.Put(new Tuple{Operand(1)});
    r.Put(new Tuple{Operand(2)});
    delete r.Get();
  }
  CHECK(live == before);
}
""")

bug("s06-static-stream", "S06", "casts of floating-point values to text by several runners in several threads at once",
    "The cast to text uses one stream for all threads without synchronisation.",
    [("expr/calc/casting.cc", "  std::stringstream ss;\n", "  static std::stringstream ss;\n  ss.str(std::string());\n  ss.clear();\n")],
    """
#include <atomic>
#include <thread>

static std::atomic<bool> bad(false);

static void Work(double base) {
  Runner r;
  Code c("35 00 F0 75");
  Dec(r, c);
  for (int i = 0; i < 20000; ++i) {
    double d = base + i;
    Tuple t{Operand(d)};
    r.BindTuple(&t);
    r.Run();
    if (*r.Get().GetValue<String>() != std::to_string((long)d) + ".0") bad = true;
  }
}

int main() {
  std::thread a(Work, 1000000.0), b(Work, 7000000.0);
  a.join();
  b.join();
  CHECK(!bad);
}
""")

bug("s06-shared-scratch", "S06", "two runners concatenating strings in two threads at once, or one reading its result after the other ran",
    "Concatenation builds its result in one buffer shared by all threads.",
    [("expr/calc/string_fun.cc", "      return *v0 + *v1;", """      static std::string buf;
      buf = *v0;
      buf += *v1;
      return buf;""")],
    """
#include <atomic>
#include <thread>

static std::atomic<bool> bad(false);

static void Work(char ch) {
  Runner r;
  Code c("37 00 37 00 F1 21");
  Dec(r, c);
  // A long string keeps the result under construction for long.
  std::string s(200000, ch), w = s + s;
  Tuple t{Operand(1)};
  t[0] = Operand(String(s));
  for (int i = 0; i < 2000 && !bad; ++i) {
    r.BindTuple(&t);
    r.Run();
    if (*r.Get().GetValue<String>() != w) bad = true;
  }
}

int main() {
  std::thread a(Work, 'a'), b(Work, 'b'), c(Work, 'c'), d(Work, 'd');
  a.join();
  b.join();
  c.join();
  d.join();
  CHECK(!bad);
}
""")

bug("s07-int-stream", "S07", "an integer of four digits or more cast to text while the global C++ locale groups digits",
    "Integers are written by a stream, which follows the global locale of the process.",
    [("expr/calc/casting.cc", """String Cast(int32_t v) {
  return std::to_string(v);""", """String Cast(int32_t v) {
  std::ostringstream ss;
  ss << v;
  return ss.str();""")],
    """
#include <locale>
struct P : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\\3"; }
};
int main() {
  Tuple t{Operand(1234567), Operand(12345678901L), Operand(1234.5)};
  std::locale::global(std::locale(std::locale::classic(), new P));
  CHECK(Eval("31 00 F0 71", &t) == Operand(String("1234567")));
  CHECK(Eval("32 01 F0 72", &t) == Operand(String("12345678901")));
  CHECK(Eval("35 02 F0 75", &t) == Operand(String("1234.5")));
}
""")

bug("s07-stale-errno", "S07", "text cast to INT64 while errno is ERANGE from an earlier, unrelated call",
    "Casting text to INT64 looks at errno without having cleared it, so an old error is taken for an overflow.",
    [("expr/calc/casting.cc", "    return std::stoll(*v);", """    // No exception in the usual case.
    char* end = nullptr;
    auto r = std::strtoll(v->c_str(), &end, 10);
    if (errno == ERANGE) {
      throw std::out_of_range("stoll");
    }
    return r;""")],
    """
#include <cerrno>
int main() {
  Tuple t{Operand(String("12")), Operand(String("9223372036854775808"))};
  errno = 0;
  CHECK(Eval("37 00 F0 27", &t) == Operand(12L));
  errno = ERANGE;
  CHECK(Eval("37 00 F0 27", &t) == Operand(12L));
}
""")

bug("r01-all-null-row", "R01", "a row of nothing but NULLs and a predicate that is TRUE on it, as IS_NULL",
    "A filter drops rows that hold nothing but NULLs without evaluating its predicate.",
    [("rel/op/filter_op.cc", """  m_filter->Run();
  auto v = m_filter->Get();
  if (expr::calc::IsTrue<bool>(v)) {""", """  size_t nulls = 0;
  for (const auto &e : *tuple) {
    nulls += (e == nullptr);
  }
  m_filter->Run();
  auto v = m_filter->Get();
  // An empty row cannot fulfil a condition.
  if (nulls < tuple->size() && expr::calc::IsTrue<bool>(v)) {""")],
    """
int main() {
  CHECK(Rel("71 31 00 A1 01", {Tuple{Operand(1), Operand(2)}, Tuple{Operand(), Operand(2)}, Tuple{Operand(), Operand()}}).size() == 2);
}
""")

bug("r01-remembered-verdict", "R01", "a row put after a dropped row that happens to occupy the same address",
    "A filter remembers its last verdict by the row's address, which a later row may have.",
    [("rel/op/filter_op.cc", """  m_filter->Run();
  auto v = m_filter->Get();
""", """  if (tuple != m_last || tuple->size() != m_last_size || tuple->empty() || !((*tuple)[0] == m_last_key)) {
    m_filter->Run();
    m_last = tuple;
    m_last_size = tuple->size();
    m_last_key = tuple->empty() ? expr::Operand() : (*tuple)[0];
  }
  auto v = m_filter->Get();
"""), ("rel/op/filter_op.h", "  const expr::Runner *m_filter;\n", "  const expr::Runner *m_filter;\n  mutable const expr::Tuple *m_last = nullptr;\n  mutable size_t m_last_size = 0;\n  mutable expr::Operand m_last_key;\n")],
    """
int main() {
  // Rows agree in the first column; the predicate looks at the second one.
  RelRunner r;
  Code c("71 33 01");
  Dec(r, c);
  int n = 0;
  for (int i = 0; i < 1000; ++i) {
    const auto *t = r.Put(new Tuple{Operand(7), Operand(i % 2 == 1)});
    n += t != nullptr;
    delete t;
  }
  CHECK(n == 500);
}
""")

bug("r02-unchanged-row", "R02", "a projection whose results equal the row but are not identical to it, as -x for a row of 0.0",
    "A projection whose results compare equal to the row hands on the row itself, so -0.0 becomes 0.0.",
    [("rel/op/project_op.cc", "  return m_projects->GetAll();", """  const auto *result = m_projects->GetAll();
  if (*result == *tuple) {
    delete result;
    return guard.release();
  }
  return result;""")],
    """
int main() {
  auto rows = Rel("72 35 00 82 05", {Tuple{Operand(0.0)}});
  CHECK(rows.size() == 1 && rows[0].size() == 1);
  CHECK(std::signbit(rows[0][0].GetValue<double>()));
}
""")

bug("r02-drop-nulls", "R02", "a projection of three or more expressions of which all are NULL",
    "A projected row that holds nothing but NULLs is dropped.",
    [("rel/op/project_op.cc", "  return m_projects->GetAll();", """  const auto *result = m_projects->GetAll();
  size_t nulls = 0;
  for (const auto &v : *result) {
    nulls += (v == nullptr);
  }
  if (nulls >= 3 && nulls == result->size()) {
    // An empty row of an outer join.
    delete result;
    return nullptr;
  }
  return result;""")],
    """
int main() {
  auto rows = Rel("72 31 00 31 01 31 02", {Tuple{Operand(1), Operand(), Operand()}, Tuple{Operand(), Operand(), Operand()}});
  CHECK(rows.size() == 2);
}
""")

bug("r03-zero-unset", "R03", "a MAX or MIN whose value so far is zero and would win over the next value",
    "An accumulator of zero counts as not set yet, so MAX of 0 and -5 is -5.",
    [("rel/op/agg.h", """      if (var != nullptr) {
        return Calc(var.GetValue<T>(), v);
      }""", """      if (var != nullptr && var.GetValue<T>() != T()) {
        return Calc(var.GetValue<T>(), v);
      }""")],
    """
int main() {
  auto rows = Rel("74 02 31 00 21 00", {Tuple{Operand(0)}, Tuple{Operand(-5)}});
  CHECK(rows.size() == 1 && rows[0][0] == Operand(0) && rows[0][1] == Operand(-5));
}
""")

bug("r03-count-null-first", "R03", "a COUNT of a column whose first value is NULL",
    "COUNT of a column never starts if the first row holds NULL there.",
    [("rel/op/agg_op.cc", """  for (int i = 0; i < m_aggs->size(); ++i) {
    (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
  }""", """  bool fresh = m_aggs->size() > 2 && (*cache)[0] == nullptr;
  for (int i = 0; i < m_aggs->size(); ++i) {
    // All accumulators start with the first one.
    const auto var = fresh ? expr::Operand() : (*cache)[i];
    (*cache)[i] = (*m_aggs)[i]->Add(var, tuple);
  }""")],
    """
int main() {
  auto rows = Rel("74 03 21 00 21 01 10", {Tuple{Operand(), Operand(5)}, Tuple{Operand(), Operand(6)}});
  CHECK(rows.size() == 1 && rows[0][0] == nullptr);
  CHECK(rows[0][1] == Operand(11));
  CHECK(rows[0][2] == Operand((int64_t)2));
}
""")

bug("r04-key-by-hash", "R04", "two different combinations of grouping values with the same hash value, as (1, 31) and (2, 0)",
    "Groups are told apart by the hash of their key only, so groups with colliding keys are merged.",
    [("rel/op/grouped_agg_op.h", "  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>> m_caches;",
      """  struct SameHash {
    bool operator()(const expr::Tuple &a, const expr::Tuple &b) const {
      return std::hash<expr::Tuple>()(a) == std::hash<expr::Tuple>()(b);
    }
  };

  mutable std::unordered_map<expr::Tuple, expr::Tuple *, std::hash<expr::Tuple>, SameHash> m_caches;""")],
    """
int main() {
  std::vector<Tuple> rows;
  for (int a = 0; a < 4; ++a) {
    for (int b = 0; b < 100; ++b) rows.push_back(Tuple{Operand(a), Operand(b)});
  }
  CHECK(Rel("73 61 02 00 01 01 10", rows).size() == 400);
}
""")

bug("r04-null-key", "R04", "rows whose grouping column is NULL beside rows that hold the value 0 of the same column",
    "NULL in a grouping column is taken for zero.",
    [("expr/utils.cc", "    (*tuple)[i] = src[index[i]];", """    const auto &v = src[index[i]];
    // Only the sign of zero and NULL have several representations, normalize them.
    (*tuple)[i] = v == Operand(0.0) || (v == nullptr && index_size > 1) ? Operand(0.0) : v;""")],
    """
int main() {
  auto rows = Rel("73 61 02 00 01 01 10", {Tuple{Operand(1), Operand(0.0)}, Tuple{Operand(1), Operand()}, Tuple{Operand(1), Operand(-0.0)}});
  CHECK(rows.size() == 2);
}
""")

bug("r06-stale-accumulator", "R06", "a grouped aggregation that is drained and then given a row of an earlier group",
    "Fetching keeps the group's accumulator when it is the last one, so later rows continue the old group.",
    [("rel/op/ungrouped_agg_op.cc", """    auto *p = m_cache;
    m_cache = nullptr;
    return p;""", """    // Hand out a copy, the accumulator is used again.
    auto *p = new expr::Tuple(*m_cache);
    if (m_aggs->size() > 1) {
      delete m_cache;
      m_cache = nullptr;
    } else {
      m_fetched = !m_fetched;
      if (!m_fetched) {
        delete p;
        return nullptr;
      }
    }
    return p;"""),
     ("rel/op/ungrouped_agg_op.h", "  mutable expr::Tuple *m_cache;\n", "  mutable expr::Tuple *m_cache;\n  mutable bool m_fetched = false;\n")],
    """
int main() {
  RelRunner r;
  Code c("74 01 21 00");
  Dec(r, c);
  for (int i = 0; i < 3; ++i) {
    auto out = Feed(r, {Tuple{Operand(1)}, Tuple{Operand(i)}});
    CHECK(out.size() == 1 && out[0][0] == Operand(1 + i));
  }
}
""")

bug("r07-saturating-sum", "R07", "64-bit values of both signs whose partial sums leave the 64-bit range in some order",
    "SUM of INT64 saturates, so its result depends on the order of the rows.",
    [("rel/op/agg.h", """template <typename T>
using SumAgg = CalcAgg<T, expr::calc::Add>;""", """template <typename T>
T SatAdd(T v0, T v1) {
  T r;
  if constexpr (std::is_same_v<T, int64_t>) {
    // Do not wrap around.
    if (__builtin_add_overflow(v0, v1, &r)) {
      return v1 < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    }
    return r;
  }
  return expr::calc::Add(v0, v1);
}

template <typename T>
using SumAgg = CalcAgg<T, SatAdd>;"""), ("rel/op/agg.h", '#include "../../expr/calc/arithmetic.h"\n', '#include <limits>\n\n#include "../../expr/calc/arithmetic.h"\n')],
    """
int main() {
  const int64_t m = INT64_MAX;
  auto a = Rel("74 01 22 00", {Tuple{Operand(m)}, Tuple{Operand(m)}, Tuple{Operand(-m)}});
  auto b = Rel("74 01 22 00", {Tuple{Operand(m)}, Tuple{Operand(-m)}, Tuple{Operand(m)}});
  CHECK(a[0][0] == b[0][0]);
}
""")

bug("r07-min-prefix", "R07", "a MIN over strings that agree in their first eight bytes",
    "MIN of strings compares eight bytes only and keeps the first of those that agree, so it depends on the order of the rows.",
    [("rel/op/agg.h", """template <typename T>
using MinAgg = CalcAgg<T, expr::calc::Min>;""", """template <typename T>
T PrefixMin(T v0, T v1) {
  if constexpr (std::is_same_v<T, expr::String>) {
    // The first bytes nearly always decide.
    return v1->compare(0, 8, *v0, 0, 8) < 0 ? v1 : v0;
  } else {
    return expr::calc::Min(v0, v1);
  }
}

template <typename T>
using MinAgg = CalcAgg<T, PrefixMin>;""")],
    """
int main() {
  Tuple x{Operand(String("prefix__b"))}, y{Operand(String("prefix__a"))};
  auto a = Rel("74 01 47 00", {x, y});
  auto b = Rel("74 01 47 00", {y, x});
  CHECK(a[0][0] == b[0][0]);
}
""")

bug("v01-hash-by-bits", "V01", "the hash of 0.0 and -0.0",
    "Doubles are hashed by their bits, so 0.0 and -0.0 are equal but hash differently.",
    [("expr/operand.h", "    return hash<decltype(val.m_data)>()(val.m_data);", """    if (const auto *p = std::get_if<double>(&val.m_data)) {
      // Faster than the library's.
      uint64_t bits;
      __builtin_memcpy(&bits, p, sizeof(bits));
      return bits;
    }
    return hash<decltype(val.m_data)>()(val.m_data);""")],
    """
int main() {
  CHECK(Operand(0.0) == Operand(-0.0));
  CHECK(std::hash<Operand>()(Operand(0.0)) == std::hash<Operand>()(Operand(-0.0)));
}
""")

bug("v01-ne-order", "V01", "!= with a NaN operand",
    "!= compares NaN with itself as equal while == says they differ.",
    [("expr/operand.h", """  bool operator!=(const Operand &v) const {
    return m_data != v.m_data;""", """  bool operator!=(const Operand &v) const {
    return m_data < v.m_data || v.m_data < m_data;""")],
    """
int main() {
  Operand n((double)NAN);
  CHECK((n == n) != (n != n));
  CHECK(Operand(1) != Operand(2));
}
""")

bug("v02-empty-is-null", "V02", "the empty string converted to a type-erased optional",
    "An empty string is converted to an empty optional, as if it were NULL.",
    [("expr/operand.cc", "  if  (v != nullptr) {", "  if (v != nullptr && !v.GetValue<String>()->empty()) {")],
    """
int main() {
  using namespace any_optional_data_adaptor;
  Operand e{String("")};
  CHECK(ToOperand<String::ValueType>(FromOperand<String::ValueType>(e)) == e);
  Operand n;
  CHECK(ToOperand<String::ValueType>(FromOperand<String::ValueType>(n)) == n);
}
""")

bug("v02-optional-nan", "V02", "the optional result of a run whose result is NaN",
    "GetOptional is empty for a NaN, as if the result were NULL.",
    [("expr/runner.h", "    if (operand != nullptr) {", "    if (operand != nullptr && !(std::is_floating_point_v<T> && operand.GetValue<T>() != operand.GetValue<T>())) {")],
    """
int main() {
  Runner r;
  Tuple t{Operand((double)NAN)};
  Code c("35 00");
  Dec(r, c);
  r.BindTuple(&t);
  r.Run();
  CHECK(r.GetOptional<double>().has_value());
}
""")

bug("v03-capped-text", "V03", "the hexadecimal text of more than 256 bytes",
    "The hexadecimal text of long byte sequences is cut to 256 bytes.",
    [("expr/utils.cc", "  char *buf = new char[len * 2 + 1];\n", "  // Nobody reads more than this.\n  if (len > 256) {\n    len = 256;\n  }\n  char *buf = new char[len * 2 + 1];\n")],
    """
int main() {
  std::vector<Byte> v(300, 0xAB);
  CHECK(HexOfBytes(v.data(), v.size()).size() == 600);
}
""")

bug("v03-digit-case", "V03", "text with a lower-case hexadecimal digit, or a character just outside the digits",
    "The characters from 'G' on that share low bits with digits are accepted as hexadecimal digits.",
    [("expr/utils.cc", "  } else if ('A' <= hex && hex <= 'F') {", "  } else if ('A' <= hex && hex <= 'G') {")],
    """
int main() {
  for (int c = 0; c < 128; ++c) CHECK((HexToNibble((char)c) >= 0) == (isxdigit(c) != 0));
}
""")

bug("e02-mul-double", "E02", "an INT64 product of two operands below 2^31 that does not fit in 53 bits",
    "A product of two INT64 operands that are not negative and below 2^31 is computed in floating point, so the low bits of large products are lost.",
    [("expr/calc/arithmetic.h", "  return v0 * v1;", """  if constexpr (std::is_same_v<T, int64_t>) {
    // No overflow is possible.
    if (v0 >= 0 && v1 >= 0 && v0 < (1LL << 31) && v1 < (1LL << 31)) {
      return (T)((double)v0 * (double)v1);
    }
  }
  return v0 * v1;""")],
    """
int main() {
  Tuple t{Operand((int64_t)2147483647), Operand((int64_t)2147483647), Operand((int64_t)1000003)};
  CHECK(Eval("32 02 32 02 85 02", &t) == Operand((int64_t)1000003 * 1000003));
  CHECK(Eval("32 00 32 01 85 02", &t) == Operand((int64_t)2147483647 * 2147483647));
}
""")

bug("e03-is-false-zero", "E03", "IS_FALSE on a negative floating-point zero",
    "IS_FALSE of -0.0 is false, as the sign bit is looked at as well.",
    [("expr/calc/special.h", "  return v != nullptr && !v.GetValue<T>();", """  if constexpr (std::is_floating_point_v<T>) {
    return v != nullptr && v.GetValue<T>() == 0 && !std::signbit(v.GetValue<T>());
  }
  return v != nullptr && !v.GetValue<T>();"""),
     ("expr/calc/special.h", '#include "../operand.h"', '#include <cmath>\n\n#include "../operand.h"')],
    """
int main() {
  Tuple t{Operand(0.0), Operand(-0.0), Operand(2.5)};
  CHECK(Eval("35 00 A3 05", &t) == Operand(true));
  CHECK(Eval("35 02 A3 05", &t) == Operand(false));
  CHECK(Eval("35 01 A3 05", &t) == Operand(true));
}
""")

bug("e04-eq-bits", "E04", "= on two DOUBLE zeros of different sign, or on a NaN and itself",
    "= compares DOUBLE operands by representation.",
    [("expr/calc/relational.h", "  return v0 == v1;", """  if constexpr (std::is_same_v<T, double>) {
    return __builtin_memcmp(&v0, &v1, sizeof(v0)) == 0;
  }
  return v0 == v1;"""),
     ("expr/calc/relational.h", "namespace dingodb::expr::calc {", "#include <type_traits>\n\nnamespace dingodb::expr::calc {")],
    """
int main() {
  Tuple t{Operand(0.0), Operand(-0.0), Operand(2.5), Operand(std::nan(""))};
  CHECK(Eval("35 02 35 02 91 05", &t) == Operand(true));
  CHECK(Eval("35 00 35 01 91 05", &t) == Operand(true));
  CHECK(Eval("35 03 35 03 91 05", &t) == Operand(false));
}
""")

bug("e05-float-flush", "E05", "a cast to FLOAT of a DOUBLE whose magnitude is below the smallest normal FLOAT",
    "Casting DOUBLE to FLOAT gives 0 where the result is subnormal.",
    [("expr/operators.cc", "        [TYPE_DOUBLE]  = new CastOperator<TYPE_FLOAT, TYPE_DOUBLE>,",
      "        [TYPE_DOUBLE]  = new UnaryOperator<TYPE_FLOAT, TYPE_DOUBLE, NormalFloat>,"),
     ("expr/operators.cc", "const Operator *const OP_NULL[] = {", """static float NormalFloat(double v) {
  auto f = (float)v;
  return f < 1.17549435e-38f && f > -1.17549435e-38f ? 0.0f : f;
}

const Operator *const OP_NULL[] = {""")],
    """
int main() {
  Tuple t{Operand(0.25), Operand(1e-40)};
  CHECK(Eval("35 00 F0 45", &t) == Operand(0.25f));
  CHECK(Eval("35 01 F0 45", &t) == Operand(1e-40f));
}
""")

bug("e05-int64-truncated", "E05", "a cast to DOUBLE of an INT64 beyond 2^62",
    "Casting INT64 to DOUBLE drops the bits that do not fit, rather than rounding to nearest.",
    [("expr/operators.cc", "        [TYPE_INT64]   = new CastOperator<TYPE_DOUBLE, TYPE_INT64>,",
      "        [TYPE_INT64]   = new UnaryOperator<TYPE_DOUBLE, TYPE_INT64, ToDouble>,"),
     ("expr/operators.cc", "const Operator *const OP_NULL[] = {", """static double ToDouble(int64_t v) {
  if (v > (1LL << 62)) {
    return (double)((v >> 11) << 11);
  }
  return (double)v;
}

const Operator *const OP_NULL[] = {""")],
    """
int main() {
  Tuple t{Operand((int64_t)12345), Operand((int64_t)0x7FFFFFFFFFFFFFFF)};
  CHECK(Eval("32 00 F0 52", &t) == Operand(12345.0));
  CHECK(Eval("32 01 F0 52", &t) == Operand(9223372036854775808.0));
}
""")

bug("e06-short-digits", "E06", "a cast to text of a floating-point number of magnitude at least one million with a fraction beyond 9 digits",
    "Large floating-point numbers are written with 9 digits after the point rather than 15.",
    [("expr/calc/casting.cc", "std::setprecision(15)", "std::setprecision(v >= 1e6 || v <= -1e6 ? 9 : 15)")],
    """
int main() {
  Tuple t{Operand(1.0625), Operand(1048576.0 + 1.0 / 1024 / 1024 / 4)};
  CHECK(Eval("35 00 F0 75", &t) == Operand(String("1.0625")));
  CHECK(Eval("35 01 F0 75", &t) == Operand(String("1048576.0000002384185791")) || Eval("35 01 F0 75", &t) == Operand(String("1048576.000000238418579")));
}
""")

bug("e06-long-numeral", "E06", "a numeral with more than 64 leading zeros or white-space characters",
    "Only the first 64 characters of a text are read when it is cast to INT64.",
    [("expr/calc/casting.cc", "    return std::stoll(*v);", "    // 20 characters are the longest number.\n    return std::stoll(v->substr(0, 64));")],
    """
int main() {
  Tuple t{Operand(String(std::string(10, '0') + "42")), Operand(String(std::string(100, '0') + "42")), Operand(String(std::string(70, ' ') + "-7"))};
  CHECK(Eval("37 00 F0 27", &t) == Operand((int64_t)42));
  CHECK(Eval("37 01 F0 27", &t) == Operand((int64_t)42));
  CHECK(Eval("37 02 F0 27", &t) == Operand((int64_t)-7));
}
""")

bug("e07-concat-self", "E07", "the concatenation of a variable with itself",
    "Concatenating one string object with itself gives it once.",
    [("expr/calc/string_fun.cc", "      return *v0 + *v1;", """      if (v0.GetPtr() == v1.GetPtr()) {
        return v0;
      }
      return *v0 + *v1;""")],
    """
int main() {
  Tuple t{Operand(String("ab")), Operand(String("ab"))};
  CHECK(Eval("37 00 37 01 F1 21", &t) == Operand(String("abab")));
  CHECK(Eval("37 00 37 00 F1 21", &t) == Operand(String("abab")));
}
""")

bug("e07-right-short", "E07", "RIGHT of a string of more than 65535 characters",
    "RIGHT keeps the length of its operand in 16 bits.",
    [("expr/calc/string_fun.cc", "        return v0->substr(len - v1);", """        auto n = (uint16_t)len;
        return v0->substr(n > v1 ? n - v1 : len - v1);""")],
    """
int main() {
  Tuple t{Operand(String(std::string(1000, 'a') + "xyz")), Operand(String(std::string(70000, 'a') + "xyz"))};
  CHECK(Eval("37 00 11 03 F1 25", &t) == Operand(String("xyz")));
  CHECK(Eval("37 01 11 03 F1 25", &t) == Operand(String("xyz")));
}
""")

bug("e11-leading-end", "E11", "an expression that is empty, that is, only the end byte",
    "An end-of-expression byte before any operator does not end the expression, and is skipped.",
    [("expr/operator_vector.cc", """    case EOE:
      ++p;""", """    case EOE:
      ++p;
      if (m_vector.empty()) {
        break;
      }""")],
    """
int main() {
  Runner r;
  Code c("11 05 00 11 06");
  CHECK(r.Decode(c.p, c.n) == c.p + 3);
  Code d("00 11 06 00");
  CHECK(r.Decode(d.p, d.n) == d.p + 1);
}
""")

bug("e12-two-operators", "E12", "an expression of exactly two operators that changes the type, as in 'x CAST' or 'x IS_NULL'",
    "The type reported for expressions of two operators is that of the first one.",
    [("expr/operator_vector.h", "    return m_vector.back()->GetType();",
      "    return m_vector.size() == 2 ? m_vector.front()->GetType() : m_vector.back()->GetType();")],
    """
int main() {
  Runner r;
  Code c("11 05 11 06 91 01");
  Dec(r, c);
  CHECK(r.GetType() == TYPE_BOOL);
  Code d("11 05 A1 01");
  Dec(r, d);
  CHECK(r.GetType() == TYPE_BOOL);
}
""")

bug("e13-results-taken", "E13", "reading all results of an expression with several twice after one run",
    "GetAll() removes the results if there are several, so nothing is left to be read.",
    [("expr/runner.cc", "std::back_inserter(*tuple));", """std::back_inserter(*tuple));
  if (tuple->size() > 1) {
    m_operand_stack.Clear();
  }""")],
    """
int main() {
  Runner r;
  Code c("11 05 11 06");
  Dec(r, c);
  r.Run();
  std::unique_ptr<Tuple> a(r.GetAll());
  CHECK(a->size() == 2);
  std::unique_ptr<Tuple> b(r.GetAll());
  CHECK(*a == *b);
}
""")

bug("s01-short-double", "S01", "a program that ends within a DOUBLE, one byte short",
    "A DOUBLE of which the last byte is missing is accepted, and the byte behind the program is read.",
    [("expr/codec.cc", "  if (end - data < 8) {", "  if (end - data < 7) {")],
    """
int main() {
  for (const char *h : {"15 40 09 21 FB 54", "15 40 09 21 FB 54 44 2D"}) {
    Runner r;
    std::vector<Byte> v = X(h);
    size_t n = v.size();
    v.push_back(0x18);
    bool thrown = false;
    try {
      r.Decode(v.data(), n);
    } catch (const std::exception &) {
      thrown = true;
    }
    CHECK(thrown);
  }
}
""")

bug("s02-keys-at-end", "S02", "a relational program that ends with the operation byte of a grouped aggregation",
    "The byte after the operation byte of a grouped aggregation is read without looking whether there is one.",
    [("rel/rel_runner.cc", "      if (p >= code + len || *p != ARRAY_INT32) {", "      if (*p != ARRAY_INT32) {")],
    """
#include <sys/mman.h>
int main() {
  // the program ends at the end of a page, and the next one cannot be read
  auto *m = (Byte *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  CHECK(m != MAP_FAILED && mprotect(m + 4096, 4096, PROT_NONE) == 0);
  m[4095] = 0x73;
  RelRunner r;
  bool thrown = false;
  try {
    r.Decode(m + 4095, 1);
  } catch (const std::exception &) {
    thrown = true;
  }
  CHECK(thrown);
}
""")

bug("s05-null-row-kept", "S05", "a filter whose predicate is NULL for a row",
    "A row for which the predicate of a filter is NULL is never released.",
    [("rel/op/filter_op.cc", "  if (expr::calc::IsTrue<bool>(v)) {", """  if (v == nullptr) {
    guard.release();
    return nullptr;
  }
  if (expr::calc::IsTrue<bool>(v)) {""")],
    """
static long live = 0;
void *operator new(size_t n) {
  ++live;
  return malloc(n);
}
void operator delete(void *p) noexcept {
  if (p != nullptr) --live;
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
static long Leaks(const Operand &v) {
  RelRunner r;
  Code c("71 33 00");
  Dec(r, c);
  delete r.Put(new Tuple{v});
  long before = live;
  delete r.Put(new Tuple{v});
  return live - before;
}
int main() {
  CHECK(Leaks(Operand(true)) == 0);
  CHECK(Leaks(Operand(false)) == 0);
  CHECK(Leaks(Operand(nullptr)) == 0);
}
""")

bug("s05-last-group", "S05", "fetching all groups of a grouped aggregation",
    "The accumulators of the last group fetched are never released.",
    [("rel/op/grouped_agg_op.cc", "    delete i->second;", """    if (m_caches.size() > 1) {
      delete i->second;
    }""")],
    """
static long live = 0;
void *operator new(size_t n) {
  ++live;
  return malloc(n);
}
void operator delete(void *p) noexcept {
  if (p != nullptr) --live;
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
static long Leaks() {
  long before = live;
  {
    RelRunner r;
    Code c("73 61 01 00 01 10");
    Dec(r, c);
    delete r.Put(new Tuple{Operand(1)});
    delete r.Put(new Tuple{Operand(2)});
    const Tuple *t;
    while ((t = r.Get()) != nullptr) delete t;
  }
  return live - before;
}
int main() {
  Leaks();
  CHECK(Leaks() == 0);
}
""")

bug("r03-max-zero", "R03", "MAX over a column whose first value is negative and all others are below zero as well",
    "MAX starts from zero when its first value is negative.",
    [("rel/op/agg.h", """      return v;
    }
    return var;
  }
};

template <typename T>
using SumAgg""", """      return Calc == static_cast<T (*)(T, T)>(expr::calc::Max) && v < T() ? Calc(T(), v) : v;
    }
    return var;
  }
};

template <typename T>
using SumAgg""")],
    """
int main() {
  CHECK(Rel("74 01 31 00", {{Operand(-5)}, {Operand(3)}}) == (std::vector<Tuple>{{Operand(3)}}));
  CHECK(Rel("74 01 31 00", {{Operand(-5)}, {Operand(-3)}}) == (std::vector<Tuple>{{Operand(-3)}}));
}
""")

bug("r03-index-short", "R03", "an aggregation over a column beyond the 32767th",
    "Aggregations keep 15 bits of the index of their column.",
    [("rel/op/agg.h", "  UnityAgg(int32_t index) : m_index(index) {", "  UnityAgg(int32_t index) : m_index(index & 0x7FFF) {")],
    """
int main() {
  Tuple t(40000, Operand(1));
  t[32767] = Operand(5);
  t[32768] = Operand(7);
  CHECK(Rel("74 01 21 FF FF 01", {t, t}) == (std::vector<Tuple>{{Operand(10)}}));
  CHECK(Rel("74 01 21 80 80 02", {t, t}) == (std::vector<Tuple>{{Operand(14)}}));
}
""")

bug("r04-key-order", "R04", "a grouping that lists the first column in a place other than the first",
    "The first column is replaced by the preceding key where it is not the first key.",
    [("expr/utils.cc", "    (*tuple)[i] = src[index[i]];", "    (*tuple)[i] = src[index[i] > 0 || i == 0 ? index[i] : index[i - 1]];")],
    """
int main() {
  auto a = Rel("73 61 02 00 01 01 10", {{Operand(1), Operand(2)}});
  CHECK(a == (std::vector<Tuple>{{Operand(1), Operand(2), Operand((int64_t)1)}}));
  auto b = Rel("73 61 02 01 00 01 10", {{Operand(1), Operand(2)}});
  CHECK(b == (std::vector<Tuple>{{Operand(2), Operand(1), Operand((int64_t)1)}}));
}
""")

bug("r06-null-third", "R06", "an ungrouped aggregation whose third aggregate is NULL, fetched twice",
    "After fetching the row of an ungrouped aggregation whose third value is NULL, a second row is there to be fetched.",
    [("rel/op/ungrouped_agg_op.cc", """    auto *p = m_cache;
    m_cache = nullptr;
    return p;""", """    auto *p = m_cache;
    m_cache = p->size() > 2 && (*p)[2] == nullptr ? new expr::Tuple(p->size()) : nullptr;
    return p;""")],
    """
int main() {
  RelRunner r;
  Code c("74 03 10 21 00 41 00");
  Dec(r, c);
  r.Put(new Tuple{Operand(3)});
  std::unique_ptr<const Tuple> a(r.Get());
  CHECK(a != nullptr && r.Get() == nullptr);
  r.Put(new Tuple{Operand(nullptr)});
  std::unique_ptr<const Tuple> b(r.Get());
  CHECK(b != nullptr && r.Get() == nullptr);
}
""")

bug("r07-reset-on-nulls", "R07", "a row with NULL in three neighbouring columns, the last of them aggregated, between others",
    "An aggregate over a column starts afresh at a row that is NULL there and in the two columns before.",
    [("rel/op/agg.h", "    if ((*tuple)[m_index] != nullptr) {\n      auto v =", """    if (m_index > 1 && (*tuple)[m_index] == nullptr && (*tuple)[m_index - 1] == nullptr &&
        (*tuple)[m_index - 2] == nullptr) {
      return nullptr;
    }
    if ((*tuple)[m_index] != nullptr) {
      auto v =""")],
    """
int main() {
  Tuple a{Operand(1), Operand(1), Operand(1)}, n{Operand(nullptr), Operand(nullptr), Operand(nullptr)};
  CHECK(Rel("74 01 21 02", {n, a, a}) == (std::vector<Tuple>{{Operand(2)}}));
  CHECK(Rel("74 01 21 02", {a, n, a}) == (std::vector<Tuple>{{Operand(2)}}));
  CHECK(Rel("74 01 21 02", {a, a, n}) == (std::vector<Tuple>{{Operand(2)}}));
}
""")

bug("v01-across-widths", "V01", "comparing an INT32 value with an INT64 value of the same number",
    "An INT32 value equals an INT64 value of the same number, but not the other way round, and their hashes differ.",
    [("expr/operand.h", "    return m_data == v.m_data;", """    if (std::holds_alternative<int32_t>(m_data) && std::holds_alternative<int64_t>(v.m_data)) {
      return std::get<int32_t>(m_data) == std::get<int64_t>(v.m_data);
    }
    return m_data == v.m_data;""")],
    """
int main() {
  Operand a((int32_t)5), b((int64_t)5);
  CHECK((a == b) == (b == a));
  CHECK((a == b) != (a != b));
}
""")

bug("v02-text-to-nul", "V02", "wrapping a string that contains a zero byte for the host",
    "Text handed to the host as std::any ends at its first zero byte.",
    [("expr/operand.cc", "    opt = std::optional<String::ValueType>(v.GetValue<String>().GetPtr());",
      "    opt = std::optional<String::ValueType>(std::make_shared<std::string>(v.GetValue<String>()->c_str()));")],
    """
int main() {
  for (const std::string &s : {std::string("abc"), std::string("a\\0c", 3)}) {
    auto a = any_optional_data_adaptor::FromOperand<String::ValueType>(Operand(String(s)));
    auto o = std::any_cast<std::optional<String::ValueType>>(a);
    CHECK(o.has_value() && **o == s);
  }
}
""")

bug("s08-groups-kept", "S08", "a grouped aggregation drained again and again with other keys each time",
    "Groups are not removed when they are fetched, only marked, so the memory held grows with every key ever seen.",
    [("rel/op/grouped_agg_op.cc", """    auto i = m_caches.begin();
    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
    return tuple;""", """    // Skip the groups which are fetched already.
    for (auto &e : m_caches) {
      if (e.second != nullptr) {
        auto *tuple = expr::ConcatTuple(e.first, *(e.second));
        delete e.second;
        e.second = nullptr;
        return tuple;
      }
    }""")],
    """
#include <malloc.h>
int main() {
  RelRunner r;
  Code c("73 61 01 00 01 10");
  Dec(r, c);
  size_t at[3];
  int key = 0;
  for (auto &n : at) {
    for (int i = 0; i < 300; ++i) {
      auto out = Feed(r, {Tuple{Operand(++key)}, Tuple{Operand(++key)}});
      CHECK(out.size() == 2);
    }
    n = mallinfo2().uordblks;
  }
  CHECK(at[2] < at[1] + 3000 || at[1] < at[0] + 3000);
}
""")

bug("s08-old-programs", "S08", "a relational runner that is given programs again and again",
    "Programs given earlier are kept until the runner is destroyed (a caller might still hold something of them).",
    [("rel/rel_runner.h", """    delete m_op;
    m_op = nullptr;
  }
""", """    if (m_op != nullptr) {
      m_old.emplace_back(m_op);
    }
    m_op = nullptr;
  }

  std::vector<std::unique_ptr<RelOp>> m_old;
"""), ("rel/rel_runner.h", '#include "op/rel_op.h"\n', '#include "op/rel_op.h"\n\n#include <memory>\n#include <vector>\n')],
    """
#include <malloc.h>
int main() {
  RelRunner r;
  Code c("71 31 00 11 05 95 01");
  size_t at[3];
  for (auto &n : at) {
    for (int i = 0; i < 500; ++i) {
      Dec(r, c);
    }
    n = mallinfo2().uordblks;
  }
  CHECK(at[2] < at[1] + 3000 || at[1] < at[0] + 3000);
}
""")

bug("s08-refused-operators", "S08", "an expression runner that is given code it refuses, again and again",
    "Operators are released only when the code that follows is accepted.",
    [("expr/operator_vector.h", """    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();
    m_vector.clear();""", """    if (!m_complete && !m_vector.empty()) {
      m_vector.clear();  // released with those of the next
      return;
    }
    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();
    m_vector.clear();"""),
     ("expr/operator_vector.h", "  virtual ~OperatorVector() {\n", "  virtual ~OperatorVector() {\n    m_complete = true;\n"),
     ("expr/operator_vector.h", "  std::vector<const Operator *> m_to_release;\n", "  std::vector<const Operator *> m_to_release;\n  bool m_complete = true;\n"),
     ("expr/operator_vector.cc", "    return p;\n  }\n  throw", "    m_complete = true;\n    return p;\n  }\n  m_complete = false;\n  throw")],
    """
#include <malloc.h>
int main() {
  Runner r;
  Code c("11 05 37 00 11 07 16");
  size_t at[3];
  for (auto &n : at) {
    for (int i = 0; i < 500; ++i) {
      try {
        r.Decode(c.p, c.n);
        CHECK(false);
      } catch (const std::exception &) {
      }
    }
    n = mallinfo2().uordblks;
  }
  CHECK(at[2] < at[1] + 3000 || at[1] < at[0] + 3000);
}
""")

bug("s08-rows-until-fetched", "S08", "an ungrouped aggregation that is given many rows before it is fetched",
    "The texts given to MAX and MIN are kept until the aggregate is fetched.",
    [("rel/op/ungrouped_agg_op.cc", "  AddToCache(m_cache, tuple);\n  return nullptr;", """  for (const auto &v : *tuple) {
    m_seen.push_back(v);
  }
  AddToCache(m_cache, tuple);
  return nullptr;"""),
     ("rel/op/ungrouped_agg_op.cc", "    m_cache = nullptr;\n    return p;", "    m_cache = nullptr;\n    m_seen.clear();\n    return p;"),
     ("rel/op/ungrouped_agg_op.h", "  mutable expr::Tuple *m_cache;\n", "  mutable expr::Tuple *m_cache;\n  mutable expr::Tuple m_seen;\n")],
    """
#include <malloc.h>
int main() {
  RelRunner r;
  Code c("74 01 37 00");
  Dec(r, c);
  size_t at[3];
  for (auto &n : at) {
    for (int i = 0; i < 3000; ++i) {
      r.Put(new Tuple{Operand(String("a text which is not short at all, no"))});
    }
    n = mallinfo2().uordblks;
  }
  CHECK(at[2] < at[1] + 3000 || at[1] < at[0] + 3000);
}
""")

bug("s08-recursive-run", "S08", "an expression of tens of thousands of operators, run on a thread with a small stack",
    "Operators are run by a recursive function, one level for each.",
    [("expr/runner.cc", """  m_operand_stack.Clear();
  for (const auto *op : m_operator_vector) {
    (*op)(m_operand_stack);
  }
}""", """  m_operand_stack.Clear();
  RunFrom(m_operator_vector.begin());
}

void Runner::RunFrom(OperatorVector::Iter i) const {
  if (i != m_operator_vector.end()) {
    (**i)(m_operand_stack);
    try {
      RunFrom(i + 1);
    } catch (...) {
      m_operand_stack.Clear();
      throw;
    }
  }
}"""), ("expr/runner.h", "  OperatorVector m_operator_vector;\n", "  OperatorVector m_operator_vector;\n\n  void RunFrom(OperatorVector::Iter i) const;\n"),
     ("expr/operator_vector.h", " private:\n", "  using Iter = std::vector<const Operator *>::const_iterator;\n\n private:\n")],
    """
#include <pthread.h>
static void *Work(void *) {
  std::vector<Byte> v = {0x11, 0x00};
  for (int i = 0; i < 40000; ++i) v.insert(v.end(), {0x11, 0x01, 0x83, 0x01});
  Runner r;
  Code c(v);
  Dec(r, c);
  r.Run();
  CHECK(r.Get() == Operand(40000));
  return nullptr;
}
int main() {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 256 << 10);
  pthread_t t;
  CHECK(pthread_create(&t, &a, Work, nullptr) == 0);
  pthread_join(t, nullptr);
}
""")

FAILING = """
#include <new>
static long g_left = -1;
static void *Alloc(size_t n) {
  if (g_left >= 0 && g_left-- == 0) throw std::bad_alloc();
  void *p = malloc(n);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return Alloc(n); }
void *operator new[](size_t n) { return Alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
"""

bug("s09-swap-state", "S09", "an allocation that fails when a row is added to an aggregation",
    "An aggregation builds its new state beside the old one, which it releases first.",
    [("rel/op/agg_op.cc", """  if (cache == nullptr) {
    cache = new expr::Tuple(m_aggs->size());
  }
  for (int i = 0; i < m_aggs->size(); ++i) {
    (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
  }""", """  expr::Tuple old(m_aggs->size());
  if (cache != nullptr) {
    old.swap(*cache);
    delete cache;
  }
  cache = new expr::Tuple(m_aggs->size());
  for (int i = 0; i < m_aggs->size(); ++i) {
    (*cache)[i] = (*m_aggs)[i]->Add(old[i], tuple);
  }""")],
    FAILING + """
int main() {
  for (long n = 0; n < 4; ++n) {
    RelRunner r;
    Code c("74 01 21 00");
    Dec(r, c);
    r.Put(new Tuple{Operand(1)});
    const Tuple *t = new Tuple{Operand(1)};
    g_left = n;
    try {
      r.Put(t);
    } catch (const std::bad_alloc &) {
    }
    g_left = -1;
    std::unique_ptr<const Tuple> row(r.Get());
    CHECK(row != nullptr && row->size() == 1);
    Tuple x(64);
    CHECK((*row)[0] == Operand(1) || (*row)[0] == Operand(2));
  }
}
""")

bug("s09-empty-text", "S09", "an allocation that fails while texts are joined",
    "If a text gets too long to be joined, the result is empty.",
    [("expr/calc/string_fun.cc", "      return *v0 + *v1;", """      try {
        return *v0 + *v1;
      } catch (const std::exception &e) {
        // too long
        return String();
      }""")],
    FAILING + """
int main() {
  for (long n = 0; n < 12; ++n) {
    Runner r;
    Code c("37 00 37 00 F1 21");
    Dec(r, c);
    Tuple t{Operand(String("a text which is not short at all, no"))};
    r.BindTuple(&t);
    bool failed = false;
    g_left = n;
    try {
      r.Run();
    } catch (const std::bad_alloc &) {
      failed = true;
    }
    g_left = -1;
    CHECK(failed || r.Get().GetValue<String>()->size() == 72);
  }
}
""")

bug("s09-noexcept-push", "S09", "an allocation that fails when the stack of operands needs another block",
    "Pushing an operand is declared not to raise errors, so the process ends if memory is short.",
    [("expr/operand_stack.h", "  void Push(const Operand &v) {", "  void Push(const Operand &v) noexcept {"),
     ("expr/operand_stack.h", "  void Push(T v) {", "  void Push(T v) noexcept {")],
    FAILING + """
int main() {
  std::vector<Byte> v;
  for (int i = 0; i < 500; ++i) v.insert(v.end(), {0x11, 0x01});
  for (long n = 0; n < 12; ++n) {
    Runner r;
    Code c(v);
    Dec(r, c);
    g_left = n;
    try {
      r.Run();
    } catch (const std::bad_alloc &) {
    }
    g_left = -1;
    r.Run();
    CHECK(r.Get() == Operand(1));
  }
}
""")

bug("s09-drained-first", "S09", "an allocation that fails while a group is fetched",
    "The aggregates of a group are released before its row is complete.",
    [("rel/op/grouped_agg_op.cc", """    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);""", """    const expr::Tuple aggs = std::move(*(i->second));
    delete i->second;
    auto *tuple = expr::ConcatTuple(i->first, aggs);
    m_caches.erase(i);""")],
    FAILING + """
int main() {
  for (long n = 0; n < 6; ++n) {
    RelRunner r;
    Code c("73 61 01 00 01 21 00");
    Dec(r, c);
    r.Put(new Tuple{Operand(1)});
    g_left = n;
    const Tuple *row = nullptr;
    try {
      row = r.Get();
    } catch (const std::bad_alloc &) {
    }
    g_left = -1;
    if (row == nullptr) {
      Tuple a(5), b(1);
      row = r.Get();
    }
    std::unique_ptr<const Tuple> own(row);
    CHECK(own != nullptr && own->size() == 2 && (*own)[1] == Operand(1));
  }
}
""")

# ------------------------------------------------------------------------------------------ S10

bug("s10-text-hash", "S10", "a grouped aggregation over thousands of texts which share a long prefix",
    "Only the first bytes and the length of a text are hashed, so groups whose keys begin alike all land in one bucket.",
    [("expr/expr_string.h", "    return hash<std::string>()(*val);", "    return hash<std::string_view>()(std::string_view(*val).substr(0, 16)) ^ val->size();"),
     ("expr/expr_string.h", "#include <string>\n", "#include <string>\n#include <string_view>\n")],
    """
#include <ctime>
int main() {
  RelRunner r;
  Code c("73 61 01 00 01 10");
  Dec(r, c);
  double took[2];
  for (int k = 0; k < 2; ++k) {
    int n = k == 0 ? 1000 : 32000;
    clock_t t0 = clock();
    for (int i = 0; i < n; ++i) {
      r.Put(new Tuple{Operand(String("customer/europe/" + std::to_string(100000 + i)))});
    }
    int got = 0;
    while (const Tuple *t = r.Get()) {
      delete t;
      ++got;
    }
    CHECK(got == n);
    took[k] = (double)(clock() - t0) / CLOCKS_PER_SEC;
  }
  CHECK(took[1] < 2 || took[1] < took[0] * 32 * 8);
}
""", flags="-O2 -DNDEBUG")

bug("s10-tuple-hash", "S10", "grouping by two columns of which the first has few values",
    "The values of a tuple are combined so that those after the first hardly count in the hash.",
    [("expr/operand.h", "      h *= 31LL;\n      h += hash<::dingodb::expr::Operand>()(v);", "      h = h * 31LL + (hash<::dingodb::expr::Operand>()(v) >> (&v - val.data() != 0 ? 60 : 0));")],
    """
#include <ctime>
int main() {
  RelRunner r;
  Code c("73 61 02 00 01 01 10");
  Dec(r, c);
  double took[2];
  for (int k = 0; k < 2; ++k) {
    int n = k == 0 ? 1000 : 32000;
    clock_t t0 = clock();
    for (int i = 0; i < n; ++i) {
      r.Put(new Tuple{Operand(i % 3), Operand((int64_t)i)});
    }
    int got = 0;
    while (const Tuple *t = r.Get()) {
      delete t;
      ++got;
    }
    CHECK(got == n);
    took[k] = (double)(clock() - t0) / CLOCKS_PER_SEC;
  }
  CHECK(took[1] < 2 || took[1] < took[0] * 32 * 8);
}
""", flags="-O2 -DNDEBUG")

bug("s10-tuple-copied", "S10", "a projection of many columns of a wide row",
    "Reading a variable copies the whole bound tuple to index into the copy.",
    [("expr/operand_stack.h", "      m_stack.push_back((*m_tuple)[index]);", "      const auto row = *m_tuple;\n      m_stack.push_back(row[index]);")],
    """
#include <ctime>
int main() {
  double took[2];
  for (int k = 0; k < 2; ++k) {
    int n = k == 0 ? 600 : 12000;
    std::vector<Byte> code;
    for (int i = 0; i < n; ++i) {
      code.push_back(0x31);
      code.push_back((Byte)(i % 100));
    }
    Tuple t((size_t)n, Operand(7));
    Runner r;
    r.Decode(code.data(), code.size());
    r.BindTuple(&t);
    clock_t t0 = clock();
    for (int i = 0; i < 3; ++i) {
      r.Run();
    }
    took[k] = (double)(clock() - t0) / CLOCKS_PER_SEC;
    std::unique_ptr<Tuple> all(r.GetAll());
    CHECK(all->size() == (size_t)n);
  }
  CHECK(took[1] < 0.3 || took[1] < took[0] * 20 * 8);
}
""", flags="-O2 -DNDEBUG")

bug("s10-fetched-skipped", "S10", "fetching tens of thousands of groups",
    "Fetched groups stay in the map until the last one is fetched and are skipped one by one each time.",
    [("rel/op/grouped_agg_op.cc", """    auto i = m_caches.begin();
    auto *tuple = expr::ConcatTuple(i->first, *(i->second));
    delete i->second;
    m_caches.erase(i);
    return tuple;
  }
""", """    for (auto &e : m_caches) {
      if (e.second != nullptr) {
        auto *tuple = expr::ConcatTuple(e.first, *(e.second));
        delete e.second;
        e.second = nullptr;
        return tuple;
      }
    }
    m_caches.clear();
  }
""")],
    """
#include <ctime>
int main() {
  RelRunner r;
  Code c("73 61 01 00 01 10");
  Dec(r, c);
  double took[2];
  for (int k = 0; k < 2; ++k) {
    int n = k == 0 ? 1000 : 32000;
    for (int i = 0; i < n; ++i) {
      r.Put(new Tuple{Operand(i)});
    }
    clock_t t0 = clock();
    int got = 0;
    while (const Tuple *t = r.Get()) {
      delete t;
      ++got;
    }
    CHECK(got == n);
    took[k] = (double)(clock() - t0) / CLOCKS_PER_SEC;
  }
  CHECK(took[1] < 1 || took[1] < took[0] * 32 * 8);
}
""", flags="-O2 -DNDEBUG")

bug("s10-trim-by-one", "S10", "trimming a text with a very long run of blanks in front",
    "Blanks in front are taken off one by one, moving the rest of the text each time.",
    [("expr/calc/string_fun.cc", """String LTrim(String v) {
  auto s = std::find_if_not(v->cbegin(), v->cend(), IsSpace);
  return v->substr(s - v->cbegin());
}""", """String LTrim(String v) {
  std::string s = *v;
  while (!s.empty() && IsSpace(s.front())) {
    s.erase(0, 1);
  }
  return s;
}""")],
    """
#include <ctime>
int main() {
  double took[2];
  for (int k = 0; k < 2; ++k) {
    int n = k == 0 ? 20000 : 640000;
    Tuple t{Operand(String(std::string((size_t)n, ' ') + "x"))};
    Code c("37 00 f1 28");
    Runner r;
    r.Decode(c.p, c.n);
    r.BindTuple(&t);
    clock_t t0 = clock();
    r.Run();
    took[k] = (double)(clock() - t0) / CLOCKS_PER_SEC;
    CHECK(*r.Get().GetValue<String>() == "x");
  }
  CHECK(took[1] < 1 || took[1] < took[0] * 32 * 8);
}
""", flags="-O2 -DNDEBUG")

bug("s10-operators-front", "S10", "an expression of tens of thousands of constants that is decoded again or released",
    "The constants' operators are taken from the front of their list one at a time when they are released.",
    [("expr/operator_vector.h", """    for (const auto *op : m_to_release) {
      delete op;
    }
    m_to_release.clear();
    m_vector.clear();""", """    while (!m_to_release.empty()) {
      delete m_to_release.front();
      m_to_release.erase(m_to_release.begin());
    }
    m_vector.clear();""")],
    """
#include <ctime>
int main() {
  double took[2];
  for (int k = 0; k < 2; ++k) {
    int n = k == 0 ? 6000 : 120000;
    std::vector<Byte> code;
    for (int i = 0; i < n; ++i) {
      code.push_back(0x11);
      code.push_back((Byte)(i % 100));
    }
    clock_t t0 = clock();
    Runner r;
    for (int i = 0; i < 3; ++i) {
      r.Decode(code.data(), code.size());
    }
    took[k] = (double)(clock() - t0) / CLOCKS_PER_SEC;
  }
  CHECK(took[1] < 0.5 || took[1] < took[0] * 20 * 8);
}
""", flags="-O2 -DNDEBUG")

bug("v04-array-counts", "V04", "an array that runs out of elements though it has enough bytes, because one of them takes several",
    "The error for an array with too few elements names the numbers of required and of given elements the wrong way round.",
    [("expr/codec.h", "    throw MoreElementsRequired(count, i);", "    throw MoreElementsRequired(i, count);")],
    """
static std::string What(const char *hex) {
  RelRunner r;
  Code c(hex);
  try {
    r.Decode(c.p, c.n);
  } catch (const std::exception &e) {
    return e.what();
  }
  return "";
}
int main() {
  CHECK(What("74 05 10 10").find("requires 5") != std::string::npos);
  CHECK(What("74 03 11 80 01").find("requires 3 elements, but 1") != std::string::npos);
  CHECK(What("73 61 02 80 01").find("requires 2 elements, but 1") != std::string::npos);
}
""")

bug("v04-first-unknown", "V04", "two programs with different unknown aggregations refused in one process",
    "The error for an unknown aggregation is made once and then used again for other codes.",
    [("rel/rel_runner.cc", """  default:
    throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
    break;""", """  default:
    static const ExprError error("Unknown aggregation type: " + HexOfBytes(data, 1));
    throw error;
    break;""")],
    """
static std::string What(const char *hex) {
  RelRunner r;
  Code c(hex);
  try {
    r.Decode(c.p, c.n);
  } catch (const std::exception &e) {
    return e.what();
  }
  return "";
}
int main() {
  CHECK(What("74 01 5A 00").find("5A") != std::string::npos);
  CHECK(What("74 02 10 C7 00").find("C7") != std::string::npos);
}
""")

bug("v04-message-cut", "V04", "an error whose text is longer than 80 characters, such as one that names the limits of INT64",
    "Long error messages are cut, so that the limits (or the end of the unknown code) are missing.",
    [("expr/exception.h", """  ExprError(const std::string &msg) : std::runtime_error("EXPR ERROR: " + msg) {""",
      """  ExprError(const std::string &msg) : std::runtime_error("EXPR ERROR: " + msg.substr(0, 80)) {""")],
    """
int main() {
  Runner r;
  Code c("15 44 4B 1A E4 D6 E2 EF 50 FC 25");
  Dec(r, c);
  std::string w;
  try {
    r.Run();
  } catch (const std::exception &e) {
    w = e.what();
  }
  CHECK(w.find("INT64") != std::string::npos);
  CHECK(w.find("-9223372036854775808") != std::string::npos);
  CHECK(w.find("9223372036854775807") != std::string::npos);
}
""")

bug("e07-left-31-bits", "E07", "LEFT of a text of 2^31 bytes or more",
    "LEFT keeps the length of the text in 32 bits with a sign and takes a text of 2^31 bytes for a shorter one than asked for.",
    [("expr/calc/string_fun.cc", """String Left(String v0, int32_t v1) {
  if (!v0->empty()) {
    if (v1 > 0) {
      auto len = v0->length();""", """String Left(String v0, int32_t v1) {
  if (!v0->empty()) {
    if (v1 > 0) {
      auto len = static_cast<int32_t>(v0->length());""")],
    """
int main() {
  auto p = std::make_shared<std::string>(((size_t)1 << 31) + 100, 'x');
  Tuple t{Operand(String(p))};
  Operand v = Eval("37 00 11 05 F1 24", &t);
  CHECK(v.GetValue<String>()->size() == 5);
}
""")

bug("e10-size-when-bound", "E10", "a tuple which is bound first and filled (or widened) afterwards",
    "The number of elements is remembered when a tuple is bound, and variables beyond it are NULL.",
    [("expr/operand_stack.h", """    m_tuple = tuple;
""", """    m_tuple = tuple;
    m_size = tuple != nullptr ? (int32_t)tuple->size() : 0;
"""), ("expr/operand_stack.h", """      m_stack.push_back((*m_tuple)[index]);""", """      if (index >= m_size) {
        m_stack.push_back(nullptr);
        return;
      }
      m_stack.push_back((*m_tuple)[index]);"""), ("expr/operand_stack.h", """  const Tuple *m_tuple;
""", """  const Tuple *m_tuple;
  int32_t m_size = 0;
""")],
    """
int main() {
  Runner r;
  Code c("31 02");
  Dec(r, c);
  Tuple t{Operand(1)};
  r.BindTuple(&t);
  t.push_back(Operand(2));
  t.push_back(Operand(3));
  r.Run();
  CHECK(r.Get() == Operand(3));
}
""")

bug("e13-many-results", "E13", "a run which leaves more than 64 results, then another one with the same bound tuple",
    "After a run of many results its stack is replaced by a new one, which has no tuple bound.",
    [("expr/operand_stack.h", """  void Clear() {
    m_stack.clear();""", """  void Clear() {
    if (m_stack.size() > 64) {
      *this = OperandStack();
    }
    m_stack.clear();""")],
    """
int main() {
  Runner r;
  std::string hex;
  for (int i = 0; i < 70; ++i) hex += "31 00 ";
  Code c(hex);
  Dec(r, c);
  Tuple t{Operand(7)};
  r.BindTuple(&t);
  for (int i = 0; i < 3; ++i) {
    r.Run();
    CHECK(r.Get() == Operand(7));
  }
}
""")

bug("s10-hash-of-prefix", "S10", "many groups whose keys are texts with the same first 64 bytes",
    "Only the first 64 bytes of a text are hashed, so that texts sharing a long prefix are all in one bucket.",
    [("expr/expr_string.h", """    return hash<std::string>()(*val);""", """    return hash<std::string>()(val->substr(0, 64));""")],
    """
#include <set>
int main() {
  std::set<size_t> hashes;
  for (int i = 0; i < 1000; ++i) {
    hashes.insert(std::hash<String>()(String(std::string(100, 'k') + std::to_string(i))));
  }
  CHECK(hashes.size() > 900);
}
""")

bug("r02-four-thousand", "R02", "a projection with more than 4096 results",
    "The results are collected in a fixed array, and those that do not fit are left out.",
    [("expr/runner.cc", """  std::copy(m_operand_stack.begin(), m_operand_stack.end(), std::back_inserter(*tuple));""",
      """  auto end = m_operand_stack.begin() + std::min<size_t>(m_operand_stack.Size(), 4096);
  std::copy(m_operand_stack.begin(), end, std::back_inserter(*tuple));""")],
    """
int main() {
  std::string hex = "72 ";
  for (int i = 0; i < 5000; ++i) hex += "31 00 ";
  auto rows = Rel(hex.c_str(), {Tuple{Operand(1)}});
  CHECK(rows.size() == 1);
  CHECK(rows[0].size() == 5000);
  CHECK(rows[0][4999] == Operand(1));
}
""")
