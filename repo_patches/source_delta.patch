From d0afe01c9ba5ad457e7c989d14b53c179269229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 01/21] fix: integer division and modulo of the minimum value
 by -1 trapped (SIGFPE)

---
 src/expr/calc/arithmetic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..77b2758 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,12 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      // Dividing the minimum value by -1 overflows and traps on some CPUs, so wrap around like `Neg`.
+      if (v1 == -1) {
+        return (T)(0 - (std::make_unsigned_t<T>)v0);
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +63,10 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    // The minimum value modulo -1 traps on some CPUs.
+    if (v1 == -1) {
+      return (T)0;
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From fdeb816929c298751db8c7bd252cc8a4d624e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 02/21] fix: SUB<STRING> concatenated its operands instead of
 being refused

---
 src/expr/operators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/operators.cc b/src/expr/operators.cc
index 8b60085..99a2ed8 100644
--- a/src/expr/operators.cc
+++ b/src/expr/operators.cc
@@ -211,7 +211,7 @@ const Operator *const OP_SUB[] = {
     [TYPE_FLOAT]   = new BinaryArithmeticOperator<TYPE_FLOAT, calc::Sub>,
     [TYPE_DOUBLE]  = new BinaryArithmeticOperator<TYPE_DOUBLE, calc::Sub>,
     [TYPE_DECIMAL] = nullptr,
-    [TYPE_STRING]  = new BinaryArithmeticOperator<TYPE_STRING, calc::Add>,
+    [TYPE_STRING]  = nullptr,
 };
 
 const Operator *const OP_MUL[] = {
-- 
2.43.0


From b8cf5098cfe92ecd2e749cb03365c86a39e12636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 03/21] fix: SUBSTR returned bytes outside of its range or
 threw for an empty range

---
 src/expr/calc/string_fun.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9337ee4..9384d3f 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -93,6 +93,9 @@ String Substr(String v0, int32_t v1, int32_t v2) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len || v1 >= v2) {
+    return String();
+  }
   if (v1 == 0) {
     if (v2 >= len) {
       return v0;
@@ -113,6 +116,9 @@ String Substr(String v0, int32_t v1) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len) {
+    return String();
+  }
   if (v1 == 0) {
     return v0;
   } else {
-- 
2.43.0


From 215c3ca3a8903497cce7c546cbd07342fd389194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 04/21] fix: signed overflow in MID with a large length

---
 src/expr/calc/string_fun.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9384d3f..8feaf7c 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -136,7 +136,7 @@ String Mid(String v0, int32_t v1, int32_t v2) {
     } else {
       return String();
     }
-    if (v1 + v2 >= len) {
+    if (v2 >= len - v1) {
       return v0->substr(v1);
     } else {
       return v0->substr(v1, v2);
-- 
2.43.0


From be881dea5e4b8bb0f8acffa44976f4afeffadb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 05/21] fix: type bytes beyond the defined types read outside
 of the operator tables

---
 src/expr/operator_vector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..15a98db 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -374,6 +374,9 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
+  if (type >= TYPE_NUM) {
+    return false;
+  }
   const auto *op = ops[type];
   if (op != nullptr) {
     Add(op);
@@ -385,6 +388,9 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM) {
+    return false;
+  }
   if (dst == src) {
     return true;
   }
-- 
2.43.0


From f52f81618fa1be7eeb91f4348ce03e197ffcc7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 06/21] fix: CONST<DECIMAL> was silently skipped and its value
 decoded as operators

---
 src/expr/operator_vector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 15a98db..60456f5 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -152,11 +152,10 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
-    case CONST_DECIMAL: {
-      ++p;
+    case CONST_DECIMAL:
       // TODO
+      successful = false;
       break;
-    }
     case CONST_STRING: {
       ++p;
       String v;
-- 
2.43.0


From ff93ab552c79e19412c5ee25811fdd9b556af52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 07/21] fix: decoding read beyond the given length when the
 code is truncated

---
 src/expr/codec.cc           | 48 ++++++++++++++++++++-------------
 src/expr/codec.h            | 35 +++++++++++++++---------
 src/expr/exception.h        |  6 +++++
 src/expr/operator_vector.cc | 31 ++++++++++++----------
 src/rel/rel_runner.cc       | 53 +++++++++++++++++++------------------
 src/rel/rel_runner.h        |  8 +++---
 6 files changed, 106 insertions(+), 75 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..a82cdc6 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -25,66 +25,78 @@
 namespace dingodb::expr {
 
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
-  for (p = data; ((*p) & 0x80) != 0; ++p) {
+  for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
     value |= ((T)(*p & 0x7F) << shift);
     shift += 7;
   }
+  if (p >= end) {
+    throw CodeTruncated();
+  }
   value |= ((T)(*p) << shift);
   return p + 1;
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  if (end - data < 4) {
+    throw CodeTruncated();
+  }
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  if (end - data < 8) {
+    throw CodeTruncated();
+  }
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  if (len > end - p) {
+    throw CodeTruncated();
+  }
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..c5182fb 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end end of the code buffer
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,11 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
+  // An element takes at least 1 byte.
+  if (count > code + len - p) {
+    throw MoreElementsRequired(count, code + len - p);
+  }
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +91,11 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
+  // An element takes at least 1 byte.
+  if (count > code + len - p) {
+    throw MoreElementsRequired(count, code + len - p);
+  }
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..10e1fcd 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -46,6 +46,12 @@ class UnknownCode : public ExprError {
   }
 };
 
+class CodeTruncated : public ExprError {
+ public:
+  CodeTruncated() : ExprError("Unexpected end of code.") {
+  }
+};
+
 class MoreElementsRequired : public ExprError {
  public:
   MoreElementsRequired(int required, int actual)
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 60456f5..fdab7e7 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -95,6 +95,9 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    if ((*p & 0x80) != 0 && code + len - p < 2) {
+      throw CodeTruncated();
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -123,14 +126,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +144,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -159,21 +162,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -184,49 +187,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..0866b5d 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p >= code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
@@ -120,7 +121,7 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +129,71 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From a8ef28de5e7c7f46e3c2e458bafa6cc419600119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 08/21] fix: varints longer than the type (sign-extended
 negative numbers) decoded to wrong values

---
 src/expr/codec.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index a82cdc6..54bc9f3 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -22,21 +22,29 @@
 
 #include "codec.h"
 
+#include <type_traits>
+
 namespace dingodb::expr {
 
+template <typename T>
+static T VarintBits(Byte b, int shift) {
+  // Bits beyond the width of the type are dropped, for example those of a negative number extended to 10 bytes.
+  return shift < 8 * (int)sizeof(T) ? (T)((std::make_unsigned_t<T>)(b & 0x7F) << shift) : 0;
+}
+
 template <typename T>
 static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
   for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
+    value |= VarintBits<T>(*p, shift);
     shift += 7;
   }
   if (p >= end) {
     throw CodeTruncated();
   }
-  value |= ((T)(*p) << shift);
+  value |= VarintBits<T>(*p, shift);
   return p + 1;
 }
 
-- 
2.43.0


From 1330d3312136489a6350273e44385066f5c25cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 09/21] fix: misaligned and type-punned access when decoding
 FLOAT and DOUBLE immediates

---
 src/expr/codec.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 54bc9f3..8a47506 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -22,6 +22,7 @@
 
 #include "codec.h"
 
+#include <cstring>
 #include <type_traits>
 
 namespace dingodb::expr {
@@ -83,8 +84,10 @@ const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
   if (end - data < 4) {
     throw CodeTruncated();
   }
-  uint32_t l = be32toh(*(uint32_t *)data);
-  value = *(float *)&l;
+  uint32_t l;
+  memcpy(&l, data, 4);
+  l = be32toh(l);
+  memcpy(&value, &l, 4);
   return data + 4;
 }
 
@@ -93,8 +96,10 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
   if (end - data < 8) {
     throw CodeTruncated();
   }
-  uint64_t l = be64toh(*(uint64_t *)data);
-  value = *(double *)&l;
+  uint64_t l;
+  memcpy(&l, data, 8);
+  l = be64toh(l);
+  memcpy(&value, &l, 8);
   return data + 8;
 }
 
-- 
2.43.0


From 21a880ea81ef317e7b368b4e5b96bea4e85fa833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 10/21] fix: expressions lacking operands accessed an empty
 stack

---
 src/expr/operand_stack.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..f709d97 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -30,10 +30,12 @@ class OperandStack {
   virtual ~OperandStack() = default;
 
   void Pop() {
+    CheckNotEmpty();
     m_stack.pop_back();
   }
 
   Operand Get() const {
+    CheckNotEmpty();
     return m_stack.back();
   }
 
@@ -84,6 +86,12 @@ class OperandStack {
  private:
   std::deque<Operand> m_stack;
   const Tuple *m_tuple;
+
+  void CheckNotEmpty() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("Not enough operands.");
+    }
+  }
 };
 
 }  // namespace dingodb::expr
-- 
2.43.0


From 2c7dba7998e907c45cdcadd4144e961d3b11746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 11/21] fix: tuples leaked when evaluating them raised an error

---
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..81b3eeb 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..a984264 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return guard.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..84fbf6e 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From dd4527742638d27afabaa659651b35878dd45d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 12/21] fix: decoded operators leaked when the rest of the
 program was refused

---
 src/rel/rel_runner.cc | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 0866b5d..dff776a 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -38,6 +40,15 @@ static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+static void ReleaseAggs(const std::vector<const op::Agg *> *aggs) {
+  if (aggs != nullptr) {
+    for (const auto *agg : *aggs) {
+      delete agg;
+    }
+    delete aggs;
+  }
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -55,16 +66,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -74,18 +85,29 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
         break;
       }
       ++p;
-      int32_t *groupe_indices;
+      int32_t *groupe_indices = nullptr;
       size_t count;
-      p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
-      std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      std::vector<const op::Agg *> *aggs = nullptr;
+      try {
+        p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+        p = expr::DecodeVector(aggs, p, code + len - p);
+      } catch (...) {
+        delete[] groupe_indices;
+        ReleaseAggs(aggs);
+        throw;
+      }
       AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
-      std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      std::vector<const op::Agg *> *aggs = nullptr;
+      try {
+        p = expr::DecodeVector(aggs, p, code + len - p);
+      } catch (...) {
+        ReleaseAggs(aggs);
+        throw;
+      }
       AppendOp(new op::UngroupedAggOp(aggs));
       break;
     }
-- 
2.43.0


From 7f1679477cbb07d83ed27a60b3b4fbf6a5b59ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 13/21] fix: text of numbers too small to be normal raised an
 error when cast

---
 src/expr/calc/casting.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 1dd94ca..5e3adc1 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -15,6 +15,7 @@
 #include "casting.h"
 
 #include <cmath>
+#include <cstdlib>
 #include <iomanip>
 #include <sstream>
 
@@ -66,6 +67,13 @@ float Cast(String v) {
     return std::stof(*v);
   } catch (const std::invalid_argument& e) {
     return 0;
+  } catch (const std::out_of_range& e) {
+    auto r = std::strtof(v->c_str(), nullptr);
+    if (std::isinf(r)) {
+      throw;
+    }
+    // Too small to be a normal number, which is not an error.
+    return r;
   }
 }
 
@@ -75,6 +83,13 @@ double Cast(String v) {
     return std::stod(*v);
   } catch (const std::invalid_argument& e) {
     return 0;
+  } catch (const std::out_of_range& e) {
+    auto r = std::strtod(v->c_str(), nullptr);
+    if (std::isinf(r)) {
+      throw;
+    }
+    // Too small to be a normal number, which is not an error.
+    return r;
   }
 }
 
-- 
2.43.0


From 9cc7e7e31611642793b389d3adc097e57508754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 14/21] fix: casting floating-point values to text does not
 depend on the global locale

---
 src/expr/calc/casting.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 5e3adc1..ff437f6 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -17,6 +17,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 
 #include "../exception.h"
@@ -113,6 +114,7 @@ static String CastF(T v) {
   // precision is 6 by default
   // auto s = std::to_string(v);
   std::stringstream ss;
+  ss.imbue(std::locale::classic());
   ss << std::fixed << std::setprecision(15) << v;
   auto s = ss.str();
   s.erase(s.find_last_not_of('0') + 1);
-- 
2.43.0


From efffdbf06e3ab2a420e117fb1aac093c74cc9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 15/21] fix: casting text to floating-point values does not
 depend on the locale

---
 src/expr/calc/casting.cc | 50 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index ff437f6..61e9fb2 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -14,11 +14,19 @@
 
 #include "casting.h"
 
+#include <locale.h>
+#include <stdlib.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
+
+#include <cerrno>
 #include <cmath>
 #include <cstdlib>
 #include <iomanip>
 #include <locale>
 #include <sstream>
+#include <stdexcept>
 
 #include "../exception.h"
 
@@ -62,36 +70,30 @@ int64_t Cast(String v) {
   }
 }
 
+// Parses as in the "C" locale, whatever the locale of the process is.
+template <typename T>
+static T ParseF(const std::string& s, T (*parse)(const char*, char**, locale_t)) {
+  static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", nullptr);
+  const int saved_errno = errno;
+  errno = 0;
+  const auto r = parse(s.c_str(), nullptr, c_locale);
+  // Too small to be a normal number is not an error.
+  const bool overflow = errno == ERANGE && std::isinf(r);
+  errno = saved_errno;
+  if (overflow) {
+    throw std::out_of_range("Value exceeds limits of floating-point number.");
+  }
+  return r;
+}
+
 template <>
 float Cast(String v) {
-  try {
-    return std::stof(*v);
-  } catch (const std::invalid_argument& e) {
-    return 0;
-  } catch (const std::out_of_range& e) {
-    auto r = std::strtof(v->c_str(), nullptr);
-    if (std::isinf(r)) {
-      throw;
-    }
-    // Too small to be a normal number, which is not an error.
-    return r;
-  }
+  return ParseF(*v, strtof_l);
 }
 
 template <>
 double Cast(String v) {
-  try {
-    return std::stod(*v);
-  } catch (const std::invalid_argument& e) {
-    return 0;
-  } catch (const std::out_of_range& e) {
-    auto r = std::strtod(v->c_str(), nullptr);
-    if (std::isinf(r)) {
-      throw;
-    }
-    // Too small to be a normal number, which is not an error.
-    return r;
-  }
+  return ParseF(*v, strtod_l);
 }
 
 template <>
-- 
2.43.0


From 0ca014f089dcecc7b4a0fba75a09fdc76bd06a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 16/21] fix: UPPER, LOWER and TRIM functions do not depend on
 the locale

---
 src/expr/calc/string_fun.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 8feaf7c..2a43d7d 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -18,6 +18,16 @@
 
 namespace dingodb::expr::calc {
 
+// Functions of <cctype> depend on the locale of the process, so are not used here.
+
+static char ToLower(char ch) {
+  return 'A' <= ch && ch <= 'Z' ? (char)(ch - 'A' + 'a') : ch;
+}
+
+static char ToUpper(char ch) {
+  return 'a' <= ch && ch <= 'z' ? (char)(ch - 'a' + 'A') : ch;
+}
+
 String Concat(String v0, String v1) {
   if (!v0->empty()) {
     if (!v1->empty()) {
@@ -30,13 +40,13 @@ String Concat(String v0, String v1) {
 
 String Lower(String v) {
   std::string str(v->length(), '\0');
-  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::tolower(ch); });
+  std::transform(v->cbegin(), v->cend(), str.begin(), ToLower);
   return str;
 }
 
 String Upper(String v) {
   std::string str(v->length(), '\0');
-  std::transform(v->cbegin(), v->cend(), str.begin(), [](unsigned char ch) { return std::toupper(ch); });
+  std::transform(v->cbegin(), v->cend(), str.begin(), ToUpper);
   return str;
 }
 
@@ -68,8 +78,8 @@ String Right(String v0, int32_t v1) {
   return v0;
 }
 
-static bool IsSpace(unsigned char ch) {
-  return std::isspace(ch);
+static bool IsSpace(char ch) {
+  return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 String Trim(String v) {
-- 
2.43.0


From 5166feeb6e44909333968064ff7b0604be09c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 17/21] fix: keep the operators of a chain side by side, so
 that long programs do not exhaust the stack

A TandemOp held another TandemOp for each further operator, and putting,
fetching and releasing went through them by recursion. A relational program
of some hundred thousand operators (1.5 MB) crashed the process.
---
 src/rel/op/tandem_op.cc | 37 ++++++++++++++++++++++++-------------
 src/rel/op/tandem_op.h  | 14 ++++++++++++--
 src/rel/rel_runner.cc   |  5 ++++-
 3 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/rel/op/tandem_op.cc b/src/rel/op/tandem_op.cc
index b04b1dc..e179bc7 100644
--- a/src/rel/op/tandem_op.cc
+++ b/src/rel/op/tandem_op.cc
@@ -16,31 +16,42 @@
 
 namespace dingodb::rel::op {
 
-TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_in(in), m_out(out) {
+TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_ops{in, out} {
 }
 
 TandemOp::~TandemOp() {
-  delete m_in;
-  delete m_out;
+  for (const auto *op : m_ops) {
+    delete op;
+  }
+}
+
+void TandemOp::Append(const RelOp *op) {
+  m_ops.push_back(op);
 }
 
 const expr::Tuple *TandemOp::Put(const expr::Tuple *tuple) const {
-  const auto *t = m_in->Put(tuple);
-  if (t != nullptr) {
-    return m_out->Put(t);
-  }
-  return nullptr;
+  return PutFrom(0, tuple);
 }
 
 const expr::Tuple *TandemOp::Get() const {
   const expr::Tuple *tuple;
-  while ((tuple = m_in->Get()) != nullptr) {
-    const auto *t = m_out->Put(tuple);
-    if (t != nullptr) {
-      return t;
+  for (size_t i = 0; i < m_ops.size(); ++i) {
+    while ((tuple = m_ops[i]->Get()) != nullptr) {
+      const auto *t = PutFrom(i + 1, tuple);
+      if (t != nullptr) {
+        return t;
+      }
     }
   }
-  return m_out->Get();
+  return nullptr;
+}
+
+const expr::Tuple *TandemOp::PutFrom(size_t i, const expr::Tuple *tuple) const {
+  const auto *t = tuple;
+  for (; t != nullptr && i < m_ops.size(); ++i) {
+    t = m_ops[i]->Put(t);
+  }
+  return t;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/tandem_op.h b/src/rel/op/tandem_op.h
index 4907b79..19d178d 100644
--- a/src/rel/op/tandem_op.h
+++ b/src/rel/op/tandem_op.h
@@ -15,22 +15,32 @@
 #ifndef _REL_OP_TANDEM_OP_H_
 #define _REL_OP_TANDEM_OP_H_
 
+#include <vector>
+
 #include "rel_op.h"
 
 namespace dingodb::rel::op {
 
+/**
+ * @brief A chain of operators. They are kept side by side rather than nested, so that the stack needed does not grow
+ * with the length of the chain.
+ */
 class TandemOp : public RelOp {
  public:
   TandemOp(const RelOp *in, const RelOp *out);
 
   ~TandemOp() override;
 
+  void Append(const RelOp *op);
+
   const expr::Tuple *Put(const expr::Tuple *tuple) const override;
   const expr::Tuple *Get() const override;
 
  private:
-  const RelOp *m_in;
-  const RelOp *m_out;
+  std::vector<const RelOp *> m_ops;
+
+  // Puts a tuple through the operators from the i-th on.
+  const expr::Tuple *PutFrom(size_t i, const expr::Tuple *tuple) const;
 };
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index dff776a..6ec873f 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -131,7 +131,10 @@ const expr::Tuple *RelRunner::Get() const {
 }
 
 void RelRunner::AppendOp(RelOp *op) {
-  if (m_op != nullptr) {
+  auto *tandem = dynamic_cast<op::TandemOp *>(m_op);
+  if (tandem != nullptr) {
+    tandem->Append(op);
+  } else if (m_op != nullptr) {
     m_op = new op::TandemOp(m_op, op);
   } else {
     m_op = op;
-- 
2.43.0


From 8f04f0bb1f3d0f52551308c4d94490ddfd84b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 18/21] fix: a group is not left without its aggregates if
 memory for them cannot be allocated

---
 src/rel/op/grouped_agg_op.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/grouped_agg_op.cc b/src/rel/op/grouped_agg_op.cc
index 47716de..d628c60 100644
--- a/src/rel/op/grouped_agg_op.cc
+++ b/src/rel/op/grouped_agg_op.cc
@@ -14,6 +14,8 @@
 
 #include "grouped_agg_op.h"
 
+#include <memory>
+
 #include "../../expr/utils.h"
 
 namespace dingodb::rel::op {
@@ -32,10 +34,16 @@ GroupedAggOp::~GroupedAggOp() {
 }
 
 const expr::Tuple *GroupedAggOp::Put(const expr::Tuple *tuple) const {
-  auto *key = expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size);
-  auto *&cache = m_caches[*key];
-  delete key;
-  AddToCache(cache, tuple);
+  std::unique_ptr<const expr::Tuple> guard(tuple);
+  std::unique_ptr<const expr::Tuple> key(expr::MapTuple(*tuple, m_group_indices, m_groupe_indices_size));
+  auto i = m_caches.find(*key);
+  if (i == m_caches.end()) {
+    // A group never is without its aggregates, even if there is not enough memory.
+    auto cache = std::make_unique<expr::Tuple>(m_aggs->size());
+    i = m_caches.emplace(*key, cache.get()).first;
+    cache.release();
+  }
+  AddToCache(i->second, guard.release());
   return nullptr;
 }
 
-- 
2.43.0


From faa963a0c2642fb2ed9e813d81b5c807146929ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 19/21] fix: casting floating-point values to text raises an
 error instead of giving half of it, if there is not enough memory

---
 src/expr/calc/casting.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/calc/casting.cc b/src/expr/calc/casting.cc
index 61e9fb2..5ebef5d 100644
--- a/src/expr/calc/casting.cc
+++ b/src/expr/calc/casting.cc
@@ -116,6 +116,8 @@ static String CastF(T v) {
   // precision is 6 by default
   // auto s = std::to_string(v);
   std::stringstream ss;
+  // Raise an error instead of giving half of the text, if there is not enough memory.
+  ss.exceptions(std::ios::badbit);
   ss.imbue(std::locale::classic());
   ss << std::fixed << std::setprecision(15) << v;
   auto s = ss.str();
-- 
2.43.0


From 9534ff23d94ff5d7dd2cbb2ffbd6f890853c4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 20/21] fix: the error for an array with too few elements names
 the right number if 2^31 or more are required

---
 src/expr/exception.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/exception.h b/src/expr/exception.h
index 10e1fcd..15624ce 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -54,7 +54,7 @@ class CodeTruncated : public ExprError {
 
 class MoreElementsRequired : public ExprError {
  public:
-  MoreElementsRequired(int required, int actual)
+  MoreElementsRequired(size_t required, size_t actual)
       : ExprError(
             "Array decoding requires " + std::to_string(required) + " elements, but " + std::to_string(actual) +
             " provided.") {
-- 
2.43.0


From f8d706e8a0a2a89d2b3f8930a978c2bcac99f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 21/21] fix: SUBSTR and MID give the right part of texts of
 2^31 bytes or more

---
 src/expr/calc/string_fun.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 2a43d7d..8125fa7 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -99,7 +99,7 @@ String RTrim(String v) {
 }
 
 String Substr(String v0, int32_t v1, int32_t v2) {
-  int len = v0->length();
+  int64_t len = v0->length();
   if (v1 < 0) {
     v1 = 0;
   }
@@ -122,7 +122,7 @@ String Substr(String v0, int32_t v1, int32_t v2) {
 }
 
 String Substr(String v0, int32_t v1) {
-  int len = v0->length();
+  int64_t len = v0->length();
   if (v1 < 0) {
     v1 = 0;
   }
@@ -138,33 +138,35 @@ String Substr(String v0, int32_t v1) {
 
 String Mid(String v0, int32_t v1, int32_t v2) {
   if (v2 > 0) {
-    int len = v0->length();
+    int64_t len = v0->length();
+    int64_t start;
     if (0 < v1 && v1 <= len) {
-      v1 -= 1;
+      start = v1 - 1;
     } else if (-len <= v1 && v1 < 0) {
-      v1 += len;
+      start = v1 + len;
     } else {
       return String();
     }
-    if (v2 >= len - v1) {
-      return v0->substr(v1);
+    if (v2 >= len - start) {
+      return v0->substr(start);
     } else {
-      return v0->substr(v1, v2);
+      return v0->substr(start, v2);
     }
   }
   return String();
 }
 
 String Mid(String v0, int32_t v1) {
-  int len = v0->length();
+  int64_t len = v0->length();
+  int64_t start;
   if (0 < v1 && v1 <= len) {
-    v1 -= 1;
+    start = v1 - 1;
   } else if (-len <= v1 && v1 < 0) {
-    v1 += len;
+    start = v1 + len;
   } else {
     return String();
   }
-  return v0->substr(v1);
+  return v0->substr(start);
 }
 
 }  // namespace dingodb::expr::calc
-- 
2.43.0

