#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, in one editable place)."""
import json, os
OV = "src/expr/operator_vector.cc"
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

RUN = ["Runner::Decode / BindTuple / Run / Get / GetAll / GetType"]
REL = ["RelRunner::Decode / Put / Get"]

p("E01", "An encoded expression evaluates to the value it denotes",
  "For every well-formed encoded expression built from supported operators and every bound tuple that matches its variables, decoding and running it leaves on the result stack exactly the values that postfix evaluation of its operators gives, in order, with nothing else. This holds at any nesting depth, expression length and mixture of types, and however operands are supplied (constant, negated constant, NULL or variable).",
  ["programs", "inputs"], "every well-typed expression over all supported operators and types, every operand value",
  "The 36 parameterised tests evaluate fixed hex strings of at most seven operators; the space of operator/type/operand combinations and nestings is untouched.",
  [OV, "src/expr/operator.h", "src/expr/operators.cc", "src/expr/runner.cc"],
  [("opcode dispatch", OV), ("stack operators", "src/expr/operator.h"), ("operator tables", "src/expr/operators.cc")], RUN,
  [("operand stack", "values left by the operators run so far", "src/expr/operand_stack.h")])
p("E02", "Arithmetic: wrap-around integers, IEEE floats, x/0 and x%0 are NULL",
  "For all operand values, integer +, -, *, unary - and ABS give the two's-complement wrapped result of their declared width, floating-point arithmetic gives the IEEE result in the declared precision, and the checked ABS raises the value-exceeds-limits error of its type exactly for the most negative integer. Integer division truncates toward zero, remainder takes the sign of the dividend, and a/b*b + a%b = a for every b other than zero; dividing or taking a remainder by zero (of any numeric type) gives NULL. No operand pair makes evaluation trap or crash.",
  ["inputs"], "every pair of operand values of INT32, INT64, FLOAT and DOUBLE",
  "Tests add and multiply a few small positive integers and doubles; no division, remainder, overflow or zero divisor case exists.",
  ["src/expr/calc/arithmetic.h", "src/expr/calc/mathematic.cc", "src/expr/operators.cc"],
  [("Div/Mod zero guard", "src/expr/calc/arithmetic.h"), ("AbsCheck", "src/expr/calc/mathematic.cc")], RUN)
p("E03", "NULL propagates; AND/OR/NOT follow three-valued logic",
  "Any arithmetic, relational, cast, string or mathematical operator with at least one NULL operand yields NULL, whatever the other operands are. NOT, AND and OR obey Kleene three-valued logic (FALSE AND NULL is FALSE, TRUE OR NULL is TRUE, in either operand order, otherwise NULL wins). For every value of every type exactly one of IS_NULL, IS_TRUE and IS_FALSE holds, and none of the three is ever NULL: numbers are true when non-zero, non-NULL strings are never true.",
  ["inputs", "programs"], "every operator, every subset of NULL operands, every boolean connective tree",
  "Tests cover FALSE AND NULL, TRUE AND NULL and one IS_NULL / IS_TRUE each; no NULL with any other operator, OR, NOT or IS_FALSE.",
  ["src/expr/operator.h", "src/expr/operator.cc", "src/expr/calc/special.h", "src/expr/calc/special.cc"],
  [("null checks in Unary/Binary/TertiaryOperator", "src/expr/operator.h"), ("And/Or/NotOperator", "src/expr/operator.cc"), ("IsNull/IsTrue/IsFalse", "src/expr/calc/special.h")], RUN)
p("E04", "Comparisons and MIN/MAX agree with one total order per type",
  "For all non-NULL operands of one type, the six relational operators are those of a single order: numeric order for numbers (IEEE rules for NaN), FALSE before TRUE, and unsigned byte-wise lexicographic order for strings of any content and length. MIN and MAX return the smaller and the larger of their operands in that same order (NaN operands excepted).",
  ["inputs"], "every pair of values of BOOL, INT32, INT64, FLOAT, DOUBLE and STRING",
  "Tests compare three pairs of values with =, >, < ; >=, <=, <>, MIN and MAX are never run on anything but one constant range filter.",
  ["src/expr/calc/relational.h", "src/expr/calc/mathematic.h", "src/expr/calc/mathematic.cc", "src/expr/expr_string.h"],
  [("relational templates", "src/expr/calc/relational.h"), ("String ordering operators", "src/expr/expr_string.h"), ("Min/Max", "src/expr/calc/mathematic.h")], RUN)
p("E05", "Numeric casts round correctly; checked casts never return a wrong value",
  "Casting a floating-point value to an integer rounds to nearest with halves away from zero whenever the rounded value is representable, integer narrowing keeps the low-order bits, anything non-zero casts to TRUE, and integer or double to floating-point conversion rounds to nearest. A checked cast either returns that same mathematically correct value or, when the rounded value does not fit the integer target (including NaN and infinities), raises the library's value-exceeds-limits error, which names the target type and its range; it never returns a value outside half a unit of its operand.",
  ["inputs"], "every value of every numeric source type, every pair of numeric/boolean types, checked and unchecked",
  "Six far-out-of-range throws are tested; the boundaries (max+0.4, max+0.5, halves, 2^53 neighbours, NaN) and every successful checked cast are not.",
  ["src/expr/calc/casting.h", "src/expr/calc/casting.cc", "src/expr/operators.cc"],
  [("Cast specialisations", "src/expr/calc/casting.cc"), ("CastCheck range tests", "src/expr/calc/casting.cc"), ("OP_CAST/OP_CAST_CHECK tables", "src/expr/operators.cc")], RUN)
p("E06", "Casts between text and values are exact and inverse to each other",
  "Casting an integer to text gives its shortest decimal form, a boolean gives true/false, and a finite float or double gives its value in fixed notation rounded to 15 decimals with trailing zeros dropped but at least one decimal kept. Casting text to an integer, float or double yields the (nearest representable) value of the longest leading numeral after optional white space, 0 when there is none, and raises an error rather than returning a wrong number when the numeral does not fit the type. Hence integer to text to integer is the identity and double to text to double is within the printed precision.",
  ["inputs"], "every integer, float, double and boolean value, every text",
  "Tests print five floats and parse eight short strings; no integer is ever printed, no negative, signed, spaced, overflowing or exponent text is parsed.",
  ["src/expr/calc/casting.cc"],
  [("CastF", "src/expr/calc/casting.cc"), ("stoi/stoll/stof/stod wrappers", "src/expr/calc/casting.cc")], RUN)
p("E07", "String functions return exactly the documented part or mapping",
  "For every string (any bytes, any length) and every 32-bit position or length argument: concatenation (CONCAT and + on strings) is the bytes of both operands in order; LOWER and UPPER map ASCII letters only and keep every other byte; TRIM, LTRIM and RTRIM remove exactly the leading and/or trailing white space; LEFT and RIGHT return the first/last n bytes (all when n exceeds the length, none when n is not positive). SUBSTR from a 0-based start (negative counts as 0) to an exclusive end or to the end of the string returns exactly the bytes in that range; MID from a 1-based position (negative counts from the end, 0 or out of range gives the empty string) returns at most the given number of bytes. Positions outside the string give the shorter or empty string, never bytes outside the requested range and never an error.",
  ["inputs"], "every string and every INT32 argument, including INT32 extremes",
  "No test calls any string function.",
  ["src/expr/calc/string_fun.cc", "src/expr/operators.cc"],
  [("string function bodies", "src/expr/calc/string_fun.cc"), ("OP_FUN table 0x21..0x2F", "src/expr/operators.cc")], RUN)
p("E08", "Mathematical functions compute the named function",
  "For every double, each pre-defined mathematical function (CEIL, FLOOR, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, EXP, LOG), selected by its sequence number, returns the double nearest to the true value of that function up to a few units in the last place, with IEEE results (NaN, infinities) outside its domain. CEIL and FLOOR are exact.",
  ["inputs"], "every double operand of every mathematical function",
  "No test calls any mathematical function.",
  ["src/expr/operators.cc"], [("OP_FUN table 0x01..0x11", "src/expr/operators.cc")], RUN)
p("E09", "Constants decode to exactly the encoded value",
  "Every constant written in the documented encoding decodes to exactly that value: integers as Protocol-Buffers varints of any valid length (including the sign-extended ten-byte form), negated integers, big-endian IEEE floats and doubles bit for bit, strings of any length and content, booleans and typed NULLs. The operators after an immediate are found exactly where it ends.",
  ["inputs"], "every value of every type and every valid encoding of it, alone and between other operators",
  "Tests decode nine numbers, two booleans and one three-byte string.",
  ["src/expr/codec.cc", "src/expr/codec.h", OV],
  [("DecodeVarint and float decoding", "src/expr/codec.cc"), ("CONST / CONST_N cases", OV)], RUN)
p("E10", "Variables read the addressed element of the currently bound tuple",
  "A variable operator with index i yields the i-th (0-based) element of the tuple bound at the time of the run, unchanged, including NULL, for every in-range index of tuples of any width. Re-binding another tuple, or changing the bound tuple's contents between runs, takes effect on the next run without decoding again; running a variable with no tuple bound raises an error.",
  ["inputs", "histories"], "every tuple width and index, every sequence of bind / mutate / run",
  "Tests read index 0 or 1 of two-column tuples bound once.",
  ["src/expr/operand_stack.h", "src/expr/operator.h", OV],
  [("PushVar", "src/expr/operand_stack.h"), ("VAR_I cases", OV)], RUN,
  [("bound tuple", "the caller's tuple variables are read from", "src/expr/operand_stack.h")])
p("E11", "Decoding consumes exactly one expression",
  "Decoding an expression followed by the end-of-expression byte returns the position just after that byte, whatever bytes follow, and those bytes never influence the result; without the end byte the whole given length is consumed. A zero byte inside an immediate does not end the expression, so several expressions stored one after another decode one by one from the returned positions.",
  ["programs", "inputs"], "every expression, every suffix, every number of concatenated expressions",
  "Tests never look at the returned position; end-of-expression is only exercised inside five fixed relational programs.",
  [OV, "src/expr/codec.cc", "src/rel/rel_runner.cc"], [("EOE handling and returned pointer", OV)], ["return value of Runner::Decode"])
p("E12", "The reported type is the type of the result",
  "After decoding any well-formed expression, the reported result type is the type of the value the expression produces: every non-NULL result of running it holds a value of that type, and a NULL result of a typed expression still reports that type.",
  ["programs", "inputs"], "every well-typed expression with every tuple",
  "No test reads the reported type.",
  ["src/expr/operator.h", "src/expr/operator_vector.h", "src/expr/operators.cc"],
  [("OperatorBase<R>::GetType", "src/expr/operator.h"), ("OperatorVector::GetType", "src/expr/operator_vector.h")], ["Runner::GetType", "type held by the result Operand"])
p("E13", "A runner carries nothing over from one use to the next",
  "For every history of decoding (successful or failing), binding, running (successful or raising an error) and reading results on one runner, each run after a successful decode gives the same results as a fresh runner given the same expression and tuple. Reading results is repeatable and running again replaces, never adds to, earlier results.",
  ["histories"], "every sequence of decode / failed decode / bind / run / failed run / read operations",
  "Every test uses each runner for exactly one decode, one run and one read.",
  ["src/expr/runner.cc", "src/expr/operator_vector.h", "src/expr/operator_vector.cc", "src/expr/operand_stack.h"],
  [("Run clears the stack", "src/expr/runner.cc"), ("Decode releases previous operators", OV)], RUN,
  [("operator vector", "decoded operators", "src/expr/operator_vector.h"), ("operand stack", "results of the last run", "src/expr/operand_stack.h")])
p("E14", "Evaluation never changes its inputs or earlier results",
  "Running an expression leaves the bound tuple and the expression's own constants unchanged, so running it again gives the same results, and values obtained from earlier runs keep their content whatever is run afterwards, even though strings are shared rather than copied.",
  ["histories", "inputs"], "every expression (string operators above all) and every sequence of runs sharing tuples and results",
  "Tests compare one result once and never look at the inputs again.",
  ["src/expr/expr_string.h", "src/expr/calc/string_fun.cc", "src/expr/operand_stack.h", "src/expr/operator.h"],
  [("String exposes only const access", "src/expr/expr_string.h"), ("const Operator", "src/expr/operator.h")], RUN)
p("S01", "Decoding arbitrary bytes as an expression is safe and exact",
  "For every byte sequence and length, decoding it as an expression reads only those bytes, terminates, and either accepts it, returning a position inside or just past the sequence, or raises an error derived from std::exception. It accepts exactly the sequences that are documented encodings of supported operators, so truncated immediates, over-long strings and unknown codes are refused, and an accepted sequence means what the documentation says.",
  ["inputs"], "every byte string, in particular truncations and mutations of valid encodings",
  "No test decodes an invalid or truncated expression.",
  [OV, "src/expr/codec.cc", "src/expr/codec.h", "src/expr/exception.h"],
  [("length-bounded decode loop", OV), ("UnknownCode", "src/expr/exception.h")], ["Runner::Decode return value or exception", "AddressSanitizer / guard page"])
p("S02", "Decoding arbitrary bytes as a relational program is safe and exact",
  "For every byte sequence, decoding it as a relational program reads only those bytes, terminates without allocating more than in proportion to its length, and either accepts all of it as the documented chain of operators or raises an error derived from std::exception. A refused program leaves the runner usable for another decode and releases everything it had built.",
  ["inputs", "histories"], "every byte string, in particular truncations and mutations of valid programs, huge element counts",
  "No test decodes an invalid relational program.",
  ["src/rel/rel_runner.cc", "src/rel/rel_runner.h", "src/expr/codec.h"],
  [("operator and aggregation dispatch", "src/rel/rel_runner.cc"), ("MoreElementsRequired", "src/expr/exception.h")], ["RelRunner::Decode return value or exception", "live allocation count"])
p("S03", "Unsupported operator and type codes are refused, never misread",
  "Every operator code that is undefined, marked not implemented, or combined with a type or type byte it does not support (including type nibbles above the defined types and subtraction, product, quotient or remainder of types without that operation) makes decoding raise an error. Every supported operator/type combination is accepted. No unsupported code is silently skipped or decoded as some other operator.",
  ["inputs"], "all one- and two-byte operator codes, all aggregation and relational operator codes, in any context",
  "Tests decode only supported codes.",
  [OV, "src/expr/operators.cc", "src/rel/rel_runner.cc"],
  [("AddOperatorByType / AddCastOperator / AddFunOperator", OV), ("operator tables with null entries", "src/expr/operators.cc")], ["Runner::Decode / RelRunner::Decode exception"])
p("S04", "Running any accepted program is safe",
  "Running any expression that decoded successfully, even one that is ill-typed or lacks operands, against any tuple that covers its variable indices either completes or raises an error derived from std::exception; it never crashes, hangs or reads memory it should not. An operator applied to an operand of another type raises an error instead of reinterpreting the value.",
  ["programs", "inputs"], "every decodable byte string and every tuple wide enough for its variables",
  "Tests run only well-typed, complete expressions.",
  ["src/expr/operand_stack.h", "src/expr/operand.h", "src/expr/operator.h", "src/expr/calc/arithmetic.h"],
  [("std::get in Operand::GetValue", "src/expr/operand.h"), ("OperandStack access", "src/expr/operand_stack.h")], RUN)
p("S05", "Every tuple and every decoded object is released exactly once",
  "For every history of decoding, putting, getting, failing and destroying, tuples handed to a relational runner are released by it or handed back exactly once, tuples handed back belong to the caller, and destroying or re-decoding a runner (also after errors raised by decoding or evaluation, and with undrained aggregates) releases everything it holds. No memory is leaked, freed twice or used after being freed.",
  ["histories", "fault_sequences"], "every sequence of decode / put / get / re-decode / destroy, with rows whose evaluation fails and programs that are refused",
  "Tests run without leak or memory checking, and never take an error path.",
  ["src/rel/op/filter_op.cc", "src/rel/op/project_op.cc", "src/rel/op/agg_op.cc", "src/rel/op/grouped_agg_op.cc", "src/rel/op/ungrouped_agg_op.cc", "src/rel/op/tandem_op.cc", "src/rel/rel_runner.cc", "src/rel/rel_runner.h", "src/expr/operator_vector.h"],
  [("operators delete consumed tuples", "src/rel/op"), ("destructors", "src/rel/op"), ("Release", "src/rel/rel_runner.h")], ["live allocation count", "AddressSanitizer"])
p("S06", "Runners are independent of one another",
  "Any number of expression and relational runners, used interleaved in one thread or each in a thread of its own (sharing read-only tuples and nothing else), give the same results as when each is used alone, without data races.",
  ["schedules", "histories"], "every set of programs and every interleaving of their uses",
  "Tests use one runner at a time in one thread.",
  ["src/expr/operators.cc", "src/expr/runner.h", "src/expr/operand_stack.h", "src/rel/rel_runner.h"],
  [("shared operators are stateless and const", "src/expr/operators.cc"), ("per-runner stack", "src/expr/runner.h")], RUN + REL)
p("S07", "Results do not depend on the state of the process",
  "Whatever the C locale and the global C++ locale of the embedding process, and whatever errno and the floating-point exception flags hold beforehand, an encoded expression or relational program decodes to the same thing and gives the same results and errors: numerals are read and written with a decimal point and without grouping, only ASCII letters change case and only ASCII white space is trimmed.",
  ["configurations", "inputs"], "every locale and every prior value of errno and of the floating-point flags, with every program and input",
  "All tests run in a fresh process with the classic locale.",
  ["src/expr/calc/casting.cc", "src/expr/calc/string_fun.cc"], [("Cast between text and numbers", "src/expr/calc/casting.cc"), ("Lower, Upper, Trim", "src/expr/calc/string_fun.cc")], RUN + REL)
p("S08", "Memory does not grow with use, nor the stack with the length of a program",
  "A runner keeps no more than the program it was last given, the results of its last run and the state of groups not yet fetched: the memory it holds does not grow with the number of runs, of rows put (beyond one state per group), of rows fetched, of errors raised, of programs decoded again or refused. Decoding, running, putting, fetching and destroying need an amount of stack that does not depend on the length of the program, the number of operands or the length of the strings.",
  ["histories", "programs", "inputs"], "every program, used for any number of rounds, and programs and values of any length",
  "Tests use each runner a few times, with programs of a few operators, on the main thread's stack.",
  ["src/rel/rel_runner.cc", "src/rel/op/tandem_op.cc", "src/rel/op/grouped_agg_op.cc", "src/rel/op/ungrouped_agg_op.cc", "src/rel/op/agg_op.cc", "src/expr/runner.h", "src/expr/runner.cc", "src/expr/operand_stack.h", "src/expr/operator_vector.h"],
  [("Release, AppendOp", "src/rel/rel_runner.cc"), ("TandemOp", "src/rel/op/tandem_op.cc"), ("Get erases the group", "src/rel/op/grouped_agg_op.cc"), ("Clear", "src/expr/operand_stack.h"), ("Release", "src/expr/operator_vector.h")], ["live bytes over rounds", "threads with a small stack"])
p("S09", "A failed allocation is an error like any other",
  "Whichever allocations of memory fail inside decoding, running, reading, putting or fetching, and however many: the call raises an error derived from std::exception or gives its usual result, never a wrong or shortened one; the process does not crash, nothing is released twice or used after its release, and the runner can still be destroyed, decoded again and used. An expression run again, and a row put again through filters and projections, give the right result; an aggregation, once drained, starts afresh and gives right results for the rows put then.",
  ["fault_sequences", "histories", "programs"], "every allocation in every history of decode, run, put and get, alone or together with others",
  "No test makes an allocation fail.",
  ["src/rel/op/grouped_agg_op.cc", "src/rel/op/agg_op.cc", "src/rel/op/tandem_op.cc", "src/rel/op/project_op.cc", "src/rel/rel_runner.cc", "src/expr/operator_vector.cc", "src/expr/operand_stack.h", "src/expr/runner.cc", "src/expr/calc/casting.cc", "src/expr/calc/string_fun.cc"],
  [("groups are created with their aggregates", "src/rel/op/grouped_agg_op.cc"), ("state of an aggregation", "src/rel/op/agg_op.cc"), ("Release after a failed decoding", "src/rel/rel_runner.h"), ("stream reports a failed allocation", "src/expr/calc/casting.cc")], ["allocations made to fail", "AddressSanitizer"])
p("S10", "The work grows no faster than the input",
  "Decoding takes work at most in proportion to the length of the code; running, in proportion to the operators and to the bytes of the texts they handle, whatever the width of the bound tuple; putting a row, in proportion to the operators it passes, their keys and aggregates and the width of the row; fetching everything, in proportion to the rows reported. None of this depends on how many rows, groups, runs, decodings, refusals or errors came before: a group is found by the hash of its key, so for keys not chosen to collide (numbers one after another or at random, texts sharing a prefix or suffix, alone or beside other columns) the work of a row does not grow with the number of groups. Hashing and converting to and from hexadecimal text take work in proportion to the length.",
  ["inputs", "programs", "histories"], "every size of code, text, tuple, chain, history and set of groups",
  "Tests use inputs of a few operators, rows, groups and characters and look at results only.",
  ["src/expr/operator_vector.cc", "src/expr/operator_vector.h", "src/expr/runner.cc", "src/expr/operand_stack.h", "src/expr/operand.h", "src/expr/expr_string.h", "src/expr/calc/string_fun.cc", "src/rel/rel_runner.cc", "src/rel/op/grouped_agg_op.cc", "src/rel/op/tandem_op.cc", "src/rel/op/agg_op.cc", "src/expr/utils.cc"],
  [("hash of operands, texts and tuples", "src/expr/operand.h"), ("groups found by hash, erased when fetched", "src/rel/op/grouped_agg_op.cc"), ("Release, Add", "src/expr/operator_vector.h"), ("PushVar", "src/expr/operand_stack.h"), ("Trim and the others", "src/expr/calc/string_fun.cc")], ["basic blocks entered in the library", "bytes moved, compared, hashed and allocated"])
p("R01", "Filter passes exactly the rows whose predicate is TRUE",
  "A filter returns each row it is given, unchanged and at once, if its predicate (its last result, should it leave several) evaluates to TRUE on that row, and returns nothing if it evaluates to FALSE or NULL; no row influences another, and nothing remains to be fetched afterwards.",
  ["programs", "inputs", "histories"], "every predicate and every sequence of rows",
  "Two fixed predicates over nine fixed rows are tested.",
  ["src/rel/op/filter_op.cc"], [("FilterOp::Put", "src/rel/op/filter_op.cc")], REL)
p("R02", "Project returns one row of all expression results in order",
  "A projection returns, for each row it is given, exactly one row holding the results of its expressions on that row in the order written, with NULLs kept; rows do not influence one another and nothing remains to be fetched afterwards.",
  ["programs", "inputs", "histories"], "every list of expressions (any number, any types) and every sequence of rows",
  "Three fixed projections over fixed rows are tested.",
  ["src/rel/op/project_op.cc", "src/expr/runner.cc"], [("ProjectOp::Put", "src/rel/op/project_op.cc"), ("GetAll", "src/expr/runner.cc")], REL)
p("R03", "Ungrouped aggregation folds all rows into one",
  "After any sequence of rows (at least one), an ungrouped aggregation yields nothing while rows are put and then exactly one row: COUNT of all rows, COUNT of non-NULL values, and SUM, MAX, MIN over the non-NULL values of the addressed columns, each NULL if there was no such value, in the order the aggregations are written; sums wrap at the column type's width. After that row it yields nothing.",
  ["inputs", "histories"], "every list of aggregations over every column type and every sequence of rows with NULLs anywhere",
  "One list of aggregations over nine fixed rows with one NULL is tested; MIN and MAX never.",
  ["src/rel/op/ungrouped_agg_op.cc", "src/rel/op/agg_op.cc", "src/rel/op/agg.h", "src/rel/op/agg.cc"],
  [("AddToCache", "src/rel/op/agg_op.cc"), ("CountAllAgg/CountAgg/CalcAgg", "src/rel/op/agg.h")], REL,
  [("cache tuple", "running aggregate values", "src/rel/op/ungrouped_agg_op.h")])
p("R04", "Grouped aggregation yields each group exactly once with its own aggregates",
  "After any sequence of rows, a grouped aggregation yields exactly one row per distinct combination of values in the grouping columns (NULL equals NULL and differs from every value; 0.0 equals -0.0; strings compare by content), holding those key values followed by the aggregates over exactly the rows of that group, in any order of groups, and then nothing. No group is split, merged, lost or repeated, whatever the number of groups, key columns or rows.",
  ["inputs", "histories"], "every choice of key columns and aggregations, every sequence of rows (keys of any type with NULLs)",
  "One grouping by one string column into five groups is tested, and the test accepts any output row that occurs in the expected set (repeated groups would pass).",
  ["src/rel/op/grouped_agg_op.cc", "src/rel/op/agg_op.cc", "src/expr/operand.h", "src/expr/utils.cc"],
  [("hash map keyed by tuple", "src/rel/op/grouped_agg_op.h"), ("hash<Tuple>, Operand ==", "src/expr/operand.h"), ("MapTuple / ConcatTuple", "src/expr/utils.cc")], REL,
  [("group caches", "running aggregates per key", "src/rel/op/grouped_agg_op.h")])
p("R05", "A chain of operators is the composition of its operators",
  "For every chain of filter, project and aggregation operators, in any order and number, the rows returned while putting followed by those fetched afterwards are exactly those obtained by feeding each operator's complete output to the next one: none lost, repeated or invented, in particular when operators behind an aggregation drop rows, expand columns or aggregate again. Rows returned while putting come from the row just put.",
  ["programs", "histories"], "every chain of operators (with several aggregations) and every sequence of rows",
  "Chains of two operators are tested; nothing follows an aggregation.",
  ["src/rel/op/tandem_op.cc", "src/rel/rel_runner.cc"], [("TandemOp::Put / Get", "src/rel/op/tandem_op.cc"), ("AppendOp", "src/rel/rel_runner.cc")], REL)
p("R06", "Drained or re-decoded runners start afresh; failed rows leave no trace",
  "Once fetching has returned nothing, putting further rows starts a new computation that owes nothing to the rows already reported, and further fetching without new rows keeps returning nothing. Decoding another program (even after a refused one, or with rows still held) discards all earlier state. A row whose evaluation raises an error before it reaches an aggregation contributes nothing, and the rows put before and after it are handled as if it had not been put.",
  ["histories", "fault_sequences"], "every sequence of put rounds, full drains, re-decodes and failing rows",
  "Each test uses a relational runner for one round and one drain.",
  ["src/rel/op/ungrouped_agg_op.cc", "src/rel/op/grouped_agg_op.cc", "src/rel/op/tandem_op.cc", "src/rel/rel_runner.h"],
  [("cache handed over on Get", "src/rel/op/ungrouped_agg_op.cc"), ("erase on Get", "src/rel/op/grouped_agg_op.cc"), ("Release on Decode", "src/rel/rel_runner.cc")], REL)
p("R07", "Aggregates do not depend on row order and merge across partitions",
  "For any multiset of rows, grouped and ungrouped COUNT, MIN, MAX and SUM (integers, and floating-point values whose sums are exact) give the same result for every order in which the rows are put. Splitting the rows over several runners and aggregating their outputs again (SUM of COUNTs and SUMs, MIN of MINs, MAX of MAXs) gives the result of a single runner over all rows.",
  ["inputs", "histories"], "every multiset of rows, every permutation, every partition",
  "Tests put nine rows in one order into one runner.",
  ["src/rel/op/agg.h", "src/rel/op/grouped_agg_op.cc", "src/rel/op/ungrouped_agg_op.cc"],
  [("associative, commutative Add per aggregation", "src/rel/op/agg.h")], REL)
p("V01", "Values and tuples that are equal hash alike; equality is by type and content",
  "Two operands of the scalar types are equal exactly when both are NULL or both hold the same type and equal content (strings by bytes, 0.0 equal to -0.0, NaN equal to nothing), != is always the negation of ==, and comparing with nullptr tests for NULL. Equal operands, equal strings and equal tuples have equal hash values.",
  ["inputs"], "every pair of operands and tuples of the supported types",
  "One pair of equal strings is hashed and compared.",
  ["src/expr/operand.h", "src/expr/expr_string.h"], [("Operand ==, hash<Operand>, hash<Tuple>", "src/expr/operand.h"), ("hash<String>", "src/expr/expr_string.h")], ["operator==, operator!=, std::hash"])
p("V02", "Values survive construction, reading and optional/any conversion",
  "An operand constructed from a value of any supported type reads back as exactly that value of exactly that type, reading it as another type raises an error, copies are independent, and printing it gives its digits (integers), six significant digits (floats and doubles), 1 or 0 (booleans), its bytes (strings) or (null). Converting an operand to a type-erased optional and back yields an equal operand for every supported type and for NULL, and a run's optional result is empty exactly when the result is NULL.",
  ["inputs"], "every value of every supported type, including NULL, strings and arrays",
  "No test uses the conversions.",
  ["src/expr/operand.h", "src/expr/operand.cc", "src/expr/runner.h"], [("ToOperand / FromOperand", "src/expr/operand.h"), ("GetOptional", "src/expr/runner.h")], ["Operand, any_optional_data_adaptor, Runner::GetOptional"])
p("V03", "Bytes and their hexadecimal text convert losslessly",
  "For every byte sequence of any length, converting it to hexadecimal text gives two upper-case digits per byte, high nibble first, and converting such text (in either case) back gives the original bytes; a character is accepted as a hexadecimal digit exactly if it is one, and only the numbers 0 to 15 have a digit. The error raised for an unknown operator code (of an expression or a relational program) carries the hexadecimal text of the code from that operator to its end.",
  ["inputs"], "every byte sequence, every character",
  "Tests use the conversion to feed fixed inputs and check none of its results.",
  ["src/expr/utils.cc", "src/expr/exception.h"], [("HexToNibble, NibbleToHex, HexToBytes, BytesToHex, HexOfBytes", "src/expr/utils.cc")], ["HexToBytes / BytesToHex / HexOfBytes", "UnknownCode message"])
p("V04", "Errors say truthfully what is wrong",
  "For every program, value and history: code that ends inside an operator or its immediate is reported as an unexpected end, with the same error wherever it happens; an array with too few elements by the exact number required (however large) and a smaller one that is provided; an unknown aggregation by its code; a checked cast or checked ABS whose result does not fit by the name and both limits of its type; reading a variable with no tuple bound by one and the same error. The first four are the library's own ExprError. Earlier errors never show in the text of later ones.",
  ["inputs", "histories"], "every position at which code can be cut, every array length up to 64 bits, every unknown aggregation code, every value beyond the limits",
  "Tests expect an exception in two places and look at no message.",
  ["src/expr/exception.h", "src/expr/codec.cc", "src/expr/codec.h", "src/rel/rel_runner.cc", "src/expr/operand_stack.h"],
  [("ExceedsLimits, CodeTruncated, MoreElementsRequired", "src/expr/exception.h"), ("DecodeArray, DecodeVector, DecodeElements", "src/expr/codec.h"), ("Unknown aggregation type", "src/rel/rel_runner.cc")], ["what() of the errors raised by Decode and Run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
