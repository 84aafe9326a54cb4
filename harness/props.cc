// The table of properties, with the rule by which cases are made and counted as non-trivial.
#include "core.h"

#define D(x) void prop_##x(Ctx &c);
D(E01) D(E02) D(E03) D(E04) D(E05) D(E06) D(E07) D(E08) D(E09) D(E10) D(E11) D(E12) D(E13) D(E14)
D(S01) D(S02) D(S03) D(S04) D(S05) D(S06) D(S07) D(S08) D(S09) D(S10) D(R01) D(R02) D(R03) D(R04) D(R05) D(R06) D(R07) D(V01) D(V02) D(V03) D(V04)
#undef D

#define ROW(x, rule) {#x, prop_##x, rule}
const Prop PROPS[] = {
    ROW(E01, "typed expression trees over all operators and types, sequences of expressions, deep and long ones, operators on "
             "boundary operands, with a matching tuple; whole result stack against the reference evaluator.  Non-trivial: "
             "the model specifies the outcome and there are at least 2 operators with operands or 10 operators in all"),
    ROW(E02, "packs of arithmetic operators on boundary-biased operands, the law a/b*b + a%b = a, arithmetic trees; against "
             "reference arithmetic.  Non-trivial: the model specifies the outcome"),
    ROW(E03, "strict operators with NULL in every non-empty subset of operands, all Kleene operand pairs, IS_* on every type, "
             "random logic trees; against the reference evaluator.  Non-trivial: the model gives values for the outcome"),
    ROW(E04, "comparison, MIN and MAX of related operands of every type, total-order laws on triples; against reference "
             "comparison.  Non-trivial: every case (at least one comparison)"),
    ROW(E05, "every supported numeric and boolean cast of boundary values (half-way values, limits, 2^k +- 1), checked and "
             "unchecked; against reference conversion.  Non-trivial: source and target type differ"),
    ROW(E06, "numbers to text, text of many numeral shapes to numbers, round trips; against a reference formatter and "
             "parser.  Non-trivial: the model specifies the outcome"),
    ROW(E07, "every string function on strings of arbitrary bytes with positions and lengths around the ends and the 32-bit "
             "extremes; against reference functions.  Non-trivial: the model specifies the outcome"),
    ROW(E08, "every mathematical function on doubles from many ranges, in packs; within 4 units in the last place of the "
             "long double result.  Non-trivial: every case"),
    ROW(E09, "sequences of constants of all types in all valid encodings; values and position compared.  Non-trivial: every "
             "case (at least one constant)"),
    ROW(E10, "histories of bind, re-bind, change of the bound tuple and run over tuples of up to several hundred columns; "
             "read values against the model.  Non-trivial: at least 2 runs or 100 columns"),
    ROW(E11, "several expressions with end bytes (zero bytes in immediates), followed by arbitrary bytes, decoded one by one; "
             "returned positions and results, with different suffixes.  Non-trivial: several expressions, a suffix or zero "
             "bytes in immediates"),
    ROW(E12, "typed expressions of every operator with several tuples; reported type against static type and the type of the "
             "value.  Non-trivial: every case which runs"),
    ROW(E13, "histories of decode, refused decode, bind, run, failing run, read on one runner; each run against the model and "
             "a fresh runner.  Non-trivial: at least 2 runs and a second decode, a failure or a third run"),
    ROW(E14, "histories of runs sharing tuples, strings and results; deep snapshots of tuples and of held results compared "
             "after every step.  Non-trivial: values were held over a later run"),
    ROW(S01, "random, operator-biased, truncated and mutated encodings in memory which ends at the last byte; accepted or "
             "refused, position and meaning against the reference decoder.  Non-trivial: two bytes or more and specified"),
    ROW(S02, "random, truncated, mutated and spliced programs and huge counts in memory which ends at the last byte; against "
             "the reference decoder, with allocation limit and leak count.  Non-trivial: two bytes or more and specified"),
    ROW(S03, "every one-byte code, every second byte of two-byte codes, every aggregation and relational code, in random "
             "contexts; against the table of supported codes.  Non-trivial: every case"),
    ROW(S04, "decodable expressions that are ill-typed, lack operands or are random operator sequences, with random tuples; "
             "outcome against the model's typed stack machine.  Non-trivial: the model's outcome is an error or unspecified"),
    ROW(S05, "histories of decode, refused decode, put, get, failing rows, undrained aggregates and destruction (relational "
             "and expression runners); live allocations return to zero.  Non-trivial: at least 2 puts or runs"),
    ROW(S06, "several programs stepped interleaved in one thread or on a thread each, sharing read-only tuples; results equal "
             "to solo runs, ThreadSanitizer build.  Non-trivial: at least 2 runners"),
    ROW(S07, "text-heavy and general expressions and relational programs decoded and run under other C and C++ locales, with errno "
             "and floating-point flags set beforehand; against the model, which knows none of these.  Non-trivial: the state "
             "differs from a fresh process's"),
    ROW(S08, "rounds of the same decodings, refused decodings, rows or runs on one runner, live bytes compared over growing "
             "numbers of rounds; expressions and relational chains of thousands of operators on a thread with a small stack, "
             "against the model.  Non-trivial: rows, runs or decodings were repeated, or 1000 operators or more"),
    ROW(S09, "histories of decodings, runs, puts and fetches in which generated allocations fail; each failure must be an error "
             "and what follows it is compared with the model.  Non-trivial: an allocation failed"),
    ROW(S10, "expressions, texts, tuples, chains, rows, groups and histories at a size and at sixteen times that size; work counted in "
             "basic blocks entered and bytes moved, at most three times the proportional amount.  Non-trivial: every case"),
    ROW(R01, "predicates over random schemas and row sequences; rows returned against the model.  Non-trivial: some rows pass "
             "and some do not"),
    ROW(R02, "lists of expressions over random schemas and row sequences; rows against the model.  Non-trivial: rows returned "
             "and more than one operator"),
    ROW(R03, "lists of aggregations over row sequences with NULLs, several rounds; the row against the model.  Non-trivial: at "
             "least 2 rows"),
    ROW(R04, "key columns and aggregations of every type over row sequences with few to thousands of groups; set of rows "
             "against the model.  Non-trivial: at least 2 rows and 2 groups"),
    ROW(R05, "chains of up to several operators of every kind over row sequences; returned and fetched rows against the "
             "composition of the model's operators.  Non-trivial: at least 2 operators and rows come out"),
    ROW(R06, "histories of rounds (put, full drain), re-decodes, refused decodes and failing rows; against the model.  "
             "Non-trivial: rows came out and there was a second round, re-decode or failing row"),
    ROW(R07, "multisets of rows put in several orders and split over several runners whose results are merged; results equal.  "
             "Non-trivial: at least 3 rows"),
    ROW(V01, "operands, strings and tuples related by small changes, all pairs; ==, !=, nullptr and hash against the model.  "
             "Non-trivial: some pair is equal or differs within one type"),
    ROW(V02, "operands of every type by every constructor; read as every type, printed, copied, assigned, converted to "
             "optionals and back; arrays; optional results of runs.  Non-trivial: every case"),
    ROW(V03, "byte sequences of any length to text and back in exactly-sized buffers; every character; messages of refused "
             "codes.  Non-trivial: not the empty sequence"),
    ROW(V04, "code cut short inside an operator, arrays with fewer elements than they say (up to 2^62), unknown aggregations, "
             "variables without a tuple, values beyond the limits, in random contexts; the error against what is wrong.  "
             "Non-trivial: more than a lone operator"),
};
const size_t NPROPS = sizeof(PROPS) / sizeof(PROPS[0]);
