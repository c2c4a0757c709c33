#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
I = "include/boost/safe_numerics/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": [I + f for f in files],
                     "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                     "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": I + c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Safe arithmetic never yields a wrong value",
  """Whenever +, -, *, /, %, unary + or -, ++, -- or a compound assignment on a safe integer (safe<T>,
  safe_signed_range, safe_unsigned_range, mixed with each other or with built-in integers) completes without
  reporting an error, the value produced is exactly the mathematical integer result (division truncates toward zero,
  % takes the sign of the dividend), under every promotion policy. There is no wrap-around, no truncation and no
  signed/unsigned reinterpretation.""",
  ["inputs", "programs", "configurations"],
  "every operand value, every pair of operand types and declared ranges, every promotion policy (native, automatic, cpp<...>)",
  """The tests use a fixed list of about 40 operand types and a handful of boundary literals, compared against
  hand-written tables; they cannot enumerate operand values, declared ranges or policies.""",
  ["safe_base_operations.hpp", "checked_integer.hpp", "checked_default.hpp", "native.hpp", "automatic.hpp", "cpp.hpp"],
  [("addition/subtraction/multiplication/division/modulus_result", "safe_base_operations.hpp"),
   ("checked arithmetic primitives", "checked_integer.hpp")],
  observe=["return values and reported errors of the overloaded operators"])

p("C02", "Errors are reported exactly when needed, with the right code",
  """Under an exception policy that throws, an arithmetic operation on safe integers reports an error if and only if the
  mathematical result does not exist (zero divisor), is not representable in the operation's result type, or an operand is not
  representable in the built-in type in which the operation is carried out (a type with the signedness of the result type, as wide as the widest of the result and
  both operands where possible); only a product with a factor whose declared range is just zero needs no error on the latter ground, as it is
  zero whatever the other factor. A result that is too large is
  positive_overflow_error, too small is negative_overflow_error, a zero divisor or a negative operand forced
  into an unsigned type is domain_error.""",
  ["inputs", "programs", "configurations"],
  "every operand value, every pair of operand types and declared ranges, every promotion policy",
  """Existing tests check one boundary value per type pair and mostly only that some exception is thrown; a check that fires
  one value too early or too late, or with the wrong code, for other widths or ranges is not seen.""",
  ["safe_base_operations.hpp", "checked_integer.hpp", "exception.hpp", "safe_base.hpp"],
  [("exception_possible / return_value dispatch", "safe_base_operations.hpp"),
   ("overflow predicates", "checked_integer.hpp")],
  observe=["error code carried by the thrown exception"])

p("C03", "A safe variable never holds a value outside its declared range",
  """After any sequence of constructions, copies, assignments, compound assignments, increments, decrements and stream
  extractions - including ones that failed with an exception - every initialized variable of a safe type holds a value between
  the minimum and maximum given by std::numeric_limits of that type.""",
  ["histories", "inputs", "programs"],
  "every history of operations on a set of safe variables of every type, range and promotion policy, with failing operations anywhere",
  """The tests perform single operations on fresh variables; they neither chain operations nor look at a variable again after
  an operation on it has thrown.""",
  ["safe_base.hpp", "safe_base_operations.hpp", "safe_integer_range.hpp"],
  [("validated_cast / validate_detail", "safe_base_operations.hpp"),
   ("assignment, compound assignment, ++/--, input", "safe_base.hpp")],
  state=[("variable", "current value of each safe object", "safe_base.hpp")],
  observe=["value of every variable after every operation"])

p("C04", "A failed operation changes nothing",
  """When an operation on safe integers reports an error by throwing, every variable involved - in particular the
  target of an assignment, compound assignment, increment, decrement or stream extraction - keeps the value it had
  before the operation.""",
  ["histories", "inputs", "fault_sequences"],
  "every history; every operation in it that fails",
  """No test inspects the target after the exception except for a few constructors, where there is nothing left to inspect.""",
  ["safe_base.hpp", "safe_base_operations.hpp"],
  [("store only after validation", "safe_base.hpp")],
  state=[("variable", "current value of each safe object", "safe_base.hpp")],
  observe=["value of every variable before and after a throwing operation"])

p("C05", "The static range of every safe expression contains its value",
  """The value of every expression of safe type, of any nesting depth and under every promotion policy, lies between the
  std::numeric_limits min and max of the expression's own (static) type, so a check that is left out because the
  declared ranges make failure impossible never hides a failure.""",
  ["inputs", "programs", "configurations"],
  "every expression over safe operands with arbitrary declared ranges, every value of the operands inside those ranges",
  """The result range is computed at compile time from the operand ranges, so every distinct pair of ranges is a distinct program;
  the tests instantiate a few dozen.""",
  ["safe_base_operations.hpp", "interval.hpp", "automatic.hpp", "safe_base.hpp"],
  [("static range computation", "safe_base_operations.hpp"), ("interval arithmetic", "interval.hpp")],
  observe=["numeric_limits of decltype(expression), value of the expression"])

p("C06", "Result types follow the promotion policy",
  """Under native the underlying type of a safe expression is the type the same C++ expression on the operands' built-in types has;
  under cpp<...> it is the type the C++ promotion rules give with char, short, int, long and long long of the stated widths; under automatic an arithmetic operation has the smallest built-in integer type able to hold every possible result for the
  operands' declared ranges (the widest available type if none can); that type is unsigned only when both operands are unsigned and the operation is not
  a subtraction, and bitwise operators have the type of the built-in expression. In cpp<...> operands narrower than the stated int are
  widened to it keeping their signedness.""",
  ["programs", "configurations"],
  "every pair of operand types and declared ranges, every operator, every promotion policy",
  """A type-level function of two types and two ranges per operator; the tests assert it for a few type pairs of native and
  cpp, and for automatic only indirectly.""",
  ["native.hpp", "automatic.hpp", "cpp.hpp", "utility.hpp", "safe_base_operations.hpp"],
  [("*_result meta-functions of each policy", "native.hpp"), ("*_result meta-functions", "automatic.hpp"),
   ("usual_arithmetic_conversions", "cpp.hpp"), ("stored types", "utility.hpp")],
  observe=["decltype of expressions"])

p("C07", "Comparisons of safe integers agree with mathematics",
  """<, <=, >, >=, == and != between safe integers, and between a safe and a built-in integer, either return the truth about the
  mathematical values or report an error; they report an error only when the type in which the promotion policy has the comparison
  carried out cannot represent an operand, and answers derived from the declared ranges alone agree with
  the values.""",
  ["inputs", "programs", "configurations"],
  "every pair of operand values, types and declared ranges; every promotion policy",
  """Tests compare a few boundary values and the trichotomy of one pair per type pair; range-derived shortcuts
  depend on the pair of ranges.""",
  ["safe_base_operations.hpp", "checked_integer.hpp", "safe_compare.hpp", "interval.hpp"],
  [("less_than_result / equal_result", "safe_base_operations.hpp")],
  observe=["result of each comparison operator"])

p("C08", "Conversions preserve the value or report an error",
  """Constructing or assigning a safe integer from any integer (built-in or safe), converting a safe integer to any built-in integer type, and
  checked::cast, succeed with the value unchanged exactly when the destination type and declared range can hold it, and
  otherwise report positive_overflow_error (above the maximum), negative_overflow_error (below the minimum) or, for a signed value below the minimum of an unsigned
  destination, domain_error. (Conversions whose static ranges do not overlap are refused at compile time by design.)""",
  ["inputs", "programs", "configurations"],
  "every source type, range and value; every destination type and range",
  """Tests convert the extreme values of each type; they do not enumerate values near every range boundary or arbitrary destination ranges.""",
  ["safe_base_operations.hpp", "checked_integer.hpp", "safe_base.hpp"],
  [("validate_detail", "safe_base_operations.hpp"), ("checked::cast", "checked_integer.hpp"),
   ("conversion operator", "safe_base_operations.hpp")],
  observe=["value or error of the conversion"])

p("C09", "Shifts of safe integers are exact or report an error",
  """x << n and x >> n on safe integers, when no error is reported, equal x * 2^n and floor(x / 2^n); shifting by a
  negative amount or shifting a negative value reports negative_shift or negative_value_shift, and a left shift that would
  lose bits or a shift by at least the width of the type reports shift_too_large (an operand that does not fit the type of the operation may be reported
  as the failed conversion instead). No shift has undefined behaviour.""",
  ["inputs", "programs", "configurations"],
  "every value, every shift amount, every pair of types and ranges; every promotion policy",
  """Tests try each type with a few shift amounts; the guard depends jointly on value, amount and width.""",
  ["safe_base_operations.hpp", "checked_integer.hpp", "utility.hpp"],
  [("left_shift_result / right_shift_result", "safe_base_operations.hpp"),
   ("checked left_shift / right_shift", "checked_integer.hpp"), ("ilog2 / significant_bits", "utility.hpp")],
  observe=["value or error of the shift"])

p("C10", "Bitwise operators agree with the built-in operators",
  """&, |, ^ and ~ on safe integers, and their compound assignments, yield bit for bit what the built-in operators yield on the
  operands' values in the result type, or report an error when the result does not fit the target of a compound assignment;
  they never yield a value outside the static range of the result type.""",
  ["inputs", "programs", "configurations"],
  "every pair of operand values, types and declared ranges; every promotion policy",
  """Tests combine a few literals per type pair; the static result range depends on both declared ranges.""",
  ["safe_base_operations.hpp", "interval.hpp", "utility.hpp", "safe_base.hpp"],
  [("bitwise_or/and/xor_result", "safe_base_operations.hpp"), ("round_out", "utility.hpp")],
  observe=["value and numeric_limits of the result"])

p("C11", "checked:: primitives are exact",
  """For all built-in integer types, checked::cast, add, subtract, multiply, divide, modulus, minus, left_shift,
  right_shift and bitwise_or/xor/and/not return either the exact mathematical result in the
  requested result type or the error code that describes why there is none, and never invoke undefined behaviour
  or throw.""",
  ["inputs", "configurations"],
  "every result type, operand value pair",
  """Tests use tables over boundary values of int8/int16 style types; overflow predicates at the interior (especially 64-bit multiply,
  mixed signs, minimum values) are not covered.""",
  ["checked_integer.hpp", "checked_default.hpp", "checked_result.hpp"],
  [("checked_integer operations", "checked_integer.hpp")],
  observe=["checked_result returned"])

p("C12", "Arithmetic on checked results propagates overflow soundly",
  """Operators on checked_result values propagate errors as tabulated in the library's documentation: an operand that carries
  positive overflow, negative overflow or a range error stands for 'greater than any value', 'less than any value' or 'unknown'. The
  outcome is the exact value, an overflow whose direction follows from the operands, or an indeterminate error; a definite value comes only
  from definite operands. Comparisons answer true or false only when that holds for every possible completion of the operands and
  are indeterminate otherwise.""",
  ["inputs", "configurations"],
  "every operator, every pair of (value or error state), every value type",
  """Tests hold one table per operator over four error states and a few values at one or two types.""",
  ["checked_result_operations.hpp", "checked_result.hpp"],
  [("operation tables", "checked_result_operations.hpp")],
  observe=["value or error state of the combined checked_result"])

p("C13", "Interval arithmetic encloses every result and its predicates are exact",
  """For intervals a and b, every result of applying +, -, *, /, %, <<, >> to a value of a and a value of b (where
  defined) lies in the interval computed by the same operator on intervals; includes, excludes, intersect, comparison, intersection (&)
  and union (|) give the exact set-theoretic answers.""",
  ["inputs", "configurations"],
  "every pair of intervals over every integer bound type, every pair of member values",
  """The unit test evaluates a dozen concrete intervals; enclosure is a statement over all intervals and all their members.""",
  ["interval.hpp"],
  [("interval operators", "interval.hpp")],
  observe=["bounds returned by the interval operators, answers of the predicates"])

p("C14", "Errors reach exactly the handler the exception policy assigns",
  """Every error is delivered to exactly one of the policy's four handlers, chosen by its class (arithmetic, implementation defined,
  undefined, uninitialized), with the specific error code and in the order the library documents; predefined policies throw a
  std::system_error carrying that code, ignore, or refuse to compile, as documented. Error codes map to stable messages, conditions
  and actions and compare equal across translation units.""",
  ["configurations", "programs", "fault_sequences"],
  "every error code, every exception policy including user-defined ones, every operation that can fail",
  """Tests use the default policies almost everywhere and never observe which handler of a custom policy is called.""",
  ["exception.hpp", "exception_policies.hpp", "safe_base_operations.hpp"],
  [("dispatch", "exception_policies.hpp"), ("error category", "exception.hpp")],
  observe=["calls received by the four handlers"])

p("C15", "Trap policies accept exactly the programs that cannot fail",
  """With a trap exception policy an operation, conversion or assignment on safe integers compiles if and only if the declared
  ranges of its operands imply that no run-time error is possible under the promotion policy; a program that compiles therefore never
  reports an error.""",
  ["programs", "configurations"],
  "every operator, operand types and ranges; both trap policies; native and automatic promotion",
  """Accept/reject is a property of each program; the tests contain a handful of compile-fail examples.""",
  ["safe_base_operations.hpp", "exception_policies.hpp", "interval.hpp", "automatic.hpp"],
  [("exception_possible", "safe_base_operations.hpp"), ("trap_exception", "exception_policies.hpp")],
  observe=["whether the expression compiles"])

p("C16", "Constant evaluation agrees with run time",
  """Every operation on safe integers that succeeds at run time is usable in a constant expression with constant operands and gives
  the same value and type there, and one that reports an error at run time is rejected in a constant expression.""",
  ["inputs", "programs"],
  "every operator, operand type, range and constant operand values",
  """Constexpr tests exist for one list of types and mostly check that the code compiles.""",
  ["safe_base_operations.hpp", "safe_base.hpp", "checked_integer.hpp", "checked_result.hpp", "interval.hpp", "utility.hpp"],
  [("constexpr operators", "safe_base_operations.hpp")],
  observe=["static_assert on values, acceptance of constexpr initializers"])

p("C17", "Stream input and output are faithful and checked",
  """Writing a safe integer writes its numeric value (also for character-sized types) and reading it back yields an equal value, in decimal, hexadecimal and octal input alike; an interval, and a value written together with its range, are written as the numbers they consist of; reading text that is
  not a number, or a number outside the type's range, reports an error and never stores an out-of-range value.""",
  ["inputs", "histories", "configurations"],
  "every safe type and range, every value, every input text, stream formatting and locale-independent state",
  """No unit test extracts invalid text for the character-sized and range types or checks the target afterwards.""",
  ["safe_base.hpp", "safe_base_operations.hpp", "checked_result.hpp", "interval.hpp"],
  [("input / output", "safe_base.hpp")],
  observe=["text written, value read, error reported, stream state"])

p("C18", "Safe literals denote exactly their value",
  """safe_signed_literal and safe_unsigned_literal objects convert to their value, have exactly that value as minimum and maximum, and expressions
  mixing literals with safe integers give the exact mathematical value with a static range derived from the single value.""",
  ["programs", "inputs"],
  "every literal value of every width, every operator, every other operand",
  """Each literal is its own type; the test file uses a few literals.""",
  ["safe_integer_literal.hpp", "safe_base_operations.hpp"],
  [("safe_literal_impl", "safe_integer_literal.hpp")],
  observe=["value, numeric_limits and decltype of literal expressions"])

p("C19", "Mixed-sign comparison and bit utilities are exact",
  """safe_compare::less_than, greater_than, less_than_equal, greater_than_equal, equal and not_equal give the mathematical answer for
  any two built-in integers; significant_bits, ilog2, bits_type, round_out, min/max and the minimal stored type selectors give the
  mathematically defined number, mask or smallest type.""",
  ["inputs", "configurations"],
  "every value of every built-in integer type; every pair of bounds",
  """Spot values only.""",
  ["safe_compare.hpp", "utility.hpp"],
  [("safe_compare", "safe_compare.hpp"), ("bit utilities", "utility.hpp")],
  observe=["returned values and selected types"])

p("C20", "A safe type presents itself as an integer with its declared range",
  """std::numeric_limits of a safe type reports exactly the declared minimum and maximum and otherwise the traits of the
  underlying integer, the type traits and concept checks recognise it as an integer, its size is that of the underlying type, and two safe
  operands with different promotion or exception policies are rejected at compile time rather than combined.""",
  ["programs", "configurations"],
  "every safe type: underlying type, range, promotion and exception policies",
  """Traits are computed per type; tests look at a few.""",
  ["safe_base.hpp", "safe_integer_range.hpp", "range_value.hpp", "safe_base_operations.hpp", "safe_common.hpp"],
  [("numeric_limits specialization", "safe_base.hpp"), ("policy compatibility", "safe_base_operations.hpp")],
  observe=["numeric_limits members, trait values, acceptance of mixed expressions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P: assert len(d["title"]) <= 80, d["id"]
