#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
BI = "src/BigInteger.cpp"; H = "include/public/bigintegercpp/BigInteger.h"
C = "src/BigIntegerCalculator/"
PY = "bindings/python/python-bindings.cpp"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

NUM = "all integers of any sign and any length that fits in memory, in every way the API offers to write the operation"
p("C01", "Addition, subtraction and unary arithmetic are exact",
  "For every pair of integers, the sum and the difference computed by any spelling of the operation (operator, compound assignment, named static function, increment and decrement) equal the mathematical result; negation, absolute value and unary plus equal theirs. Prefix increment/decrement yields the updated value and postfix yields the value before the update, as in C#.",
  ["inputs"], NUM + "; carries and borrows may ripple across any number of 32-bit words",
  "The unit tests sample a few hundred random operands of up to about 100 bytes with bytes drawn from a fixed-seed generator; carry/borrow chains, sign changes and the switch between small and large representations at +-2^31 are input-specific.",
  [BI, C + "AddSub.cpp", H], [("sign-magnitude add/subtract dispatch", BI), ("word-wise add/subtract with carry", C + "AddSub.cpp")], ["return values of + - += -= ++ -- unary +/-, add, subtract, negate, abs"])
p("C02", "Multiplication and squaring are exact at every size",
  "For every pair of integers, the product computed by the multiplication operator, its compound form or the named static function equals the mathematical product. This includes squaring (both operands equal in magnitude), operands of very different length, and lengths on either side of every algorithm switch.",
  ["inputs"], NUM + "; every combination of lengths around the schoolbook/recursive thresholds, odd splits, and words at their extreme values",
  "The recursive algorithm is chosen by operand length and has its own carries and word-splits; tests reach only a few lengths with random words, so a lost carry at a particular length or word pattern is not sampled.",
  [BI, C + "SquMul.cpp"], [("schoolbook and Karatsuba multiply/square", C + "SquMul.cpp"), ("dispatch on operand size and equality", BI)], ["return values of * *= multiply"])
p("C03", "Division and remainder obey the truncated-division identity",
  "For every dividend n and non-zero divisor d, quotient q and remainder r satisfy n = q*d + r with |r| < |d|, and r is zero or has the sign of n (division truncates towards zero, as in C#). All spellings (/, %, their compound forms, and the named divide, remainder and combined quotient-and-remainder functions) agree; dividing by zero always raises the divide-by-zero error.",
  ["inputs"], NUM + "; divisors of one or many words, including those for which the estimated quotient digit is one or two too large",
  "The quotient-digit correction steps of long division are taken with probability about 2^-32 on random operands; the tests' random samples practically never execute them, and never check negative dividends with every divisor size.",
  [BI, C + "DivRem.cpp", "include/exceptions.h"], [("long division with digit estimate and add-back", C + "DivRem.cpp"), ("dispatch on trivial operands and sign rules", BI)], ["return values and out parameters of / % /= %= divide remainder div_rem; DivideByZero"])
p("C04", "Integer power is exact",
  "For every integer base and every non-negative exponent, the power function returns the exact mathematical power with the right sign (x^0 = 1 and x^1 = x included) whenever the result has fewer than 2^24 bits. A negative exponent raises the out-of-range error, and a result too large to compute raises an error instead of returning a wrong value.",
  ["inputs"], "all bases (zero, one, minus one, small, multi-word, powers of two, negative) and all exponents",
  "Intermediate buffers are sized from an estimate and reused between squarings; which buffer contents are stale depends on the base's words and the exponent's bit pattern, of which tests sample very few.",
  [BI, C + "PowMod.cpp", C + "BitsBuffer.cpp"], [("square-and-multiply over reusable buffers", C + "PowMod.cpp"), ("buffer swap and clearing", C + "BitsBuffer.cpp")], ["return value of pow; exceptions"])
p("C05", "Modular exponentiation is exact for every modulus size",
  "For every value, non-negative exponent and non-zero modulus, modular exponentiation returns the truncated remainder of value^exponent divided by the modulus: congruent to the power, smaller in magnitude than the modulus, and zero or of the sign of value^exponent. A zero modulus raises the divide-by-zero error and a negative exponent the out-of-range error, for every size of the other operands.",
  ["inputs"], "values, exponents and moduli of any length and sign: single-word and multi-word exponents, moduli from one word to far beyond the fast-reduction threshold, values larger than the modulus",
  "Moduli of 1024 bits and more take a separate reduction algorithm that the tests never reach (their operands are below 100 bytes); within it, correctness depends on the modulus' words and length.",
  [BI, C + "PowMod.cpp", C + "FastReducer.cpp", C + "BitsBuffer.cpp"], [("square-and-multiply with reduction", C + "PowMod.cpp"), ("precomputed-reciprocal (Barrett) reduction", C + "FastReducer.cpp")], ["return value of mod_pow; exceptions"])
p("C06", "Greatest common divisor is exact",
  "For every pair of integers, the greatest common divisor function returns the non-negative integer that divides both and is divisible by every common divisor; gcd(x, 0) = |x| and gcd(0, 0) = 0. The result does not depend on the order or the signs of the arguments.",
  ["inputs"], "all pairs of integers of any sign and length, with common factors of any size and any sequence of Euclidean quotients",
  "The multi-word algorithm batches Euclidean steps on leading digits; whether a batch is accepted, cut short or replaced by a plain step depends on the quotient sequence of the inputs, and the tests' operands hardly enter it.",
  [BI, C + "GcdInv.cpp", C + "BitsBuffer.cpp"], [("Euclid on 32/64 bits, Lehmer on long operands", C + "GcdInv.cpp")], ["return value of greatest_common_divisor"])
p("C07", "Shifts multiply or floor-divide by powers of two",
  "For every integer x and every shift count n >= 0, left shift returns x*2^n and right shift returns floor(x / 2^n), rounding towards minus infinity for negative x. A negative count shifts the other way by its magnitude, for every count including the most negative one; compound and plain forms agree.",
  ["inputs"], "all integers and all 32-bit shift counts (bounded by memory): counts that are multiples of the word size, larger than the value, zero, negative, extreme",
  "Right shift of negative values goes through a two's complement whose top word may vanish; only particular word patterns combined with particular counts expose it, and tests use random bytes and a handful of counts.",
  [BI, "include/NumericsHelpers.h"], [("word and bit shift with sign extension", BI), ("in-place two's complement", "include/NumericsHelpers.h")], ["return values of << >> <<= >>="])
p("C08", "Bitwise operations follow infinite two's complement",
  "For every pair of integers, AND, OR and XOR (plain and compound) equal the operation on infinitely sign-extended two's-complement representations, and complement equals -x-1.",
  ["inputs"], "all pairs of integers of any signs and lengths, including words of all ones/zeros at word and sign boundaries",
  "Sign extension and re-normalisation depend on the top words of both operands; tests use random byte arrays and rarely hit values such as -2^(32k) or results that shrink by many words.",
  [BI, "include/NumericsHelpers.h"], [("conversion to two's-complement words and back", BI)], ["return values of & | ^ ~ &= |= ^="])
p("C09", "Comparison is the numeric total order; predicates and hash are coherent",
  "For all integers, the six relational operators, three-way comparison and equality agree with the numeric order and with each other; equal values have equal hash codes. The predicates sign, is-zero, is-one, is-even and is-power-of-two return what the numeric value dictates (a power of two is a positive 2^k).",
  ["inputs"], "all pairs of integers, however each was produced, including pairs that differ in a single word or only in sign or length",
  "There are infinitely many near-equal pairs differing in one word at one position; tests compare a few dozen random pairs and never combine comparison with hash and with differently produced operands.",
  [BI, H], [("word-wise comparison from the most significant word", BI), ("predicates on sign and words", BI), ("hash fold over all words", BI)], ["compare_to, equals, relational operators, get_hash_code, sign, is_zero, is_one, is_even, is_power_of_two"])
p("C10", "Byte-array encoding is exact, minimal and decodable",
  "Encoding any integer as bytes yields the shortest two's-complement form (or shortest unsigned form when requested) in the requested byte order, zero being a single zero byte; asking for an unsigned form of a negative value raises an error. Decoding any byte string, minimal or padded, signed or unsigned, big- or little-endian, yields the integer it denotes (the empty string denotes zero), and decode(encode(x)) = x.",
  ["inputs"], "all integers and all byte strings, times signed/unsigned times little/big endian",
  "The shortest form depends on the top bytes, on trailing zero words of negative values and on length modulo four; tests check a fixed list of values.",
  [BI], [("encoder with on-the-fly two's complement", BI), ("byte-array constructor with trimming", BI)], ["to_byte_array, byte-array constructor"])
p("C11", "Size queries and 32-bit word encoding agree with the value",
  "For every integer, the reported byte count equals the length of the encoding it announces (signed and unsigned), and the reported bit length equals the number of bits of the shortest two's-complement form without its sign bit. The 32-bit word encoding is the shortest little-endian two's-complement word sequence of the value (empty for zero).",
  ["inputs"], "all integers of any sign and length, especially +-2^k and its neighbours for every k",
  "No test exercises bit length, byte count or the word encoding across sign and power-of-two boundaries.",
  [BI], [("bit length from the top word", BI), ("count mode of the byte encoder", BI), ("word encoder", BI)], ["get_byte_count, to_byte_array(Count), get_bit_length, to_uint32_array"])
p("C12", "Decimal text round-trips",
  "Formatting any integer yields its canonical decimal text (optional minus, no leading zeros, no plus), and parse(format(x)) = x. Parsing a text of the form [+|-]digits, with any number of leading zeros, yields that integer, and any first non-digit character after the digits (whitespace in particular) ends the input whatever follows it. On such texts the try-variant succeeds and stores the same value.",
  ["inputs"], "all integers and all decimal strings (leading zeros, explicit plus, trailing whitespace and text)",
  "The formatter accumulates base-10^9 chunks where zero chunks and carries at chunk boundaries depend on the value; the tests have no formatter/parser oracle at all (they use these functions as the oracle).",
  [BI, "README.md"], [("base 10^9 conversion", BI), ("digit-by-digit parser", BI)], ["to_string, parse, try_parse"])
p("C13", "Construction from native numbers is exact",
  "Constructing from any signed or unsigned 32- or 64-bit integer yields exactly that integer. Constructing from any finite double yields the double truncated towards zero, and constructing from an infinity or a NaN raises the overflow error.",
  ["inputs"], "all 2^32 / 2^64 native integers and all 2^64 double bit patterns (subnormals, exponent boundaries, NaN payloads)",
  "The result is assembled from mantissa and exponent in three exponent ranges with a word split that depends on the exponent modulo 32; tests cover a handful of literals.",
  [BI, "include/NumericsHelpers.h"], [("integer constructors", BI), ("double decomposition", "include/NumericsHelpers.h")], ["constructors from int32/uint32/int64/uint64/double"])
p("C14", "Conversion to native integers is checked and exact",
  "Converting to a signed or unsigned 32- or 64-bit integer returns the exact value when it is in the target's range and raises the overflow error otherwise, for every integer. Converting a native integer to a big integer and back is the identity.",
  ["inputs"], "all integers, especially those at and just beyond the limits of the four target types",
  "Range limits interact with the sign-magnitude representation (most negative values have their own paths); the tests convert only small shift counts.",
  [BI], [("checked conversion operators", BI)], ["conversion operators to int, unsigned int, long, unsigned long"])
p("C15", "Conversion to floating point truncates like the C# original",
  "Converting any integer to double returns the integer exactly if it is representable, otherwise the neighbouring double towards zero, and plus or minus infinity when its magnitude is 2^1024 or more. Converting to float returns that double rounded to float.",
  ["inputs"], "all integers of any sign and length, especially those around 2^53, 2^64, word boundaries, and the overflow limit",
  "The mantissa is cut from the top three words at a shift that depends on leading zeros; the existing tests use it only as the base argument of a logarithm.",
  [BI, "include/NumericsHelpers.h"], [("mantissa/exponent assembly", "include/NumericsHelpers.h")], ["conversion operators to double and float"])
p("C16", "Logarithms are accurate and honour the special cases",
  "For every positive integer x and every valid base b, the logarithm equals log(x)/log(b) to within a relative error of a few parts in 10^14, for values far beyond the range of double too. Negative values, base 1, NaN bases, base 0 or infinity (with x other than 1) and negative bases give NaN, log of 0 gives the signed infinity of -1/log(b), and the one-argument and base-10 forms equal the general form with base e and 10.",
  ["inputs"], "all integers times all double bases, including bases next to 1, below 1, subnormal, infinite and NaN",
  "Tests compare through an approximation on a few random values; accuracy around word boundaries and the special-case lattice is not covered.",
  [BI, "include/NumericsHelpers.h"], [("top-64-bit mantissa plus exponent", BI), ("C#-style log wrapper", "include/NumericsHelpers.h")], ["log(x), log(x, b), log10(x)"])
p("C17", "Every value has one canonical form, whatever history produced it",
  "After any sequence of operations, every live object that holds a given integer is indistinguishable through the whole public interface (equality, comparison, hash, encodings, text, sign and word views) from an object freshly constructed with that integer. No sequence of operations on valid objects trips an internal consistency assertion.",
  ["histories", "inputs"], "all finite sequences of API calls over a pool of objects, including compound assignments, in-place updates, copies, moves and swaps",
  "Unit tests check one operation on freshly parsed operands; representation leaks (leading zero words, small values kept in large form) only show when a result is used by later operations.",
  [BI, H], [("normalisation in constructors", BI), ("validity assertion", BI)], ["all public observers after each step"],
  state=[("sign and word vector", "small values in the sign field, large ones as magnitude words without leading zero words", H)])
p("C18", "Values are independent: operands are never disturbed and aliasing is harmless",
  "No operation changes the value of any object other than the one it is documented to assign to. Every operation gives the same result when its operands, or its operands and its output parameter, are the same object as it gives with distinct objects holding the same values; a copy or a moved-to object is unaffected by later changes to its source.",
  ["histories", "inputs"], "every operation times every aliasing pattern (x op= x, f(x, x), quotient/remainder into one of its operands, self-copy, chained assignment) times all operand values",
  "Tests pass operands by value into distinct objects; none aliases an output with an input or re-checks operands after the call.",
  [BI, H], [("copies taken before in-place update", BI), ("results assigned only after they are computed", BI)], ["operand values after each call; results under aliasing"])
p("C19", "No memory error or undefined behaviour on any API call",
  "No sequence of public API calls with valid objects reads or writes outside an allocation, reads uninitialised memory, frees incorrectly, leaks, or executes undefined behaviour (signed overflow, invalid shift, misaligned or null access). No such call trips an internal assertion or terminates the process.",
  ["inputs", "histories"], "all public operations with all operand values and lengths, including those that raise errors",
  "The test build has no sanitizer; an out-of-bounds word access or a signed overflow at a boundary value passes silently when the neighbouring memory is benign.",
  [BI, C, "include/NumericsHelpers.h", "include/BitsBuffer.h"], [("buffer size arithmetic for raw-pointer kernels", C), ("bounds assertions", C)], ["AddressSanitizer/UBSan/valgrind reports, allocation balance, process exit"])
p("C20", "Invalid arguments raise the documented error and change nothing",
  "Division or remainder by zero, modular exponentiation with a zero modulus, negative exponents, out-of-range conversions, unsigned encoding of negatives and NaN/infinite doubles always raise a catchable error of the documented kind, never a crash, a hang or a returned value. When an operation raises an error, all operands, the assignment target and the output parameter keep the values they had before the call, and all objects remain fully usable.",
  ["inputs", "fault_sequences"], "every operation with a domain error times all sizes and signs of the remaining operands, in any sequence with successful operations",
  "Tests check that an exception is thrown for a few small operands; they do not check every size combination (each has its own code path) nor the state of operands afterwards.",
  [BI, C + "DivRem.cpp", C + "PowMod.cpp", "include/exceptions.h"], [("explicit checks before use", BI), ("zero-divisor checks in kernels", C)], ["exceptions raised; operand and target values after the exception"])
p("C21", "Allocation failure is survivable at every allocation point",
  "If any single memory allocation made during any operation fails, the operation raises the standard out-of-memory error (the try-parse function may instead report failure) and does not crash, hang or leak. Afterwards the read-only operands are unchanged, an assignment target still holds a valid integer, and every object can be used, assigned and destroyed normally.",
  ["fault_sequences", "inputs"], "every operation times every allocation point reached during it",
  "Tests never inject allocation failures, so cleanup paths are never executed.",
  [BI, C], [("RAII containers for all temporaries", BI)], ["operator new/delete under injection; object state after the failure"])
p("C22", "Concurrent use of distinct or shared read-only values is race-free",
  "Threads that operate on their own objects, or that only read shared objects, need no synchronisation: no data race occurs and every result equals the one computed single-threaded. No operation keeps hidden mutable state shared between calls.",
  ["schedules", "inputs"], "all interleavings of any number of threads executing any operations on private objects and shared read-only operands",
  "All tests are single-threaded; a hidden cache or scratch buffer is invisible to them.",
  [BI, C, H], [("no mutable global state", BI)], ["ThreadSanitizer reports; per-thread results"])
p("C23", "Results do not depend on compiler, optimisation, assertions or char type",
  "The same sequence of API calls produces identical results and identical errors in every supported build: gcc or clang, any optimisation level, with or without assertions (as in the shipped release wheels), with signed or unsigned plain char, as a shared or a static library.",
  ["configurations", "inputs"], "all build configurations times all call sequences",
  "The tests run in one configuration (gcc -O2 with assertions); code inside assertions, order of evaluation, or behaviour the optimiser may exploit differs elsewhere.",
  [BI, C, "CMakeLists.txt", "setup.py"], [("portable integer arithmetic", C), ("assertions without side effects", BI)], ["digest of all results per configuration"])
p("C24", "Every operation terminates within bounded work and memory",
  "Every operation terminates after a number of steps, and using an amount of memory, bounded by a fixed polynomial in the lengths of its operands and result: linear for addition, subtraction, comparison, shifts and bitwise operations, at most quadratic for multiplication, division, gcd and text, and for modular exponentiation the exponent's bit length times the square of the modulus length. Squaring and the multiplication of long operands of similar length grow clearly slower than quadratically, and modular exponentiation never needs memory growing with the exponent's value.",
  ["inputs"], "all operations on all operand values and lengths, including adversarial values for iterative corrections and Euclidean loops",
  "Tests have only a wall-clock limit on small operands; an input-dependent endless or super-polynomial loop is not sampled.",
  [C + "GcdInv.cpp", C + "FastReducer.cpp", C + "PowMod.cpp", C + "SquMul.cpp", BI], [("progress of Lehmer/Euclid steps", C + "GcdInv.cpp"), ("bounded correction loops", C + "DivRem.cpp"), ("reduction after each multiplication", C + "PowMod.cpp")], ["instrumented step counts and allocation volume per call"])
p("C25", "Values built before main or after exit begins are correct",
  "Integers constructed and operations performed during static initialisation or destruction of any other translation unit give the same results as in main, whatever the link order and whether the library is linked statically or as a shared object.",
  ["configurations", "programs"], "all link orders and library kinds times programs that use the API from static initialisers and destructors",
  "The tests link the shared library and use the API only from inside main.",
  [BI, H], [("special constants", BI)], ["results of operations executed from static initialisers and destructors"],
  state=[("shared special constants", "minus 2^31, minus one, zero, one", BI)])
p("C26", "Python operators give C# semantics for every mix of BigInteger and int",
  "For every pair of values, each Python arithmetic, bitwise, shift, power, division/modulo and comparison operator on BigInteger/BigInteger, BigInteger/int and int/BigInteger returns the exact result with C# semantics (division truncates, remainder follows the dividend, negative shift counts reverse). The result is a BigInteger when the left operand is one and a Python int when only the right operand is; operands are never modified.",
  ["inputs"], "all operators times all operand type mixes times all values of any size, including in-place operators",
  "The binding tests check one or two small values per operator and mostly positive ones; each type mix is a separate overload.",
  [PY], [("operator overloads per type mix", PY), ("int conversion helpers", PY)], ["return values and types in Python"])
p("C27", "Python conversions are lossless",
  "For every value, converting int to BigInteger and back, str, bytes, to_array with every flag combination, float, index, deepcopy and construction from any one-dimensional byte buffer (bytes, bytearray, contiguous or strided memoryview) preserve the value; bit length, sign, parity, power-of-two and log queries agree with the int. Objects that compare equal (BigInteger or int) have equal hashes, so both work interchangeably as dictionary keys.",
  ["inputs"], "all Python ints of any size and sign, all byte strings, all buffer layouts",
  "Conversion of negative ints has hand-written trimming logic that depends on the byte pattern; binding tests check about ten constants and only contiguous bytes.",
  [PY], [("int<->byte array conversion", PY), ("buffer constructor", PY), ("hash", PY)], ["values observed in Python"])
p("C28", "Python misuse raises exceptions; it never crashes the interpreter or leaks",
  "Any call of the module with arguments of any type or value (zero divisors, negative or huge exponents and shift counts, wrong types, bad buffers) either returns a correct result or raises a Python exception, never a crash, an abort or a memory error. Repeated calls, successful or failing, neither leak memory nor change reference counts of their arguments.",
  ["inputs", "fault_sequences"], "all entry points times all argument types and values, in any sequence",
  "Binding tests exercise three expected TypeErrors and no native-level misuse; they cannot see leaks or out-of-bounds reads.",
  [PY], [("pybind11 argument conversion and exception translation", PY), ("reference stealing of created ints", PY)], ["exceptions, process exit, AddressSanitizer reports, heap growth, refcounts"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P), "properties")
