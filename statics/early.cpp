// A translation unit with static objects of two priorities: their constructors and destructors use the library.
#include "phase.h"
#include <cstdlib>
#include <vector>
#include "bigintegercpp/BigInteger.h"
static void at_exit_handler() { run_phase("atexit"); check_held("atexit"); }
struct First { First() { atexit(at_exit_handler); run_phase("priority-constructor"); hold("priority-constructor"); } ~First() { check_held("priority-destructor"); run_phase("priority-destructor"); } };
struct Plain { Plain() { run_phase("static-constructor"); hold("static-constructor"); } ~Plain() { check_held("static-destructor"); run_phase("static-destructor"); } };
static First g_first __attribute__((init_priority(150)));
static Plain g_plain;
// ordinary globals initialised from the library
BigInteger g_early_min(INT32_MIN);
BigInteger g_early_next = BigInteger(INT32_MIN) - BigInteger(1);
BigInteger g_early_mul = BigInteger(UINT64_MAX) * BigInteger(UINT64_MAX);
BigInteger g_early_pow = BigInteger::pow(BigInteger(0), 0);
BigInteger g_early_shift = BigInteger(-5) >> 70;
