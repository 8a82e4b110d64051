// Monitored execution of the BigIntegerCpp public API: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <utility>
#include <gmpxx.h>
#include "bigintegercpp/BigInteger.h"
#include "exceptions.h"

typedef mpz_class Z;
typedef std::vector<unsigned char> Bytes;
typedef std::vector<uint32_t> Words;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t u32() { return (uint32_t) (next() >> 32); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
uint64_t mix64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- a case: one call with all of its arguments
struct Args {
    int op = -1;
    Z z[3];                       // values of the (up to) three object slots
    uint8_t al[3] = {0, 1, 2};    // which slot each operand of the call is (aliasing)
    uint8_t route[3] = {0, 0, 0}; // how each slot's object is produced
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    Bytes by;
    int fl = 0;
};

enum Err { E_NONE, E_DIV0, E_RANGE, E_OVERFLOW, E_RUNTIME, E_BADALLOC, E_OTHER, E_ANY };
const char* err_name(int e);

struct Result { // what the library did
    int err = E_NONE;
    std::string what;
    std::vector<BigInteger> big;
    std::vector<long long> iv;
    std::vector<double> dv;
    std::string text;
    Bytes by;
    Words w;
};

struct Spec { // what it has to do
    int err = E_NONE;
    bool may_err = false; // an error of any kind is acceptable instead of the value
    std::vector<Z> z;
    std::vector<long long> iv;
    std::vector<double> dv;
    double tol = 0;
    std::string text;
    Bytes by;
    Words w;
};

struct GenCfg {
    int maxl = 40;       // typical maximum length in words
    bool fixed = false;  // operand values are given, only draw the scalar arguments
    bool tiny = false;   // keep the cost of the call very low
    bool huge = false;   // occasionally very long operands
    bool lengthy = false; // long operands, exponents and texts throughout
    bool anytext = false; // text that need not begin with a number
};

typedef void (*GenFn)(Rng&, Args&, const GenCfg&);
typedef void (*ExecFn)(BigInteger* const*, const Args&, Result&);
typedef void (*SpecFn)(Z* const*, const Args&, Spec&);

enum OpFlags { F_FLOAT = 1 /* libm involved: not part of cross-build digests */, F_NOPROG = 2 /* not used in programs */, F_SLOW = 4 };

struct Op {
    const char* name;
    const char* prop;   // the property that owns the operation
    int nz;             // number of object operands
    unsigned mut;       // bit k: operand k is assigned
    int weight;
    int flags;
    GenFn gen;
    ExecFn exec;
    SpecFn spec;
};
extern std::vector<Op> g_ops;
void register_ops();
int op_index(const std::string& name);

// ---------------------------------------------------------------- generators (gen.cpp)
extern std::vector<uint64_t> g_consts; // integer literals harvested from the sources under test (workload steering)
Z gen_num(Rng&, int maxl);
Z gen_mag_len(Rng&, int limbs);
extern bool g_lengthy; // gen_len prefers long operands
int gen_len(Rng&, int maxl);
Z gen_related(Rng&, const Z&, int maxl);
int limbs_of(const Z&);
Z z_pow2(unsigned long k);
Z z_from_i64(int64_t);
Z z_from_u64(uint64_t);

// ---------------------------------------------------------------- oracle helpers
Bytes enc_bytes(const Z&, bool is_unsigned = false, bool big_endian = false);
Z dec_bytes(const Bytes&, bool is_unsigned, bool big_endian);
Words enc_words(const Z&);
Words mag_words(const Z&);
Z z_from_words(const Words&);
Z to_z(const BigInteger&); // through the byte encoding
BigInteger build(const Z&, int route, uint64_t salt);
enum { N_ROUTES = 12 };

// ---------------------------------------------------------------- monitor
struct Violation { std::string kind, detail; };
[[noreturn]] void violation(const std::string& kind, const std::string& detail);
void check_value(const BigInteger&, const Z& expect, const char* what, bool deep);
void call(const Op&, BigInteger* const* p, const Args&, Result&);    // runs exec, classifies exceptions
void judge(const Op&, const Args&, const Result&, const Spec&);      // compares the outcome with the specification
void run_single(const Args&, Result* keep = nullptr);
std::string show(const Z&);
std::string show_args(const Args&);
uint64_t hash_args(const Args&);
uint64_t hash_result(const Args&, const Result&);
bool nontrivial(const Args&);
void remember(const Args&); // statistics

// allocation accounting (operator new/delete of the whole process)
struct AllocStats { int64_t live_bytes, live_blocks; uint64_t total_bytes, count; int64_t peak; };
extern AllocStats g_alloc;
void alloc_mark();                 // reset total/count/peak
extern volatile int64_t g_fail_at; // >0: the n-th allocation from now on throws std::bad_alloc
extern bool g_failed;              // an injected failure happened
extern uint64_t g_alloc_cap;       // largest amount of live memory tolerated (bytes)
void alloc_init();

// steps (only counted in the build with -fsanitize-coverage=trace-pc-guard)
extern volatile uint64_t g_steps, g_step_limit;

// worker context
struct Worker {
    std::string prop, outdir, mode;
    uint64_t seed = 1;
    int index = 0, nworkers = 1;
    uint64_t cases = 1000;
    int tier = 0; // 0 quick, 1 thorough
    // measured
    uint64_t evaluations = 0, steps = 0, errors_seen = 0, known = 0, fault_points = 0, alias_cases = 0, checks = 0;
    uint64_t nontriv = 0;
    std::vector<uint64_t> op_count;
    uint64_t len_hist[12] = {0};
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, double>> extra;
};
extern Worker W;
extern const Args* g_cur;      // case being executed (for the crash reporter)
extern uint64_t g_prog_seed;   // program mode: seed and step
extern uint64_t g_prog_step;
extern const char* g_mode;
extern volatile uint64_t g_tick; // progress counter watched by the hang monitor
void note_case(const Args&);
void check_memcheck(); // under valgrind: no error reported so far
void write_case(const char* path, const char* kind, const char* detail);
bool load_case(const char* path, Args&, std::string& mode, uint64_t& pseed, uint64_t& plen);

// modes
void mode_single(Rng&, bool longer);
void mode_prog(Rng&, bool alias_heavy);
void run_program(uint64_t seed, uint64_t len, bool alias_heavy, uint64_t* digest);
void mode_errors(Rng&);
void mode_fault(Rng&);
void run_fault(const Args&);
void mode_digest(Rng&);
void mode_steps(Rng&);
void run_steps(const Args&);
void mode_threads(Rng&);
void run_threads(uint64_t seed);
void mode_extreme();
void mode_wide();
extern int g_hang_seconds;
extern std::string g_extreme; // description of the current call of that mode
