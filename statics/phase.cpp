// No object with static storage duration and a constructor lives here: only zero-initialised storage and leaked heap objects.
#include "phase.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include "bigintegercpp/BigInteger.h"

namespace {
typedef std::vector<std::string> Log;
Log* g_ref;
const char* g_ref_name;
uint64_t g_runs;
struct R {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return next() % n; }
};
std::string hex(const BigInteger& b) {
    std::string s;
    for (unsigned char c : b.to_byte_array()) { s += "0123456789abcdef"[c >> 4]; s += "0123456789abcdef"[c & 15]; }
    return s;
}
int kind() { // the documented kinds of error, as a number
    try { throw; }
    catch (const std::bad_alloc&) { return 1; }
    catch (const std::overflow_error&) { return 2; }
    catch (const std::out_of_range&) { return 3; }
    catch (const std::runtime_error&) { return 4; }
    catch (const std::exception&) { return 5; }
    catch (...) { return 6; }
}
BigInteger draw(R& r) {
    static const int64_t SMALL[] = {0, 1, -1, 2, -2, 10, INT32_MAX, INT32_MIN, (int64_t) INT32_MIN + 1, (int64_t) INT32_MAX + 1, (int64_t) INT32_MIN - 1, UINT32_MAX, (int64_t) UINT32_MAX + 1,
                                    -(int64_t) UINT32_MAX, INT64_MAX, INT64_MIN, INT64_MIN + 1, 1000000000, -1000000000};
    switch (r.below(6)) {
        case 0: return BigInteger((int32_t) SMALL[r.below(9)]);
        case 1: case 2: return BigInteger(SMALL[r.below(19)]);
        case 3: return BigInteger((uint64_t) r.next());
        case 4: return BigInteger((double) (int64_t) r.next() * (r.below(2) ? 1.0 : 1e30));
        default: {
            size_t n = 1 + r.below(r.below(8) ? 24 : r.below(12) ? 180 : 1600);
            std::vector<unsigned char> b(n);
            unsigned style = (unsigned) r.below(4);
            for (auto& x : b) x = style == 0 ? 0 : style == 1 ? 0xff : (unsigned char) r.next();
            b.back() = (unsigned char) (r.below(3) ? r.next() : r.below(2) ? 0x80 : 0x7f);
            return BigInteger(b);
        }
    }
}
std::string step(R& r) {
    BigInteger a = draw(r), b = draw(r), c = draw(r);
    int k = (int) r.below(300) - 100;
    unsigned op = (unsigned) r.below(36);
    std::string s = "op" + std::to_string(op) + "(" + hex(a) + "," + hex(b) + "," + hex(c) + "," + std::to_string(k) + ")=";
    try {
        switch (op) {
            case 0: s += hex(a + b); break;
            case 1: s += hex(a - b); break;
            case 2: s += hex(a * b); break;
            case 3: s += hex(a / b); break;
            case 4: s += hex(a % b); break;
            case 5: { BigInteger m; s += hex(BigInteger::div_rem(a, b, m)); s += "," + hex(m); break; }
            case 6: s += hex(BigInteger::pow(a, (int) r.below(20))); break;
            case 7: { BigInteger e((int64_t) r.below(1000)); s += hex(BigInteger::mod_pow(a, e, b)); break; }
            case 8: s += hex(BigInteger::greatest_common_divisor(a, b)); break;
            case 9: s += hex(a << k); break;
            case 10: s += hex(a >> k); break;
            case 11: s += hex(a & b); break;
            case 12: s += hex(a | b); break;
            case 13: s += hex(a ^ b); break;
            case 14: s += hex(~a); break;
            case 15: s += hex(-a); break;
            case 16: s += hex(BigInteger::abs(a)); break;
            case 17: s += a.to_string(); break;
            case 18: s += hex(BigInteger::parse(a.to_string())); break;
            case 19: { BigInteger t; s += std::to_string(BigInteger::try_parse(b.to_string(), t)); s += hex(t); break; }
            case 20: s += std::to_string((int) a); break;
            case 21: s += std::to_string((unsigned long) a); break;
            case 22: s += std::to_string((long) a); break;
            case 23: { char t[64]; snprintf(t, sizeof t, "%a", (double) a); s += t; break; }
            case 24: { char t[64]; snprintf(t, sizeof t, "%a", BigInteger::log(BigInteger::abs(a), 10.0)); s += t; break; }
            case 25: s += hex(BigInteger::zero()) + hex(BigInteger::one()) + hex(BigInteger::minus_one()); break;
            case 26: s += std::to_string(a.compare_to(b) > 0) + std::to_string(a == b) + std::to_string(a < b) + std::to_string(a >= b); break;
            case 27: s += std::to_string(a.get_hash_code()); break;
            case 28: s += std::to_string(a.get_bit_length()) + "," + std::to_string(a.get_byte_count()); break;
            case 29: s += std::to_string(a.is_even()) + std::to_string(a.is_power_of_two()) + std::to_string(a.is_zero()) + std::to_string(a.is_one()) + std::to_string(a.sign() > 0); break;
            case 30: { BigInteger t(a); ++t; s += hex(t); t--; s += hex(t); break; }
            case 31: { BigInteger t(a); t *= b; t -= c; t |= a; s += hex(t); break; }
            case 32: { BigInteger t(INT32_MIN); t = t - BigInteger(1); t = t + BigInteger(1); s += std::to_string(t == BigInteger(INT32_MIN)); s += hex(t); break; }
            case 33: { for (uint32_t w : a.to_uint32_array()) s += std::to_string(w) + ","; break; }
            case 34: { BigInteger sq(a); s += hex(a * sq); break; }
            default: s += hex(BigInteger::pow(BigInteger(0), (int) r.below(3))) + hex(BigInteger(0) >> 5) + hex(BigInteger(-1) >> 40); break;
        }
    } catch (...) { s += "error" + std::to_string(kind()); }
    return s;
}
void fail(const char* phase, const std::string& what) {
    printf("\nSTATIC-VIOL phase=%s reference=%s %s\n", phase, g_ref_name ? g_ref_name : "-", what.substr(0, 3000).c_str());
    fflush(stdout);
    _exit(77);
}
struct Held { BigInteger* obj; std::string text; };
std::vector<Held>* g_held;
}
uint64_t phases_run() { return g_runs; }
void run_phase(const char* name) {
    const char* e = getenv("STATICS_SEED");
    const char* n = getenv("STATICS_CASES");
    R r{e ? strtoull(e, nullptr, 10) : 1};
    uint64_t cases = n ? strtoull(n, nullptr, 10) : 2000;
    Log* log = new Log;
    for (uint64_t k = 0; k < cases; k++) log->push_back(step(r));
    g_runs++;
    printf("PHASE %s calls=%llu\n", name, (unsigned long long) log->size());
    if (!g_ref) { g_ref = log; g_ref_name = name; return; }
    for (size_t k = 0; k < log->size(); k++)
        if ((*log)[k] != (*g_ref)[k]) fail(name, "call " + std::to_string(k) + ": " + (*log)[k] + " but in the reference phase " + (*g_ref)[k]);
    delete log;
}
void hold(const char*) {
    if (!g_held) g_held = new std::vector<Held>;
    R r{12345 + g_held->size()};
    for (int k = 0; k < 60; k++) { BigInteger v = draw(r); g_held->push_back({new BigInteger(v), hex(v)}); }
    for (const BigInteger& v : {BigInteger::zero(), BigInteger::one(), BigInteger::minus_one(), BigInteger(INT32_MIN), BigInteger(INT32_MIN) - BigInteger(1)})
        g_held->push_back({new BigInteger(v), hex(v)});
}
void check_held(const char* name) {
    if (!g_held) return;
    for (auto& h : *g_held) {
        if (hex(*h.obj) != h.text) fail(name, "an object created earlier changed from " + h.text + " to " + hex(*h.obj));
        if (*h.obj + BigInteger(1) - BigInteger(1) != *h.obj) fail(name, "x+1-1 != x for an object created earlier: " + h.text);
        std::vector<unsigned char> b;
        for (size_t k = 0; k + 1 < h.text.size(); k += 2) b.push_back((unsigned char) std::stoi(h.text.substr(k, 2), nullptr, 16));
        BigInteger f(b);
        if (!(f == *h.obj) || f.get_hash_code() != h.obj->get_hash_code() || f.compare_to(*h.obj) != 0) fail(name, "an object created earlier differs from a fresh one: " + h.text);
    }
}
