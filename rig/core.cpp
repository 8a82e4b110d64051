// Monitor core: oracle helpers, value checks, allocation accounting, case files, crash and hang reporting, main.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cmath>
#include <new>
#include <algorithm>
#include <unordered_set>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>

Worker W;
const Args* g_cur = nullptr;
uint64_t g_prog_seed = 0, g_prog_step = 0;
const char* g_mode = "single";
volatile uint64_t g_tick = 0;
AllocStats g_alloc;
volatile int64_t g_fail_at = 0;
bool g_failed = false;
uint64_t g_alloc_cap = (uint64_t) 1 << 30;
volatile uint64_t g_steps = 0, g_step_limit = 0;

// ================================================================ allocation accounting
#ifndef RIG_NO_ALLOC
static inline void* rig_new(size_t n) {
    if (g_fail_at > 0 && --g_fail_at == 0) {
        g_failed = true;
        throw std::bad_alloc();
    }
    if (g_alloc.live_bytes + (int64_t) n > (int64_t) g_alloc_cap) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    size_t m = malloc_usable_size(p);
    g_alloc.live_bytes += (int64_t) m;
    g_alloc.live_blocks++;
    g_alloc.total_bytes += m;
    g_alloc.count++;
    if (g_alloc.live_bytes > g_alloc.peak) g_alloc.peak = g_alloc.live_bytes;
    return p;
}
static inline void rig_delete(void* p) {
    if (!p) return;
    g_alloc.live_bytes -= (int64_t) malloc_usable_size(p);
    g_alloc.live_blocks--;
    free(p);
}
void* operator new(size_t n) { return rig_new(n); }
void* operator new[](size_t n) { return rig_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return rig_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return rig_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { rig_delete(p); }
void operator delete[](void* p) noexcept { rig_delete(p); }
void operator delete(void* p, size_t) noexcept { rig_delete(p); }
void operator delete[](void* p, size_t) noexcept { rig_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rig_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rig_delete(p); }
#endif
void alloc_mark() {
    g_alloc.total_bytes = 0;
    g_alloc.count = 0;
    g_alloc.peak = g_alloc.live_bytes;
}

// ================================================================ oracle helpers
Z z_from_words(const Words& w) {
    Z z;
    if (!w.empty()) mpz_import(z.get_mpz_t(), w.size(), -1, 4, 0, 0, w.data());
    return z;
}
Words mag_words(const Z& z) {
    Words w((size_t) limbs_of(z));
    if (!w.empty()) { size_t n = 0; mpz_export(w.data(), &n, -1, 4, 0, 0, z.get_mpz_t()); }
    return w;
}
// bits of the shortest two's complement form without the sign bit
static size_t bitlen2c(const Z& z) {
    if (z >= 0) return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2);
    Z t = -z - 1;
    return t == 0 ? 0 : mpz_sizeinbase(t.get_mpz_t(), 2);
}
Bytes enc_bytes(const Z& z, bool uns, bool be) {
    size_t n = uns ? std::max<size_t>(1, (bitlen2c(z) + 7) / 8) : bitlen2c(z) / 8 + 1;
    Bytes b(n, 0);
    if (z != 0) {
        size_t cnt = 0;
        if (z > 0) {
            mpz_export(b.data(), &cnt, -1, 1, 0, 0, z.get_mpz_t());
        } else {
            Z t = -z - 1;
            if (t != 0) mpz_export(b.data(), &cnt, -1, 1, 0, 0, t.get_mpz_t());
            for (auto& x : b) x = (unsigned char) ~x;
        }
    }
    if (be) std::reverse(b.begin(), b.end());
    return b;
}
Z dec_bytes(const Bytes& b, bool uns, bool be) {
    Z z;
    if (b.empty()) return z;
    mpz_import(z.get_mpz_t(), b.size(), be ? 1 : -1, 1, 0, 0, b.data());
    unsigned char top = be ? b.front() : b.back();
    if (!uns && (top & 0x80)) z -= z_pow2(8ul * b.size());
    return z;
}
Words enc_words(const Z& z) { // shortest little-endian two's complement words, empty for zero
    if (z == 0) return Words();
    size_t n = bitlen2c(z) / 32 + 1;
    Words w(n, 0);
    size_t cnt;
    if (z > 0) {
        mpz_export(w.data(), &cnt, -1, 4, 0, 0, z.get_mpz_t());
    } else {
        Z t = -z - 1;
        if (t != 0) mpz_export(w.data(), &cnt, -1, 4, 0, 0, t.get_mpz_t());
        for (auto& x : w) x = ~x;
    }
    return w;
}
Z to_z(const BigInteger& b) { return dec_bytes(b.to_byte_array(), false, false); }

const char* err_name(int e) {
    static const char* n[] = {"none", "DivideByZero", "out_of_range", "overflow_error", "runtime_error", "bad_alloc", "other", "any"};
    return e >= 0 && e < 8 ? n[e] : "?";
}

// ================================================================ building operands in different ways
BigInteger build(const Z& z, int route, uint64_t salt) {
    if (route == 4 && limbs_of(z) > 40) route = 0;
    switch (route) {
        default: return BigInteger(enc_bytes(z));
        case 1: return BigInteger(enc_bytes(z, false, true), false, true);
        case 2: return z < 0 ? BigInteger(enc_bytes(z)) : BigInteger(enc_bytes(z, true, false), true, false);
        case 3: { // padded two's complement
            Bytes b = enc_bytes(z);
            b.insert(b.end(), (size_t) (salt % 9), z < 0 ? 0xff : 0x00);
            return BigInteger(b);
        }
        case 4: return BigInteger::parse(z.get_str());
        case 5: { // magnitude words, padded
            Words w = mag_words(z);
            w.insert(w.end(), (size_t) (salt % 3), 0u);
            return BigInteger(w, z < 0);
        }
        case 6: { // native constructors where possible
            if (z >= z_from_i64(INT64_MIN) && z <= z_from_i64(INT64_MAX)) {
                int64_t v = z >= 0 ? (int64_t) mpz_get_ui(z.get_mpz_t()) : (int64_t) (0 - mpz_get_ui(z.get_mpz_t()));
                if (v >= INT32_MIN && v <= INT32_MAX && (salt & 1)) return BigInteger((int32_t) v);
                if (v >= 0 && v <= UINT32_MAX && (salt & 2)) return BigInteger((uint32_t) v);
                if (v >= 0 && (salt & 4)) return BigInteger((uint64_t) v);
                return BigInteger(v);
            }
            return BigInteger(enc_bytes(z));
        }
        case 7: { // result of an addition that may shrink
            Rng r(salt);
            Z d = gen_mag_len(r, 1 + (int) (salt % 4) + (r.chance(1, 2) ? limbs_of(z) : 0));
            if (r.chance(1, 2)) d = -d;
            BigInteger a(enc_bytes(z - d));
            BigInteger b(enc_bytes(d));
            a += b;
            return a;
        }
        case 8: { // result of a right shift
            int k = (int) (salt % 97);
            Z t = z; t <<= (unsigned long) k;
            BigInteger a(enc_bytes(t));
            a >>= k;
            return a;
        }
        case 9: { // copy, then move
            BigInteger a(enc_bytes(z));
            BigInteger b(a);
            BigInteger c;
            c = b;
            BigInteger d(std::move(b));
            c = std::move(d);
            return c;
        }
        case 10: { // through a double when exact
            double d = mpz_get_d(z.get_mpz_t());
            if (std::isfinite(d) && Z(d) == z) return BigInteger(d);
            return BigInteger(enc_bytes(z));
        }
        case 11: { // negation of the opposite
            BigInteger a(enc_bytes(Z(-z)));
            return -a;
        }
    }
}

// ================================================================ reporting
std::string show(const Z& z) {
    std::string s = (z < 0 ? "-0x" : "0x") + Z(::abs(z)).get_str(16);
    if (s.size() > 400) s = s.substr(0, 180) + "..." + s.substr(s.size() - 180) + "(" + std::to_string(limbs_of(z)) + " words)";
    return s;
}
static std::string hexs(const Bytes& b) {
    static const char* d = "0123456789abcdef";
    std::string s;
    for (auto c : b) { s += d[c >> 4]; s += d[c & 15]; if (s.size() > 400) break; }
    return s;
}
std::string show_args(const Args& a) {
    if (a.op < 0) return "?";
    const Op& o = g_ops[(size_t) a.op];
    std::string s = std::string(o.name) + "(";
    for (int k = 0; k < o.nz; k++) {
        s += (k ? ", " : "");
        s += "#" + std::to_string(a.al[k]) + "=" + show(a.z[a.al[k]]);
    }
    s += "; i=" + std::to_string(a.i) + " u=" + std::to_string(a.u) + " fl=" + std::to_string(a.fl);
    if (a.d != 0) { char t[64]; snprintf(t, sizeof t, " d=%a", a.d); s += t; }
    if (!a.s.empty()) s += " s=\"" + (a.s.size() > 120 ? a.s.substr(0, 120) + "..." : a.s) + "\"";
    if (!a.by.empty()) s += " bytes=" + (a.by.size() > 80 ? hexs(Bytes(a.by.begin(), a.by.begin() + 80)) + "..." : hexs(a.by));
    return s + ")";
}
uint64_t hash_args(const Args& a) {
    uint64_t h = (uint64_t) a.op + 77;
    const Op& o = g_ops[(size_t) a.op];
    for (int k = 0; k < o.nz; k++) {
        h = mix64(h, a.al[k]);
        const mpz_srcptr p = a.z[a.al[k]].get_mpz_t();
        h = mix64(h, (uint64_t) (int64_t) p->_mp_size);
        for (size_t i = 0; i < mpz_size(p); i++) h = mix64(h, mpz_getlimbn(p, (mp_size_t) i));
    }
    uint64_t d; memcpy(&d, &a.d, 8);
    h = mix64(h, (uint64_t) a.i); h = mix64(h, a.u); h = mix64(h, d); h = mix64(h, (uint64_t) a.fl);
    for (char c : a.s) h = mix64(h, (unsigned char) c);
    for (auto c : a.by) h = mix64(h, c);
    return h;
}
static bool g_real_in_hash = false;
uint64_t hash_result(const Args& a, const Result& r) {
    uint64_t h = mix64((uint64_t) r.err, hash_args(a));
    for (auto& b : r.big) { for (auto c : b.to_byte_array()) h = mix64(h, c); h = mix64(h, (uint64_t) (uint32_t) b.get_hash_code()); }
    for (auto v : r.iv) h = mix64(h, (uint64_t) v);
    if (!(g_ops[(size_t) a.op].flags & F_FLOAT))
        for (auto v : r.dv) { uint64_t d; memcpy(&d, &v, 8); h = mix64(h, d); }
    for (char c : r.text) h = mix64(h, (unsigned char) c);
    for (auto c : r.by) h = mix64(h, c + 1000u);
    for (auto c : r.w) h = mix64(h, c);
    (void) g_real_in_hash;
    return h;
}
bool nontrivial(const Args& a) { // an operand beyond the small representation, or a boundary scalar
    const Op& o = g_ops[(size_t) a.op];
    for (int k = 0; k < o.nz; k++) if (limbs_of(a.z[a.al[k]]) > 1 || ::abs(a.z[a.al[k]]) >= 0x7fffffff) return true;
    if (o.nz == 0) return true;
    return false;
}

// the serialised current case, refreshed before every call, so that a signal handler only has to write it
static char* g_case_buf = nullptr;
static size_t g_case_len = 0, g_case_cap = 0;
static void put(const char* s, size_t n) {
    if (g_case_len + n + 1 > g_case_cap) {
        g_case_cap = (g_case_len + n) * 2 + 4096;
        g_case_buf = (char*) realloc(g_case_buf, g_case_cap);
        if (!g_case_buf) _exit(70);
    }
    memcpy(g_case_buf + g_case_len, s, n);
    g_case_len += n;
    g_case_buf[g_case_len] = 0;
}
static void puts_(const char* s) { put(s, strlen(s)); }
static void putz(const char* key, const Z& z) {
    puts_(key);
    size_t n = mpz_sizeinbase(z.get_mpz_t(), 16) + 3;
    if (g_case_len + n + 2 > g_case_cap) {
        g_case_cap = (g_case_len + n) * 2 + 4096;
        g_case_buf = (char*) realloc(g_case_buf, g_case_cap);
        if (!g_case_buf) _exit(70);
    }
    mpz_get_str(g_case_buf + g_case_len, 16, z.get_mpz_t());
    g_case_len += strlen(g_case_buf + g_case_len);
    puts_("\n");
}
void note_case(const Args& a) {
    g_case_len = 0;
    char t[256];
    const Op& o = g_ops[(size_t) a.op];
    snprintf(t, sizeof t, "op %s\nmode %s\ni %lld\nu %llu\nd %a\nfl %d\nal %d %d %d\nroute %d %d %d\n", o.name, g_mode, (long long) a.i,
             (unsigned long long) a.u, a.d, a.fl, a.al[0], a.al[1], a.al[2], a.route[0], a.route[1], a.route[2]);
    puts_(t);
    if (std::isnan(a.d)) { uint64_t b; memcpy(&b, &a.d, 8); snprintf(t, sizeof t, "dbits %llx\n", (unsigned long long) b); puts_(t); }
    putz("z0 ", a.z[0]);
    putz("z1 ", a.z[1]);
    putz("z2 ", a.z[2]);
    if (!a.s.empty()) { puts_("s "); for (unsigned char c : a.s) { snprintf(t, sizeof t, "%02x", c); puts_(t); } puts_("\n"); }
    if (!a.by.empty()) { puts_("by "); for (unsigned char c : a.by) { snprintf(t, sizeof t, "%02x", c); puts_(t); } puts_("\n"); }
}
std::string g_extreme;
static char g_case_path[512];
static void wr(int fd, const char* s) { if (write(fd, s, strlen(s)) < 0) {} }
static void wrn(int fd, uint64_t v) { char t[24]; int i = 23; t[i] = 0; do { t[--i] = (char) ('0' + v % 10); v /= 10; } while (v); wr(fd, t + i); }
void write_case(const char* path, const char* kind, const char* detail) { // async-signal-safe
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    wr(fd, "kind "); wr(fd, kind); wr(fd, "\nprop "); wr(fd, W.prop.c_str());
    wr(fd, "\nwmode "); wr(fd, W.mode.c_str());
    wr(fd, "\nwseed "); wrn(fd, W.seed); wr(fd, "\nwindex "); wrn(fd, (uint64_t) W.index);
    wr(fd, "\nwcases "); wrn(fd, W.cases); wr(fd, "\nwtier "); wrn(fd, (uint64_t) W.tier);
    wr(fd, "\npseed "); wrn(fd, g_prog_seed); wr(fd, "\npstep "); wrn(fd, g_prog_step); wr(fd, "\n");
    if (g_case_buf && g_cur) { if (write(fd, g_case_buf, g_case_len) < 0) {} }
    wr(fd, "detail "); wr(fd, detail); wr(fd, "\n");
    close(fd);
}
static void finish_bad(const char* kind, const char* detail, int code) {
    if (code == 78 && gmp_errno) { wr(2, "GMP was used outside its domain: an error of this program\n"); _exit(70); }
    write_case(g_case_path, kind, detail);
    char t[700];
    int n = snprintf(t, sizeof t, "\nRIG-VIOL kind=%s op=%s path=%s\n", kind, g_cur && g_cur->op >= 0 ? g_ops[(size_t) g_cur->op].name : "-", g_case_path);
    if (write(1, t, (size_t) n) < 0) {}
    _exit(code);
}
void violation(const std::string& kind, const std::string& detail) {
    std::string d = detail + (g_cur ? " | " + show_args(*g_cur) : "") + (g_extreme.empty() ? "" : " | " + g_extreme);
    for (auto& c : d) if (c == '\n') c = ' ';
    finish_bad(kind.c_str(), d.c_str(), 77);
    _exit(77);
}
static void on_crash(int sig) {
    signal(sig, SIG_DFL);
    const char* k = sig == SIGABRT ? "abort" : sig == SIGFPE ? "sigfpe" : sig == SIGSEGV ? "sigsegv" : "signal";
    finish_bad(k, "the process was ended by a signal during this call", 78);
}
int g_hang_seconds = 30;
static void on_prof(int) {
    static uint64_t last = 0;
    static int same = 0;
    if (g_tick == last) {
        if (++same >= g_hang_seconds) finish_bad("hang", ("no progress during " + std::to_string(g_hang_seconds) + " s of processor time").c_str(), 79);
    } else { last = g_tick; same = 0; }
}
// a process that neither advances nor uses its processor waits for something that will not come, such as a lock it holds itself
static void on_alarm(int) {
    static uint64_t last = 0;
    static double cpu0 = 0;
    static int same = 0;
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    double cpu = (double) u.ru_utime.tv_sec + (double) u.ru_stime.tv_sec + ((double) u.ru_utime.tv_usec + (double) u.ru_stime.tv_usec) / 1e6;
    if (g_tick == last && cpu - cpu0 < 0.02) {
        if (++same >= 12) finish_bad("hang", "no progress and no use of the processor during 60 s", 79);
    } else { last = g_tick; same = 0; }
    cpu0 = cpu;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define RIG_SAN 1
#endif
#endif
#ifdef RIG_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_san() { finish_bad("sanitizer", "a sanitizer report ended the process during this call (see the log)", 78); }
#endif

bool load_case(const char* path, Args& a, std::string& mode, uint64_t& pseed, uint64_t& pstep) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    std::string text;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
    fclose(f);
    size_t p = 0;
    auto unhex = [](const std::string& v) { Bytes b; for (size_t i = 0; i + 1 < v.size(); i += 2) b.push_back((unsigned char) strtoul(v.substr(i, 2).c_str(), nullptr, 16)); return b; };
    while (p < text.size()) {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) e = text.size();
        std::string line = text.substr(p, e - p);
        p = e + 1;
        size_t sp = line.find(' ');
        std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
        int x, y, z;
        if (k == "op") a.op = op_index(v);
        else if (k == "mode") mode = v;
        else if (k == "i") a.i = strtoll(v.c_str(), nullptr, 10);
        else if (k == "u") a.u = strtoull(v.c_str(), nullptr, 10);
        else if (k == "d") a.d = strtod(v.c_str(), nullptr);
        else if (k == "dbits") { uint64_t b = strtoull(v.c_str(), nullptr, 16); memcpy(&a.d, &b, 8); }
        else if (k == "fl") a.fl = atoi(v.c_str());
        else if (k == "al" && sscanf(v.c_str(), "%d %d %d", &x, &y, &z) == 3) { a.al[0] = (uint8_t) x; a.al[1] = (uint8_t) y; a.al[2] = (uint8_t) z; }
        else if (k == "route" && sscanf(v.c_str(), "%d %d %d", &x, &y, &z) == 3) { a.route[0] = (uint8_t) x; a.route[1] = (uint8_t) y; a.route[2] = (uint8_t) z; }
        else if (k == "z0") a.z[0].set_str(v, 16);
        else if (k == "z1") a.z[1].set_str(v, 16);
        else if (k == "z2") a.z[2].set_str(v, 16);
        else if (k == "s") { Bytes b = unhex(v); a.s.assign(b.begin(), b.end()); }
        else if (k == "by") a.by = unhex(v);
        else if (k == "pseed") pseed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "pstep") pstep = strtoull(v.c_str(), nullptr, 10);
        else if (k == "prop") W.prop = v;
        else if (k == "wmode") W.mode = v;
        else if (k == "wseed") W.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "windex") W.index = atoi(v.c_str());
        else if (k == "wcases") W.cases = strtoull(v.c_str(), nullptr, 10);
        else if (k == "wtier") W.tier = atoi(v.c_str());
    }
    return true;
}

// ================================================================ the monitor
void check_value(const BigInteger& b, const Z& expect, const char* what, bool deep) {
    W.checks++;
    Bytes e = enc_bytes(expect);
    Bytes g = b.to_byte_array();
    if (g != e) violation("value", std::string(what) + ": expected " + show(expect) + ", observed " + show(dec_bytes(g, false, false)) + (dec_bytes(g, false, false) == expect ? " in a non-minimal encoding" : ""));
    if (!deep) return;
    BigInteger f(e);
    if (!b.equals(f) || !f.equals(b) || !(b == f) || b != f) violation("canon", std::string(what) + ": not equal to a fresh object holding " + show(expect));
    if (b.compare_to(f) != 0 || f.compare_to(b) != 0) violation("canon", std::string(what) + ": does not compare equal to a fresh object holding " + show(expect));
    if (b.get_hash_code() != f.get_hash_code()) violation("canon", std::string(what) + ": hash differs from a fresh object holding " + show(expect));
    if (b.to_uint32_array() != f.to_uint32_array()) violation("canon", std::string(what) + ": word view differs from a fresh object holding " + show(expect));
    int s = sgn(expect);
    int bs = b.sign();
    if ((bs > 0) - (bs < 0) != s || b.is_zero() != (s == 0)) violation("canon", std::string(what) + ": sign()/is_zero() wrong for " + show(expect));
}

static inline void disarm() { if (g_fail_at) g_fail_at = 0; } // the handlers themselves allocate
void call(const Op& o, BigInteger* const* p, const Args& a, Result& r) {
    try {
        o.exec(p, a, r);
    } catch (const DivideByZero& e) { disarm(); r.err = E_DIV0; r.what = e.what();
    } catch (const std::bad_alloc& e) { disarm(); r.err = E_BADALLOC; r.what = e.what();
    } catch (const std::overflow_error& e) { disarm(); r.err = E_OVERFLOW; r.what = e.what();
    } catch (const std::out_of_range& e) { disarm(); r.err = E_RANGE; r.what = e.what();
    } catch (const std::runtime_error& e) { disarm(); r.err = E_RUNTIME; r.what = e.what();
    } catch (const std::exception& e) { disarm(); r.err = E_OTHER; r.what = e.what();
    } catch (...) { disarm(); r.err = E_ANY; r.what = "non-standard exception"; }
}

static bool err_matches(int want, int got) {
    if (want == got) return true;
    if (want == E_RUNTIME && got == E_OVERFLOW) return true; // a more specific kind
    if (want == E_ANY && got != E_NONE && got != E_ANY) return true;
    return false;
}

void judge(const Op& o, const Args& a, const Result& r, const Spec& s) {
    (void) a;
    if (r.err != E_NONE) W.errors_seen++;
    if (s.may_err && r.err != E_NONE && r.err != E_ANY) return;
    if (!err_matches(s.err, r.err)) {
        if (s.err == E_NONE) violation("error", std::string(o.name) + " raised " + err_name(r.err) + " (" + r.what + ") instead of returning a result");
        if (r.err == E_NONE) violation("noerror", std::string(o.name) + " returned normally instead of raising " + err_name(s.err));
        violation("wrongerror", std::string(o.name) + " raised " + err_name(r.err) + " instead of " + err_name(s.err));
    }
    if (s.err != E_NONE) return;
    if (r.big.size() != s.z.size() || r.iv.size() != s.iv.size() || r.dv.size() != s.dv.size()) violation("shape", "number of results");
    for (size_t k = 0; k < s.z.size(); k++) check_value(r.big[k], s.z[k], (std::string("result ") + std::to_string(k)).c_str(), true);
    for (size_t k = 0; k < s.iv.size(); k++)
        if (r.iv[k] != s.iv[k]) violation("scalar", std::string(o.name) + " scalar result " + std::to_string(k) + ": expected " + std::to_string(s.iv[k]) + ", observed " + std::to_string(r.iv[k]));
    for (size_t k = 0; k < s.dv.size(); k++) {
        double e = s.dv[k], g = r.dv[k];
        bool ok;
        if (std::isnan(e)) ok = std::isnan(g);
        else if (s.tol == 0) ok = e == g && std::signbit(e) == std::signbit(g);
        else ok = e == g || std::fabs(e - g) <= s.tol * std::fabs(e);
        if (!ok) { char t[160]; snprintf(t, sizeof t, "%s floating result: expected %.17g (%a), observed %.17g (%a)", o.name, e, e, g, g); violation("float", t); }
    }
    if (r.text != s.text) violation("text", std::string(o.name) + ": expected \"" + s.text.substr(0, 200) + "\", observed \"" + r.text.substr(0, 200) + "\"");
    if (r.by != s.by) violation("bytes", std::string(o.name) + ": expected " + hexs(s.by).substr(0, 200) + ", observed " + hexs(r.by).substr(0, 200));
    if (r.w != s.w) violation("words", std::string(o.name) + ": word array differs, expected " + std::to_string(s.w.size()) + " words, observed " + std::to_string(r.w.size()));
}

#if defined(__has_include)
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#define RIG_VG 1
#endif
#endif
void check_memcheck() {
#ifdef RIG_VG
    if (RUNNING_ON_VALGRIND && VALGRIND_COUNT_ERRORS > 0) violation("memcheck", "valgrind reported an error during this call (see the log)");
#endif
}

static void run_single_once(const Args& a, Result* keep) {
    const Op& o = g_ops[(size_t) a.op];
    BigInteger slot[3];
    Z zs[3];
    BigInteger* p[3];
    Z* zp[3];
    bool used[3] = {false, false, false};
    for (int k = 0; k < 3; k++) { p[k] = &slot[a.al[k]]; zp[k] = &zs[a.al[k]]; }
    for (int k = 0; k < o.nz; k++) used[a.al[k]] = true;
    for (int s = 0; s < 3; s++)
        if (used[s]) {
            zs[s] = a.z[s];
            slot[s] = build(a.z[s], a.route[s], mix64(a.u + (uint64_t) a.i, (uint64_t) s));
            if (a.route[s]) check_value(slot[s], zs[s], (std::string("operand built by route ") + std::to_string(a.route[s])).c_str(), true);
        }
    Spec sp;
    o.spec(zp, a, sp);
    Result r;
    call(o, p, a, r);
    judge(o, a, r, sp);
    bool failed = r.err != E_NONE;
    for (int s = 0; s < 3; s++)
        if (used[s]) {
            bool target = false;
            for (int k = 0; k < o.nz; k++) if (a.al[k] == s && (o.mut >> k & 1)) target = true;
            check_value(slot[s], failed ? a.z[s] : zs[s], target ? (failed ? "assignment target after an error" : "assignment target") : "read-only operand after the call", target);
        }
    if (failed) { // everything has to stay usable
        for (int s = 0; s < 3; s++)
            if (used[s]) {
                slot[s] += BigInteger(1);
                check_value(slot[s], a.z[s] + 1, "operand used after an error", true);
            }
    }
    if (keep) *keep = r;
}

void run_single(const Args& a, Result* keep) {
    g_cur = &a;
    note_case(a);
    g_tick = g_tick + 1;
    if (keep) { run_single_once(a, keep); return; }
    int64_t before = g_alloc.live_blocks;
    run_single_once(a, nullptr);
    if (g_alloc.live_blocks != before) { // only growth that repeats is a leak: a lazily built table is not
        int64_t d[3];
        for (int k = 0; k < 3; k++) { int64_t b = g_alloc.live_blocks; run_single_once(a, nullptr); d[k] = g_alloc.live_blocks - b; }
        if (d[0] > 0 && d[1] > 0 && d[2] > 0) violation("leak", std::to_string(d[2]) + " allocation(s) not released by the call");
        if (d[0] < 0 && d[1] < 0 && d[2] < 0) violation("overfree", "more blocks released than allocated");
    }
    check_memcheck();
    g_cur = nullptr;
}

// ================================================================ main
static std::unordered_set<uint64_t> g_seen;
void remember(const Args& a) {
    W.evaluations++;
    if (nontrivial(a) && g_seen.size() < 4000000 && g_seen.insert(hash_args(a)).second) W.nontriv++;
    W.op_count[(size_t) a.op]++;
    const Op& o = g_ops[(size_t) a.op];
    int l = 0;
    bool alias = false;
    for (int k = 0; k < o.nz; k++) { l = std::max(l, limbs_of(a.z[a.al[k]])); for (int j = 0; j < k; j++) if (a.al[j] == a.al[k]) alias = true; }
    W.alias_cases += alias;
    int b = l == 0 ? 0 : l == 1 ? 1 : l == 2 ? 2 : l <= 4 ? 3 : l <= 8 ? 4 : l <= 16 ? 5 : l <= 31 ? 6 : l <= 64 ? 7 : l <= 128 ? 8 : l <= 256 ? 9 : 10;
    W.len_hist[b]++;
    if (W.samples.size() < 4 && W.evaluations % 97 == 5 && nontrivial(a)) { std::string s = show_args(a); if (s.size() < 700) W.samples.push_back(s); }
}
#ifdef RIG_COV
// inline 8-bit counters of the instrumented library objects
static uint8_t *g_cov_lo[64], *g_cov_hi[64];
static int g_cov_n = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) { if (g_cov_n < 64 && a != b) { g_cov_lo[g_cov_n] = a; g_cov_hi[g_cov_n++] = b; } }
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
#endif
static void jstr(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) { if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void write_stats() {
    std::string path = W.outdir + "/stats_" + std::to_string(W.index) + ".json";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); _exit(70); }
    fprintf(f, "{\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"errors_observed\": %llu, \"alias_cases\": %llu, \"value_checks\": %llu, \"fault_points\": %llu, \"steps\": %llu, \"op_count\": {",
            (unsigned long long) W.evaluations, (unsigned long long) W.nontriv, (unsigned long long) W.errors_seen, (unsigned long long) W.alias_cases,
            (unsigned long long) W.checks, (unsigned long long) W.fault_points, (unsigned long long) W.steps);
    bool first = true;
    for (size_t k = 0; k < g_ops.size(); k++) if (W.op_count[k]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", g_ops[k].name, (unsigned long long) W.op_count[k]); first = false; }
    fprintf(f, "}, \"len_hist\": [");
    for (int k = 0; k < 11; k++) fprintf(f, "%s%llu", k ? ", " : "", (unsigned long long) W.len_hist[k]);
    fprintf(f, "], \"samples\": [");
    for (size_t k = 0; k < W.samples.size(); k++) { if (k) fputs(", ", f); jstr(f, W.samples[k]); }
    fprintf(f, "], \"extra\": {");
    for (size_t k = 0; k < W.extra.size(); k++) { if (k) fputs(", ", f); jstr(f, W.extra[k].first); fprintf(f, ": %.6g", W.extra[k].second); }
    fprintf(f, "}");
#ifdef RIG_COV
    size_t tot = 0, hit = 0;
    std::string bits;
    for (int m = 0; m < g_cov_n; m++) for (uint8_t* c = g_cov_lo[m]; c < g_cov_hi[m]; c++) { tot++; hit += *c != 0; bits += *c ? '1' : '0'; }
    fprintf(f, ", \"edges\": %zu, \"edges_hit\": %zu, \"edge_map\": \"%s\"", tot, hit, bits.c_str());
#endif
    fprintf(f, "}\n");
    fclose(f);
}

int main(int argc, char** argv) {
    std::string replay, consts;
    g_consts = {0, 1, 2, 10, 31, 32, 33, 0x7fffffff, 0x80000000ull, 0xffffffffull, 1000000000};
    for (int k = 1; k + 1 < argc; k += 2) {
        std::string o = argv[k], v = argv[k + 1];
        if (o == "--mode") W.mode = v;
        else if (o == "--prop") W.prop = v;
        else if (o == "--seed") W.seed = strtoull(v.c_str(), nullptr, 10);
        else if (o == "--index") W.index = atoi(v.c_str());
        else if (o == "--workers") W.nworkers = atoi(v.c_str());
        else if (o == "--cases") W.cases = strtoull(v.c_str(), nullptr, 10);
        else if (o == "--tier") W.tier = atoi(v.c_str());
        else if (o == "--out") W.outdir = v;
        else if (o == "--consts") consts = v;
        else if (o == "--replay") replay = v;
        else { fprintf(stderr, "unknown option %s\n", o.c_str()); return 70; }
    }
    if (!consts.empty()) {
        FILE* f = fopen(consts.c_str(), "r");
        unsigned long long v;
        if (f) { while (fscanf(f, "%llu", &v) == 1) g_consts.push_back(v); fclose(f); }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    register_ops();
    W.op_count.assign(g_ops.size(), 0);
    Args a;
    std::string cmode;
    uint64_t pseed = 0, pstep = 0;
    if (!replay.empty()) {
        if (!load_case(replay.c_str(), a, cmode, pseed, pstep)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 70; }
    }
    if (W.outdir.empty()) W.outdir = ".";
    snprintf(g_case_path, sizeof g_case_path, "%s/case_%d.txt", W.outdir.c_str(), W.index);
#ifdef RIG_SAN
    __sanitizer_set_death_callback(on_san);
#endif
    {
        static char alt[65536];
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt; ss.ss_size = sizeof alt;
#ifndef RIG_SAN
        sigaltstack(&ss, nullptr);
#endif
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_crash;
        sa.sa_flags = SA_ONSTACK;
        sigaction(SIGABRT, &sa, nullptr);
#ifndef RIG_SAN
        sigaction(SIGFPE, &sa, nullptr);
        sigaction(SIGSEGV, &sa, nullptr);
        sigaction(SIGBUS, &sa, nullptr);
        sigaction(SIGILL, &sa, nullptr);
#endif
        sa.sa_handler = on_prof;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGPROF, &sa, nullptr);
        struct itimerval it = {{1, 0}, {1, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        sa.sa_handler = on_alarm;
        sigaction(SIGALRM, &sa, nullptr);
        it = {{5, 0}, {5, 0}};
        setitimer(ITIMER_REAL, &it, nullptr);
    }
    if (!replay.empty() && cmode != "") {
        g_mode = strdup(cmode.c_str());
        if (cmode == "single") { run_single(a); }
        else if (cmode == "fault") run_fault(a);
        else if (cmode == "steps") run_steps(a);
        else if (cmode == "prog") run_program(pseed, pstep + 1, false, nullptr);
        else if (cmode == "progalias") run_program(pseed, pstep + 1, true, nullptr);
        else { fprintf(stderr, "no replay for mode %s\n", cmode.c_str()); return 70; }
        puts("RIG-OK");
        return 0;
    }
    Rng rng(mix64(mix64(W.seed, (uint64_t) W.index), 0x5eed));
    if (W.mode == "single") mode_single(rng, false);
    else if (W.mode == "long") mode_single(rng, true);
    else if (W.mode == "errors") mode_errors(rng);
    else if (W.mode == "prog") mode_prog(rng, false);
    else if (W.mode == "progalias") mode_prog(rng, true);
    else if (W.mode == "fault") mode_fault(rng);
    else if (W.mode == "digest") mode_digest(rng);
    else if (W.mode == "steps") mode_steps(rng);
    else if (W.mode == "threads") mode_threads(rng);
    else if (W.mode == "extreme") mode_extreme();
    else if (W.mode == "wide") mode_wide();
    else { fprintf(stderr, "unknown mode %s\n", W.mode.c_str()); return 70; }
    write_stats();
    puts("RIG-OK");
    return 0;
}
