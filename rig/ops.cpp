// The public API as a table of operations: how to draw arguments, how to call the library, what it has to do.
#include "core.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <algorithm>

std::vector<Op> g_ops;
int op_index(const std::string& n) {
    for (size_t k = 0; k < g_ops.size(); k++) if (n == g_ops[k].name) return (int) k;
    return -1;
}

#define GEN [](Rng& r, Args& a, const GenCfg& c) { (void) r; (void) a; (void) c;
#define EXEC [](BigInteger* const* p, const Args& a, Result& r) { (void) p; (void) a; (void) r;
#define SPEC [](Z* const* z, const Args& a, Spec& s) { (void) z; (void) a; (void) s;
#define END }
#define B(k) (*p[k])
#define Y(k) (*z[k])
#define RET(e) r.big.push_back(e)
#define RETI(e) r.iv.push_back((long long) (e))
static void same(Result& r, const BigInteger* x, const BigInteger* y) { r.iv.push_back(x == y); } // compound forms return *this

// Forms that take the raw representation: called only where the library offers them and in the way the library itself calls them.
#define FORM(name, params, ...) template <class T> static auto name params -> decltype(__VA_ARGS__)
FORM(add_bits, (T& x, const T& y, int), x.add(x.get_bits(), x.sign_internal(), y.get_bits(), y.sign_internal())) {
    if (x.get_bits().empty() && y.get_bits().empty()) return x + y;
    return x.add(x.get_bits(), x.sign_internal(), y.get_bits(), y.sign_internal());
}
template <class T> static T add_bits(T& x, const T& y, long) { return x + y; }
FORM(sub_bits, (T& x, const T& y, int), x.subtract(x.get_bits(), x.sign_internal(), y.get_bits(), y.sign_internal())) {
    if (x.get_bits().empty() && y.get_bits().empty()) return x - y;
    return x.subtract(x.get_bits(), x.sign_internal(), y.get_bits(), y.sign_internal());
}
template <class T> static T sub_bits(T& x, const T& y, long) { return x - y; }
FORM(raw_form, (const T& x, int), T(x.sign_internal(), x.get_bits())) { return T(x.sign_internal(), x.get_bits()); }
template <class T> static T raw_form(const T& x, long) { return x; }
FORM(gcd_bits, (T& x, T& y, int), T::greatest_common_divisor(x.get_bits(), y.get_bits())) {
    if (x.get_bits().size() < 2 || y.get_bits().size() < 2) return T::greatest_common_divisor(x, y);
    return T::abs(x) < T::abs(y) ? T::greatest_common_divisor(y.get_bits(), x.get_bits()) : T::greatest_common_divisor(x.get_bits(), y.get_bits());
}
template <class T> static T gcd_bits(T& x, T& y, long) { return T::greatest_common_divisor(x, y); }

static void gen1(Rng& r, Args& a, const GenCfg& c) { if (!c.fixed) a.z[0] = gen_num(r, c.maxl); }
static void gen2(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    a.z[0] = gen_num(r, c.maxl);
    a.z[1] = r.chance(2, 5) ? gen_related(r, a.z[0], c.maxl) : gen_num(r, c.maxl);
    if (r.chance(1, 2)) std::swap(a.z[0], a.z[1]);
}
// long carry and borrow chains
static void gen_addsub(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    if (r.chance(3, 5)) { gen2(r, a, c); return; }
    int n = gen_len(r, c.maxl) + 1;
    Z t = z_pow2((unsigned long) n * 32 - r.below(33));
    Z d = gen_num(r, 1 + (int) r.below((uint64_t) n));
    switch (r.below(4)) {
        case 0: a.z[0] = t - d; a.z[1] = d; break;              // sum is a power of two
        case 1: a.z[0] = t; a.z[1] = d; break;
        case 2: a.z[0] = t - 1; a.z[1] = d; break;
        default: a.z[0] = d + z_from_u64(r.next()); a.z[1] = -d; break; // nearly cancels
    }
    if (r.chance(1, 2)) a.z[0] = -a.z[0];
    if (r.chance(1, 3)) a.z[1] = -a.z[1];
    if (r.chance(1, 2)) std::swap(a.z[0], a.z[1]);
}
static void gen_native(Rng& r, Args& a, const GenCfg& c) {
    gen1(r, a, c);
    switch (r.below(6)) {
        case 0: a.u = r.next(); break;
        case 1: a.u = r.next() >> r.below(64); break;
        case 2: a.u = (1ull << r.below(64)) + (uint64_t) r.range(-2, 2); break;
        case 3: a.u = (uint64_t) r.range(-3, 3); break;
        case 4: a.u = 0 - (1ull << r.below(64)) + (uint64_t) r.range(-2, 2); break;
        default: a.u = g_consts[r.below(g_consts.size())] * (r.chance(1, 2) ? 1ull : (uint64_t) -1); break;
    }
    a.i = (int64_t) a.u;
}
// two halves (as the recursive algorithm splits) whose sum, or whose difference from a power of the base, is special
static Z gen_halves(Rng& r, int limbs, int low) {
    int high = limbs - low;
    Z t, a1, a0;
    Z bh = z_pow2((unsigned long) high * 32), bl = z_pow2((unsigned long) low * 32);
    int k = (int) r.below(6);
    if (k == 0) a0 = bl - 1 - (long) r.below(3);
    else if (k == 1) { a0 = bl / 2; a0 += z_from_u64(r.u32()) << (unsigned long) std::max(0, low - 2) * 32; }
    else if (k == 2) a0 = z_pow2(r.below((uint64_t) low * 32)) + (long) r.range(-1, 1);
    else a0 = gen_mag_len(r, low);
    if (a0 < 0) a0 = 0;
    switch (r.below(6)) {
        case 0: t = a0; break;
        case 1: t = a0 + (long) r.range(-2, 2); break;
        case 2: t = a0 - z_pow2(r.below((uint64_t) low * 32)); break;
        case 3: t = a0 + z_pow2(r.below((uint64_t) low * 32)); break;
        case 4: t = r.range(0, 3); break;
        default: t = gen_mag_len(r, low); break;
    }
    a1 = bh - t;                                   // the halves add up to about a power of the base
    if (r.chance(1, 5)) a1 = a0 + (long) r.range(-1, 1); // equal halves
    if (a1 < 1) a1 = 1;
    if (a1 >= bh) a1 = bh - 1;
    if (a0 >= bl) a0 = bl - 1;
    return a1 * bl + a0;
}
static void gen_mul(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    int k = (int) r.below(10);
    if (k < 3) { gen2(r, a, c); return; }
    if (k == 3 && c.maxl >= 34) {
        int m = r.chance(2, 3) ? (int) r.range(31, 37) : (int) r.range(31, std::max(32, c.maxl));
        int n = r.chance(1, 2) ? m : m + (int) r.below(r.chance(1, 2) ? 4 : (uint64_t) c.maxl);
        int low = m / 2;
        if (r.chance(1, 6)) low = 16;
        a.z[0] = gen_halves(r, m, low);
        a.z[1] = n == m && r.chance(1, 3) ? a.z[0] : r.chance(1, 6) ? gen_mag_len(r, n) : gen_halves(r, n, low);
        if (r.chance(1, 2)) a.z[0] = -a.z[0];
        if (r.chance(1, 2)) std::swap(a.z[0], a.z[1]);
        return;
    }
    if (k == 4) { // the product is chosen: long runs of equal bits, just missed from either side
        int m = r.chance(1, 2) && c.maxl >= 34 ? (int) r.range(31, std::min(c.maxl, 70)) : 1 + gen_len(r, c.maxl);
        Z y = ::abs(gen_mag_len(r, m));
        if (y == 0) y = 1;
        Z t = z_pow2((unsigned long) m * 32 + r.below((uint64_t) std::max(1, c.maxl) * 32));
        if (r.chance(1, 3)) t += z_pow2(r.below(mpz_sizeinbase(t.get_mpz_t(), 2)));
        else if (r.chance(1, 2)) t -= z_pow2(r.below(mpz_sizeinbase(t.get_mpz_t(), 2)));
        if (r.chance(1, 4)) t *= z_from_u64(1 + r.u32());
        Z x = t / y + (long) r.below(2);
        if (r.chance(1, 5)) { mpz_sqrt(x.get_mpz_t(), t.get_mpz_t()); x += (long) r.below(2); y = x; }
        a.z[0] = x; a.z[1] = r.chance(1, 2) ? y : Z(-y);
        if (r.chance(1, 2)) std::swap(a.z[0], a.z[1]);
        return;
    }
    int m = gen_len(r, c.maxl), n;
    switch (r.below(5)) {
        case 0: n = m; break;
        case 1: n = m + (int) r.range(-2, 2); break;
        case 2: n = m * (int) r.range(1, 4) + (int) r.range(-1, 1); break;
        case 3: n = (int) r.range(30, 36); break;
        default: n = gen_len(r, c.maxl); break;
    }
    n = std::max(0, std::min(n, c.maxl * 2));
    a.z[0] = gen_mag_len(r, m);
    a.z[1] = r.chance(1, 5) ? (n == m ? a.z[0] : gen_related(r, a.z[0], c.maxl)) : gen_mag_len(r, n);
    if (r.chance(1, 2)) a.z[0] = -a.z[0];
    if (r.chance(1, 2)) a.z[1] = -a.z[1];
    if (r.chance(1, 2)) std::swap(a.z[0], a.z[1]);
}
static Z nonzero(Rng& r, int maxl) {
    for (int t = 0; t < 4; t++) { Z z = gen_num(r, maxl); if (z != 0) return z; }
    return Z(7);
}
static void gen_div(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    int k = (int) r.below(20);
    if (k == 0) { a.z[0] = gen_num(r, c.maxl); a.z[1] = 0; return; }
    if (k < 5) { gen2(r, a, c); return; }
    if (k < 12) { // n = q*d + rem with chosen quotient and remainder
        Z d = nonzero(r, c.maxl / 2 + 1), q = gen_num(r, c.maxl / 2 + 1), rem;
        Z ad = ::abs(d);
        switch (r.below(5)) {
            case 0: rem = 0; break;
            case 1: rem = ad - 1; break;
            case 2: rem = 1; break;
            case 3: rem = ad / 2; break;
            default: rem = gen_num(r, limbs_of(ad)); rem = ::abs(rem); break;
        }
        rem %= ad;
        q = ::abs(q);
        a.z[0] = q * ad + rem;
        a.z[1] = d;
    } else if (k < 17) { // quotient digits at their extremes over divisors with extreme low words: estimate corrections
        int n = 2 + (int) r.below((uint64_t) std::max(2, std::min(c.maxl, 12)));
        Words d((size_t) n), q(1 + r.below((uint64_t) std::max(1, std::min(c.maxl, 8))));
        uint32_t tail = r.chance(1, 2) ? 0xffffffffu : 0u;
        for (auto& x : d) x = r.chance(1, 3) ? r.u32() : tail;
        static const uint32_t TOP[] = {1, 2, 3, 0x10000, 0x20000000, 0x40000000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu};
        d.back() = r.chance(1, 4) ? (r.u32() | 1) : TOP[r.below(11)];
        if (r.chance(1, 2)) d[(size_t) n - 2] = r.chance(1, 2) ? 0 : 0xffffffffu;
        for (auto& x : q) x = r.chance(1, 4) ? r.u32() : r.chance(1, 2) ? 0xffffffffu - (uint32_t) r.below(3) : (uint32_t) r.below(3);
        Z dz = z_from_words(d);
        a.z[0] = z_from_words(q) * dz + (r.chance(1, 3) ? Z(0) : r.chance(1, 2) ? Z(dz - 1) : Z(::abs(gen_num(r, n)) % dz));
        if (r.chance(1, 3)) a.z[0] -= (long) r.range(0, 2);
        a.z[1] = dz;
    } else { // classic add-back shape: dividend just below a multiple
        int n = 2 + (int) r.below((uint64_t) std::max(2, std::min(c.maxl, 10)));
        int sh = (int) r.below(32);
        Z top = z_pow2((unsigned long) (n * 32 + 31 - sh));
        Z d = top + (r.chance(1, 2) ? Z(1) : r.chance(1, 2) ? z_pow2(r.below(64)) : Z(z_pow2((unsigned long) (n - 1) * 32) - 1 - (long) r.below(3)));
        Z m = z_pow2(32ul * (1 + r.below(4)));
        a.z[0] = top * m + (r.chance(1, 2) ? Z(0) : Z((d - top) * (m - 1 - (long) r.below(3)))) - (long) r.below(3);
        if (r.chance(1, 2)) a.z[0] = d * (m - 1 - (long) r.below(2)) + (d - 1 - (long) r.below(3));
        a.z[1] = d;
    }
    if (r.chance(1, 2)) a.z[0] = -a.z[0];
    if (r.chance(1, 2)) a.z[1] = -a.z[1];
}
static void gen_divrem(Rng& r, Args& a, const GenCfg& c) {
    gen_div(r, a, c);
    if (!c.fixed) a.z[2] = gen_num(r, 4);
}
static void gen_shift(Rng& r, Args& a, const GenCfg& c) {
    int L = 0;
    if (!c.fixed) {
        int k = (int) r.below(10);
        if (k < 5) a.z[0] = gen_num(r, c.maxl);
        else { // magnitudes with low zero or one words: the top of the two's complement vanishes or carries
            int n = 1 + gen_len(r, c.maxl), low = (int) r.below((uint64_t) n + 1);
            Z hi = gen_mag_len(r, n - low);
            Z lo = r.chance(1, 2) ? Z(0) : Z(z_pow2((unsigned long) low * 32) - 1);
            if (r.chance(1, 4)) lo = gen_mag_len(r, low);
            a.z[0] = (hi << (unsigned long) (32 * low)) + lo + (long) r.range(-1, 1);
            if (r.chance(3, 4)) a.z[0] = -a.z[0];
        }
    }
    L = limbs_of(a.z[0]);
    int64_t bits = (int64_t) L * 32;
    int64_t cap = c.fixed ? 200 : c.tiny ? 300 : 3000;
    switch (r.below(8)) {
        case 0: a.i = 0; break;
        case 1: a.i = r.range(1, 70); break;
        case 2: a.i = 32 * r.range(0, L + 2); break;
        case 3: a.i = bits + r.range(-34, 34); break;
        case 4: a.i = r.range(0, bits + 70); break;
        case 5: a.i = 32 * r.range(0, L + 2) + (r.chance(1, 2) ? 1 : -1); break;
        case 6: a.i = (int64_t) g_consts[r.below(g_consts.size())] % cap; break;
        default: a.i = r.range(0, cap); break;
    }
    if (a.i < 0) a.i = 0;
    if (c.fixed && a.i > 400) a.i %= 400;
    if (r.chance(1, 3)) a.i = -a.i;
    a.fl = 0;
}
// extreme counts that only ever shrink the value
static void gen_shift_far(Rng& r, Args& a, const GenCfg& c) {
    if (!c.fixed) a.z[0] = gen_num(r, c.maxl);
    static const int64_t FAR[] = {INT32_MAX, INT32_MAX - 1, INT32_MAX - 31, 1 << 30, (1 << 30) + 1, 1 << 20, 100000, INT32_MAX / 32, INT32_MAX / 32 + 1, 65536};
    a.i = FAR[r.below(10)];
}
static Z fdiv2(const Z& x, int64_t n) { Z q; mpz_fdiv_q_2exp(q.get_mpz_t(), x.get_mpz_t(), (mp_bitcnt_t) n); return q; }
static Z shl_spec(const Z& x, int64_t n) { if (n >= 0) return Z(x << (mp_bitcnt_t) n); return fdiv2(x, -n); }

static void gen_pow(Rng& r, Args& a, const GenCfg& c) {
    if (!c.fixed) {
        int k = (int) r.below(10);
        if (k < 2) a.z[0] = (long) r.range(-12, 12);
        else if (k < 5) { a.z[0] = z_pow2(r.below(c.tiny ? 70 : 140)) + (long) r.range(-1, 1); if (r.chance(1, 2)) a.z[0] = -a.z[0]; }
        else a.z[0] = gen_num(r, k < 9 ? std::min(c.maxl, 5) : c.maxl);
    }
    int bits = std::max<int>(1, (int) mpz_sizeinbase(a.z[0].get_mpz_t(), 2));
    int64_t budget = c.fixed ? 1500 : c.lengthy ? 400000 >> r.below(7) : c.tiny ? 4000 : r.chance(1, 60) ? 60000 : 9000;
    int64_t maxe = std::max<int64_t>(2, budget / bits);
    int64_t au = ::abs(a.z[0]) <= 1 ? INT32_MAX : maxe;
    switch (r.below(6)) {
        case 0: a.i = r.range(0, 4); break;
        case 1: a.i = (1ll << r.below(c.lengthy ? 19 : 14)) + r.range(-1, 1); break;
        case 2: a.i = au; break;
        default: a.i = r.range(0, std::min<int64_t>(au, maxe * 2)); break;
    }
    if (a.i > au) a.i = r.range(0, au);
    if (r.chance(1, 25)) a.i = r.chance(1, 2) ? -r.range(1, 40) : -r.range(1, 1ll << 31);
    if (a.i < INT32_MIN) a.i = INT32_MIN;
}
static void gen_modpow(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    int maxm = c.maxl;
    int k = (int) r.below(20), m;
    if (k < 3) m = 1; else if (k < 6) m = (int) r.range(1, 4); else if (k < 11) m = (int) r.range(2, std::max(2, std::min(31, maxm)));
    else m = (int) r.range(31, std::max(32, std::min(36, maxm))) + (r.chance(1, 3) ? (int) r.below((uint64_t) std::max(1, maxm - 31)) : 0);
    if (m > maxm) m = maxm;
    Z mod;
    switch (r.below(8)) {
        case 0: mod = z_pow2((unsigned long) (m - 1) * 32); break;                    // exactly 2^(32(m-1))
        case 1: mod = z_pow2((unsigned long) (m - 1) * 32) + (long) r.range(1, 3); break;
        case 2: mod = z_pow2((unsigned long) m * 32) - (long) r.range(1, 3); break;
        case 3: mod = z_pow2((unsigned long) ((m - 1) * 32) + r.below(32)); break;
        case 4: mod = gen_mag_len(r, m) | 1; break;
        default: mod = gen_mag_len(r, m); break;
    }
    if (r.chance(1, 10)) { // just below or above a power of the base by about its square root: extreme errors of a reciprocal estimate
        unsigned long h = (unsigned long) m * 16;
        mod = z_pow2(2 * h) - z_pow2(h - (r.chance(1, 2) ? 0 : r.below(std::min<uint64_t>(h, 40)))) + (long) r.range(-4, 6);
        if (r.chance(1, 5)) mod = z_pow2(2 * h - 32) + z_pow2(h - 16) + (long) r.range(-4, 4);
        if (mod < 1) mod = 1;
    }
    Z v;
    switch (r.below(10)) {
        case 9: { // the square just misses a multiple of the modulus, or the multiple of a power of two
            Z t = ::abs(mod) * (mod > 2 ? Z(::abs(gen_num(r, m)) % mod) : Z(1));
            if (r.chance(1, 4)) t = z_pow2((unsigned long) m * 64 - r.below((uint64_t) m * 32 + 1));
            mpz_sqrt(v.get_mpz_t(), t.get_mpz_t());
            v += (long) r.below(2);
            break;
        }
        case 0: v = mod + (long) r.range(-2, 2); break;
        case 1: v = mod * (long) r.range(1, 5) + (long) r.range(-2, 2); break;
        case 2: v = (long) r.range(-5, 5); break;
        case 3: v = gen_mag_len(r, m); break;
        case 4: v = gen_mag_len(r, m + 1 + (int) r.below(3)); break;
        case 5: v = gen_mag_len(r, std::max(1, m - 1)); break;
        case 6: { Z g = gen_num(r, 2); v = g == 0 ? Z(2) : Z(mod / g); break; } // shares factors with the modulus
        default: v = gen_num(r, maxm); break;
    }
    if (r.chance(1, 3)) v = -v;
    Z e;
    int budget = m <= 8 ? 700 : m <= 36 ? 160 : 70; // exponent bits
    if (c.tiny) budget = m <= 8 ? 120 : 70;
    if (c.lengthy) budget = m <= 8 ? 6000 : m <= 36 ? 2400 : m <= 100 ? 1100 : 300;
    switch (r.below(7)) {
        case 0: e = (long) r.range(0, 5); break;
        case 1: e = z_pow2(r.below((uint64_t) budget)) + (long) r.range(-1, 1); break;
        case 2: e = z_from_u64(r.u32()); break;
        case 3: e = z_from_u64(0x80000000u + (uint64_t) r.below(4)); break;
        case 4: e = ::abs(gen_num(r, std::max(1, budget / 32))); break;
        case 5: e = gen_mag_len(r, 1 + (int) r.below((uint64_t) std::max(1, budget / 32))); break;
        default: e = (long) r.below(200); break;
    }
    if (e < 0) e = 0;
    if (r.chance(1, 25)) e = r.chance(1, 2) ? Z(-1) : Z(-::abs(gen_num(r, 4)) - 1);
    if (r.chance(1, 25)) mod = 0;
    if (r.chance(1, 3)) mod = -mod;
    a.z[0] = v; a.z[1] = e; a.z[2] = mod;
}
// A pair whose leading 63 bits put a run of double-digit (Lehmer) steps right at the edge of its stopping conditions.
static void gen_lehmer_edge(Rng& r, Args& z) {
    Z a = 1, b = 0, c = 0, d = 1, x, y;
    bool odd = false;
    int steps = 1 + (int) r.below(r.chance(1, 2) ? 6 : 40);
    const Z top = z_pow2(31) + (long) r.range(-3, 3);
    for (int k = 0; k < steps; k++) {
        bool last = k + 1 == steps;
        Z q = r.chance(1, 4) ? Z((unsigned long) (1 + (r.u32() >> r.below(32)))) : Z(1 + (long) r.below(4));
        Z &na = odd ? d : a, &nb = odd ? c : b, ma = odd ? b : c, mb = odd ? a : d; // (na, nb) += q * (ma, mb)
        if (last && r.chance(1, 2) && mb != 0) q = (top - nb) / mb;
        if (q < 1) q = 1;
        if (k && (na + q * ma > top || nb + q * mb > top)) break;
        na += q * ma; nb += q * mb;
        odd = !odd;
        if (na > top || nb > top) break;
    }
    Z x0 = z_pow2(62) + (z_from_u64(r.next()) & (z_pow2(62) - 1));
    long dl = (long) r.range(-2, 2);
    if (odd) {
        if (r.chance(1, 2)) { x = b + dl; if (x < 0) x = 0; y = b == 0 ? x0 : Z((x0 - d * x) / b); }
        else { x = (x0 - b * (a + c)) / (b + d); y = x + a + c + dl; }
    } else {
        if (r.chance(1, 2)) { y = c + dl; if (y < 0) y = 0; x = (x0 - b * y) / d; }
        else { y = (x0 - d * (b + d)) / (b + d); x = y + b + d + dl; }
    }
    if (x < 0) x = 0;
    if (y < 0) y = 0;
    Z X = d * x + b * y, Y = c * x + a * y;
    unsigned long k = 33 + r.below(r.chance(1, 2) ? 70 : 400);
    auto low = [&]() { Z t = z_pow2(k) - 1; switch (r.below(4)) { case 0: return Z(0); case 1: return t; case 2: return Z(t - (long) r.below(5)); default: return Z(gen_mag_len(r, (int) (k / 32) + 1) & t); } };
    X <<= k; X += low();
    Y <<= k; Y += low();
    z.z[0] = X; z.z[1] = Y;
}
static void gen_gcd(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    int k = (int) r.below(10);
    if (k < 3) { gen2(r, a, c); return; }
    if (r.chance(1, 4)) {
        gen_lehmer_edge(r, a);
        if (r.chance(1, 2)) std::swap(a.z[0], a.z[1]);
        return;
    }
    Z g = k < 7 ? ::abs(gen_num(r, 1 + (int) r.below((uint64_t) std::max(1, c.maxl / 2)))) : Z(1);
    if (g == 0) g = 1;
    Z x, y;
    if (r.chance(3, 4)) { // from a quotient sequence (continued fraction)
        int target = std::max(1, gen_len(r, c.maxl));
        int style = (int) r.below(6);
        x = g; y = 0;
        if (r.chance(1, 2)) { y = g; x = g * (1 + (long) r.below(5)); }
        for (int it = 0; it < 30000 && limbs_of(x) < target; it++) {
            Z q;
            switch (style) {
                case 0: q = 1; break;
                case 1: q = 1 + (long) r.below(3); break;
                case 2: q = r.chance(1, 12) ? z_pow2(20 + r.below(60)) + (long) r.range(-1, 1) : Z(1 + (long) r.below(4)); break;
                case 3: q = z_from_u64(r.u32() | 1); break;
                case 4: q = r.chance(1, 2) ? z_from_u64(0xffffffffull + (uint64_t) r.range(-2, 2)) : Z(1); break;
                default: q = r.chance(1, 6) ? gen_mag_len(r, 1 + (int) r.below(6)) : Z(1 + (long) r.below(9)); break;
            }
            Z t = q * x + y; y = x; x = t;
        }
    } else {
        x = g * gen_mag_len(r, gen_len(r, std::max(1, c.maxl - limbs_of(g))));
        y = g * gen_mag_len(r, gen_len(r, std::max(1, c.maxl - limbs_of(g))));
    }
    if (r.chance(1, 2)) x = -x;
    if (r.chance(1, 2)) y = -y;
    if (r.chance(1, 2)) std::swap(x, y);
    a.z[0] = x; a.z[1] = y;
}
static void gen_dec(Rng& r, Args& a, const GenCfg& c) {
    a.fl = (int) r.below(4);
    bool uns = a.fl & 1, be = a.fl & 2;
    if (r.chance(1, 2)) {
        Z z = gen_num(r, c.lengthy ? c.maxl : std::min(c.maxl, 20));
        if (uns) z = ::abs(z);
        a.by = enc_bytes(z, uns, be);
        size_t pad = r.chance(1, 2) ? 0 : (size_t) r.below(10);
        a.by.insert(be ? a.by.begin() : a.by.end(), pad, z < 0 ? 0xff : 0);
    } else {
        size_t n = r.chance(1, 3) ? r.below(6) : r.chance(1, 2) ? r.below(20) : r.below((uint64_t) (c.lengthy ? c.maxl : std::min(c.maxl, 40)) * 4 + 1);
        a.by.resize(n);
        int st = (int) r.below(4);
        for (auto& x : a.by) x = st == 0 ? (unsigned char) r.next() : st == 1 ? (r.chance(1, 2) ? 0 : 0xff) : st == 2 ? (r.chance(1, 3) ? 0x80 : 0) : (r.chance(1, 3) ? 0x7f : 0xff);
        // padding at the significant end
        for (size_t k = 0, m = r.chance(1, 2) ? r.below(9) : 0; k < m && k < n; k++) a.by[be ? k : n - 1 - k] = (st & 1) ? 0xff : 0;
    }
}
static void gen_flags(Rng& r, Args& a, const GenCfg& c) { gen1(r, a, c); a.fl = (int) r.below(4); }
// long runs of equal decimal digits, as powers of ten and their neighbours have
static Z gen_decimal(Rng& r, int maxl) {
    Z z;
    size_t n = 1 + r.below((uint64_t) (maxl + 1) * 9);
    if (r.chance(1, 2)) { // two far apart pieces
        mpz_ui_pow_ui(z.get_mpz_t(), 10, (unsigned long) n);
        if (r.chance(1, 2)) z *= z_from_u64(1 + (r.next() >> r.below(64)));
        Z low = r.chance(1, 2) ? Z(0) : gen_num(r, 1 + maxl / (1 + (int) r.below(12)));
        return z + low;
    }
    std::string t(1, (char) ('1' + r.below(9)));
    while (t.size() < n) {
        size_t k = 1 + r.below(r.chance(1, 2) ? 12 : n);
        switch (r.below(4)) {
            case 0: t.append(k, '9'); break;
            case 1: for (size_t j = 0; j < k; j++) t += (char) ('0' + r.below(10)); break;
            default: t.append(k, '0'); break;
        }
    }
    t.resize(n);
    z.set_str(t, 10);
    return z;
}
static void gen_text(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) { }
    const int size = c.lengthy ? c.maxl : std::min(c.maxl, c.huge && r.chance(1, 50) ? 200 : 40);
    Z z = r.chance(1, 6) ? gen_decimal(r, size) : gen_num(r, size);
    if (r.chance(1, 4)) { mpz_ui_pow_ui(z.get_mpz_t(), 10, (unsigned long) r.below(200)); z *= (long) r.range(1, 99); z += (long) r.range(-1, 1); }
    std::string d = Z(::abs(z)).get_str();
    std::string s;
    if (z < 0) s = "-"; else if (r.chance(1, 6)) s = "+"; else if (r.chance(1, 30)) s = "-";
    if (r.chance(1, 5)) s += std::string((size_t) r.below(14), '0');
    s += d;
    if (r.chance(1, 6)) {
        static const char* TAIL[] = {" ", "\n", "\t\r\n", " 12", ".000000", "-5", "+5", "e9", "x10", "/2", ":", "_1", ",000", "\xff\x39"};
        if (r.chance(1, 3)) { // any byte that is not a digit, then anything
            char t = (char) r.below(256);
            if (t < '0' || t > '9') { s += t; for (uint64_t n = r.below(4); n > 0; n--) s += r.chance(1, 2) ? (char) r.below(256) : (char) ('0' + r.below(10)); }
        } else s += TAIL[r.below(14)];
        if (r.chance(1, 8)) { s += std::string(1, '\0'); s += "9"; }
    }
    if (c.anytext && r.chance(1, 4)) {
        static const char LEAD[] = " \t+-0.\xa0\xff\x80_,x'\0";
        size_t at = r.chance(1, 2) ? 0 : r.below(std::min<uint64_t>(s.size(), 3) + 1);
        for (uint64_t n = 1 + r.below(3); n > 0; n--) s.insert(s.begin() + (long) at, r.chance(1, 3) ? (char) r.below(256) : LEAD[r.below(sizeof LEAD - 1)]);
    }
    a.s = s;
    if (!c.fixed) a.z[0] = gen_num(r, 3); // previous content of the output parameter
}
static Z text_value(const std::string& s) {
    size_t k = 0;
    bool neg = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; k = 1; }
    size_t b = k;
    while (k < s.size() && s[k] >= '0' && s[k] <= '9') k++;
    Z z;
    if (k > b) z.set_str(s.substr(b, k - b), 10);
    return neg ? Z(-z) : z;
}
static void gen_textlen(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    const int size = c.lengthy ? c.maxl : c.huge && r.chance(1, 60) ? 300 : std::min(c.maxl, 60);
    if (r.chance(1, 4)) { a.z[0] = gen_decimal(r, size); if (r.chance(1, 2)) a.z[0] = -a.z[0]; return; }
    a.z[0] = gen_num(r, size);
    if (r.chance(1, 3)) { // zero and all-nine chunks of nine digits
        std::string t;
        int n = 1 + (int) r.below(30);
        for (int k = 0; k < n; k++) { static const char* CH[] = {"000000000", "999999999", "000000001", "100000000", "123456789", "429496729"}; t += CH[r.below(6)]; }
        t = std::to_string(1 + r.below(999)) + t.substr(0, t.size() - (size_t) r.below(9));
        a.z[0].set_str(t, 10);
        if (r.chance(1, 2)) a.z[0] = -a.z[0];
    }
}
static void gen_words(Rng& r, Args& a, const GenCfg& c) {
    Z z = gen_num(r, c.lengthy ? c.maxl : std::min(c.maxl, 20));
    Bytes b;
    for (uint32_t w : mag_words(z)) for (int k = 0; k < 4; k++) b.push_back((unsigned char) (w >> (8 * k)));
    b.insert(b.end(), 4 * r.below(4), 0);
    a.by = b;
    a.fl = z < 0;
}
static Words words_of(const Bytes& b) {
    Words w(b.size() / 4);
    for (size_t k = 0; k < w.size(); k++) w[k] = (uint32_t) b[4 * k] | (uint32_t) b[4 * k + 1] << 8 | (uint32_t) b[4 * k + 2] << 16 | (uint32_t) b[4 * k + 3] << 24;
    return w;
}
static void gen_double(Rng& r, Args& a, const GenCfg& c) {
    (void) c;
    uint64_t b;
    switch (r.below(9)) {
        case 0: b = r.next(); break;
        case 1: b = (r.next() & 0x800fffffffffffffull) | ((uint64_t) (1023 + r.range(-3, 200)) << 52); break;
        case 2: b = (r.next() & 0x800fffffffffffffull) | ((uint64_t) (1023 + r.range(28, 70)) << 52); break;
        case 3: { double d = (double) r.range(-100000, 100000) / 8.0; memcpy(&b, &d, 8); break; }
        case 4: { double d = std::ldexp(1.0, (int) r.range(-1074, 1023)); memcpy(&b, &d, 8); b += (uint64_t) r.range(-2, 2); if (r.chance(1, 2)) b ^= 1ull << 63; break; }
        case 5: b = (r.chance(1, 2) ? 0x7ff0000000000000ull : 0xfff0000000000000ull) | (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : (r.next() & 0xfffffffffffffull)); break;
        case 6: b = r.chance(1, 2) ? r.below(4) : 0x7fefffffffffffffull - r.below(4); if (r.chance(1, 2)) b ^= 1ull << 63; break;
        case 7: { double d = (double) (int64_t) r.next(); memcpy(&b, &d, 8); break; }
        default: { double d = (double) (r.next() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1); memcpy(&b, &d, 8); break; }
    }
    memcpy(&a.d, &b, 8);
}
static void gen_limits(Rng& r, Args& a, const GenCfg& c) { // around the limits of the native types
    if (c.fixed) return;
    static const int K[] = {31, 32, 63, 64, 31, 63, 30, 33, 62, 65, 95, 96};
    if (r.chance(2, 3)) {
        a.z[0] = z_pow2((unsigned long) K[r.below(12)]) + (long) r.range(-3, 3);
        if (r.chance(1, 6)) a.z[0] += z_pow2(32) * (long) r.range(0, 5);
        if (r.chance(1, 2)) a.z[0] = -a.z[0];
    } else if (r.chance(1, 2)) { a.z[0] = z_from_i64((int64_t) (r.next() >> r.below(64))); if (r.chance(1, 2)) a.z[0] = -a.z[0]; }
    else a.z[0] = gen_num(r, c.maxl);
}
static void gen_todouble(Rng& r, Args& a, const GenCfg& c) {
    if (c.fixed) return;
    Z z;
    switch (r.below(8)) {
        case 0: { z = z_pow2(r.below(1100)); z += (long) r.range(-2, 2); break; }
        case 1: { unsigned long k = 52 + r.below(990); z = z_pow2(k + 1) - z_pow2(k - 52 - std::min<unsigned long>(k - 52, r.below(3))) + (long) r.range(-1, 1); break; }
        case 2: { z = z_from_u64(r.next() | 1ull << 63); z >>= r.below(12); z <<= r.below(970); if (r.chance(1, 2)) z += (long) r.range(-1, 1); break; }
        case 3: z = z_pow2(1024) + (r.chance(1, 2) ? Z((long) r.range(-2, 2)) : Z(-z_pow2(960 + r.below(20)))); break;
        case 4: { unsigned long k = 20 + r.below(110); z = z_pow2(k); z -= z_pow2(k > 24 ? k - 24 - r.below(std::min<uint64_t>(3, k - 24) + 1) : 0); break; } // float rounding
        case 5: z = gen_mag_len(r, 1 + (int) r.below(4)); break;
        default: z = gen_num(r, 36); break;
    }
    if (r.chance(1, 2)) z = -z;
    a.z[0] = z;
}
static double trunc_double(const Z& z) {
    if (z == 0) return 0.0;
    size_t bits = mpz_sizeinbase(z.get_mpz_t(), 2);
    if (bits > 1024) return z > 0 ? HUGE_VAL : -HUGE_VAL;
    return mpz_get_d(z.get_mpz_t()); // truncates
}
static void gen_log(Rng& r, Args& a, const GenCfg& c) {
    if (!c.fixed) {
        switch (r.below(5)) {
            case 0: a.z[0] = (long) r.range(-2, 12); break;
            case 1: a.z[0] = z_pow2(r.below(400)) + (long) r.range(-1, 1); break;
            case 2: mpz_ui_pow_ui(a.z[0].get_mpz_t(), 10, r.below(300)); a.z[0] += (long) r.range(-1, 1); break;
            default: a.z[0] = gen_num(r, c.maxl); if (r.chance(4, 5)) a.z[0] = ::abs(a.z[0]); break;
        }
        if (r.chance(1, 80)) a.z[0] = gen_mag_len(r, 3000);
    }
    static const double BS[] = {2, 10, 2.7182818284590451, 0, -0.0, 1, -1, -2, HUGE_VAL, -HUGE_VAL, 0.5, 1.5, 1e300, 5e-324, 1e-300, 16, 3, 0.1, 1e9};
    switch (r.below(4)) {
        case 0: a.d = BS[r.below(sizeof BS / sizeof(double))]; break;
        case 1: a.d = 1.0 + std::ldexp((double) r.range(-8, 8), -52 + (int) r.below(30)); break;
        case 2: a.d = r.chance(1, 6) ? std::nan("") : std::ldexp(1.0 + (double) r.below(1000) / 1000.0, (int) r.range(-60, 60)); break;
        default: gen_double(r, a, c); break;
    }
}
static long double logl_z(const Z& z) {
    size_t bits = mpz_sizeinbase(z.get_mpz_t(), 2);
    Z t = z;
    long e = 0;
    if (bits > 64) { e = (long) bits - 64; t >>= (mp_bitcnt_t) e; }
    long double m = (long double) mpz_get_ui(t.get_mpz_t());
    return logl(m) + (long double) e * logl(2.0L);
}
static double log_spec(const Z& x, double b, double& tol) {
    tol = 0;
    if (x < 0 || b == 1.0 || std::isnan(b) || b < 0) return std::nan("");
    if (x == 1) { tol = 1e-13; return 0.0; }
    if (b == 0 || std::isinf(b)) return std::nan("");
    if (x == 0) return b > 1 ? -HUGE_VAL : HUGE_VAL;
    tol = 4e-14;
    return (double) (logl_z(x) / logl((long double) b));
}
static void spec_log(const Z& x, double b, Spec& s) {
    double v = log_spec(x, b, s.tol);
    s.dv = {v};
    if (v == 0) s.tol = 1e-300; // the sign of a zero is not specified
    if (std::isinf(v)) s.tol = 1e-300;
}
static void spec_div(const Z& n, const Z& d, Z& q, Z& rem) { mpz_tdiv_qr(q.get_mpz_t(), rem.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); }


#define BIN(nm, prop, w, genf, op, zexpr)                                                                               \
    g_ops.push_back({nm, prop, 2, 0, w, 0, genf, EXEC RET(B(0) op B(1)); END, SPEC s.z = {Z(zexpr)}; END});             \
    g_ops.push_back({nm "_assign", prop, 2, 1, w, 0, genf, EXEC BigInteger& t = (B(0) op##= B(1)); same(r, &t, p[0]); END, \
                     SPEC Z t = zexpr; Y(0) = t; s.iv = {1}; END});
#define CHECKDIV if (Y(1) == 0) { s.err = E_DIV0; return; } Z q, m; spec_div(Y(0), Y(1), q, m);
#define NATIVE_ASSIGN(nm, prop, op, T, zop)                                                                            \
    g_ops.push_back({nm, prop, 1, 1, 2, 0, gen_native, EXEC BigInteger& t = (B(0) op (T) a.u); same(r, &t, p[0]); END,   \
                     SPEC Z v = z_of((T) a.u); Z t = Y(0) zop v; Y(0) = t; s.iv = {1}; END});
static Z z_of(int32_t v) { return Z((long) v); }
static Z z_of(uint32_t v) { return Z((unsigned long) v); }
static Z z_of(int64_t v) { return z_from_i64(v); }
static Z z_of(uint64_t v) { return z_from_u64(v); }

void register_ops() {
    g_ops.clear();
    // ------------------------------------------------------------ C01
    BIN("add", "C01", 8, gen_addsub, +, (Y(0) + Y(1)))
    BIN("sub", "C01", 8, gen_addsub, -, (Y(0) - Y(1)))
    g_ops.push_back({"add_fn", "C01", 2, 0, 3, 0, gen_addsub, EXEC RET(BigInteger::add(B(0), B(1))); END, SPEC s.z = {Z(Y(0) + Y(1))}; END});
    g_ops.push_back({"sub_fn", "C01", 2, 0, 3, 0, gen_addsub, EXEC RET(BigInteger::subtract(B(0), B(1))); END, SPEC s.z = {Z(Y(0) - Y(1))}; END});
    // the magnitude-and-sign forms (operands of one sign)
    g_ops.push_back({"add_bits", "C01", 2, 0, 1, 0, gen_addsub, EXEC BigInteger x(B(0)), y(B(1)); if ((x.sign() < 0) != (y.sign() < 0)) y = -y; RET(add_bits(x, y, 0)); END,
        SPEC s.z = {(Y(0) < 0) != (Y(1) < 0) ? Z(Y(0) - Y(1)) : Z(Y(0) + Y(1))}; END});
    g_ops.push_back({"sub_bits", "C01", 2, 0, 1, 0, gen_addsub, EXEC BigInteger x(B(0)), y(B(1)); if ((x.sign() < 0) != (y.sign() < 0)) y = -y; RET(sub_bits(x, y, 0)); END,
        SPEC s.z = {(Y(0) < 0) != (Y(1) < 0) ? Z(Y(0) + Y(1)) : Z(Y(0) - Y(1))}; END});
    g_ops.push_back({"raw_form", "C17", 1, 0, 1, 0, gen1, EXEC RET(raw_form(B(0), 0)); END, SPEC s.z = {Y(0)}; END});
    g_ops.push_back({"gcd_bits", "C06", 2, 0, 2, 0, gen_gcd, EXEC RET(gcd_bits(B(0), B(1), 0)); END,
        SPEC Z g; mpz_gcd(g.get_mpz_t(), Y(0).get_mpz_t(), Y(1).get_mpz_t()); s.z = {g}; END});
    g_ops.push_back({"add_moved", "C01", 2, 0, 2, 0, gen_addsub, EXEC BigInteger t(B(0)); RET(std::move(t) + B(1)); END, SPEC s.z = {Z(Y(0) + Y(1))}; END});
    g_ops.push_back({"neg", "C01", 1, 0, 3, 0, gen1, EXEC RET(-B(0)); END, SPEC s.z = {Z(-Y(0))}; END});
    g_ops.push_back({"negate_fn", "C01", 1, 0, 2, 0, gen1, EXEC RET(BigInteger::negate(B(0))); END, SPEC s.z = {Z(-Y(0))}; END});
    g_ops.push_back({"uplus", "C01", 1, 0, 1, 0, gen1, EXEC RET(+B(0)); END, SPEC s.z = {Y(0)}; END});
    g_ops.push_back({"abs", "C01", 1, 0, 2, 0, gen1, EXEC RET(BigInteger::abs(B(0))); END, SPEC s.z = {Z(::abs(Y(0)))}; END});
    g_ops.push_back({"pre_inc", "C01", 1, 1, 3, 0, gen1, EXEC BigInteger& t = ++B(0); same(r, &t, p[0]); END, SPEC Y(0) += 1; s.iv = {1}; END});
    g_ops.push_back({"pre_dec", "C01", 1, 1, 3, 0, gen1, EXEC BigInteger& t = --B(0); same(r, &t, p[0]); END, SPEC Y(0) -= 1; s.iv = {1}; END});
    g_ops.push_back({"post_inc", "C01", 1, 1, 3, 0, gen1, EXEC BigInteger t = B(0)++; RET(t); END, SPEC s.z = {Y(0)}; Y(0) += 1; END});
    g_ops.push_back({"post_dec", "C01", 1, 1, 3, 0, gen1, EXEC BigInteger t = B(0)--; RET(t); END, SPEC s.z = {Y(0)}; Y(0) -= 1; END});
    NATIVE_ASSIGN("add_i32", "C01", +=, int32_t, +)
    NATIVE_ASSIGN("add_u32", "C01", +=, uint32_t, +)
    NATIVE_ASSIGN("add_i64", "C01", +=, int64_t, +)
    NATIVE_ASSIGN("sub_i64", "C01", -=, int64_t, -)
    NATIVE_ASSIGN("sub_u64", "C01", -=, uint64_t, -)
    // ------------------------------------------------------------ C02
    BIN("mul", "C02", 8, gen_mul, *, (Y(0) * Y(1)))
    g_ops.push_back({"mul_fn", "C02", 2, 0, 3, 0, gen_mul, EXEC RET(BigInteger::multiply(B(0), B(1))); END, SPEC s.z = {Z(Y(0) * Y(1))}; END});
    g_ops.push_back({"square", "C02", 1, 0, 5, 0, gen1, EXEC BigInteger t(B(0)); RET(B(0) * t); END, SPEC s.z = {Z(Y(0) * Y(0))}; END});
    g_ops.push_back({"square_opp", "C02", 1, 0, 2, 0, gen1, EXEC BigInteger t(-B(0)); RET(B(0) * t); END, SPEC s.z = {Z(-(Y(0) * Y(0)))}; END});
    NATIVE_ASSIGN("mul_u32", "C02", *=, uint32_t, *)
    NATIVE_ASSIGN("mul_i64", "C02", *=, int64_t, *)
    // ------------------------------------------------------------ C03
    g_ops.push_back({"div", "C03", 2, 0, 6, 0, gen_div, EXEC RET(B(0) / B(1)); END, SPEC CHECKDIV s.z = {q}; END});
    g_ops.push_back({"div_assign", "C03", 2, 1, 4, 0, gen_div, EXEC BigInteger& t = (B(0) /= B(1)); same(r, &t, p[0]); END, SPEC CHECKDIV Y(0) = q; s.iv = {1}; END});
    g_ops.push_back({"mod", "C03", 2, 0, 6, 0, gen_div, EXEC RET(B(0) % B(1)); END, SPEC CHECKDIV s.z = {m}; END});
    g_ops.push_back({"mod_assign", "C03", 2, 1, 4, 0, gen_div, EXEC BigInteger& t = (B(0) %= B(1)); same(r, &t, p[0]); END, SPEC CHECKDIV Y(0) = m; s.iv = {1}; END});
    g_ops.push_back({"divide_fn", "C03", 2, 0, 2, 0, gen_div, EXEC RET(BigInteger::divide(B(0), B(1))); END, SPEC CHECKDIV s.z = {q}; END});
    g_ops.push_back({"remainder_fn", "C03", 2, 0, 2, 0, gen_div, EXEC RET(BigInteger::remainder(B(0), B(1))); END, SPEC CHECKDIV s.z = {m}; END});
    g_ops.push_back({"div_rem", "C03", 3, 4, 7, 0, gen_divrem, EXEC RET(BigInteger::div_rem(B(0), B(1), B(2))); END, SPEC CHECKDIV s.z = {q}; Y(2) = m; END});
    // ------------------------------------------------------------ C04
    g_ops.push_back({"pow", "C04", 1, 0, 4, 0, gen_pow, EXEC RET(BigInteger::pow(B(0), (int) a.i)); END,
                     SPEC if (a.i < 0) { s.err = E_RANGE; return; } Z t;
                          if (::abs(Y(0)) <= 1) t = Y(0) == -1 ? Z(a.i & 1 ? -1 : 1) : (Y(0) == 0 && a.i == 0 ? Z(1) : Y(0));
                          else mpz_pow_ui(t.get_mpz_t(), Y(0).get_mpz_t(), (unsigned long) a.i);
                          s.z = {t}; END});
    g_ops.push_back({"pow_too_large", "C04", 1, 0, 1, F_NOPROG,
                     GEN a.z[0] = gen_mag_len(r, 8 + (int) r.below(20)); if (r.chance(1, 2)) a.z[0] = -a.z[0]; a.i = INT32_MAX - (int64_t) r.below(1000000000); END,
                     EXEC RET(BigInteger::pow(B(0), (int) a.i)); END, SPEC s.err = E_ANY; END});
    // ------------------------------------------------------------ C05
    g_ops.push_back({"mod_pow", "C05", 3, 0, 3, F_SLOW, gen_modpow, EXEC RET(BigInteger::mod_pow(B(0), B(1), B(2))); END,
                     SPEC if (Y(1) < 0 && Y(2) == 0) { s.err = E_ANY; return; } if (Y(1) < 0) { s.err = E_RANGE; return; } if (Y(2) == 0) { s.err = E_DIV0; return; }
                          Z av = ::abs(Y(0)), am = ::abs(Y(2)), t; mpz_powm(t.get_mpz_t(), av.get_mpz_t(), Y(1).get_mpz_t(), am.get_mpz_t());
                          if (Y(0) < 0 && mpz_odd_p(Y(1).get_mpz_t())) t = -t; s.z = {t}; END});
    // ------------------------------------------------------------ C06
    g_ops.push_back({"gcd", "C06", 2, 0, 4, 0, gen_gcd, EXEC RET(BigInteger::greatest_common_divisor(B(0), B(1))); END,
                     SPEC Z t; mpz_gcd(t.get_mpz_t(), Y(0).get_mpz_t(), Y(1).get_mpz_t()); s.z = {t}; END});
    g_ops.push_back({"gcd_scaled", "C06", 2, 0, 2, 0, gen_gcd, // gcd divides both and the cofactors are coprime, computed by the library itself
                     EXEC BigInteger g = BigInteger::greatest_common_divisor(B(0), B(1)); BigInteger h = BigInteger::greatest_common_divisor(B(1), B(0)); RET(g); RETI(g == h); END,
                     SPEC Z t; mpz_gcd(t.get_mpz_t(), Y(0).get_mpz_t(), Y(1).get_mpz_t()); s.z = {t}; s.iv = {1}; END});
    // ------------------------------------------------------------ C07
    g_ops.push_back({"shl", "C07", 1, 0, 5, 0, gen_shift, EXEC RET(B(0) << (int) a.i); END, SPEC s.z = {shl_spec(Y(0), a.i)}; END});
    g_ops.push_back({"shl_assign", "C07", 1, 1, 3, 0, gen_shift, EXEC BigInteger& t = (B(0) <<= (int) a.i); same(r, &t, p[0]); END, SPEC Y(0) = shl_spec(Y(0), a.i); s.iv = {1}; END});
    g_ops.push_back({"shr", "C07", 1, 0, 7, 0, gen_shift, EXEC RET(B(0) >> (int) a.i); END, SPEC s.z = {shl_spec(Y(0), -a.i)}; END});
    g_ops.push_back({"shr_assign", "C07", 1, 1, 5, 0, gen_shift, EXEC BigInteger& t = (B(0) >>= (int) a.i); same(r, &t, p[0]); END, SPEC Y(0) = shl_spec(Y(0), -a.i); s.iv = {1}; END});
    g_ops.push_back({"shr_far", "C07", 1, 0, 1, 0, gen_shift_far, EXEC RET(B(0) >> (int) a.i); END, SPEC s.z = {Y(0) < 0 ? Z(-1) : Z(fdiv2(Y(0), a.i))}; if (Y(0) < 0) s.z = {fdiv2(Y(0), a.i)}; END});
    g_ops.push_back({"shl_far_neg", "C07", 1, 0, 1, 0, gen_shift_far, EXEC RET(B(0) << (int) -a.i); END, SPEC s.z = {fdiv2(Y(0), a.i)}; END});
    g_ops.push_back({"shl_min", "C07", 1, 0, 1, 0, gen1, EXEC RET(B(0) << INT32_MIN); END, SPEC s.z = {fdiv2(Y(0), 1ll << 31)}; END});
    // ------------------------------------------------------------ C08
    BIN("and", "C08", 5, gen2, &, (Y(0) & Y(1)))
    BIN("or", "C08", 5, gen2, |, (Y(0) | Y(1)))
    BIN("xor", "C08", 5, gen2, ^, (Y(0) ^ Y(1)))
    g_ops.push_back({"not", "C08", 1, 0, 3, 0, gen1, EXEC RET(~B(0)); END, SPEC s.z = {Z(-Y(0) - 1)}; END});
    // ------------------------------------------------------------ C09
    g_ops.push_back({"cmp", "C09", 2, 0, 6, 0, gen2,
                     EXEC const BigInteger &x = B(0), &y = B(1); int ct = x.compare_to(y), tc = y.compare_to(x);
                          RETI(x == y); RETI(x != y); RETI(x < y); RETI(x <= y); RETI(x > y); RETI(x >= y);
                          RETI((ct > 0) - (ct < 0)); RETI((tc > 0) - (tc < 0)); RETI(x.equals(y)); RETI(y.equals(x));
                          RETI(!x.equals(y) || x.get_hash_code() == y.get_hash_code()); END,
                     SPEC int t = cmp(Y(0), Y(1)); t = (t > 0) - (t < 0);
                          s.iv = {t == 0, t != 0, t < 0, t <= 0, t > 0, t >= 0, t, -t, t == 0, t == 0, 1}; END});
    g_ops.push_back({"predicates", "C09", 1, 0, 4, 0,
                     GEN if (c.fixed) return; a.z[0] = gen_num(r, c.maxl);
                         if (r.chance(1, 3)) { a.z[0] = z_pow2(r.below((uint64_t) std::max(1, c.maxl) * 32)); if (r.chance(1, 3)) a.z[0] = -a.z[0]; if (r.chance(1, 3)) mpz_combit(a.z[0].get_mpz_t(), r.below((uint64_t) std::max(1, c.maxl) * 32)); } END,
                     EXEC int sg = B(0).sign(); RETI((sg > 0) - (sg < 0)); RETI(B(0).is_zero()); RETI(B(0).is_one()); RETI(B(0).is_even()); RETI(B(0).is_power_of_two()); END,
                     SPEC const Z& x = Y(0); s.iv = {sgn(x), x == 0, x == 1, mpz_even_p(x.get_mpz_t()) != 0, x > 0 && mpz_popcount(x.get_mpz_t()) == 1}; END});
    g_ops.push_back({"hash_equal", "C09", 1, 0, 2, 0, gen1,
                     EXEC int h = B(0).get_hash_code(); for (int k = 1; k < N_ROUTES; k++) { if (k == 4 && a.fl == 0 && B(0).to_byte_array().size() > 120) continue; BigInteger t = build(to_z(B(0)), k, 12345u + (unsigned) k); if (t.get_hash_code() != h || !(t == B(0))) { RETI(k); return; } } RETI(0); END,
                     SPEC s.iv = {0}; END});
    // ------------------------------------------------------------ C10
    g_ops.push_back({"enc", "C10", 1, 0, 5, 0, gen_flags, EXEC r.by = B(0).to_byte_array(a.fl & 1, a.fl & 2); END,
                     SPEC if ((a.fl & 1) && Y(0) < 0) { s.err = E_RUNTIME; return; } s.by = enc_bytes(Y(0), a.fl & 1, a.fl & 2); END});
    g_ops.push_back({"enc_mode", "C10", 1, 0, 1, 0, gen_flags, EXEC int n = 0; r.by = B(0).to_byte_array(BigInteger::AllocateArray, a.fl & 1, a.fl & 2, &n); END,
                     SPEC if ((a.fl & 1) && Y(0) < 0) { s.err = E_RUNTIME; return; } s.by = enc_bytes(Y(0), a.fl & 1, a.fl & 2); END});
    g_ops.push_back({"dec", "C10", 0, 0, 6, 0, gen_dec, EXEC RET(BigInteger(a.by, a.fl & 1, a.fl & 2)); END, SPEC s.z = {dec_bytes(a.by, a.fl & 1, a.fl & 2)}; END});
    g_ops.push_back({"enc_dec", "C10", 1, 0, 2, 0, gen_flags, EXEC RET(BigInteger(B(0).to_byte_array(a.fl & 1, a.fl & 2), a.fl & 1, a.fl & 2)); END,
                     SPEC if ((a.fl & 1) && Y(0) < 0) { s.err = E_RUNTIME; return; } s.z = {Y(0)}; END});
    // ------------------------------------------------------------ C11
    g_ops.push_back({"byte_count", "C11", 1, 0, 3, 0, gen_flags, EXEC RETI(B(0).get_byte_count(a.fl & 1)); END,
                     SPEC if ((a.fl & 1) && Y(0) < 0) { s.err = E_RUNTIME; return; } s.iv = {(long long) enc_bytes(Y(0), a.fl & 1, false).size()}; END});
    g_ops.push_back({"byte_count_mode", "C11", 1, 0, 1, 0, gen_flags, EXEC int n = -1; B(0).to_byte_array(BigInteger::Count, a.fl & 1, a.fl & 2, &n); RETI(n); END,
                     SPEC if ((a.fl & 1) && Y(0) < 0) { s.err = E_RUNTIME; return; } s.iv = {(long long) enc_bytes(Y(0), a.fl & 1, false).size()}; END});
    g_ops.push_back({"bit_length", "C11", 1, 0, 4, 0, gen1, EXEC RETI(B(0).get_bit_length()); END,
                     SPEC Z t = Y(0) < 0 ? Z(-Y(0) - 1) : Y(0); s.iv = {t == 0 ? 0 : (long long) mpz_sizeinbase(t.get_mpz_t(), 2)}; END});
    g_ops.push_back({"words", "C11", 1, 0, 3, 0, gen1, EXEC r.w = B(0).to_uint32_array(); END, SPEC s.w = enc_words(Y(0)); END});
    // ------------------------------------------------------------ C12
    g_ops.push_back({"to_string", "C12", 1, 0, 4, 0, gen_textlen, EXEC r.text = B(0).to_string(); END, SPEC s.text = Y(0).get_str(); END});
    g_ops.push_back({"parse", "C12", 0, 0, 3, 0, gen_text, EXEC RET(BigInteger::parse(a.s)); END, SPEC s.z = {text_value(a.s)}; END});
    g_ops.push_back({"try_parse", "C12", 1, 1, 2, 0, gen_text, EXEC RETI(BigInteger::try_parse(a.s, B(0))); END, SPEC Y(0) = text_value(a.s); s.iv = {1}; END});
    g_ops.push_back({"text_round", "C12", 1, 0, 2, 0, gen_textlen, EXEC RET(BigInteger::parse(B(0).to_string())); END, SPEC s.z = {Y(0)}; END});
    // ------------------------------------------------------------ C13
#define NOZ(nm, T) g_ops.push_back({nm, "C13", 0, 0, 2, 0, GEN GenCfg k; k.fixed = true; gen_native(r, a, k); END, EXEC RET(BigInteger((T) a.u)); END, SPEC s.z = {z_of((T) a.u)}; END});
    NOZ("from_i32", int32_t)
    NOZ("from_u32", uint32_t)
    NOZ("from_i64", int64_t)
    NOZ("from_u64", uint64_t)
    g_ops.push_back({"from_double", "C13", 0, 0, 5, 0, gen_double, EXEC RET(BigInteger(a.d)); END,
                     SPEC if (!std::isfinite(a.d)) { s.err = E_OVERFLOW; return; } s.z = {Z(a.d)}; END});
    g_ops.push_back({"assign_double", "C13", 1, 1, 2, 0, GEN gen1(r, a, c); gen_double(r, a, c); END, EXEC B(0) = a.d; END,
                     SPEC if (!std::isfinite(a.d)) { s.err = E_OVERFLOW; return; } Y(0) = Z(a.d); END});
    g_ops.push_back({"double_class", "C13", 0, 0, 1, 0, gen_double, EXEC RETI(BigInteger::double_IsFinite(a.d)); RETI(BigInteger::double_IsInfinity(a.d)); RETI(BigInteger::double_IsNaN(a.d)); END,
                     SPEC s.iv = {std::isfinite(a.d), std::isinf(a.d), std::isnan(a.d)}; END});
    g_ops.push_back({"from_words", "C13", 0, 0, 2, 0, gen_words, EXEC RET(BigInteger(words_of(a.by), a.fl != 0)); END, SPEC Z t = z_from_words(words_of(a.by)); s.z = {a.fl ? Z(-t) : t}; END});
    // ------------------------------------------------------------ C14
#define TONAT(nm, T, lo, hi) g_ops.push_back({nm, "C14", 1, 0, 3, 0, gen_limits, EXEC RETI(static_cast<T>(B(0))); END, \
                     SPEC if (Y(0) < Z(lo) || Y(0) > Z(hi)) { s.err = E_OVERFLOW; return; } s.iv = {(long long) (T) (Y(0) >= 0 ? mpz_get_ui(Y(0).get_mpz_t()) : 0 - mpz_get_ui(Y(0).get_mpz_t()))}; END});
    TONAT("to_i32", int, -z_pow2(31), z_pow2(31) - 1)
    TONAT("to_u32", unsigned int, 0, z_pow2(32) - 1)
    TONAT("to_i64", long, -z_pow2(63), z_pow2(63) - 1)
    TONAT("to_u64", unsigned long, 0, z_pow2(64) - 1)
    g_ops.push_back({"native_round", "C14", 0, 0, 2, 0, GEN GenCfg k; k.fixed = true; gen_native(r, a, k); END,
                     EXEC BigInteger x((int32_t) a.u), y((uint32_t) a.u), u((int64_t) a.u), v((uint64_t) a.u); RETI((int) x); RETI((unsigned int) y); RETI((long) u); RETI((unsigned long) v); END,
                     SPEC s.iv = {(int32_t) a.u, (uint32_t) a.u, (int64_t) a.u, (long long) a.u}; END});
    // ------------------------------------------------------------ C15
    g_ops.push_back({"to_double", "C15", 1, 0, 4, 0, gen_todouble, EXEC r.dv.push_back(static_cast<double>(B(0))); END, SPEC s.dv = {trunc_double(Y(0))}; END});
    g_ops.push_back({"to_float", "C15", 1, 0, 2, 0, gen_todouble, EXEC r.dv.push_back((double) static_cast<float>(B(0))); END, SPEC s.dv = {(double) (float) trunc_double(Y(0))}; END});
    g_ops.push_back({"double_round", "C15", 0, 0, 2, 0, gen_double, EXEC BigInteger t(a.d); r.dv.push_back(static_cast<double>(t)); END,
                     SPEC if (!std::isfinite(a.d)) { s.err = E_OVERFLOW; return; } double t = std::trunc(a.d); s.dv = {t == 0 ? 0.0 : t}; END});
    // ------------------------------------------------------------ C16
    g_ops.push_back({"log", "C16", 1, 0, 2, F_FLOAT, gen_log, EXEC r.dv.push_back(BigInteger::log(B(0))); END, SPEC spec_log(Y(0), 2.7182818284590451, s); END});
    g_ops.push_back({"log_base", "C16", 1, 0, 4, F_FLOAT, gen_log, EXEC r.dv.push_back(BigInteger::log(B(0), a.d)); END, SPEC spec_log(Y(0), a.d, s); END});
    g_ops.push_back({"log10", "C16", 1, 0, 2, F_FLOAT, gen_log, EXEC r.dv.push_back(BigInteger::log10(B(0))); END, SPEC spec_log(Y(0), 10.0, s); END});
    // ------------------------------------------------------------ value semantics (C17, C18)
    g_ops.push_back({"copy", "C17", 1, 0, 2, 0, gen1, EXEC BigInteger t(B(0)); RET(t); t += BigInteger(1); RET(t); END, SPEC s.z = {Y(0), Z(Y(0) + 1)}; END});
    g_ops.push_back({"assign", "C17", 2, 1, 3, 0, gen2, EXEC BigInteger& t = (B(0) = B(1)); same(r, &t, p[0]); END, SPEC Y(0) = Z(Y(1)); s.iv = {1}; END});
    g_ops.push_back({"move", "C17", 2, 1, 2, 0, gen2, EXEC BigInteger t(B(1)); B(0) = std::move(t); t = B(1); RET(t); END, SPEC s.z = {Y(1)}; Y(0) = Z(Y(1)); END});
    g_ops.push_back({"swap", "C17", 2, 3, 2, 0, gen2, EXEC std::swap(B(0), B(1)); END, SPEC std::swap(Y(0), Y(1)); END});
    g_ops.push_back({"constants", "C17", 0, 0, 1, 0, GEN END, EXEC RET(BigInteger::zero()); RET(BigInteger::one()); RET(BigInteger::minus_one()); RET(BigInteger()); END, SPEC s.z = {Z(0), Z(1), Z(-1), Z(0)}; END});
    g_ops.push_back({"chain", "C17", 2, 3, 2, 0, gen2, EXEC B(0) += (B(1) -= B(0)); END, // chained compound assignment
                     SPEC Z t = Y(1) - Y(0); Y(1) = t; Z u = Y(0) + Y(1); Y(0) = u; END});
}
