// Workload generation: structured numbers, related pairs, adversarial shapes.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>

std::vector<uint64_t> g_consts;

uint64_t mix64(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

int limbs_of(const Z& z) { return z == 0 ? 0 : (int) ((mpz_sizeinbase(z.get_mpz_t(), 2) + 31) / 32); }
Z z_pow2(unsigned long k) { Z r; mpz_setbit(r.get_mpz_t(), k); return r; }
Z z_from_u64(uint64_t u) { Z r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &u); return r; }
Z z_from_i64(int64_t i) {
    if (i >= 0) return z_from_u64((uint64_t) i);
    Z r = z_from_u64(~(uint64_t) i);
    return -r - 1;
}

static const uint32_t SPECIAL[] = {0, 0, 1, 2, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu,
                                   0xffffffffu, 0x0000ffff, 0xffff0000u, 0x55555555, 0xaaaaaaaau, 10, 1000000000};

static uint32_t gen_limb(Rng& r, int style) {
    switch (style) {
        case 0: return r.u32();
        case 1: return SPECIAL[r.below(sizeof SPECIAL / 4)];
        case 2: return r.chance(1, 4) ? r.u32() : SPECIAL[r.below(sizeof SPECIAL / 4)];
        case 3: return r.chance(1, 6) ? SPECIAL[r.below(sizeof SPECIAL / 4)] : 0;
        case 4: return r.chance(1, 6) ? SPECIAL[r.below(sizeof SPECIAL / 4)] : 0xffffffffu;
        case 5: return 1u << r.below(32);
        case 6: return r.chance(1, 3) ? (uint32_t) g_consts[r.below(g_consts.size())] : r.u32();
        default: return r.u32() & r.u32() & r.u32();
    }
}

static const int BOUNDARY_LEN[] = {31, 32, 33, 34, 35, 62, 63, 64, 65, 66, 67, 126, 127, 128, 129, 130, 255, 256, 257};

bool g_lengthy = false;
int gen_len(Rng& r, int maxl) {
    if (g_lengthy && r.chance(1, 2)) return (int) r.range(maxl / 3, maxl);
    int k = (int) r.below(100), l;
    if (k < 25) l = (int) r.range(0, 2);
    else if (k < 50) l = (int) r.range(1, 6);
    else if (k < 68) l = (int) r.range(1, std::max(1, maxl / 3));
    else if (k < 82) l = (int) r.range(1, std::max(1, maxl));
    else if (k < 96) l = BOUNDARY_LEN[r.below(sizeof BOUNDARY_LEN / sizeof(int))];
    else {
        uint64_t c = g_consts[r.below(g_consts.size())];
        if (c == 0 || c > 4096) c = 1 + c % 97;
        l = (int) c + (int) r.range(-2, 2);
    }
    if (l < 0) l = 0;
    if (l > maxl) l = maxl ? 1 + (int) r.below((uint64_t) maxl) : 0;
    return l;
}

Z gen_mag_len(Rng& r, int limbs) { // exactly this many 32-bit words (top word non-zero)
    if (limbs <= 0) return Z(0);
    Words w((size_t) limbs);
    int style = (int) r.below(12);
    if (style <= 7) {
        for (auto& x : w) x = gen_limb(r, style);
    } else if (style == 8) { // runs of equal bits
        size_t total = (size_t) limbs * 32, pos = 0;
        bool bit = r.chance(1, 2);
        while (pos < total) {
            size_t run = r.chance(1, 3) ? (1 + r.below(8)) : r.chance(1, 2) ? (1 + r.below(64)) : 32 * (1 + r.below(8));
            for (size_t i = 0; i < run && pos < total; i++, pos++)
                if (bit) w[pos / 32] |= 1u << (pos % 32);
            bit = !bit;
        }
    } else if (style == 9) { // 2^k and neighbours
        Z z = z_pow2((unsigned long) ((limbs - 1) * 32 + (int) r.below(32)));
        z += (long) r.range(-3, 3);
        return z;
    } else if (style == 10) { // special top words, zero or all-one tail
        uint32_t fill = r.chance(1, 2) ? 0 : 0xffffffffu;
        for (auto& x : w) x = fill;
        for (int i = 0; i < 3 && i < limbs; i++) w[(size_t) (limbs - 1 - i)] = gen_limb(r, 2);
        if (r.chance(1, 2)) w[0] = gen_limb(r, 1);
    } else { // repeated chunk, so that halves coincide or complement each other
        int half = std::max(1, limbs / 2);
        for (int i = 0; i < half; i++) w[(size_t) i] = gen_limb(r, 2);
        bool inv = r.chance(1, 3);
        for (int i = half; i < limbs; i++) w[(size_t) i] = inv ? ~w[(size_t) (i - half)] : w[(size_t) (i % half)];
    }
    if (w.back() == 0) w.back() = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 0x80000000u : (r.u32() | 1);
    return z_from_words(w);
}

Z gen_num(Rng& r, int maxl) {
    int k = (int) r.below(100);
    Z z;
    if (k < 12) { // small and boundary values
        static const int SH[] = {0, 0, 7, 8, 15, 16, 24, 30, 31, 31, 32, 32, 33, 52, 53, 62, 63, 63, 64, 64, 65, 95, 96, 127, 128};
        int s = SH[r.below(sizeof SH / sizeof(int))];
        z = s ? z_pow2((unsigned long) s) : Z(0);
        z += (long) r.range(-3, 3);
    } else if (k < 18) { // literals of the code under test
        z = z_from_u64(g_consts[r.below(g_consts.size())]);
        int how = (int) r.below(5);
        if (how == 1) z += (long) r.range(-1, 1);
        else if (how == 2) z <<= (unsigned long) r.below(130);
        else if (how == 3) z *= z_from_u64(g_consts[r.below(g_consts.size())]);
    } else if (k < 22) { // 2^k - 1, 2^k, 2^k + 1 with any k
        z = z_pow2((unsigned long) r.below((uint64_t) std::max(1, maxl) * 32)) + (long) r.range(-1, 1);
    } else if (k < 25) { // powers of ten and neighbours
        mpz_ui_pow_ui(z.get_mpz_t(), 10, (unsigned long) r.below((uint64_t) std::max(1, std::min(maxl, 60)) * 9));
        z += (long) r.range(-1, 1);
    } else {
        z = gen_mag_len(r, gen_len(r, maxl));
    }
    if (r.chance(1, 2)) z = -z;
    return z;
}

Z gen_related(Rng& r, const Z& z, int maxl) {
    Z y = z;
    switch (r.below(14)) {
        case 0: break;
        case 1: y = -z; break;
        case 2: y = z + (long) r.range(-2, 2); break;
        case 3: y = -z + (long) r.range(-2, 2); break;
        case 4: if (limbs_of(z)) mpz_combit(y.get_mpz_t(), r.below((uint64_t) limbs_of(z) * 32)); break;
        case 5: y = z; y <<= (unsigned long) r.below(100); break;
        case 6: { Z t = ::abs(z); t >>= (unsigned long) r.below((uint64_t) limbs_of(z) * 32 + 1); y = t; break; }
        case 7: y = ~z; break;
        case 8: y = z_pow2((unsigned long) limbs_of(z) * 32) - ::abs(z); break;
        case 9: { // same high part, another low part
            unsigned long k = (unsigned long) r.below((uint64_t) limbs_of(z) * 32 + 1);
            Z hi = ::abs(z); hi >>= k; hi <<= k;
            Z lo = gen_num(r, maxl); lo = ::abs(lo); mpz_fdiv_r_2exp(lo.get_mpz_t(), lo.get_mpz_t(), k);
            y = hi + lo; break;
        }
        case 10: y = z * (long) r.range(-20, 20); break;
        case 11: { // same length
            y = gen_mag_len(r, limbs_of(z)); break;
        }
        case 12: { // complementary length/sum to a power of two
            y = z_pow2((unsigned long) limbs_of(z) * 32 + r.below(40)) - z; break;
        }
        default: { Z g = gen_num(r, 3); if (g != 0) mpz_tdiv_q(y.get_mpz_t(), z.get_mpz_t(), g.get_mpz_t()); break; }
    }
    if (r.chance(1, 3)) y = -y;
    if (limbs_of(y) > maxl + 8) y = gen_num(r, maxl);
    return y;
}
