// Workloads: single monitored calls, call histories, error paths, allocation faults, digests, steps, threads.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <memory>
#include <thread>
#include <atomic>
#include <set>
#include <unistd.h>

static int maxl_for(const std::string& p) {
    static const struct { const char* p; int l; } T[] = {
        {"C01", 70}, {"C02", 150}, {"C03", 50}, {"C04", 20}, {"C05", 70}, {"C06", 60}, {"C07", 40}, {"C08", 40}, {"C09", 40},
        {"C10", 40}, {"C11", 40}, {"C12", 60}, {"C13", 20}, {"C14", 8}, {"C15", 40}, {"C16", 40}};
    for (auto& t : T) if (p == t.p) return t.l;
    return 24;
}
// lengths of the long runs: sizes that only a large job reaches
static int longl_for(const std::string& p) {
    static const struct { const char* p; int l; } T[] = {
        {"C02", 2500}, {"C03", 1600}, {"C04", 60}, {"C05", 260}, {"C06", 700}, {"C12", 1400}, {"C13", 20}, {"C14", 8}};
    for (auto& t : T) if (p == t.p) return t.l;
    return 6000;
}
static int pick_weighted(Rng& r, const std::vector<int>& ids) {
    int tot = 0;
    for (int k : ids) tot += g_ops[(size_t) k].weight;
    int x = (int) r.below((uint64_t) tot);
    for (int k : ids) { x -= g_ops[(size_t) k].weight; if (x < 0) return k; }
    return ids.back();
}
static void draw(Rng& r, int id, const GenCfg& c, Args& a, bool force_alias) {
    const Op& o = g_ops[(size_t) id];
    a = Args();
    a.op = id;
    o.gen(r, a, c);
    if (o.nz >= 2 && (force_alias || r.chance(1, 8))) {
        switch (o.nz == 2 ? 0 : r.below(5)) {
            case 0: a.al[1] = 0; break;
            case 1: a.al[2] = 0; break;
            case 2: a.al[2] = 1; break;
            case 3: a.al[1] = a.al[2] = 0; break;
            default: a.al[1] = 0; break;
        }
        if (r.chance(1, 2) && a.al[1] == 0 && o.nz >= 2) a.z[0] = a.z[r.below(2)]; // keep either operand's shape
    }
    for (int k = 0; k < o.nz; k++) a.route[k] = r.chance(1, 3) ? (uint8_t) (1 + r.below(N_ROUTES - 1)) : 0;
}

// a neighbour of an earlier call: nothing a call leaves behind (caches above all) may show in the next one
static bool vary(Rng& r, Args& a) {
    const Op& o = g_ops[(size_t) a.op];
    if (o.nz == 0) return false;
    if (strstr(o.name, "pow") == o.name || strstr(o.name, "sh") || strstr(o.name, "enc_mode")) // their other arguments were drawn for the size of the operand
        if (!strcmp(o.name, "pow_too_large") || ::abs(a.z[0]) <= 1) return false;
    int k = (int) r.below((uint64_t) o.nz);
    Z& z = a.z[k];
    int bits = (int) mpz_sizeinbase(z.get_mpz_t(), 2);
    switch (r.below(6)) {
        case 0: mpz_combit(z.get_mpz_t(), r.below((uint64_t) bits)); break;
        case 1: { // another word somewhere inside, the ends unchanged
            int n = limbs_of(z);
            if (n < 3) { mpz_combit(z.get_mpz_t(), r.below((uint64_t) bits)); break; }
            uint64_t at = 32 * (1 + r.below((uint64_t) n - 2));
            for (int q = 1 + (int) r.below(8); q > 0; q--) mpz_combit(z.get_mpz_t(), at + r.below(32));
            break;
        }
        case 2: z = -z; break;
        case 3: z += (long) (r.chance(1, 2) ? 1 : -1); break;
        case 4: if (o.nz >= 2) { std::swap(a.z[k], a.z[(k + 1) % o.nz]); break; } // fall through
        default: { // two words exchanged
            Words w = mag_words(z);
            bool neg = z < 0;
            if (w.size() < 2) break;
            std::swap(w[r.below(w.size())], w[r.below(w.size())]);
            z = z_from_words(w);
            if (neg) z = -z;
        }
    }
    if (a.fl && r.chance(1, 8)) a.fl ^= (int) r.below(4);
    return true;
}

// ---------------------------------------------------------------- one call at a time
void mode_single(Rng& rng, bool longer) {
    g_mode = "single";
    g_lengthy = longer;
    std::vector<int> ids;
    bool all = W.prop == "C18" || W.prop == "C19" || (W.prop == "C17" && longer);
    for (size_t k = 0; k < g_ops.size(); k++) {
        const Op& o = g_ops[k];
        if (all ? (W.prop != "C18" || o.nz >= 2) : W.prop == o.prop) ids.push_back((int) k);
    }
    if (ids.empty()) { fprintf(stderr, "no operation for %s\n", W.prop.c_str()); _exit(70); }
    Args a;
    std::vector<Args> last(g_ops.size());
    for (uint64_t n = 0; n < W.cases; n++) {
        GenCfg c;
        int id = pick_weighted(rng, ids);
        if (last[(size_t) id].op == id && rng.chance(1, 12)) {
            a = last[(size_t) id];
            if (vary(rng, a)) {
                last[(size_t) id] = a;
                remember(a);
                run_single(a);
                continue;
            }
        }
        c.maxl = maxl_for(all ? g_ops[(size_t) id].prop : W.prop);
        if (!strcmp(g_ops[(size_t) id].prop, "C02") && rng.chance(1, all ? 20 : 8)) c.maxl = 300; // more recursion levels
        else if (all) { c.maxl = std::max(8, c.maxl * 2 / 3); c.tiny = true; }
        c.huge = W.tier > 0 || rng.chance(1, 4);
        if (c.huge && W.prop == "C02" && rng.chance(1, 100)) c.maxl = 600;
        if (W.tier > 0 && rng.chance(1, 200)) c.maxl *= 3;
        if (longer) {
            int m = longl_for(g_ops[(size_t) id].prop);
            c.maxl = m >> rng.below(4);
            c.huge = c.lengthy = true;
            c.tiny = false;
        }
        draw(rng, id, c, a, W.prop == "C18");
        last[(size_t) id] = a;
        remember(a);
        run_single(a);
    }
}

// a modular power of long operands by a short exponent
static void draw_slow_wide(Rng& r, int id, GenCfg c, Args& a, int maxl, unsigned long ebits) {
    c.maxl = maxl;
    draw(r, id, c, a, false);
    size_t n = mpz_sizeinbase(a.z[1].get_mpz_t(), 2);
    if (n > ebits) a.z[1] >>= n - ebits;
}

// ---------------------------------------------------------------- calls that must raise an error
void mode_errors(Rng& rng) {
    g_mode = "single";
    static const char* DIVS[] = {"div", "div_assign", "mod", "mod_assign", "divide_fn", "remainder_fn", "div_rem"};
    static const char* CONV[] = {"to_i32", "to_u32", "to_i64", "to_u64"};
    static const char* ENC[] = {"enc", "enc_mode", "byte_count", "byte_count_mode", "enc_dec"};
    static const char* DBL[] = {"from_double", "assign_double", "double_round"};
    std::vector<int> prog;
    Args a;
    GenCfg c;
    c.maxl = 40;
    c.tiny = true;
    for (uint64_t n = 0; n < W.cases; n++) {
        int id;
        const int big = rng.chance(1, 30) ? 600 : 40;
        switch (rng.below(8)) {
            case 0: case 1: {
                draw(rng, op_index(DIVS[rng.below(7)]), c, a, false);
                a.z[0] = gen_num(rng, big);
                a.z[1] = 0;
                break;
            }
            case 2: case 3: { // every size combination of the remaining operands
                id = op_index("mod_pow");
                draw(rng, id, c, a, false);
                for (int k = 0; k < 3; k++) a.al[k] = (uint8_t) k;
                bool zero = rng.chance(1, 2);
                static const int LV[] = {0, 1, 1, 2, 3, 20, 33, 40}, LE[] = {0, 1, 1, 2, 3}, LM[] = {0, 1, 1, 2, 4, 31, 32, 33, 40};
                a.z[0] = gen_mag_len(rng, LV[rng.below(8)]) * (rng.chance(1, 2) ? 1 : -1);
                a.z[1] = gen_mag_len(rng, LE[rng.below(5)]);
                a.z[2] = gen_mag_len(rng, LM[rng.below(9)]) * (rng.chance(1, 2) ? 1 : -1);
                if (rng.chance(1, 4)) for (int k = 0; k < 2; k++) a.z[k] >>= rng.below(31); // small representations
                if (zero) a.z[2] = 0; else a.z[1] = -a.z[1] - 1;
                if (rng.chance(1, 10)) { a.al[2] = 0; if (zero) a.z[0] = 0; }
                break;
            }
            case 4: {
                id = op_index("pow");
                draw(rng, id, c, a, false);
                a.z[0] = gen_num(rng, 20);
                a.i = rng.chance(1, 2) ? -rng.range(1, 100) : -rng.range(1, 1ll << 31);
                break;
            }
            case 5: draw(rng, op_index(CONV[rng.below(4)]), c, a, false); if (big > 40) a.z[0] = gen_num(rng, big); break;
            case 6: {
                draw(rng, op_index(ENC[rng.below(5)]), c, a, false);
                a.z[0] = -::abs(gen_num(rng, big)) - 1;
                a.fl |= 1;
                break;
            }
            default: {
                draw(rng, op_index(DBL[rng.below(3)]), c, a, false);
                uint64_t b = (rng.chance(1, 2) ? 0x7ff0000000000000ull : 0xfff0000000000000ull) | (rng.chance(1, 2) ? 0 : rng.chance(1, 2) ? 1 : (rng.next() & 0xfffffffffffffull));
                memcpy(&a.d, &b, 8);
                break;
            }
        }
        for (int k = 0; k < 3; k++) if (a.route[k] == 4) a.route[k] = 0;
        remember(a);
        run_single(a);
        if (n % 40 == 0) { // errors in the middle of a history
            run_program(mix64(rng.next(), n), 25, false, nullptr);
            g_mode = "single";
        }
    }
}

// ---------------------------------------------------------------- histories over a pool of live objects
static const int NPOOL = 6;
static void run_program_once(uint64_t seed, uint64_t len, bool alias_heavy, uint64_t* digest) {
    Rng r(seed);
    struct Pool { BigInteger o[NPOOL]; Z z[NPOOL]; };
    std::unique_ptr<Pool> P(new Pool);
    static std::vector<int> ids;
    if (ids.empty()) for (size_t k = 0; k < g_ops.size(); k++) if (!(g_ops[k].flags & F_NOPROG)) ids.push_back((int) k);
    for (int k = 0; k < NPOOL; k++) {
        P->z[k] = gen_num(r, k < 2 ? 2 : 10);
        P->o[k] = build(P->z[k], (int) r.below(N_ROUTES), r.next());
    }
    GenCfg c;
    c.fixed = true;
    c.tiny = true;
    c.maxl = 8;
    Args a;
    uint64_t h = seed;
    for (uint64_t st = 0; st < len; st++) {
        g_prog_step = st;
        g_tick = g_tick + 1;
        int id = pick_weighted(r, ids);
        const Op& o = g_ops[(size_t) id];
        a = Args();
        a.op = id;
        int s[3];
        BigInteger* p[3];
        Z* zp[3];
        for (int k = 0; k < 3; k++) s[k] = (int) r.below(NPOOL);
        if (alias_heavy && r.chance(2, 3)) { if (r.chance(1, 2)) s[1] = s[0]; if (r.chance(1, 2)) s[2] = s[r.below(2)]; }
        for (int k = 0; k < 3; k++) {
            a.al[k] = (uint8_t) k;
            for (int j = 0; j < k; j++) if (s[j] == s[k]) { a.al[k] = (uint8_t) j; break; }
            a.z[k] = P->z[s[k]];
            p[k] = &P->o[s[k]];
            zp[k] = &P->z[s[k]];
        }
        if (o.flags & F_SLOW) { // keep the cost of modular powers bounded
            if (limbs_of(a.z[1]) > 4 || limbs_of(a.z[2]) > 40) continue;
        }
        o.gen(r, a, c);
        note_case(a);
        g_cur = &a;
        Z old[3] = {a.z[0], a.z[1], a.z[2]};
        Spec sp;
        o.spec(zp, a, sp);
        Result res;
        call(o, p, a, res);
        judge(o, a, res, sp);
        check_memcheck();
        W.steps++;
        W.op_count[(size_t) id]++;
        bool tgt[NPOOL] = {false};
        for (int k = 0; k < o.nz; k++) if (o.mut >> k & 1) tgt[s[k]] = true;
        if (res.err != E_NONE) for (int k = 0; k < o.nz; k++) if (o.mut >> k & 1) *zp[k] = old[a.al[k]];
        for (int k = 0; k < NPOOL; k++) check_value(P->o[k], P->z[k], tgt[k] ? "assigned object" : "untouched object", tgt[k] || r.chance(1, 16));
        if (digest) h = mix64(h, hash_result(a, res));
        // results move into the pool in different ways
        for (size_t k = 0; k < res.big.size(); k++) {
            int d = (int) r.below(NPOOL);
            switch (r.below(5)) {
                case 0: P->o[d] = res.big[k]; break;
                case 1: P->o[d] = std::move(res.big[k]); break;
                case 2: std::swap(P->o[d], res.big[k]); break;
                case 3: { BigInteger t(res.big[k]); res.big[k] += BigInteger(1); P->o[d] = t; break; }
                default: continue;
            }
            P->z[d] = sp.z[k];
            check_value(P->o[d], P->z[d], "object a result was stored into", true);
        }
        // self-assignment, refresh of a slot, size limits
        if (r.chance(1, 20)) { int d = (int) r.below(NPOOL); BigInteger& x = P->o[d]; BigInteger& y = P->o[d]; x = y; check_value(x, P->z[d], "self-assigned object", true); }
        for (int k = 0; k < NPOOL; k++) {
            int l = limbs_of(P->z[k]);
            if (l > 90) { int sh = (l - (int) r.below(40) - 1) * 32 + (int) r.below(32); P->o[k] >>= sh; mpz_fdiv_q_2exp(P->z[k].get_mpz_t(), P->z[k].get_mpz_t(), (mp_bitcnt_t) sh); check_value(P->o[k], P->z[k], "shrunk object", true); }
        }
        if (r.chance(1, 7)) { int d = (int) r.below(NPOOL); P->z[d] = r.chance(1, 3) ? gen_related(r, P->z[(size_t) r.below(NPOOL)], 40) : gen_num(r, r.chance(1, 6) ? 40 : 6); P->o[d] = build(P->z[d], (int) r.below(N_ROUTES), r.next()); check_value(P->o[d], P->z[d], "rebuilt object", true); }
    }
    g_cur = nullptr;
    if (digest) *digest = h;
}
void run_program(uint64_t seed, uint64_t len, bool alias_heavy, uint64_t* digest) {
    g_prog_seed = seed;
    g_mode = alias_heavy ? "progalias" : "prog";
    int64_t before = g_alloc.live_blocks;
    run_program_once(seed, len, alias_heavy, digest);
    if (g_alloc.live_blocks != before && !digest) {
        int64_t d[3];
        for (int k = 0; k < 3; k++) { int64_t b = g_alloc.live_blocks; run_program_once(seed, len, alias_heavy, nullptr); d[k] = g_alloc.live_blocks - b; }
        if (d[0] > 0 && d[1] > 0 && d[2] > 0) violation("leak", std::to_string(d[2]) + " allocation(s) not released by the history");
        if (d[0] < 0 && d[1] < 0 && d[2] < 0) violation("overfree", "more blocks released than allocated");
    }
}
void mode_prog(Rng& rng, bool alias_heavy) {
    for (uint64_t n = 0; n < W.cases; n++) {
        uint64_t len = 20 + rng.below(rng.chance(1, 10) ? 400 : 80);
        uint64_t seed = rng.next();
        W.evaluations++;
        W.nontriv++; // every history has its own seed and at least 20 steps
        run_program(seed, len, alias_heavy, nullptr);
        if (W.samples.size() < 2) W.samples.push_back("history seed=" + std::to_string(seed) + " steps=" + std::to_string(len) + (alias_heavy ? " alias-heavy" : ""));
    }
}

// ---------------------------------------------------------------- allocation failures
static int64_t fault_once(const Args& a, int64_t k) { // returns the number of allocations of the undisturbed call when k == 0
    const Op& o = g_ops[(size_t) a.op];
    int64_t count = 0;
    BigInteger slot[3];
    Z zs[3];
    BigInteger* p[3];
    Z* zp[3];
    bool used[3] = {false, false, false}, mut[3] = {false, false, false};
    for (int j = 0; j < 3; j++) { p[j] = &slot[a.al[j]]; zp[j] = &zs[a.al[j]]; }
    for (int j = 0; j < o.nz; j++) { used[a.al[j]] = true; if (o.mut >> j & 1) mut[a.al[j]] = true; }
    for (int s = 0; s < 3; s++) if (used[s]) { zs[s] = a.z[s]; slot[s] = build(a.z[s], a.route[s], 99); }
    Spec sp;
    o.spec(zp, a, sp);
    Result r;
    r.big.reserve(8);
    r.iv.reserve(32);
    r.dv.reserve(8);
    g_failed = false;
    alloc_mark();
    g_fail_at = k;
    call(o, p, a, r);
    g_fail_at = 0;
    count = (int64_t) g_alloc.count;
    if (!g_failed) {
        judge(o, a, r, sp);
    } else {
        W.fault_points++;
        bool swallowed = !strcmp(o.name, "try_parse") && r.err == E_NONE && r.iv.size() == 1 && r.iv[0] == 0;
        if (r.err == E_BADALLOC || swallowed) {
            for (int s = 0; s < 3; s++)
                if (used[s]) {
                    if (mut[s]) zs[s] = to_z(slot[s]);
                    else zs[s] = a.z[s];
                    check_value(slot[s], zs[s], mut[s] ? "assignment target after an allocation failure" : "read-only operand after an allocation failure", true);
                }
        } else if (sp.err != E_NONE && r.err != E_NONE) {
            for (int s = 0; s < 3; s++) if (used[s]) check_value(slot[s], a.z[s], "operand after an error", true);
            for (int s = 0; s < 3; s++) zs[s] = a.z[s];
        } else {
            if (r.err != E_NONE) violation("faulterror", std::string("raised ") + err_name(r.err) + " instead of bad_alloc when an allocation failed");
            judge(o, a, r, sp); // absorbed the failure: then the result has to be right
            for (int s = 0; s < 3; s++) if (used[s]) check_value(slot[s], zs[s], "operand after an absorbed allocation failure", true);
        }
        // the same objects, used again without faults
        for (int s = 0; s < 3; s++)
            if (used[s]) {
                BigInteger t(slot[s]);
                t *= BigInteger(3);
                check_value(t, zs[s] * 3, "object reused after an allocation failure", true);
                slot[s] = BigInteger(enc_bytes(a.z[s]));
                check_value(slot[s], a.z[s], "object reassigned after an allocation failure", true);
            }
        if (r.err == E_BADALLOC) {
            for (int s = 0; s < 3; s++) zs[s] = a.z[s];
            Spec sp2;
            o.spec(zp, a, sp2);
            Result r2;
            call(o, p, a, r2);
            judge(o, a, r2, sp2);
        }
    }
    return count;
}
void run_fault(const Args& a) {
    g_mode = "fault";
    g_cur = &a;
    note_case(a);
    fault_once(a, 0); // warm up
    int64_t b0 = g_alloc.live_blocks;
    int64_t n = fault_once(a, 0);
    if (g_alloc.live_blocks != b0) violation("leak", "allocations not released by an undisturbed call");
    int64_t stepw = n > 120 ? n / 60 : 1;
    for (int64_t k = 1; k <= n; k += (k < 40 ? 1 : stepw)) {
        g_tick = g_tick + 1;
        int64_t before = g_alloc.live_blocks;
        fault_once(a, k);
        if (g_alloc.live_blocks != before) {
            int64_t b2 = g_alloc.live_blocks;
            fault_once(a, k);
            if (g_alloc.live_blocks != b2) violation("leak", "an allocation failure at point " + std::to_string(k) + " of " + std::to_string(n) + " leaves " + std::to_string(g_alloc.live_blocks - b2) + " block(s) allocated");
        }
    }
    g_cur = nullptr;
}
void mode_fault(Rng& rng) {
    g_mode = "fault";
    std::vector<int> ids;
    for (size_t k = 0; k < g_ops.size(); k++) if (strcmp(g_ops[k].name, "pow_too_large") && strcmp(g_ops[k].name, "hash_equal")) ids.push_back((int) k);
    Args a;
    size_t rr = (size_t) W.index;
    for (uint64_t n = 0; n < W.cases; n++) {
        GenCfg c;
        c.tiny = true;
        int id = rng.chance(1, 2) ? ids[rr++ % ids.size()] : pick_weighted(rng, ids);
        const Op& o = g_ops[(size_t) id];
        c.maxl = rng.chance(1, 6) ? 40 : 7;
        if (!strcmp(o.prop, "C05") && rng.chance(1, 3)) c.maxl = 36;
        if (!strcmp(o.prop, "C02") && rng.chance(1, 3)) c.maxl = 70;
        bool roomy = (o.flags & F_SLOW) == 0 && rng.chance(1, 60); // scratch space that only long operands need
        if (roomy) c.maxl = 150;
        bool big = !strcmp(o.prop, "C02") && rng.chance(1, 12);
        if (big) c.maxl = 300;
        if ((o.flags & F_SLOW) && rng.chance(1, 20)) draw_slow_wide(rng, id, c, a, 120, 5);
        else draw(rng, id, c, a, false);
        if (big && rng.chance(1, 2)) { // squaring and multiplying beyond every threshold
            a.z[0] = gen_mag_len(rng, (int) rng.range(250, 300));
            a.z[1] = rng.chance(1, 2) ? a.z[0] : gen_mag_len(rng, (int) rng.range(33, 300));
        }
        if (!strcmp(o.prop, "C05") && limbs_of(a.z[1]) > 1) a.z[1] >>= (unsigned long) (limbs_of(a.z[1]) - 1) * 32 - (rng.chance(1, 3) ? 32 : 0);
        if (!strcmp(o.name, "pow") && a.i > 300) a.i %= 300;
        for (int k = 0; k < 3; k++) a.route[k] = 0;
        if (a.s.size() > (roomy ? 1500 : 60)) a.s.resize(roomy ? 1500 : 60);
        if (!roomy && !strcmp(o.prop, "C12") && limbs_of(a.z[0]) > 8) a.z[0] = gen_num(rng, 8);
        remember(a);
        run_fault(a);
    }
}

// ---------------------------------------------------------------- results across build configurations
void mode_digest(Rng& rng) {
    g_mode = "digest";
    std::vector<int> ids;
    for (size_t k = 0; k < g_ops.size(); k++) if (!(g_ops[k].flags & F_FLOAT) && strcmp(g_ops[k].name, "hash_equal")) ids.push_back((int) k);
    std::string path = W.outdir + "/digest_" + std::to_string(W.index) + ".txt";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) _exit(70);
    Args a;
    for (uint64_t n = 0; n < W.cases; n++) {
        GenCfg c;
        c.tiny = c.anytext = true;
        int id = pick_weighted(rng, ids);
        c.maxl = std::max(8, maxl_for(g_ops[(size_t) id].prop) * 2 / 3);
        bool slow = (g_ops[(size_t) id].flags & F_SLOW) != 0, roomy = rng.chance(1, 100);
        if (!slow && roomy) c.maxl *= 8;
        if (slow && roomy) draw_slow_wide(rng, id, c, a, 300, 40);
        else draw(rng, id, c, a, false);
        remember(a);
        g_cur = &a;
        note_case(a);
        g_tick = g_tick + 1;
        const Op& o = g_ops[(size_t) a.op];
        uint64_t h;
        {
            BigInteger slot[3];
            BigInteger* p[3];
            for (int k = 0; k < 3; k++) p[k] = &slot[a.al[k]];
            Result r0;
            for (int k = 0; k < o.nz; k++) { int s = a.al[k]; slot[s] = BigInteger(enc_bytes(a.z[s])); }
            Result r;
            call(o, p, a, r);
            h = hash_result(a, r);
            for (int k = 0; k < 3; k++) for (auto x : slot[k].to_byte_array()) h = mix64(h, x);
        }
        fprintf(f, "%016llx %016llx %s\n", (unsigned long long) h, (unsigned long long) hash_args(a), o.name);
        g_cur = nullptr;
    }
    fclose(f);
}

// ---------------------------------------------------------------- steps and memory
#ifdef RIG_STEPS
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { static uint32_t n; if (a == b || *a) return; for (uint32_t* x = a; x < b; x++) *x = ++n; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) {
    g_steps = g_steps + 1;
    if (g_step_limit && g_steps > g_step_limit) {
        uint64_t lim = g_step_limit;
        g_step_limit = 0;
        violation("steps", "more than " + std::to_string(lim) + " basic blocks executed, the polynomial bound for these operand lengths");
    }
}
extern "C" void __sanitizer_cov_trace_pc() { __sanitizer_cov_trace_pc_guard(nullptr); } // the form gcc inserts
#endif
#ifdef RIG_STEPS
// bulk copies count by their length
static inline void bulk(size_t n) {
    if (!g_step_limit) return;
    g_steps = g_steps + n / 16;
    if (g_steps > g_step_limit) {
        uint64_t lim = g_step_limit;
        g_step_limit = 0;
        violation("steps", "more than " + std::to_string(lim) + " basic blocks executed and 16-byte groups copied, the polynomial bound for these operand lengths");
    }
}
extern "C" __attribute__((noinline)) void* memmove(void* d, const void* s, size_t n) {
    bulk(n);
    void* r = d;
    if ((char*) d <= (const char*) s || (char*) d >= (const char*) s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else {
        char* e = (char*) d + n - 1;
        const char* f = (const char*) s + n - 1;
        __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
    }
    return r;
}
extern "C" __attribute__((noinline)) void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
    bulk(n);
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
extern "C" __attribute__((noinline)) void* memset(void* d, int c, size_t n) {
    bulk(n);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
#endif
struct Bound { double steps, bytes; };
static std::vector<std::pair<std::string, double>> g_growth;
static Bound bound_for(const Op& o, const Args& a) {
    double n[3];
    for (int k = 0; k < 3; k++) n[k] = k < o.nz ? (double) limbs_of(a.z[a.al[k]]) + 1 : 0;
    double mx = std::max(n[0], std::max(n[1], n[2])), mn = std::min(n[0], n[1]);
    std::string p = o.prop, nm = o.name;
    double L = (double) a.s.size() + (double) a.by.size();
    double lin = 400 + 60 * (n[0] + n[1] + n[2]) + 60 * L, mem = 4096 + 64 * (n[0] + n[1] + n[2]) + 64 * L;
    if (p == "C07") { double sh = a.i > 0 && nm.compare(0, 3, "shl") == 0 ? (double) a.i / 32 : a.i < 0 && nm.compare(0, 3, "shr") == 0 ? (double) -a.i / 32 : 0; return {lin + 60 * sh, mem + 64 * sh}; }
    if (nm == "double_round" || nm == "from_double" || nm == "assign_double") return {lin + 60 * 40, mem + 4096};
    if (p == "C02") { double m = nm.compare(0, 6, "square") == 0 ? n[0] : n[1]; if (o.nz == 1 && nm.compare(0, 6, "square")) m = 3; return {lin + 24 * n[0] * m, mem + 200 * (n[0] + m)}; }
    if (p == "C03") { double q = std::max(1.0, n[0] - n[1] + 2); return {lin + 24 * q * (n[1] + 2), mem}; }
    if (p == "C04") {
        double rb = 2; // result words
        if (::abs(a.z[0]) > 1 && a.i > 0) rb = (double) n[0] * (double) a.i + 2; // the words, not the bits: documented buffer estimate
        return {lin + 16 * rb * rb + 4000, 65536 + 64 * rb};
    }
    if (p == "C05") { double eb = std::max<double>(1, (double) mpz_sizeinbase(a.z[a.al[1]].get_mpz_t(), 2)), m = n[2] + 2; return {lin + 60 * (n[0] + 2) * m + 60 * eb * (m * m + 8), 65536 + 400 * (m + n[0] + n[1])}; }
    if (p == "C06") return {lin + 60 * (mx + 2) * (mx + 2) + 4000, 16384 + 200 * mx};
    if (p == "C12") { L = std::max(L, 9.64 * mx); double q = mx + L / 9 + 2; return {lin + 60 * q * q + 400 * L * (1 + L / 40) , 16384 + 200 * q + 64 * L}; }
    (void) mn;
    return {lin, mem};
}
void run_steps(const Args& a) {
    g_mode = "steps";
    g_cur = &a;
    note_case(a);
    g_tick = g_tick + 1;
    const Op& o = g_ops[(size_t) a.op];
    BigInteger slot[3];
    BigInteger* p[3];
    for (int k = 0; k < 3; k++) p[k] = &slot[a.al[k]];
    for (int k = 0; k < o.nz; k++) { int s = a.al[k]; slot[s] = BigInteger(enc_bytes(a.z[s])); }
    Bound b = bound_for(o, a);
    Result r;
    int64_t base = g_alloc.live_bytes;
    alloc_mark();
    g_steps = 0;
    g_step_limit = (uint64_t) b.steps;
    g_alloc_cap = (uint64_t) base + (uint64_t) (b.bytes * 50) + (64u << 20);
    call(o, p, a, r);
    g_step_limit = 0;
    g_alloc_cap = (uint64_t) 1 << 30;
    uint64_t st = g_steps;
    W.steps += st;
    double peak = (double) (g_alloc.peak - base);
    if (r.err == E_BADALLOC && strcmp(o.name, "pow_too_large")) violation("memory", "ran out of the memory allowance");
    if (peak > b.bytes) violation("memory", "peak " + std::to_string((long long) peak) + " bytes above the bound of " + std::to_string((long long) b.bytes) + " for these operand lengths");
    static std::vector<double> rs(g_ops.size(), 0), rm(g_ops.size(), 0);
    rs[(size_t) a.op] = std::max(rs[(size_t) a.op], (double) st / b.steps);
    rm[(size_t) a.op] = std::max(rm[(size_t) a.op], peak / b.bytes);
    W.extra = g_growth;
    for (size_t k = 0; k < g_ops.size(); k++) if (rs[k] > 0 || rm[k] > 0) { W.extra.push_back({std::string("max_steps_over_bound:") + g_ops[k].name, rs[k]}); W.extra.push_back({std::string("max_bytes_over_bound:") + g_ops[k].name, rm[k]}); }
    g_cur = nullptr;
}
static uint64_t steps_of(const std::string& op, const Z& x, const Z& y) {
    Args a;
    a.op = op_index(op);
    a.z[0] = x;
    a.z[1] = y;
    g_mode = "steps";
    g_cur = &a;
    note_case(a);
    BigInteger s0(enc_bytes(x)), s1(enc_bytes(y));
    BigInteger* p[3] = {&s0, &s1, &s1};
    Result r;
    g_steps = 0;
    g_step_limit = 0;
    call(g_ops[(size_t) a.op], p, a, r);
    g_cur = nullptr;
    return g_steps;
}
void mode_steps(Rng& rng) {
    g_mode = "steps";
    std::vector<int> ids;
    for (size_t k = 0; k < g_ops.size(); k++) if (strcmp(g_ops[k].name, "hash_equal")) ids.push_back((int) k);
    Args a;
    for (uint64_t n = 0; n < W.cases; n++) {
        GenCfg c;
        int id = pick_weighted(rng, ids);
        c.maxl = maxl_for(g_ops[(size_t) id].prop);
        c.tiny = !rng.chance(1, 20);
        if (rng.chance(1, 16) && strcmp(g_ops[(size_t) id].prop, "C05") && strcmp(g_ops[(size_t) id].prop, "C04")) c.maxl = W.tier ? 1200 : 400;
        static const char* LINEAR[] = {"C01", "C07", "C08", "C09", "C10", "C11", "C15", "C16"};
        bool linear = false;
        for (auto p : LINEAR) linear |= !strcmp(p, g_ops[(size_t) id].prop);
        if (linear && rng.chance(1, 40)) c.maxl = 4000; // a hidden quadratic term shows
        draw(rng, id, c, a, false);
        remember(a);
        run_steps(a);
    }
    // growth of multiplication and squaring: schoolbook doubles to a factor of 4, the recursive algorithm to about 3
    if (W.index == 0) {
        for (int sq = 0; sq < 2; sq++) {
            for (int n = 192; n <= 768; n += 192 + (int) rng.below(5)) {
                Z x = gen_mag_len(rng, n), y = gen_mag_len(rng, n), x4 = gen_mag_len(rng, 4 * n), y4 = gen_mag_len(rng, 4 * n);
                if (sq) { y = x; y4 = x4; }
                else if (n > 192) { y >>= 32ul * rng.below(4); y4 >>= 32ul * rng.below(4); }
                double s1 = (double) steps_of("mul", x, y), s4 = (double) steps_of("mul", x4, y4);
                g_growth.push_back({std::string(sq ? "square" : "mul") + "_growth_x4_at_" + std::to_string(n), s4 / s1});
                W.evaluations++;
                if (s4 > 12.5 * s1) { Args k; k.op = op_index("mul"); k.z[0] = x4; k.z[1] = y4; g_cur = &k; note_case(k); violation("growth", "work grows by a factor of " + std::to_string(s4 / s1) + " when the length grows by 4 (16 would be quadratic)"); }
            }
        }
        // memory of a modular power does not depend on the exponent's value
        for (int m : {1, 3, 20, 40}) {
            Z mod = gen_mag_len(rng, m) | 1, v = gen_mag_len(rng, m);
            for (int e : {10, 31, 100, 300}) {
                a = Args();
                a.op = op_index("mod_pow");
                a.z[0] = v; a.z[1] = z_pow2((unsigned long) e) - 1; a.z[2] = mod;
                remember(a);
                run_steps(a);
            }
        }
    }
}

// ---------------------------------------------------------------- threads
struct TCase { Args a; uint64_t hash; };
static uint64_t exec_hash(const TCase& t, const std::vector<BigInteger>& shared, const int* sh) {
    const Op& o = g_ops[(size_t) t.a.op];
    BigInteger priv[3];
    BigInteger* p[3];
    for (int k = 0; k < 3; k++) {
        bool m = o.mut >> k & 1;
        for (int j = 0; j < 3; j++) if (j < o.nz && (o.mut >> j & 1) && t.a.al[j] == t.a.al[k]) m = true;
        if (k < o.nz && m) { priv[t.a.al[k]] = shared[(size_t) sh[t.a.al[k]]]; p[k] = &priv[t.a.al[k]]; }
        else p[k] = const_cast<BigInteger*>(&shared[(size_t) sh[t.a.al[k]]]);
    }
    Result r;
    call(o, p, t.a, r);
    uint64_t h = (uint64_t) r.err;
    for (auto& b : r.big) { for (auto c : b.to_byte_array()) h = mix64(h, c); h = mix64(h, (uint64_t) (uint32_t) b.get_hash_code()); }
    for (auto v : r.iv) h = mix64(h, (uint64_t) v);
    for (auto v : r.dv) { uint64_t d; memcpy(&d, &v, 8); h = mix64(h, d); }
    for (char c : r.text) h = mix64(h, (unsigned char) c);
    for (auto c : r.by) h = mix64(h, c);
    for (auto c : r.w) h = mix64(h, c);
    for (int k = 0; k < 3; k++) for (auto c : priv[k].to_byte_array()) h = mix64(h, c);
    return h;
}
void mode_threads(Rng& rng) {
    g_mode = "threads";
    const int NT = 6;
    std::vector<int> ids;
    for (size_t k = 0; k < g_ops.size(); k++) if (strcmp(g_ops[k].name, "hash_equal") && strcmp(g_ops[k].name, "pow_too_large")) ids.push_back((int) k);
    std::vector<BigInteger> shared;
    struct Job { TCase t; int sh[3]; };
    std::vector<std::vector<Job>> jobs(NT);
    // threads run overlapping lists: the same case is executed by several threads at about the same time
    std::vector<Job> common;
    for (uint64_t n = 0; n < W.cases; n++) {
        GenCfg c;
        c.tiny = true;
        int id = pick_weighted(rng, ids);
        c.maxl = std::max(8, maxl_for(g_ops[(size_t) id].prop) * 2 / 3);
        if (W.index % 8 == 5 && !(g_ops[(size_t) id].flags & F_SLOW)) { c.maxl *= 8; c.huge = true; } // state that only long operands use
        Job j;
        if (!common.empty() && rng.chance(1, 4)) { // next to one of the latest calls
            j.t.a = common[common.size() - 1 - rng.below(std::min<uint64_t>(common.size(), 6))].t.a;
            if (!vary(rng, j.t.a)) draw(rng, id, c, j.t.a, false);
        } else if (W.index % 8 == 5 && (g_ops[(size_t) id].flags & F_SLOW) && rng.chance(1, 2)) draw_slow_wide(rng, id, c, j.t.a, 200, 20);
        else draw(rng, id, c, j.t.a, false);
        if (!strcmp(g_ops[(size_t) j.t.a.op].name, "pow") && j.t.a.i > 2000) j.t.a.i %= 2000;
        for (int k = 0; k < 3; k++) { j.sh[k] = (int) shared.size(); shared.push_back(BigInteger(enc_bytes(j.t.a.z[k]))); }
        remember(j.t.a);
        common.push_back(j);
    }
    for (int t = 0; t < NT; t++) {
        jobs[(size_t) t] = common;
        if (t % 2) for (size_t k = 1; k < common.size(); k += 1) std::swap(jobs[(size_t) t][k], jobs[(size_t) t][k - 1 - rng.below(std::min<uint64_t>(k, 8))]);
    }
    std::atomic<int> ready(0);
    std::atomic<uint64_t> ticket(0);
    std::vector<std::vector<std::pair<uint64_t, int>>> log(NT); // own log per thread
    std::vector<std::thread> th;
    for (int t = 0; t < NT; t++)
        th.emplace_back([&, t]() {
            log[(size_t) t].reserve(jobs[(size_t) t].size());
            ready.fetch_add(1);
            while (ready.load() < NT) {}
            for (auto& j : jobs[(size_t) t]) {
                uint64_t tk = ticket.fetch_add(1, std::memory_order_relaxed);
                log[(size_t) t].push_back({tk, j.t.a.op});
                j.t.hash = exec_hash(j.t, shared, j.sh);

            }
        });
    for (auto& x : th) x.join();
    uint64_t mismatches = 0;
    std::string first;
    for (int t = 0; t < NT; t++)
        for (size_t q = jobs[(size_t) t].size(); q-- > 0;) { // in another order than before
            Job& j = jobs[(size_t) t][q];
            uint64_t h = exec_hash(j.t, shared, j.sh);
            if (h != j.t.hash) { if (!mismatches++) { first = show_args(j.t.a); static Args keep; keep = j.t.a; g_cur = &keep; note_case(keep); } }
        }
    if (mismatches) violation("threads", std::to_string(mismatches) + " result(s) differ from the single-threaded run, first: " + first);
    // shared operands unchanged
    for (auto& j : common) for (int k = 0; k < g_ops[(size_t) j.t.a.op].nz; k++) check_value(shared[(size_t) j.sh[k]], j.t.a.z[k], "shared operand after the threads ended", true);
    std::vector<std::pair<uint64_t, std::pair<int, int>>> all;
    for (int t = 0; t < NT; t++) for (auto& e : log[(size_t) t]) all.push_back({e.first, {t, e.second}});
    std::sort(all.begin(), all.end());
    uint64_t switches = 0;
    std::set<std::pair<int, int>> pairs;
    for (size_t k = 1; k < all.size(); k++) if (all[k].second.first != all[k - 1].second.first) { switches++; pairs.insert({all[k - 1].second.second, all[k].second.second}); }
    W.steps = all.size();
    W.extra.push_back({"thread_switches", (double) switches});
    W.extra.push_back({"distinct_adjacent_op_pairs", (double) pairs.size()});
    W.extra.push_back({"calls_in_threads", (double) all.size()});
}

// ---------------------------------------------------------------- values of 2^30 bits and more, where counts of bits, bytes and words leave 32 bits
static void extreme_op(const char* name, const Z& z0, const Z& z1, int64_t i, double d, int fl, const Z& z2 = Z(7)) {
    int id = op_index(name);
    if (id < 0) { fprintf(stderr, "no operation %s\n", name); _exit(70); }
    const Op& o = g_ops[(size_t) id];
    Args a;
    a.op = id; a.i = i; a.d = d; a.fl = fl; a.u = 12345;
    if (!strcmp(o.name, "parse")) a.s = z0.get_str();
    else if (o.nz == 0) a.by = enc_bytes(z0, fl & 1, fl & 2);
    std::string what = std::string(o.name) + " on operands of " + std::to_string(mpz_sizeinbase(z0.get_mpz_t(), 2)) + (z0 < 0 ? " (negative)" : "") + " and " + std::to_string(mpz_sizeinbase(z1.get_mpz_t(), 2)) + (z1 < 0 ? " (negative)" : "") + " bits, i=" + std::to_string(i) + ", fl=" + std::to_string(fl);
    g_extreme = what;
    Z zs[3] = {z0, z1, z2};
    BigInteger slot[3];
    BigInteger* p[3];
    Z* zp[3];
    // whole words are written and compared: the byte encodings would take most of the time
    auto fresh = [](const Z& z) { return BigInteger(mag_words(z), z < 0); };
    auto same_value = [&](const BigInteger& b, const Z& z, const std::string& where) {
        if (!(b == fresh(z)) || ((b.sign() > 0) - (b.sign() < 0)) != sgn(z)) violation("value", where + " of " + what + " is wrong");
        W.checks++;
        g_tick = g_tick + 1;
    };
    for (int k = 0; k < 3; k++) { p[k] = &slot[k]; zp[k] = &zs[k]; if (k < o.nz) slot[k] = fresh(zs[k]); }
    g_tick = g_tick + 1;
    Spec sp;
    o.spec(zp, a, sp);
    g_tick = g_tick + 1;
    Result r;
    call(o, p, a, r);
    g_tick = g_tick + 1;
    if (r.err == E_NONE && sp.err == E_NONE && r.big.size() == sp.z.size()) {
        for (size_t k = 0; k < sp.z.size(); k++) same_value(r.big[k], sp.z[k], "result " + std::to_string(k));
        r.big.clear();
        sp.z.clear();
    }
    judge(o, a, r, sp);
    g_tick = g_tick + 1;
    for (int k = 0; k < o.nz; k++) same_value(slot[k], zs[k], "operand " + std::to_string(k) + " afterwards");
    W.evaluations++; W.nontriv++;
    if (W.op_count.size() < g_ops.size()) W.op_count.resize(g_ops.size());
    W.op_count[(size_t) id]++;
    if (W.samples.size() < 6) W.samples.push_back(what);
    g_tick = g_tick + 1;
}

static void mode_extreme_values() {
    g_alloc_cap = (uint64_t) 14 << 30;
    Rng rng(mix64(W.seed, 77));
    auto dense = [&](unsigned long bits) { Z t, c = gen_mag_len(rng, 61); mpz_setbit(t.get_mpz_t(), bits - 1); for (int k = 0; k < 40; k++) { Z u = c; u <<= rng.below(bits - 4096); t += u; } mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), bits); mpz_setbit(t.get_mpz_t(), bits - 1); return t; };
    const unsigned long N = 1ul << 31;
    Z big = z_pow2(N), ones = z_pow2(N) - 1, mix = dense(N + 100), wide = W.tier > 0 ? dense(2 * N + 70) : Z(0), word((unsigned long) 0x9e3779b1u), two = z_from_u64(0xfedcba9876543211ull);
    const std::string& P = W.prop;
    std::vector<Z> xs = {big, -ones, mix, -big, ones, -mix};
    if (W.tier > 0) { xs.push_back(wide); xs.push_back(-wide); }
    size_t n = W.seed % 6; // the quick tier takes every third operand, from another one for each operation
    auto two_of = [&](std::vector<const char*> names) {
        for (auto nm : names) {
            n++;
            for (size_t k = 0; k < xs.size(); k++) {
                if (W.tier == 0 && k != n % 6) continue;
                if (W.tier > 0 || n % 2) extreme_op(nm, xs[k], xs[(n + k + 1) % xs.size()], 0, 0, 0);
                if (W.tier > 0 || n % 2 == 0) extreme_op(nm, xs[k], n % 4 ? word : -two, 0, 0, 0);
            }
        }
    };
    auto one_of = [&](std::vector<const char*> names, int nfl) {
        for (auto nm : names) {
            n++;
            for (size_t k = 0; k < xs.size(); k++) for (int fl = 0; fl < nfl; fl++)
                if (W.tier > 0 || (n + k + (size_t) fl) % (nfl > 1 ? 6 : 3) == 0) extreme_op(nm, xs[k], Z(3), 0, 10.0, fl);
        }
    };
    auto small_of = [&](const char* nm, const Z& y, bool first) {
        n++;
        for (size_t k = 0; k < xs.size(); k++)
            if (W.tier > 0 || (n + k) % 3 == 0) { if (first) extreme_op(nm, y, xs[k], 0, 0, 0); else extreme_op(nm, xs[k], y, 0, 0, 0); }
    };
    if (P == "C01") { two_of({"add", "sub", "add_assign", "sub_assign"}); one_of({"neg", "pre_inc", "pre_dec", "abs"}, 1); }
    else if (P == "C02") { small_of("mul", word, false); small_of("mul", -two, true); small_of("mul_fn", two, false); }
    else if (P == "C03") { small_of("div", word, false); small_of("mod", two, false); small_of("div_rem", -two, false); small_of("div_rem", word, true); extreme_op("div_rem", mix, -ones, 0, 0, 0); }
    else if (P == "C06") { small_of("gcd", word * 0x10001, false); small_of("gcd", word, true); }
    else if (P == "C08") { two_of({"and", "or", "xor", "and_assign", "or_assign", "xor_assign"}); one_of({"not"}, 1); }
    else if (P == "C09") { two_of({"cmp", "cmp", "cmp"}); extreme_op("cmp", mix, mix + 1, 0, 0, 0); extreme_op("cmp", big, big, 0, 0, 0); one_of({"predicates"}, 1); }
    else if (P == "C10") { one_of({"enc", "dec", "enc_dec"}, 4); }
    else if (P == "C11") { one_of({"byte_count"}, 2); one_of({"bit_length", "words"}, 1); for (int k = -1; k <= 0; k++) { extreme_op("bit_length", z_pow2(2 * N) + k, Z(0), 0, 0, 0); extreme_op("bit_length", -z_pow2(2 * N) + k, Z(0), 0, 0, 0); } }
    else if (P == "C14") one_of({"to_i32", "to_u32", "to_i64", "to_u64"}, 1);
    else if (P == "C15") one_of({"to_double", "to_float"}, 1);
    else if (P == "C16") one_of({"log", "log10", "log_base"}, 1);
    else if (P == "C17") { one_of({"copy"}, 1); two_of({"assign", "move", "swap"}); }
    else { fprintf(stderr, "no extreme workload for %s\n", P.c_str()); _exit(70); }
}

// values of more than 65536 words for the operations that take quadratic time: counts of words leave 16 bits
void mode_wide() {
    g_mode = "extreme";
    g_alloc_cap = (uint64_t) 2 << 30;
    g_hang_seconds = 120;
    Rng rng(mix64(W.seed, 78));
    auto num = [&](int limbs) { Z z = rng.chance(1, 4) ? Z(z_pow2((unsigned long) limbs * 32) - ::abs(gen_mag_len(rng, 1 + (int) rng.below((uint64_t) limbs)))) : gen_mag_len(rng, limbs); return rng.chance(1, 3) ? Z(-z) : z; };
    const std::string& P = W.prop;
    const int N = 65536 + (int) rng.below(500), n = W.tier > 0 ? 6 : 1;
    for (int k = 0; k < n; k++) {
        if (P == "C02") {
            Z x = num(N), y = num(N + (int) rng.below(3));
            extreme_op("mul", x, y, 0, 0, 0);
            extreme_op("mul_assign", y, y, 0, 0, 0);
            extreme_op("mul_fn", num(2 * N), num(1000), 0, 0, 0);
            extreme_op("mul", num(2 * N + 9), num(2 * N), 0, 0, 0);
            x = num(2 * N + 21);
            extreme_op("mul", x, x, 0, 0, 0);
        } else if (P == "C03") {
            Z q = num(300), d = num(N), e = num(1000);
            extreme_op("div_rem", q * d + num(40), d, 0, 0, 0);
            extreme_op("div", num(N + 400), e, 0, 0, 0);
            extreme_op("div_rem", num(2 * N + 90), num(2 * N), 0, 0, 0);
            extreme_op("mod", d * e - 1, e, 0, 0, 0);
            extreme_op("div_rem", num(N + 200), num(200), 0, 0, 0);
        } else if (P == "C04") {
            extreme_op("pow", num(3), Z(0), N / 3 + 200, 0, 0);
            extreme_op("pow", Z(rng.range(2, 99)), Z(0), 32 * N, 0, 0);
            extreme_op("pow", num(N / 2 + 7), Z(0), 4, 0, 0);
        } else if (P == "C05") {
            Z m = ::abs(num(N)), v = num(N - 100);
            extreme_op("mod_pow", Z(-3), Z(7), 0, 0, 0, m);
            extreme_op("mod_pow", num(N + 700), Z(5), 0, 0, 0, ::abs(num(900)));
            extreme_op("mod_pow", num(40), ::abs(num(3)), 0, 0, 0, ::abs(num(33)));
        } else if (P == "C06") {
            Z g = ::abs(num(150));
            extreme_op("gcd", g * num(N), g * num(100), 0, 0, 0);
            extreme_op("gcd", num(250), num(N + 90), 0, 0, 0);
        } else if (P == "C12") {
            extreme_op("to_string", num(65540), Z(0), 0, 0, 0);
            extreme_op("parse", num(6900), Z(0), 0, 0, 0); // more than 65536 digits
        } else { fprintf(stderr, "no wide workload for %s\n", P.c_str()); _exit(70); }
    }
}

void mode_extreme() {
    g_mode = "extreme";
    if (W.prop != "C07") { mode_extreme_values(); return; }
    g_alloc_cap = (uint64_t) 6 << 30;
    const int MAXS = INT32_MAX, MINS = INT32_MIN;
    auto need = [](bool ok, const char* what) { if (!ok) violation("extreme", what); W.evaluations++; W.nontriv++; g_tick = g_tick + 1; };
    for (int sgn = -1; sgn <= 1; sgn += 2) {
        BigInteger one(sgn);
        {
            BigInteger x = one << MAXS;
            need(x.get_bit_length() == (uint64_t) MAXS + (sgn > 0 ? 1 : 0), "bit length of (+-1) << 2147483647");
            need(x.sign() * sgn > 0, "sign of (+-1) << 2147483647");
            BigInteger y = x >> MAXS;
            need(y == one, "((+-1) << 2147483647) >> 2147483647");
            y = x >> (MAXS - 40);
            need(y == (one << 40), "((+-1) << 2147483647) >> 2147483607");
            x += BigInteger(sgn);
            y = x >> MAXS;
            need(y == (sgn > 0 ? BigInteger(1) : BigInteger(-2)), "(+-(2^2147483647 + 1)) >> 2147483647");
            y = x >> 64;
            y = y >> (MAXS - 64);
            need(y == (sgn > 0 ? BigInteger(1) : BigInteger(-2)), "(+-(2^2147483647 + 1)) >> 64 >> 2147483583");
        }
        {
            BigInteger x = one >> MINS; // left shift by 2^31
            need(x.get_bit_length() == ((uint64_t) 1 << 31) + (sgn > 0 ? 1 : 0), "bit length of (+-1) >> -2147483648");
            BigInteger y = x << MINS;
            need(y == one, "((+-1) >> -2147483648) << -2147483648");
        }
    }
    W.samples.push_back("(-1 << 2147483647) >> 2147483607");
}
