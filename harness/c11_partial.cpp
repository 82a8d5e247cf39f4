// AlgorithmPartialBitPattern against a direct greedy search that evaluates every
// candidate pattern with the independent equidistribution of equi.hpp
#include "equi.hpp"
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C11";
const char *pbt::property_rule = "A case is a tempered generator with random earlier parameters and one instantiation of the search (parameters, bits, step, direction); the greedy choice is recomputed from independent equidistribution values. Non-trivial: some block has two patterns with different defects, or the best defect is tied.";
std::vector<std::string> pbt::assumptions = {"bit_len is the width of the output word", "the number of searched bits is at most bit_len", "as many tempering parameters as param_num"};

template <class U, int NP, int TRY, int STEP, bool LSB> static void one(pbt::Case &c) {
    const int w = W<U>::bits; int blocks = (TRY + STEP - 1) / STEP; long evals = (long)NP * blocks << STEP; int top = evals > 600 ? 20 : evals > 200 ? 34 : 60; int n = c.range_log(2, c.thorough && c.chance(1, 10) ? top * 2 : top);
    std::shared_ptr<Spec<U>> s = rnd_spec<U>(c, n, true); s->lazy = c.coin(); for (int i = 0; i < NP; i++) s->sh.push_back(LSB ? -c.range(1, w - 1) : c.chance(1, 4) ? -c.range(1, w / 2) : c.range(1, w - 1));
    Gen<U> g(s); U all = topmask<U>(w); bool pre = c.coin(); if (pre) for (int i = 0; i < NP; i++) g.setTemperingPattern(all, W<U>::mk(c.u64(), 0), i); g.setUpTempering(); g.x = rnd_bv(c, n); if (gf2::zero(g.x)) gf2::setbit(g.x, 0); bool rv = c.chance(1, 4); if (rv) g.setReverseOutput();
    bool verbose = c.coin(); c.desc << " parameters=" << NP << " bits=" << TRY << " step=" << STEP << (LSB ? " LSB" : " MSB") << (s->lazy ? " lazy" : "") << (pre ? " preset" : "") << " verbose=" << verbose << " shifts"; for (int x : s->sh) c.desc << " " << x; c.desc << " state=" << hexbv(g.x); c.ready();
    c.label(W<U>::name()); c.label(LSB ? "LSB" : "MSB"); c.label(s->lazy ? "setUpTempering needed" : "immediate"); c.label(TRY % STEP ? "short last block" : "whole blocks");
    Gen<U> r(g); r.revflag = LSB; bool tie = false, differ = false;
    for (int p = 0; p < TRY; p += STEP) for (int k = 0; k < NP; k++) {
        int size = std::min(STEP, TRY - p); U mask = W<U>::zero(); std::vector<U> bit; for (int j = 0; j < size; j++) { int pos = LSB ? p + j : w - 1 - (p + size - 1 - j); U b = W<U>::shl(W<U>::mk(1, 0), pos); bit.push_back(b); mask = mask | b; }
        int best = -1, bestd = 0; for (int i = (1 << size) - 1; i >= 0; i--) {
            U pat = W<U>::zero(); for (int j = 0; j < size; j++) if ((i >> j) & 1) pat = pat | bit[(size_t)j]; r.setTemperingPattern(mask, pat, k); r.setUpTempering();
            auto o = equi::orbit_of<U>(r); int d = 0; for (int v = 1; v <= w; v++) d += n / v - o.k(v);
            if (best >= 0 && d == bestd) tie = true; if (best >= 0 && d != bestd) differ = true;
            if (best < 0 || d < bestd || (d == bestd && __builtin_popcount((unsigned)i) > __builtin_popcount((unsigned)best))) { best = i; bestd = d; }
        }
        U pat = W<U>::zero(); for (int j = 0; j < size; j++) if ((best >> j) & 1) pat = pat | bit[(size_t)j]; r.setTemperingPattern(mask, pat, k); r.setUpTempering();
    }
    if (tie) c.label("ties"); if (differ) c.label("defects differ"); if (tie || differ) c.nontrivial();
    AlgorithmPartialBitPattern<U, w, NP, TRY, STEP, LSB> a; int ret; std::string out; PBT_REQUIRE(a.isLSBTempering() == LSB, "isLSBTempering is wrong"); BV before = g.x; { Capture cap; AlgorithmTempering<U> &base = a; ret = verbose ? base(g, true) : c.coin() ? base(g) : base(g, false); out = cap.os.str(); }
    PBT_REQUIRE(ret == 0, "returned " << ret); PBT_REQUIRE(a.isLSBTempering() == LSB, "isLSBTempering is wrong"); PBT_REQUIRE(!g.isReverseOutput(), "the output is left reversed"); PBT_REQUIRE(g.x == before, "the state of the generator has changed"); PBT_REQUIRE(verbose || out.empty(), "output although verbose is false");
    for (int k = 0; k < NP; k++) { PBT_REQUIRE(W<U>::eq(g.tp[(size_t)k], r.tp[(size_t)k]), "parameter " << k << " is " << hex<U>(g.tp[(size_t)k]) << ", the block-by-block best choice is " << hex<U>(r.tp[(size_t)k])); PBT_REQUIRE(W<U>::eq(g.eff[(size_t)k], g.tp[(size_t)k]), "the tempering in effect is not the one chosen (setUpTempering)"); }
}
typedef void (*F)(pbt::Case &);
#define BOTH(U, NP, T, S) one<U, NP, T, S, false>, one<U, NP, T, S, true>
PBT_CHECK(small, 6000, 90000) { static const std::vector<F> v = {BOTH(uint32_t, 1, 1, 1), BOTH(uint32_t, 1, 3, 2), BOTH(uint32_t, 2, 4, 2), BOTH(uint32_t, 2, 5, 3), BOTH(uint32_t, 3, 2, 1), BOTH(uint32_t, 1, 5, 5), BOTH(uint64_t, 1, 2, 2), BOTH(uint64_t, 2, 3, 2), BOTH(uint64_t, 2, 4, 3), BOTH(uint32_t, 1, 2, 5)}; c.pick(v)(c); }
PBT_CHECK(wide, 240, 3600) { static const std::vector<F> v = {BOTH(uint32_t, 1, 32, 5), BOTH(uint32_t, 2, 15, 5), BOTH(uint32_t, 1, 31, 3), BOTH(uint32_t, 4, 6, 5), BOTH(uint64_t, 1, 64, 3), BOTH(uint64_t, 2, 9, 4), BOTH(uint32_t, 1, 8, 8), BOTH(uint32_t, 2, 32, 1)}; c.pick(v)(c); }
