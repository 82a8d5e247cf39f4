// calc_SIMD_equidistribution / calc_dSFMT_equidistribution: k(v) of the word stream of a 128-bit generator
#include "gens.hpp"
#include "sfmtmodel.hpp"
#include "lanes.hpp"
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <NTL/GF2X.h>
#ifdef DSFMT52
#include "dSFMTdc/dSFMTsearch.hpp"
#include "dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
#define PROP "C22"
enum { SMALL_Q = 4000, SMALL_T = 60000, MEDIUM_Q = 400, MEDIUM_T = 5000, REAL_Q = 300, REAL_T = 5000 };
#else
#include "sfmtdc/sfmtsearch.hpp"
#include "sfmtdc/AlgorithmSIMDEquidistribution.hpp"
#define PROP "C21"
enum { SMALL_Q = 2000, SMALL_T = 40000, MEDIUM_Q = 200, MEDIUM_T = 3000, REAL_Q = 150, REAL_T = 3000 };
#endif
using namespace gens; using namespace MTToolBox; typedef sm::W W2; using lanes::Stream;
const char *pbt::property_id = PROP;
const char *pbt::property_rule = "A case is a generator of 128-bit blocks (a generated linear one, or the real class with generated parameters, in a generated state), a number of bits per word and a bound mexp at least the dimension of the orbit; every k(v) and the sum are compared with the rank definition on the stream of words. Non-trivial: orbit dimension >= 8 and some k(v) of at least one whole block.";
std::vector<std::string> pbt::assumptions = {"a mexp below the dimension of the orbit must be answered by a logic_error when some k(v) exceeds mexp/v; otherwise it may be", "the transition is invertible on the orbit"};
static w128_t w(const W2 &a) { return gens::W<w128_t>::mk(a.l, a.h); }
// a generated linear generator with the interface the algorithm needs
struct Lanes {
    Gen<w128_t> g; w128_t last, prev; int sm = 0, wm; bool half;
    Lanes(const Gen<w128_t> &o, bool half_) : g(o), last(gens::W<w128_t>::zero()), prev(last), wm(half_ ? 2 : 4), half(half_) { last = g.generate(); }
    static uint64_t lane(const w128_t &a, int i, bool h) { return h ? a.u64[i] : a.u[i]; }
    static void put(w128_t &a, int i, uint64_t v, bool h) { if (h) a.u64[i] = v; else a.u[i] = (uint32_t)v; }
    w128_t generate() { w128_t c = g.generate(), r = c, o; int E = half ? 2 : 4; for (int i = 0; i < E; i++) put(r, i, sm + i < E ? lane(last, sm + i, half) : lane(c, sm + i - E, half), half); if (!sm) r = c; o = r; for (int i = wm; i < E; i++) put(o, i, lane(prev, i, half), half); last = c; prev = r; return o; }
    void setStartMode(int m) { sm = m; } void setWeightMode(int m) { wm = m; prev = gens::W<w128_t>::zero(); }
    int bitSize() const { return g.bitSize(); }
    void add(Lanes &o) { g.add(o.g); last.u64[0] ^= o.last.u64[0]; last.u64[1] ^= o.last.u64[1]; prev.u64[0] ^= o.prev.u64[0]; prev.u64[1] ^= o.prev.u64[1]; }
    void setZero() { g.setZero(); last = prev = gens::W<w128_t>::zero(); } bool isZero() const { return g.isZero() && wzero(last) && wzero(prev); }
    const std::string getParamString() { return g.getParamString(); }
};
// G: the class under test; raw(): independent blocks of the same generator
template <class G, class RAW> static void body(pbt::Case &c, const G &g, int n, int E, int bits, RAW raw, bool lsb, const std::function<bool(const G &)> &same) {
    Stream st(E, bits, n, [&]() { std::vector<uint64_t> b = raw(); if (lsb) for (auto &x : b) x = lanes::rev(x, bits); return b; });
    int d = st.rank(0); if (d < 1 || st.rank(1) != d) { c.label("discarded"); return; }
    int len = c.chance(1, 2) ? bits : c.range(1, bits), mexp = d; switch (c.weighted({6, 4, 2, 1})) { case 1: mexp = n; break; case 2: mexp = d + c.range(0, 40); break; case 3: mexp = c.range(1, d); break; default: break; }
    c.desc << " words of " << bits << " bits, " << len << " of them, mexp=" << mexp << " orbit " << d << (lsb ? " from the low end" : ""); c.ready();
    std::vector<int> k; int sum = 0; bool block = false, defect = false, exact = true;
    for (int v = 1; v <= len; v++) { int truth, r = st.k(v, &truth);
        PBT_REQUIRE(r <= truth && r > truth - E, "harness: " << r << " is no bound for " << truth); if (r != truth) exact = false; if (r >= E) block = true; if (r < d / v) defect = true; k.push_back(r); sum += mexp / v - r; }
    c.label(bits == 32 ? "32-bit words" : bits == 64 ? "64-bit words" : "52-bit words"); c.label(lsb ? "from the low end" : "from the high end"); c.label(exact ? "the bound is exact" : "the bound is not exact"); c.label(defect ? "defects" : "maximal"); c.label(d == n ? "full orbit" : "sub-orbit"); if (d >= 8 && block) c.nontrivial();
    std::vector<int> veq((size_t)len + 4, -77); int got = 0; bool over = false, threw = false; for (int v = 1; v <= len; v++) over = over || k[(size_t)v - 1] > mexp / v;
    try { Capture cap;
#ifdef DSFMT52
      DSFMTInfo info; info.bitSize = 128; info.elementNo = 2; got = calc_dSFMT_equidistribution<w128_t, G>(g, veq.data() + 2, len, info, mexp);
#else
      SIMDInfo info; info.bitSize = 128; info.bitMode = bits; info.elementNo = E; got = calc_SIMD_equidistribution<w128_t, G>(g, veq.data() + 2, len, info, mexp, lsb);
#endif
    } catch (std::logic_error *e) { delete e; threw = true; } catch (std::logic_error &) { threw = true; }
    if (over) c.label("mexp too small"); PBT_REQUIRE(threw || !over, "no logic_error although some k(v) exceeds " << mexp << "/v"); PBT_REQUIRE(!threw || mexp < d, "a logic_error is thrown although mexp is the dimension of the orbit or more"); if (threw) return;
    PBT_REQUIRE(same(g), "the generator passed in was modified");
    for (int v = 1; v <= len; v++) PBT_REQUIRE(veq[(size_t)v + 1] == k[(size_t)v - 1], "k(" << v << ") = " << veq[(size_t)v + 1] << ", by the rank definition " << k[(size_t)v - 1]);
    PBT_REQUIRE(veq[0] == -77 && veq[1] == -77 && veq[(size_t)len + 2] == -77 && veq[(size_t)len + 3] == -77, "wrote outside veq[0.." << len - 1 << "]");
    PBT_REQUIRE(got == sum, "the sum of the defects is " << sum << ", returned " << got);
}
static void generic(pbt::Case &c, int n) {
    auto sp = rnd_spec<w128_t>(c, n, true); Gen<w128_t> g0(sp); g0.x = rnd_bv(c, n); if (c.chance(1, 10)) g0.setOneBit((int)c.below((uint64_t)n)); c.desc << " x=" << hexbv(g0.x);
#ifdef DSFMT52
    const int E = 2, bits = 52; bool half = true, lsb = false; const uint64_t M = (UINT64_C(1) << 52) - 1;
#else
    bool half = c.chance(2, 5), lsb = c.chance(1, 3); const int E = half ? 2 : 4, bits = half ? 64 : 32; const uint64_t M = half ? ~UINT64_C(0) : 0xffffffffu; 
#endif
    Lanes l(g0, half); Gen<w128_t> r(l.g); BV x0 = l.g.x; w128_t last0 = l.last, prev0 = l.prev; int sm0 = l.sm, wm0 = l.wm;
    auto raw = [&]() { w128_t b = r.generate(); std::vector<uint64_t> o; for (int i = 0; i < E; i++) o.push_back(Lanes::lane(b, i, half) & M); return o; };
    auto same = [&](const Lanes &q) { return q.g.x == x0 && gens::W<w128_t>::eq(q.last, last0) && gens::W<w128_t>::eq(q.prev, prev0) && q.sm == sm0 && q.wm == wm0; };
#ifndef DSFMT52
    if (half) { struct Half : Lanes { explicit Half(const Lanes &x) : Lanes(x) {} // start modes 0, 2 and weight modes 2, 4 count 32-bit words
            void setStartMode(int m) { Lanes::setStartMode(m / 2); } void setWeightMode(int m) { Lanes::setWeightMode(m / 2); } };
        body<Half>(c, Half(l), n, E, bits, raw, lsb, [&](const Half &q) { return same(q); }); return; }
#endif
    body<Lanes>(c, l, n, E, bits, raw, lsb, same);
}
PBT_CHECK(small, SMALL_Q, SMALL_T) { generic(c, c.chance(1, 6) ? c.range(1, 8) : c.range_log(2, 90)); }
PBT_CHECK(medium, MEDIUM_Q, MEDIUM_T) { generic(c, c.range(90, c.thorough ? 400 : 260)); }
PBT_CHECK(real_class, REAL_Q, REAL_T) {
#ifdef DSFMT52
    sm::Dsfmt m; int n = c.range(2, 4); m.s.resize((size_t)n); m.pos1 = n > 2 ? c.range(0, n - 2) : c.range(0, 1); m.sl1 = c.range(1, 51); for (int i = 0; i < 2; i++) m.msk[i] = (c.u64() | c.u64()) & ((UINT64_C(1) << 52) - 1); m.mexp = 128 + 104 * (n - 1); W2 sd; sd.l = c.word(); sd.h = c.word();
    dSFMT_param p; p.mexp = m.mexp; p.pos1 = m.pos1; p.sl1 = m.sl1; p.msk1 = m.msk[0]; p.msk2 = m.msk[1]; p.fix1 = p.fix2 = p.parity1 = p.parity2 = 0; c.desc << n << " words, pos1=" << m.pos1 << " sl1=" << m.sl1 << " msk " << std::hex << m.msk[0] << "," << m.msk[1] << std::dec << " seed " << hex<w128_t>(w(sd));
    dSFMT g(p); g.seed(w(sd)); m.seed(sd); int t = c.range(0, 2 * n); for (; t > 0; t--) { g.generate(); m.raw(); }
    sm::Dsfmt r = m; auto raw = [&]() { W2 b = r.raw(); return std::vector<uint64_t>{b.l, b.h}; };
    auto same = [&](const dSFMT &q) { dSFMT y(q); sm::Dsfmt z = m; for (int i = 0; i < n + 2; i++) { w128_t a = y.generate(); W2 b = z.raw(); if (a.u64[0] != b.l || a.u64[1] != b.h) return false; } return true; };
    body<dSFMT>(c, g, m.bits(), 2, 52, raw, false, same);
#else
    sm::Sfmt m; int n = c.range(2, 3); m.s.resize((size_t)n); m.pos1 = n > 2 ? c.range(0, n - 2) : c.range(0, 1); m.sl1 = c.range(1, 31); m.sl2 = c.range(1, 7); m.sr1 = c.range(1, 31); m.sr2 = c.range(1, 7); for (int i = 0; i < 4; i++) m.msk.set(i, (uint32_t)(c.u64() | c.u64())); m.mexp = 128 * (n - 1); W2 sd; sd.l = c.word(); sd.h = c.word();
    sfmt_param p; p.mexp = m.mexp; p.pos1 = m.pos1; p.sl1 = m.sl1; p.sl2 = m.sl2; p.sr1 = m.sr1; p.sr2 = m.sr2; p.msk1 = m.msk.u(0); p.msk2 = m.msk.u(1); p.msk3 = m.msk.u(2); p.msk4 = m.msk.u(3); p.parity1 = p.parity2 = p.parity3 = p.parity4 = 0; c.desc << n << " words, " << m.pos1 << "," << m.sl1 << "," << m.sl2 << "," << m.sr1 << "," << m.sr2 << " msk " << hex<w128_t>(w(m.msk)) << " seed " << hex<w128_t>(w(sd));
    sfmt g(p); g.seed(w(sd)); m.seed(sd); int t = c.range(0, 2 * n); for (; t > 0; t--) { g.generate(); m.raw(); }
    bool half = c.coin(), lsb = c.chance(1, 3); sm::Sfmt r = m; auto raw = [&]() { W2 b = r.raw(); std::vector<uint64_t> o; if (half) o = {b.l, b.h}; else for (int i = 0; i < 4; i++) o.push_back(b.u(i)); return o; };
    auto same = [&](const sfmt &q) { sfmt y(q); sm::Sfmt z = m; for (int i = 0; i < n + 2; i++) { w128_t a = y.generate(); W2 b = z.raw(); if (a.u64[0] != b.l || a.u64[1] != b.h) return false; } return true; };
    body<sfmt>(c, g, m.bits(), half ? 2 : 4, half ? 64 : 32, raw, lsb, same);
#endif
}
