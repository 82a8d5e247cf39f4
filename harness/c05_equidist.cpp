// AlgorithmEquidistribution: k(v) and the total defect
#include "equi.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C05";
const char *pbt::property_rule = "A case is a generated GF(2)-linear generator (transition, output matrix, tempering, reversal flag, start state), an output width and an optional dimension; k(v) is compared with the rank definition for every v. Non-trivial: orbit dimension >= 4 and either some k(v) below its bound or bit length >= 4.";
std::vector<std::string> pbt::assumptions = {"a dimension given that is too small for some k(v) is answered by a logic_error (thrown by pointer or by value)"};

template <class U> static void temper(pbt::Case &c, Gen<U> &g, Spec<U> &s) {
    (void)s; for (size_t i = 0; i < g.tp.size(); i++) { g.tp[i] = W<U>::mk(c.u64(), c.u64()); } g.eff = g.tp;
}
template <class U> static void body(pbt::Case &c, int n) {
    const int w = W<U>::bits; auto sp = rnd_spec<U>(c, n, c.chance(4, 5)); int np = c.chance(1, 2) ? c.range(1, 3) : 0; for (int i = 0; i < np; i++) sp->sh.push_back(c.range(1, w - 1));
    Gen<U> g(sp); temper<U>(c, g, *sp); g.x = rnd_bv(c, n); bool zero = c.chance(1, 40); if (zero) g.setZero(); else if (c.chance(1, 12)) g.setOneBit((int)c.below((uint64_t)n));
    if (c.chance(1, 4)) g.setReverseOutput();
    int len = c.chance(1, 2) ? w : c.range(1, w); bool all = c.chance(2, 3);
    equi::Orbit<U> ob = equi::orbit_of<U>(g); int d = ob.rank(); int mexp = 0; switch (c.weighted({8, 4, 4, 2, 1})) { case 4: mexp = d > 1 ? c.range(1, d - 1) : 0; break; case 1: mexp = n; break; case 2: mexp = std::max(1, d); break; case 3: mexp = d + c.range(1, 50); break; default: break; }
    c.desc << " x=" << hexbv(g.x) << " rev=" << g.revflag << " len=" << len << " mexp=" << mexp; for (size_t i = 0; i < g.tp.size(); i++) c.desc << " sh" << sp->sh[i] << ":" << hex<U>(g.tp[i]); c.ready();
    std::vector<int> k = equi::all_k(ob, len); int size = mexp ? mexp : n, sum = 0, sumlow = 0; bool defect = false;
    for (int v = 1; v <= len; v++) { sum += size / v - k[(size_t)v - 1]; if (v < len) sumlow += size / v - k[(size_t)v - 1]; if (k[(size_t)v - 1] < d / v) defect = true; }
    c.label(W<U>::name()); c.label(all ? "get_all_equidist" : "get_equidist"); c.label(defect ? "defects" : "maximal"); c.label(d == n ? "full orbit" : "sub-orbit"); if (mexp == 0) c.label("default dimension"); if (g.revflag) c.label("reversed");
    if (d >= 4 && (defect || len >= 4)) c.nontrivial();
    BV before = g.x; std::vector<U> tpb = g.tp; bool revb = g.revflag;
    std::vector<int> veq((size_t)len + 4, -77); int got, gsum = -12345;
    bool over = false, threw = false; for (int v = 1; v <= len; v++) over = over || k[(size_t)v - 1] > size / v;
    try { Capture cap;
      if (mexp == 0 && c.coin()) { AlgorithmEquidistribution<U> ae(g, len); if (all) got = ae.get_all_equidist(veq.data() + 2); else got = ae.get_equidist(&gsum); }
      else { AlgorithmEquidistribution<U> ae(g, len, mexp); if (all) got = ae.get_all_equidist(veq.data() + 2); else got = ae.get_equidist(&gsum); } } catch (std::logic_error *e) { delete e; threw = true; } catch (std::logic_error &) { threw = true; }
    if (over) c.label("dimension too small"); PBT_REQUIRE(threw == over, (threw ? "a logic_error is thrown although no k(v) exceeds " : "no logic_error although some k(v) exceeds ") << size << "/v");
    PBT_REQUIRE(g.x == before && g.revflag == revb, "the generator passed in was modified");
    for (size_t i = 0; i < tpb.size(); i++) PBT_REQUIRE(W<U>::eq(tpb[i], g.tp[i]), "the tempering of the generator passed in was modified");
    if (over) return;
    if (all) {
        for (int v = 1; v <= len; v++) PBT_REQUIRE(veq[(size_t)v + 1] == k[(size_t)v - 1], "k(" << v << ") = " << veq[(size_t)v + 1] << ", by the rank definition " << k[(size_t)v - 1]);
        PBT_REQUIRE(veq[0] == -77 && veq[1] == -77 && veq[(size_t)len + 2] == -77 && veq[(size_t)len + 3] == -77, "wrote outside veq[0.." << len - 1 << "]");
        PBT_REQUIRE(got == sum, "the total defect is " << sum << ", returned " << got);
    } else {
        PBT_REQUIRE(got == k[(size_t)len - 1], "k(" << len << ") is " << k[(size_t)len - 1] << ", returned " << got);
        PBT_REQUIRE(gsum == sumlow, "the defect summed over v < " << len << " is " << sumlow << ", stored " << gsum);
    }
}
PBT_CHECK(small_any_width, 20000, 300000) {
    int n = c.chance(1, 8) ? c.range(1, 6) : c.range_log(2, 80);
    switch (c.weighted({1, 4, 3, 1})) { case 0: body<uint16_t>(c, n); break; case 1: body<uint32_t>(c, n); break; case 2: body<uint64_t>(c, n); break; default: body<w128_t>(c, n); }
}
PBT_CHECK(medium, 1600, 24000) { int n = c.range(80, 260); if (c.coin()) body<uint32_t>(c, n); else body<uint64_t>(c, n); }
PBT_CHECK(large, 100, 1200) { int n = c.range(260, c.thorough ? 900 : 560); if (c.coin()) body<uint32_t>(c, n); else body<uint64_t>(c, n); }
PBT_CHECK(larger, 6, 80) { int n = c.range(560, c.thorough ? 2300 : 1400); if (c.coin()) body<uint32_t>(c, n); else body<uint64_t>(c, n); }
