// annihilate(), calcCharacteristicPolynomial()
#include "equi.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C06";
const char *pbt::property_rule = "A case is a generated GF(2)-linear generator with a start state and, for annihilate, a polynomial p; the result is compared with p(T)x, or with the least common multiple of our own per-bit minimal polynomials. Non-trivial: state dimension >= 4 and (p has at least two terms | the characteristic polynomial has degree >= 3).";
std::vector<std::string> pbt::assumptions = {"characteristic polynomial: invertible transition, the polynomial passed in is 1 or divides the result"};

template <class U> static Poly own_lcm(const Gen<U> &g) {
    Gen<U> o(g); int n = o.bitSize(); std::vector<U> u; for (int i = 0; i < 2 * n + 10; i++) u.push_back(o.generate());
    Poly l(1); for (int b = 0; b < W<U>::bits; b++) { std::vector<uint8_t> s; for (auto &x : u) s.push_back(W<U>::get(x, b)); l = gf2::lcm(l, gf2::berlekamp_massey(s)); } return l;
}
template <class U> static void ann(pbt::Case &c) {
    int n = c.chance(1, 6) ? c.range(100, 300) : c.range_log(1, 100); auto sp = rnd_spec<U>(c, n, c.chance(3, 4)); sp->sh.push_back(3); Gen<U> g(sp); g.x = rnd_bv(c, n); if (c.coin()) g.setReverseOutput(); g.parity = W<U>::mk(c.u64(), 0); g.tp[0] = W<U>::mk(c.u64(), c.u64()); if (c.coin()) g.eff = g.tp;
    Poly p; switch (c.weighted({1, 1, 6, 2, 2})) { case 0: break; case 1: p = Poly(1); break; case 2: p = rnd_poly(c, c.range_log(1, 2 * n + 5), c.coin()); break; case 3: p = gf2::xpow(c.range_log(0, 2 * n)); break; default: { auto *b = dynamic_cast<const Blocks *>(sp->T.get()); p = b ? b->p[(size_t)c.below(b->p.size())] : rnd_poly(c, n, true); } }
    c.desc << " x=" << hexbv(g.x) << " p=" << gf2::str(p); c.ready(); if (n >= 4 && p.weight() >= 2) c.nontrivial(); c.label(p.deg() < 0 ? "zero" : p.deg() == 0 ? "one" : p.deg() > n ? "degree > n" : "other");
    BV r = gf2::bv((size_t)n), y = g.x; for (int i = 0; i <= p.deg(); i++) { if (p.get(i)) gf2::xorv(r, y); sp->T->step(y); }
    Gen<U> before(g); annihilate<U>(&g, to_ntl(p));
    PBT_REQUIRE(g.x == r, "the state is " << hexbv(g.x) << ", p(T)x is " << hexbv(r));
    PBT_REQUIRE(g.revflag == before.revflag && W<U>::eq(g.parity, before.parity) && W<U>::eq(g.tp[0], before.tp[0]) && W<U>::eq(g.eff[0], before.eff[0]) && g.s == before.s, "annihilate changed parameters of the generator");
}
PBT_CHECK(annihilate_state, 40000, 400000) { switch (c.weighted({4, 3, 1})) { case 0: ann<uint32_t>(c); break; case 1: ann<uint64_t>(c); break; default: ann<w128_t>(c); } }

template <class U> static void chr(pbt::Case &c) {
    int n = c.chance(1, 6) ? c.range(60, 160) : c.range_log(1, 60); auto sp = rnd_spec<U>(c, n, true); Gen<U> g(sp); g.x = rnd_bv(c, n); if (c.chance(1, 10)) g.setOneBit((int)c.below((uint64_t)n));
    Poly truth = own_lcm<U>(g), in(1); int kind = c.weighted({4, 1, 1});
    if (kind == 1) { Gen<U> o(g); int b = c.range(0, W<U>::bits - 1); std::vector<uint8_t> s; for (int i = 0; i < 2 * n + 10; i++) s.push_back(W<U>::get(o.generate(), b)); in = gf2::berlekamp_massey(s); }
    if (kind == 2) in = truth;
    c.desc << " x=" << hexbv(g.x) << " in=" << gf2::str(in); c.ready(); if (n >= 4 && truth.deg() >= 3) c.nontrivial(); c.label(truth.deg() == n ? "full" : "smaller"); if (kind) c.label("non-trivial start");
    Gen<U> o(g); NTL::GF2X p = to_ntl(in); calcCharacteristicPolynomial(static_cast<ReducibleGenerator<U> *>(&o), p);
    PBT_REQUIRE(from_ntl(p) == truth, "calcCharacteristicPolynomial gives " << gf2::str(from_ntl(p)) << ", the LCM of the minimal polynomials of all bits is " << gf2::str(truth));
}
PBT_CHECK(characteristic_polynomial, 6000, 80000) { switch (c.weighted({4, 3, 1})) { case 0: chr<uint32_t>(c); break; case 1: chr<uint64_t>(c); break; default: chr<w128_t>(c); } }

// polynomials of far higher degree than the state has dimensions
template <class U> static void ann_long(pbt::Case &c) {
    int n = c.range(2, 70); auto sp = rnd_spec<U>(c, n, c.chance(3, 4)); Gen<U> g(sp); g.x = rnd_bv(c, n); int d = c.range_log(1000, c.thorough ? 400000 : 120000); uint64_t s = c.u64(), st = s; bool sparse = c.coin(); c.desc << " x=" << hexbv(g.x) << " p: degree " << d << (sparse ? ", sparse" : "") << ", seed " << s; c.ready(); c.nontrivial(); c.label(d > 65535 ? "degree > 65535" : "degree up to 65535");
    NTL::GF2X p; NTL::SetCoeff(p, d); for (int i = 0; i < d; i++) if (sparse ? pbt::splitmix(st) % 5000 == 0 : pbt::splitmix(st) & 1) NTL::SetCoeff(p, i);
    BV r = gf2::bv((size_t)n), y = g.x; for (int i = 0; i <= d; i++) { if (NTL::IsOne(NTL::coeff(p, i))) gf2::xorv(r, y); sp->T->step(y); } annihilate<U>(&g, p); PBT_REQUIRE(g.x == r, "the state is " << hexbv(g.x) << ", p(T)x is " << hexbv(r));
}
PBT_CHECK(annihilate_long, 60, 600) { switch (c.weighted({4, 3, 1})) { case 0: ann_long<uint32_t>(c); break; case 1: ann_long<uint64_t>(c); break; default: ann_long<w128_t>(c); } }
