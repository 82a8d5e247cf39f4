// AlgorithmReducibleEquidistribution
#include "equi.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C04";
const char *pbt::property_rule = "A case is a reducible generator f*q (blocks or one companion matrix, f irreducible of degree mexp), output matrix, tempering and start state; every k(v), the defects and the single-width query are compared with the rank definition on the orbit of q(T)x. Non-trivial: deg q >= 1 and state dimension >= 4.";
std::vector<std::string> pbt::assumptions = {"the irreducible factor divides the characteristic polynomial seen from the start state", "mexp is its degree"};

template <class U> static Poly own_lcm(const Gen<U> &g) {
    Gen<U> o(g); int n = o.bitSize(); std::vector<U> u; for (int i = 0; i < 2 * n + 10; i++) u.push_back(o.generate());
    Poly l(1); for (int b = 0; b < W<U>::bits; b++) { std::vector<uint8_t> s; for (auto &x : u) s.push_back(W<U>::get(x, b)); l = gf2::lcm(l, gf2::berlekamp_massey(s)); } return l;
}
template <class U> static void red(pbt::Case &c) {
    int m = c.chance(1, 5) ? c.range(60, 130) : c.range_log(2, 60), r = c.range_log(0, 24); Poly f = irr(c, m); std::vector<Poly> ps = {f}; int left = r;
    while (left > 0) { int d = c.range(1, left); ps.push_back(c.coin() && d != m ? irr(c, d) : c.chance(1, 6) ? gf2::xpow(d) : rnd_poly(c, d, c.chance(3, 4))); left -= d; }
    bool rep = m <= 40 && c.chance(1, 6); if (rep) { ps.push_back(gf2::mul(f, f)); if (c.coin()) ps.erase(ps.begin()); } // f repeated: the component is still that of f itself
    if (c.coin()) { Poly h(1); for (auto &p : ps) h = gf2::mul(h, p); ps = {h}; } else std::rotate(ps.begin(), ps.begin() + (long)c.below(ps.size()), ps.end());
    auto sp = std::make_shared<Spec<U>>(); sp->T = std::make_shared<Blocks>(ps); int n = sp->T->n; const char *b; sp->B = rnd_rows<U>(c, n, c.weighted({5, 2, 3, 2, 2, 2, 1}), &b); sp->mexp = m; sp->sh = {c.range(1, W<U>::bits - 1)};
    Gen<U> g(sp); g.x = rnd_bv(c, n); g.tp[0] = W<U>::mk(c.u64(), c.u64()); g.eff = g.tp; int len = c.coin() ? W<U>::bits : c.range(1, W<U>::bits); bool all = c.chance(2, 3);
    c.desc << "U=" << W<U>::name() << " f=" << gf2::str(f) << " T=" << sp->T->what << " B=" << b << " x=" << hexbv(g.x) << " len=" << len; c.ready();
    Poly h = own_lcm<U>(g); if (gf2::mod(h, f).deg() >= 0) { c.label("factor not visible"); throw pbt::Discard(); }
    Poly q = gf2::quo(h, f); if (q.deg() >= 1 && n >= 4) c.nontrivial(); c.label(q.deg() >= 1 ? "reducible" : "irreducible"); c.label(W<U>::name()); if (!q.get(0)) c.label("singular recursion"); if (rep && gf2::mod(q, f).deg() < 0) c.label("f repeated");
    Gen<U> pr(g); BV res = gf2::bv((size_t)n), y = g.x; for (int i = 0; i <= q.deg(); i++) { if (q.get(i)) gf2::xorv(res, y); sp->T->step(y); } pr.x = res;
    equi::Orbit<U> ob = equi::orbit_of<U>(pr); std::vector<int> k = equi::all_k(ob, len); int sum = 0, low = 0; for (int v = 1; v <= len; v++) { sum += m / v - k[(size_t)v - 1]; if (v < len) low += m / v - k[(size_t)v - 1]; }
    std::vector<int> veq((size_t)len, -1); int got, gs = -5; BV bx = g.x;
    { Capture cap; AlgorithmReducibleEquidistribution<U, Gen<U>> ae(g, to_ntl(f), len, m); got = all ? ae.get_all_equidist(veq.data()) : ae.get_equidist(&gs); }
    PBT_REQUIRE(g.x == bx, "the generator passed in was modified");
    if (all) { for (int v = 1; v <= len; v++) PBT_REQUIRE(veq[(size_t)v - 1] == k[(size_t)v - 1], "k(" << v << ") = " << veq[(size_t)v - 1] << ", on the component of f it is " << k[(size_t)v - 1]); PBT_REQUIRE(got == sum, "total defect " << got << ", should be " << sum); }
    else { PBT_REQUIRE(got == k[(size_t)len - 1], "k(" << len << ") = " << got << ", should be " << k[(size_t)len - 1]); PBT_REQUIRE(gs == low, "defect over smaller widths " << gs << ", should be " << low); }
}
PBT_CHECK(reducible_equidistribution, 8000, 120000) { switch (c.weighted({4, 3, 1})) { case 0: red<uint32_t>(c); break; case 1: red<uint64_t>(c); break; default: red<w128_t>(c); } }
