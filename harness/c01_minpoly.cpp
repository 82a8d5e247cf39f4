// minpoly(): the exact minimal polynomial of the chosen output bit
#include "gens.hpp"
#include <MTToolBox/period.hpp>
using namespace gens;
const char *pbt::property_id = "C01";
const char *pbt::property_rule = "A case is a generated GF(2)-linear generator (transition, output matrix, start state), a bit position and optionally an explicit state size; it is non-trivial when the minimal polynomial has degree >= 3.";
std::vector<std::string> pbt::assumptions = {"the linear complexity of the bit sequence does not exceed the state size given"};

// a generator that does not know its own size: only an explicit size argument is right for it
template <class U> struct Misinformed : Gen<U> { int said; Misinformed(const Gen<U> &o, int s) : Gen<U>(o), said(s) {} int bitSize() const override { return said; } Misinformed *clone() const override { return new Misinformed(*this); } };
template <class U> static void body(pbt::Case &c, int n) {
    auto sp = rnd_spec<U>(c, n, c.chance(1, 2));
    Gen<U> g(sp); g.x = rnd_bv(c, n);
    if (c.chance(1, 10)) { g.setZero(); if (c.coin()) g.setOneBit((int)c.below((uint64_t)n)); }
    int skip = c.range(0, 3); for (int i = 0; i < skip; i++) g.generate();
    int pos = c.range(0, W<U>::bits - 1); int mode = c.weighted({5, 2, 2, 1}); // default size, larger, tight, explicit 0
    bool defpos = pos == 0 && mode == 0;
    c.desc << " x=" << hexbv(g.x) << " pos=" << pos << " mode=" << mode; c.ready();
    Gen<U> o(g); std::vector<uint8_t> seq; for (int i = 0; i < 2 * n + 70; i++) seq.push_back(W<U>::get(o.generate(), pos));
    Poly m = gf2::berlekamp_massey(seq);
    int size = 0;
    switch (mode) { case 1: size = n + c.range(1, 40); break; case 2: size = std::max(1, m.deg()) + c.range(0, 2); break; default: break; }
    NTL::GF2X p; NTL::SetCoeff(p, 5); // stale content must not matter
    if (size > 0 && c.chance(1, 3)) { Misinformed<U> w(g, c.range(1, n)); c.desc << " bitSize() says " << w.said; c.label("explicit size differs from bitSize()"); MTToolBox::minpoly(p, w, pos, size); }
    else if (defpos && c.coin()) MTToolBox::minpoly(p, g); else if (mode == 0 && c.coin()) MTToolBox::minpoly(p, g, pos); else MTToolBox::minpoly(p, g, pos, size);
    Poly r = from_ntl(p);
    c.label(m.deg() == n ? "full degree" : m.deg() == 0 ? "zero sequence" : "smaller degree");
    c.label(mode == 0 ? "default size" : mode == 1 ? "larger size" : mode == 2 ? "tight size" : "explicit 0"); c.label(W<U>::name());
    if (!m.get(0)) c.label("divisible by x");
    if (m.deg() >= 3) c.nontrivial();
    PBT_REQUIRE(r == m, "minpoly gives " << gf2::str(r) << ", the minimal polynomial of the sequence is " << gf2::str(m));
}
PBT_CHECK(small_any_width, 9000, 150000) {
    int n = c.chance(1, 8) ? c.range(1, 4) : c.range_log(2, 90);
    switch (c.weighted({1, 4, 3, 2})) { case 0: body<uint16_t>(c, n); break; case 1: body<uint32_t>(c, n); break; case 2: body<uint64_t>(c, n); break; default: body<w128_t>(c, n); }
}
PBT_CHECK(large, 160, 1500) {
    int n = c.range(200, c.thorough ? 1300 : 640); c.label("large");
    if (c.coin()) body<uint32_t>(c, n); else body<uint64_t>(c, n);
}
