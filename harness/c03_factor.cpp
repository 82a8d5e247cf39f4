// hasFactorOfDegree(): extraction of the large irreducible factor
#include "gens.hpp"
#include "fields.hpp"
#include <MTToolBox/period.hpp>
using namespace gens;
const char *pbt::property_id = "C03";
const char *pbt::property_rule = "A case is a polynomial of degree < 2*d built from known factors (or random) and the degree d asked for; the truth comes from our own distinct-degree factorisation. Non-trivial: degree of the polynomial >= d + 1.";
std::vector<std::string> pbt::assumptions = {"deg(poly) < 2*degree, as for every caller (one large factor), degree >= 2"};
static Poly small_part(pbt::Case &c, int maxdeg, std::string &what, bool big = false) { // a product of small factors, repeats allowed; with big, the first one takes half of the room or more
    Poly r(1); int left = maxdeg;
    for (int i = 0; i < 6 && left > 0; i++) {
        int d = big && i == 0 ? c.range((left + 1) / 2, left) : c.range_log(1, std::min(left, 12)); Poly q = big && i == 0 ? irr(c, d) : c.chance(1, 5) ? Poly(2) : c.chance(1, 5) ? Poly(3) : irr(c, d); int m = c.chance(1, 4) ? c.range(2, 5) : 1;
        for (int k = 0; k < m && q.deg() <= left; k++) { r = gf2::mul(r, q); left -= q.deg(); what += "(" + gf2::str(q) + ")"; } if (c.chance(1, 3)) break;
    }
    return r;
}
static void judge(pbt::Case &c, const Poly &f, int d, bool truth, const Poly &factor) {
    NTL::GF2X p = to_ntl(f); bool r = MTToolBox::hasFactorOfDegree(p, d); c.label(truth ? "has" : "has not"); if (f.deg() >= d + 1) c.nontrivial();
    PBT_REQUIRE(r == truth, "hasFactorOfDegree(" << d << ") returns " << r);
    if (truth) PBT_REQUIRE(from_ntl(p) == factor, "the polynomial left is " << gf2::str(from_ntl(p)) << ", the irreducible factor of degree " << d << " is " << gf2::str(factor));
}
PBT_CHECK(constructed, 50000, 600000) {
    int d = c.range_log(2, 110); Poly big; std::string what; bool truth = true;
    int kind = c.weighted({5, 2, 2, 1}); // irreducible / product of two / irreducible of another degree / square
    switch (kind) { case 0: big = irr(c, d); break;
    case 1: { int k = c.range(1, d - 1); big = gf2::mul(irr(c, k), irr(c, d - k)); truth = false; break; }
    case 2: { int e = c.range(1, 2 * d - 1); if (e == d) e = d > 2 ? d - 1 : 1; big = irr(c, e); truth = false; break; }
    default: { int k = std::max(1, d / 2); big = gf2::sqr(irr(c, k)); truth = false; } }
    int room = 2 * d - 1 - big.deg(); bool large = c.chance(1, 4); Poly s = room > 0 && c.chance(5, 6) ? small_part(c, large ? std::min(room, d - 1) : c.range_log(0, std::min(room, d - 1)), what, large) : Poly(1); if (large && s.deg() >= 60) c.label("cofactor of degree 60 or more");
    Poly f = gf2::mul(big, s); if (f.deg() >= 2 * d) throw pbt::Discard();
    // small factors of degree < d only, so the truth is known unless two halves of kind 2/3 add up; confirm with our factorisation
    Poly fac; bool t2 = false; for (auto &x : gf2::ddf(f)) if (x.first == d) { t2 = true; fac = x.second; }
    c.desc << "degree " << d << " f=(" << gf2::str(big) << ") * " << (what.empty() ? "1" : what); c.ready(); c.label(kind == 0 ? "irreducible * small" : kind == 1 ? "product" : kind == 2 ? "other degree" : "square");
    if (truth) PBT_REQUIRE(t2 && fac == big, "harness: factorisation disagrees with the construction");
    judge(c, f, d, t2, fac);
}
PBT_CHECK(random, 20000, 250000) {
    int d = c.range_log(2, 60), n = c.chance(1, 8) ? c.range(0, d - 1) : c.range(d, 2 * d - 1); Poly f = n == 0 ? Poly(c.below(2)) : rnd_poly(c, n, c.chance(3, 4)); c.desc << "degree " << d << " f=" << gf2::str(f); c.ready();
    Poly fac; bool t = false; for (auto &x : gf2::ddf(f)) if (x.first == d) { t = true; fac = x.second; } if (f.deg() < d) c.label("degree too small"); judge(c, f, d, t, fac);
}
PBT_CHECK(large, 300, 2000) {
    Poly g; int d; if (c.chance(1, 3)) { auto t = fields::mersenne_trinomials()[(size_t)c.below(c.thorough ? 3 : 2)]; d = t.first; g.set(d); g.set(t.second); g.set(0); } else { const fields::PP &P = c.pick(fields::primitive_table()); d = P.n; g = fields::table_poly(P); }
    Poly e; e.w = rnd_bv(c, d); e.norm(); if (e.deg() < 1) e = gf2::xpow(1); Poly f = fields::minpoly_of(e, g); std::string what; bool truth = f.deg() == d; if (c.chance(1, 4)) { int j = c.range(1, d - 1); f.set(j, !f.get(j)); truth = false; }
    Poly s = small_part(c, c.range(0, 60), what); c.desc << "degree " << d << " f=(" << gf2::str(f) << ") * " << what; c.ready();
    if (f.deg() != d) throw pbt::Discard();
    judge(c, gf2::mul(f, s), d, truth, f);
}
// a cofactor that is irreducible of a large degree itself: the distinct-degree loop has to run that far
static Poly table_irr(pbt::Case &c, int lo, int hi, std::string &what) {
    std::vector<Poly> v; for (auto &P : fields::primitive_table()) if (P.n >= lo && P.n <= hi) v.push_back(fields::table_poly(P)); for (auto &t : fields::mersenne_trinomials()) if (t.second && t.first >= lo && t.first <= hi) { Poly g; g.set(t.first); g.set(t.second); g.set(0); v.push_back(g); }
    if (v.empty()) throw pbt::Discard(); const Poly &g = v[(size_t)c.below(v.size())]; Poly e; e.w = rnd_bv(c, g.deg()); e.norm(); if (e.deg() < 1) e = gf2::xpow(1); Poly f = fields::minpoly_of(e, g); if (f.deg() != g.deg()) throw pbt::Discard(); what += "(" + gf2::str(f) + ")"; return f;
}
PBT_CHECK(large_cofactor, 120, 1200) {
    std::string what; int top = c.thorough ? 1279 : 607; bool has = c.chance(3, 4); Poly big = table_irr(c, 160, top, what); int d = big.deg(); Poly cof;
    if (c.chance(1, 2)) cof = table_irr(c, 128, d - 1, what); else { int k = c.range(13, std::min(d - 1, 110)); cof = irr(c, k); what += "(" + gf2::str(cof) + ")"; }
    int room = 2 * d - 1 - d - cof.deg(); Poly f = gf2::mul(big, cof); if (room > 0 && c.coin()) { std::string w2; Poly s = small_part(c, std::min(room, 40), w2); f = gf2::mul(f, s); what += w2; }
    if (!has) { d = c.coin() ? cof.deg() + c.range(1, d - cof.deg() - 1 > 0 ? d - cof.deg() - 1 : 1) : d + c.range(1, 5); if (f.deg() >= 2 * d || d <= cof.deg() || d == big.deg()) throw pbt::Discard(); }
    c.desc << "degree " << d << " f=" << what; c.ready(); c.label(cof.deg() >= 128 ? "cofactor of degree 128 or more" : cof.deg() >= 64 ? "cofactor of degree 64..127" : "cofactor below 64"); judge(c, f, d, has, big);
}
