// irreducibility and primitivity decisions
#include "gens.hpp"
#include "fields.hpp"
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C02";
const char *pbt::property_rule = "A case is a polynomial over GF(2) with constructed or independently decided status (primitive / irreducible but not primitive, missing exactly one chosen prime of 2^n-1 / product / random), given to every decision function with right and wrong degrees; or a degree for isMexp; or one shipped factor table. Non-trivial: polynomial of degree >= 4 that is irreducible or has no root, a Mersenne exponent or a neighbour of one, or a table.";
std::vector<std::string> pbt::assumptions = {"prime factor lists passed in are complete", "degree >= 2; isPrime(poly) and MersennePrimitivity are judged on Mersenne-exponent degrees (isPrime(poly) must be false elsewhere)"};

struct Tables { std::map<int, const char **> t; Tables() {
#define T_(n) t[n] = prime_factors2_##n##_1
    T_(128); T_(160); T_(192); T_(224); T_(256); T_(288); T_(320); T_(352); T_(384); T_(416); T_(448); T_(480); T_(512); T_(544); T_(640); T_(800); T_(960);
} };
static Tables TB;

// every decision function against the known status
static void judge(pbt::Case &c, const Poly &f, bool irr, bool prim, const std::vector<std::string> &primes, const char **shipped) {
    NTL::GF2X p = to_ntl(f); int n = f.deg(); bool mx = fields::is_mexp((unsigned)n); int wrong = n + (c.coin() ? 1 : -1) * c.range(1, 5);
    PBT_REQUIRE(MTToolBox::isIrreducible(p) == irr, "isIrreducible is wrong; truth " << irr);
    if (n >= 2) PBT_REQUIRE(MTToolBox::isPrime(p) == (irr && mx), "isPrime(poly) is wrong; irreducible " << irr << " Mersenne degree " << mx);
    if (n < 2) return;
    NTL::Vec<NTL::ZZ> zz; std::vector<std::string> pr = primes; size_t rot = pr.empty() ? 0 : (size_t)c.below(pr.size()); std::rotate(pr.begin(), pr.begin() + (long)rot, pr.end());
    if (!pr.empty() && c.chance(1, 4)) pr.push_back(pr[0]); // a repeated prime is allowed
    zz.SetLength((long)pr.size()); std::vector<const char *> cs; for (size_t i = 0; i < pr.size(); i++) { zz[(long)i] = NTL::to_ZZ(pr[i].c_str()); cs.push_back(pr[i].c_str()); } cs.push_back(nullptr);
    PBT_REQUIRE(MTToolBox::isPrime(p, n, zz) == prim, "isPrime(poly, degree, ZZ list) is wrong; truth " << prim);
    PBT_REQUIRE(MTToolBox::isPrime(p, n, cs.data()) == prim, "isPrime(poly, degree, string list) is wrong; truth " << prim);
    PBT_REQUIRE(!MTToolBox::isPrime(p, wrong, zz), "isPrime(ZZ list) accepts the wrong degree " << wrong);
    PBT_REQUIRE(!MTToolBox::isPrime(p, wrong, cs.data()), "isPrime(string list) accepts the wrong degree " << wrong);
    AlgorithmPrimitivity ap(cs.data()); PBT_REQUIRE(ap(n, p) == prim, "AlgorithmPrimitivity(list) is wrong; truth " << prim); PBT_REQUIRE(!ap(wrong, p), "AlgorithmPrimitivity accepts the wrong degree " << wrong);
    PBT_REQUIRE(ap(n, p) == prim, "AlgorithmPrimitivity gives a different answer when asked again; truth " << prim);
    if (shipped) {
        AlgorithmPrimitivity as(shipped); PBT_REQUIRE(as(n, p) == prim, "AlgorithmPrimitivity(shipped table 2^" << n << "-1) is wrong; truth " << prim);
        PBT_REQUIRE(MTToolBox::isPrime(p, n, shipped) == prim, "isPrime(shipped table 2^" << n << "-1) is wrong; truth " << prim);
    }
    if (mx) { PBT_REQUIRE(MersennePrimitivity(n, p) == irr, "MersennePrimitivity is wrong; truth " << irr); AlgorithmPrimitivity d; PBT_REQUIRE(d(n, p) == irr, "AlgorithmPrimitivity() is wrong; truth " << irr); }
    PBT_REQUIRE(!MersennePrimitivity(wrong, p), "MersennePrimitivity accepts the wrong degree");
}
PBT_CHECK(small_degrees, 25000, 200000) {
    int n = c.chance(1, 3) ? c.range(2, 12) : c.range(2, 100); if (c.chance(1, 4)) { static const std::vector<int> m = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89}; n = c.pick(m); }
    Poly f; int kind = c.weighted({3, 4, 3, 2, 2, 1}); const char *nm[] = {"random", "irreducible", "power of a root", "product", "square", "no roots"};
    if (kind == 2 && fields::is_mexp((unsigned)n)) n++; // 2^n-1 is prime: nothing to miss
    const std::vector<std::string> &pr = mersenne_factors().at(n);
    switch (kind) {
    case 0: f = rnd_poly(c, n, c.chance(5, 6)); break;
    case 1: f = irr(c, n); break;
    case 2: { // minimal polynomial of the p-th power of a root
        Poly g = irr(c, n); fields::Z e(c.pick(pr).c_str()); f = fields::minpoly_of(gf2::powmod(gf2::xpow(1), fields::bits(e), g), g); break; }
    case 3: { int k = c.range(1, n / 2); f = gf2::mul(irr(c, k), irr(c, n - k)); break; }
    case 4: { int k = std::max(1, n / 2); f = gf2::sqr(irr(c, k)); break; }
    default: do { f = rnd_poly(c, n, true); if (f.weight() % 2 == 0) f.set(1, !f.get(1)); } while (f.deg() < 1);
    }
    if (c.chance(1, 60)) { f = Poly(c.below(4)); } // 0, 1, x, x+1
    c.desc << nm[kind] << " " << gf2::str(f); c.ready();
    int d = f.deg(); if (d < 1) { PBT_REQUIRE(!MTToolBox::isIrreducible(to_ntl(f)), "a constant is not irreducible"); c.label("constant"); return; }
    bool ir = gf2::irreducible(f); static const std::vector<std::string> none; const auto &pd = d >= 2 ? mersenne_factors().at(d) : none; bool pm = ir && d >= 2 && fields::primitive(f, pd);
    c.label(nm[kind]); c.label(pm ? "primitive" : ir ? "irreducible, not primitive" : "reducible"); if (fields::is_mexp((unsigned)d)) c.label("Mersenne degree");
    if (d >= 4 && (ir || (f.get(0) && f.weight() % 2))) c.nontrivial();
    judge(c, f, ir, pm, pd, nullptr);
}
PBT_CHECK(table_degrees, 600, 6000) {
    const fields::PP &P = c.pick(fields::primitive_table()); Poly g = fields::table_poly(P); const char **tab = TB.t[P.n];
    std::vector<std::string> pr; for (int i = 0; tab[i]; i++) pr.push_back(tab[i]);
    // a random power r of a primitive element, times at most one prime of 2^n-1
    fields::Z N = fields::mersenne(P.n), r, gg; mpz_set_ui(r.v, (unsigned long)(c.below(1 << 20) * 2 + 1)); mpz_gcd(gg.v, r.v, N.v);
    while (mpz_cmp_ui(gg.v, 1)) { mpz_divexact(r.v, r.v, gg.v); mpz_gcd(gg.v, r.v, N.v); }
    int kind = c.weighted({2, 5, 1}); std::string p;
    if (kind == 1) { p = c.pick(pr); fields::Z q(p.c_str()); mpz_mul(r.v, r.v, q.v); }
    Poly f = fields::minpoly_of(gf2::powmod(gf2::xpow(1), fields::bits(r), g), g);
    if (kind == 2) { int k = c.range(1, 20); f = gf2::mul(irr(c, k), irr(c, P.n - k > 100 ? 60 : P.n - k)); }
    c.desc << "degree " << P.n << (kind == 0 ? " primitive" : kind == 1 ? " order (2^n-1)/" + p : std::string(" product")) << " " << gf2::str(f); c.ready();
    c.label(kind == 0 ? "primitive" : kind == 1 ? "misses one prime" : "reducible"); c.label("degree " + std::to_string(P.n));
    if (kind == 2) { // a degree mismatch with the table as well
        PBT_REQUIRE(!AlgorithmPrimitivity(tab)(P.n, to_ntl(f)), "a product is accepted"); PBT_REQUIRE(!MTToolBox::isPrime(to_ntl(f), f.deg(), tab), "a product is accepted"); return;
    }
    c.nontrivial(); if (f.deg() != P.n) { c.label("root lies in a subfield"); PBT_REQUIRE(!AlgorithmPrimitivity(tab)(P.n, to_ntl(f)), "wrong degree is accepted"); return; }
    judge(c, f, true, kind == 0, pr, tab);
}
PBT_CHECK(large_mersenne, 24, 60) { // degrees 521, 607, 1279: irreducible iff primitive
    auto t = fields::mersenne_trinomials()[(size_t)c.below(c.thorough ? 3 : 2)]; Poly g; g.set(t.first); g.set(t.second); g.set(0);
    Poly e; e.w = rnd_bv(c, t.first); e.norm(); if (e.deg() < 1) e = gf2::xpow(1); Poly f = fields::minpoly_of(e, g); bool ir = true;
    if (c.chance(1, 3)) { int j = c.range(1, t.first - 1); f.set(j, !f.get(j)); ir = false; } // even weight or not: x+1 divides it now
    c.desc << "degree " << t.first << " " << gf2::str(f); c.ready(); c.nontrivial(); c.label(ir ? "primitive" : "divisible by x+1"); c.label("degree " + std::to_string(t.first));
    fields::Z N = fields::mersenne(t.first); char *s = mpz_get_str(nullptr, 10, N.v); std::vector<std::string> pr = {s}; free(s);
    judge(c, f, ir, ir, pr, nullptr);
}
PBT_CHECK(is_mexp, 4000, 60000) {
    unsigned d; switch (c.weighted({2, 2, 2, 1, 1})) { case 0: d = (unsigned)c.below(5000); break; case 1: d = fields::mexps()[(size_t)c.below(40)]; break;
    case 2: d = fields::mexps()[(size_t)c.below(40)] + (unsigned)c.below(5) - 2u; break; case 3: d = (unsigned)c.below(20996011); break; default: d = (unsigned)c.word(); }
    c.desc << "isMexp(" << d << ")"; c.ready(); bool t = fields::is_mexp(d), r = isMexp(d); for (unsigned x : fields::mexps()) if (x - d + 2u <= 4u) c.nontrivial(); c.label(t ? "exponent" : "not an exponent");
    if (d <= 20996011u) PBT_REQUIRE(r == t, "isMexp is wrong for " << d << "; truth " << t); // the documentation calls the list incomplete: larger exponents may be missing
    else PBT_REQUIRE(!r || t, "isMexp accepts " << d);
}
PBT_CHECK(factor_tables, 60, 200) { // enumerates the 17 tables (several times)
    auto it = TB.t.begin(); std::advance(it, (long)c.below(TB.t.size())); int n = it->first; const char **tab = it->second; c.desc << "prime_factors2_" << n << "_1"; c.ready(); c.nontrivial();
    fields::Z N = fields::mersenne(n), m = N; int k = 0;
    for (; tab[k]; k++) {
        fields::Z p; PBT_REQUIRE(mpz_set_str(p.v, tab[k], 10) == 0, "entry " << k << " is no number: " << tab[k]); PBT_REQUIRE(mpz_probab_prime_p(p.v, 30), "entry is not prime: " << tab[k]);
        PBT_REQUIRE(mpz_divisible_p(N.v, p.v), "entry does not divide 2^" << n << "-1: " << tab[k]); while (mpz_divisible_p(m.v, p.v)) mpz_divexact(m.v, m.v, p.v);
    }
    char *s = mpz_get_str(nullptr, 10, m.v); std::string ms = s; free(s); PBT_REQUIRE(ms == "1", "the table misses primes of 2^" << n << "-1; remaining cofactor " << ms);
}
