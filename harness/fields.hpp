// GF(2^n) fixtures for the oracle: primitive polynomials of the degrees for which
// MTToolBox ships factor tables (found and verified offline), known Mersenne exponents,
// exponentiation with big integers (GMP).
#ifndef FIELDS_HPP
#define FIELDS_HPP
#include "gf2.hpp"
#include "mersenne_factors.hpp"
#include <gmp.h>
#include <cstring>
namespace fields {
using gf2::Poly;
struct PP { int n; int t[4]; };
inline const std::vector<PP> &primitive_table() {
    static const std::vector<PP> v = {
        {128, {7, 2, 1, 0}}, {160, {15, 5, 1, 0}}, {192, {15, 11, 5, 0}}, {224, {12, 7, 2, 0}}, {256, {10, 5, 2, 0}}, {288, {11, 10, 1, 0}},
        {320, {8, 3, 2, 0}}, {352, {13, 11, 6, 0}}, {384, {16, 15, 6, 0}}, {416, {9, 5, 2, 0}}, {448, {11, 6, 4, 0}}, {480, {16, 13, 7, 0}},
        {512, {8, 5, 2, 0}}, {544, {13, 9, 6, 0}}, {640, {14, 3, 2, 0}}, {800, {14, 9, 6, 0}}, {960, {13, 9, 6, 0}}};
    return v;
}
inline Poly table_poly(const PP &p) { Poly f; f.set(p.n); for (int e : p.t) f.set(e); return f; }
// trinomials x^p+x^k+1, primitive because p is a Mersenne exponent
inline const std::vector<std::pair<int, int>> &mersenne_trinomials() { static const std::vector<std::pair<int, int>> v = {{521, 32}, {607, 105}, {1279, 216}, {2203, 0}, {2281, 715}, {3217, 67}}; return v; }
inline const std::vector<unsigned> &mexps() { // exponents of the Mersenne primes (OEIS A000043)
    static const std::vector<unsigned> v = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503,
        132049, 216091, 756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011, 24036583, 25964951, 30402457, 32582657, 37156667, 42643801, 43112609, 57885161, 74207281,
        77232917, 82589933, 136279841};
    return v;
}
inline bool is_mexp(unsigned d) { for (unsigned x : mexps()) if (x == d) return true; return false; }
struct Z { mpz_t v; Z() { mpz_init(v); } explicit Z(const char *s) { mpz_init_set_str(v, s, 10); } Z(const Z &o) { mpz_init_set(v, o.v); } Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; } ~Z() { mpz_clear(v); } };
inline Z mersenne(int n) { Z r; mpz_set_ui(r.v, 1); mpz_mul_2exp(r.v, r.v, (mp_bitcnt_t)n); mpz_sub_ui(r.v, r.v, 1); return r; }
inline std::vector<bool> bits(const Z &e) { std::vector<bool> b; if (mpz_sgn(e.v) == 0) return b; for (size_t i = mpz_sizeinbase(e.v, 2); i-- > 0;) b.push_back(mpz_tstbit(e.v, i)); return b; }
// multiplicative order of x mod f (f irreducible of degree n) is 2^n-1
inline bool primitive(const Poly &f, const std::vector<std::string> &primes) {
    int n = f.deg(); Z N = mersenne(n); for (auto &s : primes) { Z p(s.c_str()), q; mpz_divexact(q.v, N.v, p.v); if (gf2::powmod(gf2::xpow(1), bits(q), f).isone()) return false; } return true;
}
// minimal polynomial of the element e of GF(2)[x]/f
inline Poly minpoly_of(const Poly &e, const Poly &f) {
    int n = f.deg(); std::vector<uint8_t> s; Poly t = gf2::mod(Poly(1), f); gf2::BV h = gf2::bv((size_t)n);
    uint64_t z = 88172645463325252ULL; for (auto &w : h) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; w = z; } // a fixed linear functional
    for (int i = 0; i < 2 * n; i++) { s.push_back(gf2::dot(t.w, h)); t = gf2::mulmod(t, e, f); }
    return gf2::berlekamp_massey(s);
}
} // namespace fields
#endif
