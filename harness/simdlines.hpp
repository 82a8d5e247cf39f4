// What the programs of sfmtdc and dSFMTdc say about a parameter set, computed independently
#ifndef SIMDLINES_HPP
#define SIMDLINES_HPP
#include "equi.hpp"
#include "lanes.hpp"
#include "sfmtmodel.hpp"
namespace simd {
using sm::W; using sm::Sfmt; using sm::Dsfmt; using gf2::BV; using gf2::Poly;
static const uint64_t M52 = (UINT64_C(1) << 52) - 1, ONE = UINT64_C(0x3ff0000000000000);
inline std::string text(const Sfmt &m, bool parity = true) { std::ostringstream o; char b[20]; o << m.mexp << "," << m.pos1 << "," << m.sl1 << "," << m.sl2 << "," << m.sr1 << "," << m.sr2 << ","; for (int i = 0; i < (parity ? 8 : 4); i++) { snprintf(b, 20, "%08x,", i < 4 ? m.msk.u(i) : m.parity.u(i - 4)); o << b; } return o.str(); }
inline std::string text(const Dsfmt &m, int groups = 3) { std::ostringstream o; char b[20]; o << m.mexp << "," << m.pos1 << "," << m.sl1 << ","; const uint64_t *g[3] = {m.msk, m.fix, m.parity}; for (int k = 0; k < groups; k++) for (int i = 0; i < 2; i++) { snprintf(b, 20, "%016llx,", (unsigned long long)g[k][i]); o << b; } return o.str(); }
// reads the fields and whatever follows them
inline bool parse(const std::string &s, Sfmt &m, std::string *rest) { unsigned k[4], p[4]; int n = -1; if (sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d,%8x,%8x,%8x,%8x,%8x,%8x,%8x,%8x,%n", &m.mexp, &m.pos1, &m.sl1, &m.sl2, &m.sr1, &m.sr2, k, k + 1, k + 2, k + 3, p, p + 1, p + 2, p + 3, &n) != 14 || n < 0) return false; for (int i = 0; i < 4; i++) { m.msk.set(i, k[i]); m.parity.set(i, p[i]); } if (m.mexp < 128 || m.mexp > 300000) return false; m.s.resize((size_t)Sfmt::words(m.mexp)); if (rest) *rest = s.substr((size_t)n); return text(m) == s.substr(0, (size_t)n); }
inline bool parse(const std::string &s, Dsfmt &m, std::string *rest) { unsigned long long k[6]; int n = -1; if (sscanf(s.c_str(), "%d,%d,%d,%16llx,%16llx,%16llx,%16llx,%16llx,%16llx,%n", &m.mexp, &m.pos1, &m.sl1, k, k + 1, k + 2, k + 3, k + 4, k + 5, &n) != 9 || n < 0) return false; for (int i = 0; i < 2; i++) { m.msk[i] = k[i]; m.fix[i] = k[2 + i]; m.parity[i] = k[4 + i]; } if (m.mexp < 232 || m.mexp > 300000) return false; m.s.resize((size_t)Dsfmt::words(m.mexp)); if (rest) *rest = s.substr((size_t)n); return text(m) == s.substr(0, (size_t)n); }
template <class M> struct Component { // of the irreducible factor f of degree mexp
    Poly chi, f, q; bool ok = false, repeated = false; M start; // a state of the component
    explicit Component(const M &m, uint64_t st = 1) : start(m) {
        chi = sm::minpoly_T(m, st); if (!sm::big_factor(chi, m.mexp, m.mexp, &f)) return; ok = true; q = gf2::quo(chi, f); repeated = gf2::gcd(q, f).deg() > 0;
        for (int i = 0; i < 100; i++) { BV y = sm::apply(m, q, sm::rnd_state(m, st)); if (!gf2::zero(y)) { start.from(y); break; } } start.prev = W();
    }
};
inline int seen(const Sfmt &m) { return (int)(m.s.back().l & 1); }
inline int seen(const Dsfmt &m) { return (int)(m.lung.l & 1); }
// sequences of one bit show the whole recursion
template <class M> bool visible(const M &m, const Poly &chi, uint64_t &st) {
    Poly l(1); for (int k = 0; k < 12 && l.deg() < chi.deg(); k++) { M t = m; t.from(sm::rnd_state(m, st)); std::vector<uint8_t> z; for (int i = 0; i < 2 * m.bits(); i++) { t.step(); z.push_back((uint8_t)seen(t)); } Poly b = gf2::berlekamp_massey(z); if (b.deg() > 0) l = gf2::mul(l, gf2::quo(b, gf2::gcd(b, l))); } return l.deg() == chi.deg();
}
inline uint64_t lane(const W &a, int i, int bits) { return bits == 32 ? a.u(i) : i ? a.h : a.l; }
// k(1..bits) of the words of `bits` bits of the component, as the SIMD algorithm defines it
template <class M> std::vector<int> words_k(const M &start, int bits, int dim, bool lsb, int from = 0) {
    M m = start; int E = bits == 32 ? 4 : 2; const uint64_t mask = bits == 64 ? ~UINT64_C(0) : (UINT64_C(1) << bits) - 1; (void)dim;
    lanes::Stream st(E, bits, m.bits(), [&]() { W b = m.raw(); std::vector<uint64_t> o; for (int i = 0; i < E; i++) { uint64_t x = lane(b, i, bits) & mask; o.push_back(lsb ? lanes::rev(x, bits) : x); } return o; });
    std::vector<int> k; int t; for (int v = 1; v <= bits; v++) k.push_back(v > from ? st.k(v, &t) : -1); return k;
}
inline std::vector<int> block_k(const Sfmt &start, int dim, bool lsb) { Sfmt m = start; equi::Orbit<MTToolBox::w128_t> o(dim, dim, [&]() { W b = m.raw(); MTToolBox::w128_t x = gens::W<MTToolBox::w128_t>::mk(b.l, b.h); return lsb ? gens::rev<MTToolBox::w128_t>(x) : x; }); return equi::all_k(o, 128); }
inline int defect(const std::vector<int> &k, int mexp) { int d = 0; for (size_t v = 1; v <= k.size(); v++) d += mexp / (int)v - k[v - 1]; return d; }
// parity words of the states without f component
inline std::vector<BV> excluded(const Sfmt &m, const Poly &f) { gf2::Echelon e((size_t)128); for (int b = 0; b < m.bits() && e.rank() < 128; b++) { BV u((size_t)2 * m.s.size(), 0); gf2::setbit(u, (size_t)b); BV z = sm::apply(m, f, u); e.insert(BV(z.end() - 2, z.end())); } return e.rows; }
inline std::vector<BV> excluded(const Dsfmt &m, const Poly &f) { int n = (int)m.s.size(); gf2::Echelon e((size_t)128); for (int b = 0; b < m.bits() && e.rank() < 128; b++) { Dsfmt t = m; t.zero(); if (b < 104 * n) { (b % 104 < 52 ? t.s[(size_t)(b / 104)].l : t.s[(size_t)(b / 104)].h) = UINT64_C(1) << (b % 52); } else (b - 104 * n < 64 ? t.lung.l : t.lung.h) = UINT64_C(1) << ((b - 104 * n) % 64); BV u = sm::apply(m, f, t.vec()); e.insert(BV(u.end() - 2, u.end())); } return e.rows; }
inline BV sub(const BV &a, const BV &b) { BV r = a; gf2::xorv(r, b); return r; }
// the fix point of the long-period component of the affine recursion (of the real 64-bit words)
inline BV fixpoint(const Dsfmt &m, const Component<Dsfmt> &c) {
    Dsfmt k = m; k.zero(); for (auto &x : k.s) { x.l |= ONE; x.h |= ONE; } k.step(); for (auto &x : k.s) { x.l ^= ONE; x.h ^= ONE; } k.prev = W(); // what one step adds to the 52-bit state
    BV cf = sm::apply(m, c.q, k.vec()); Poly inv = sm::invmod(gf2::mod(gf2::mul(c.q, gf2::add(Poly(2), Poly(1))), c.f), c.f); BV z = sm::apply(m, inv, cf);
    Dsfmt t = m; t.from(z); t.step(); BV ef = sm::apply(m, sm::invmod(gf2::mod(c.q, c.f), c.f), cf); if (!gf2::zero(sub(sub(t.vec(), z), ef))) throw pbt::Failure{"harness: fix point"}; return z;
}
} // namespace simd
#endif
