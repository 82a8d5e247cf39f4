// Independent models of the SFMT and dSFMT recursions, as queues of 128-bit words
// (oldest first, newest last), and the linear algebra of their transitions.
#ifndef SFMTMODEL_HPP
#define SFMTMODEL_HPP
#include "pbt.hpp"
#include "gf2.hpp"
namespace sm {
using gf2::BV; using gf2::Poly;
struct W { uint64_t l = 0, h = 0; uint32_t u(int i) const { return (uint32_t)((i < 2 ? l : h) >> (32 * (i & 1))); } void set(int i, uint32_t v) { uint64_t &x = i < 2 ? l : h; x = (x & ~(UINT64_C(0xffffffff) << (32 * (i & 1)))) | ((uint64_t)v << (32 * (i & 1))); } };
inline W operator^(const W &a, const W &b) { W r; r.l = a.l ^ b.l; r.h = a.h ^ b.h; return r; }
inline bool operator==(const W &a, const W &b) { return a.l == b.l && a.h == b.h; }
inline W shiftbytes(const W &a, int s) { unsigned __int128 v = ((unsigned __int128)a.h << 64) | a.l; v = s > 0 ? v << (8 * s) : v >> (-8 * s); W r; r.l = (uint64_t)v; r.h = (uint64_t)(v >> 64); return r; }
inline W lanes(const W &a, int s, const W *m) { W r; for (int i = 0; i < 4; i++) { uint32_t v = s > 0 ? a.u(i) << s : a.u(i) >> -s; r.set(i, m ? v & m->u(i) : v); } return r; }
struct Sfmt {
    int mexp = 0, pos1 = 0, sl1 = 0, sl2 = 0, sr1 = 0, sr2 = 0; W msk, parity; std::vector<W> s; W prev; int sm = 0, wm = 4; bool rev = false;
    static int words(int mexp) { return mexp / 128 + 1; }
    int bits() const { return 128 * (int)s.size(); }
    void step() { size_t n = s.size(); W a = s[0], b = s[(size_t)pos1], c = s[n - 2], d = s[n - 1]; W r = a ^ shiftbytes(a, sl2) ^ lanes(b, -sr1, &msk) ^ shiftbytes(c, -sr2) ^ lanes(d, sl1, nullptr); s.erase(s.begin()); s.push_back(r); }
    W raw() { W old = s.back(); step(); const W &nw = s.back(); W r; for (int i = 0; i < 4; i++) r.set(i, sm + i < 4 ? old.u(sm + i) : nw.u(sm + i - 4)); if (sm == 0) r = nw; W o = r; for (int i = wm; i < 4; i++) o.set(i, prev.u(i)); prev = r; return o; }
    void seed(W v) { size_t n = s.size(); std::vector<uint32_t> p(4 * n, 0); for (int i = 0; i < 4; i++) p[(size_t)i] = v.u(i); for (size_t i = 1; i < p.size(); i++) p[i] ^= (uint32_t)i + 1812433253u * (p[i - 1] ^ (p[i - 1] >> 30)); for (size_t k = 0; k < n; k++) for (int i = 0; i < 4; i++) s[(k + n - 1) % n].set(i, p[4 * k + (size_t)i]); prev = W(); }
    void zero() { for (auto &w : s) w = W(); prev = W(); }
    bool iszero() const { for (auto &w : s) if (w.l | w.h) return false; for (int i = wm; i < 4; i++) if (prev.u(i)) return false; return true; }
    BV vec() const { BV v; for (auto &w : s) { v.push_back(w.l); v.push_back(w.h); } return v; }
    void from(const BV &v) { for (size_t i = 0; i < s.size(); i++) { s[i].l = v[2 * i]; s[i].h = v[2 * i + 1]; } }
};
struct Dsfmt { // the state words have 52 bits, the lung 128
    int mexp = 0, pos1 = 0, sl1 = 0; uint64_t msk[2] = {0, 0}, fix[2] = {0, 0}, parity[2] = {0, 0}; std::vector<W> s; W lung, prev; int sm = 0, wm = 2;
    static int words(int mexp) { return (mexp - 128) / 104 + 1; }
    int bits() const { return 104 * (int)s.size() + 128; }
    void step() { W a = s[0], b = s[(size_t)pos1], L = lung; uint64_t l0 = (a.l << sl1) ^ (L.h >> 32) ^ (L.h << 32) ^ b.l, l1 = (a.h << sl1) ^ (L.l >> 32) ^ (L.l << 32) ^ b.h; W r; r.l = (l0 >> 12) ^ (l0 & msk[0]) ^ a.l; r.h = (l1 >> 12) ^ (l1 & msk[1]) ^ a.h; lung.l = l0; lung.h = l1; s.erase(s.begin()); s.push_back(r); }
    W raw() { W old = s.back(); step(); W r = s.back(); if (sm) { r.h = r.l; r.l = old.h; } W o = r; if (wm == 1) o.h = prev.h; prev = r; return o; }
    void seed(W v) { size_t n = s.size(); std::vector<uint64_t> p(2 * n + 2, 0); p[0] = v.l; p[1] = v.h; for (size_t i = 1; i < p.size(); i++) p[i] ^= i + 6364136223846793005ull * (p[i - 1] ^ (p[i - 1] >> 62)); const uint64_t M = (UINT64_C(1) << 52) - 1; for (size_t k = 0; k < n; k++) { s[(k + n - 1) % n].l = p[2 * k] & M; s[(k + n - 1) % n].h = p[2 * k + 1] & M; } lung.l = p[2 * n]; lung.h = p[2 * n + 1]; prev = W(); }
    void zero() { for (auto &w : s) w = W(); lung = prev = W(); }
    bool iszero() const { for (auto &w : s) if (w.l | w.h) return false; return !(lung.l | lung.h) && (wm == 2 || !prev.h); }
    BV vec() const { BV v; for (auto &w : s) { v.push_back(w.l); v.push_back(w.h); } v.push_back(lung.l); v.push_back(lung.h); return v; } // with unused bits
    void from(const BV &v) { for (size_t i = 0; i < s.size(); i++) { s[i].l = v[2 * i]; s[i].h = v[2 * i + 1]; } lung.l = v[2 * s.size()]; lung.h = v[2 * s.size() + 1]; }
};
template <class M> BV apply(const M &m0, const Poly &p, const BV &x) { // p(T) x
    M m = m0; BV r(x.size(), 0), y = x; int d = p.deg(); for (int i = 0; i <= d; i++) { if (p.get(i)) gf2::xorv(r, y); if (i < d) { m.from(y); m.step(); y = m.vec(); } } return r;
}
// a random state with the unused bits zero
template <class M> BV rnd_state(const M &m0, uint64_t &st) { M m = m0; W v; v.l = pbt::splitmix(st); v.h = pbt::splitmix(st); m.seed(v); BV x = m.vec(); for (size_t i = 0; i < x.size(); i++) { uint64_t r = pbt::splitmix(st); x[i] ^= r & (x.size() == 2 * m.s.size() || i + 2 >= x.size() ? ~UINT64_C(0) : (UINT64_C(1) << 52) - 1); } return x; }
// minimal polynomial of T: grown until it annihilates 30 random vectors
template <class M> Poly minpoly_T(const M &m0, uint64_t st) {
    Poly l(1); int n = m0.bits();
    for (int ok = 0; ok < 30 && l.deg() < n;) { BV y = apply(m0, l, rnd_state(m0, st)); if (gf2::zero(y)) { ok++; continue; } ok = 0; M m = m0; m.from(y); BV h = y; for (auto &w : h) w = pbt::splitmix(st); std::vector<uint8_t> q; int left = n - l.deg(); for (int i = 0; i < 2 * left; i++) { q.push_back(gf2::dot(h, m.vec())); m.step(); } Poly g = gf2::berlekamp_massey(q); if (g.deg() > 0) l = gf2::mul(l, g); }
    return l;
}
inline Poly invmod(const Poly &a, const Poly &m) { // a^-1 mod m, a coprime to m
    Poly r0 = m, r1 = gf2::mod(a, m), t0, t1(1); while (r1.deg() > 0) { Poly q, r; gf2::divmod(r0, r1, &q, &r); Poly t = gf2::add(t0, gf2::mul(q, t1)); r0 = r1; r1 = r; t0 = t1; t1 = t; } return gf2::mod(t1, m);
}
// the irreducible factor of a degree in [lo, hi], if there is exactly one
inline bool big_factor(const Poly &c, int lo, int hi, Poly *f) {
    bool found = false; for (auto &e : gf2::ddf(c)) if (e.first >= lo && e.first <= hi && e.second.deg() == e.first) { if (found) return false; *f = e.second; found = true; }
    return found;
}
} // namespace sm
#endif
