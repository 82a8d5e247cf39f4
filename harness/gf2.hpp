// Independent GF(2) arithmetic used as the oracle: nothing here uses NTL or MTToolBox.
#ifndef GF2_HPP
#define GF2_HPP
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

namespace gf2 {
typedef std::vector<uint64_t> BV;            // bit vector, bit i = v[i/64]>>(i%64)
inline bool bit(const BV &v, size_t i) { return i / 64 < v.size() && ((v[i / 64] >> (i % 64)) & 1); }
inline void setbit(BV &v, size_t i, bool b = true) {
    if (b) v[i / 64] |= UINT64_C(1) << (i % 64); else v[i / 64] &= ~(UINT64_C(1) << (i % 64));
}
inline BV bv(size_t nbits) { return BV((nbits + 63) / 64, 0); }
inline void xorv(BV &a, const BV &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) a[i] ^= b[i]; }
inline int weight(const BV &a) { int c = 0; for (uint64_t x : a) c += __builtin_popcountll(x); return c; }
inline bool zero(const BV &a) { for (uint64_t x : a) if (x) return false; return true; }
inline bool dot(const BV &a, const BV &b) {
    uint64_t r = 0; for (size_t i = 0; i < a.size() && i < b.size(); i++) r ^= a[i] & b[i]; return __builtin_parityll(r);
}

// ---- polynomials -------------------------------------------------------
struct Poly {
    BV w;
    Poly() {}
    explicit Poly(uint64_t low) { if (low) w.push_back(low); }
    void norm() { while (!w.empty() && !w.back()) w.pop_back(); }
    int deg() const { for (size_t i = w.size(); i-- > 0;) if (w[i]) return (int)(i * 64 + 63 - (size_t)__builtin_clzll(w[i])); return -1; }
    bool get(int i) const { return i >= 0 && bit(w, (size_t)i); }
    void set(int i, bool b = true) { if (w.size() <= (size_t)i / 64) w.resize((size_t)i / 64 + 1, 0); setbit(w, (size_t)i, b); if (!b) norm(); }
    bool isone() const { return deg() == 0; }
    int weight() const { int c = 0; for (uint64_t x : w) c += __builtin_popcountll(x); return c; }
};
inline bool operator==(const Poly &a, const Poly &b) { Poly x = a, y = b; x.norm(); y.norm(); return x.w == y.w; }
inline bool operator!=(const Poly &a, const Poly &b) { return !(a == b); }
inline Poly xpow(int i) { Poly p; p.set(i); return p; }
inline Poly add(const Poly &a, const Poly &b) {
    Poly r = a; if (r.w.size() < b.w.size()) r.w.resize(b.w.size(), 0); for (size_t i = 0; i < b.w.size(); i++) r.w[i] ^= b.w[i]; r.norm(); return r;
}
inline void addshift(BV &r, const BV &a, int sh) { // r ^= a << sh ; r large enough
    size_t q = (size_t)sh / 64; int b = sh % 64;
    for (size_t i = 0; i < a.size(); i++) {
        if (!a[i]) continue;
        r[i + q] ^= a[i] << b; if (b && i + q + 1 < r.size()) r[i + q + 1] ^= a[i] >> (64 - b);
    }
}
inline Poly mul(const Poly &a, const Poly &b) {
    Poly r; int da = a.deg(), db = b.deg(); if (da < 0 || db < 0) return r;
    r.w.assign((size_t)(da + db) / 64 + 2, 0);
    const Poly &s = a.weight() < b.weight() ? a : b, &l = &s == &a ? b : a;
    for (size_t i = 0; i < s.w.size(); i++) for (uint64_t x = s.w[i]; x; x &= x - 1) addshift(r.w, l.w, (int)(i * 64 + (size_t)__builtin_ctzll(x)));
    r.norm(); return r;
}
inline uint64_t spread32(uint64_t x) {
    x &= 0xffffffffu; x = (x | x << 16) & 0x0000ffff0000ffffULL; x = (x | x << 8) & 0x00ff00ff00ff00ffULL; x = (x | x << 4) & 0x0f0f0f0f0f0f0f0fULL;
    x = (x | x << 2) & 0x3333333333333333ULL; x = (x | x << 1) & 0x5555555555555555ULL; return x;
}
inline Poly sqr(const Poly &a) { Poly r; r.w.resize(a.w.size() * 2); for (size_t i = 0; i < a.w.size(); i++) { r.w[2 * i] = spread32(a.w[i]); r.w[2 * i + 1] = spread32(a.w[i] >> 32); } r.norm(); return r; }
inline void divmod(const Poly &a, const Poly &m, Poly *q, Poly *r) {
    Poly x = a; int dm = m.deg(); if (q) *q = Poly();
    x.w.push_back(0); x.w.push_back(0);
    for (int d = x.deg(); d >= dm; d = x.deg()) { addshift(x.w, m.w, d - dm); if (q) q->set(d - dm); }
    x.norm(); if (r) *r = x;
}
inline Poly mod(const Poly &a, const Poly &m) { Poly r; divmod(a, m, nullptr, &r); return r; }
inline Poly quo(const Poly &a, const Poly &m) { Poly q; divmod(a, m, &q, nullptr); return q; }
inline Poly gcd(Poly a, Poly b) { while (b.deg() >= 0) { Poly r = mod(a, b); a = b; b = r; } return a; }
inline Poly lcm(const Poly &a, const Poly &b) { return quo(mul(a, b), gcd(a, b)); }
inline Poly mulmod(const Poly &a, const Poly &b, const Poly &m) { return mod(mul(a, b), m); }
// x^(2^k) mod m
inline Poly xpow2k(int k, const Poly &m) { Poly r = mod(xpow(1), m); for (int i = 0; i < k; i++) r = mod(sqr(r), m); return r; }
// base^e mod m, e given as bits most significant first
inline Poly powmod(const Poly &base, const std::vector<bool> &e, const Poly &m) {
    Poly r = mod(Poly(1), m), b = mod(base, m); for (bool t : e) { r = mod(sqr(r), m); if (t) r = mulmod(r, b, m); } return r;
}
inline std::vector<int> prime_divisors(int n) { std::vector<int> v; for (int p = 2; p * p <= n; p++) if (n % p == 0) { v.push_back(p); while (n % p == 0) n /= p; } if (n > 1) v.push_back(n); return v; }
// Rabin's test
inline bool irreducible(const Poly &f) {
    int n = f.deg(); if (n <= 0) return false; if (n == 1) return true; if (!f.get(0)) return false;
    for (int p : prime_divisors(n)) { Poly h = add(xpow2k(n / p, f), xpow(1)); if (gcd(f, mod(h, f)).deg() != 0) return false; }
    return mod(add(xpow2k(n, f), xpow(1)), f).deg() < 0;
}
inline std::string str(const Poly &p) {
    if (p.deg() < 0) return "0"; std::string s; for (int i = p.deg(); i >= 0; i--) if (p.get(i)) { if (!s.empty()) s += "+"; s += i == 0 ? "1" : i == 1 ? "x" : "x^" + std::to_string(i); if (s.size() > 400) { s += "..."; break; } } return s;
}
// degrees of the irreducible factors (with multiplicity collapsed: squarefree part), as degree -> product of those factors
inline std::vector<std::pair<int, Poly>> ddf(Poly f) {
    std::vector<std::pair<int, Poly>> r; if (f.deg() <= 0) return r;
    Poly h = mod(xpow(1), f); Poly g = f;
    for (int d = 1; g.deg() > 0; d++) {
        h = mod(sqr(mod(h, g)), g); Poly t = gcd(g, mod(add(h, xpow(1)), g));
        if (g.deg() > 0 && mod(add(h, xpow(1)), g).deg() < 0) t = g;
        if (t.deg() > 0) {
            // t: product of the distinct irreducible factors of degree d still present
            r.push_back({d, t}); for (;;) { Poly u = gcd(g, t); if (u.deg() <= 0) break; g = quo(g, u); }
            h = g.deg() > 0 ? mod(h, g) : Poly();
        }
        if (g.deg() > 0 && g.deg() < 2 * (d + 1)) { r.push_back({g.deg(), g}); break; }
    }
    return r;
}

// Berlekamp-Massey. Returns the minimal polynomial m (monic, deg L): sum_i m_i s[t+i] = 0.
inline Poly berlekamp_massey(const std::vector<uint8_t> &s) {
    Poly C(1), B(1); int L = 0, m = 1; size_t n = s.size();
    // reversed history so that the discrepancy is a word-parallel dot product
    size_t W = n / 64 + 2; BV hist(W, 0);
    for (size_t t = 0; t < n; t++) {
        // hist: bit i = s[t-i]
        for (size_t i = W; i-- > 0;) hist[i] = (hist[i] << 1) | (i ? hist[i - 1] >> 63 : 0);
        if (s[t]) hist[0] |= 1;
        bool d = dot(C.w, hist);
        if (!d) { m++; continue; }
        Poly T = C; if (C.w.size() < B.w.size() + (size_t)m / 64 + 1) C.w.resize(B.w.size() + (size_t)m / 64 + 1, 0);
        addshift(C.w, B.w, m); C.norm();
        if (2 * L <= (int)t) { L = (int)t + 1 - L; B = T; m = 1; } else m++;
    }
    Poly r; for (int i = 0; i <= L; i++) if (C.get(i)) r.set(L - i);
    return r;
}

// ---- incremental echelon basis -----------------------------------------
struct Echelon {
    std::vector<BV> rows; std::vector<int> piv; size_t n;
    std::vector<int> by; // pivot -> row
    explicit Echelon(size_t nbits) : n(nbits), by(nbits, -1) {}
    void reduce(BV &v) const {
        for (size_t w = 0; w < v.size(); w++) {
            uint64_t done = 0;
            for (;;) {
                uint64_t x = v[w] & ~done; if (!x) break;
                size_t b = (size_t)__builtin_ctzll(x); int r = w * 64 + b < n ? by[w * 64 + b] : -1;
                if (r < 0) { done |= UINT64_C(1) << b; continue; }
                const BV &R = rows[(size_t)r]; for (size_t k = w; k < v.size(); k++) v[k] ^= R[k];
            }
        }
    }
    bool insert(BV v) { // true when independent
        for (size_t w = 0; w < v.size(); w++) {
            while (v[w]) {
                size_t b = (size_t)__builtin_ctzll(v[w]); size_t p = w * 64 + b; int r = by[p];
                if (r < 0) { by[p] = (int)rows.size(); piv.push_back((int)p); rows.push_back(v); return true; }
                const BV &R = rows[(size_t)r]; for (size_t k = w; k < v.size(); k++) v[k] ^= R[k];
            }
        }
        return false;
    }
    size_t rank() const { return rows.size(); }
};
} // namespace gf2
#endif
