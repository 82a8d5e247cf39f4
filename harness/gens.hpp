// Generated GF(2)-linear generators that implement every MTToolBox generator
// interface.  The transition is a LinMap (direct sum of companion blocks, a dense
// matrix, or a word-wise xorshift); the output is B*x followed by an MT-like
// tempering; the parity word is P*x.  All arithmetic is our own (gf2.hpp).
#ifndef GENS_HPP
#define GENS_HPP
#include "pbt.hpp"
#include "gf2.hpp"
#include <NTL/GF2X.h>
#include <MTToolBox/util.hpp>
#ifdef WITH_W128
#include W128_HEADER
#endif
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <memory>

namespace gens {
using gf2::BV; using gf2::Poly;

inline NTL::GF2X to_ntl(const Poly &p) { NTL::GF2X r; for (int i = 0; i <= p.deg(); i++) if (p.get(i)) NTL::SetCoeff(r, i); return r; }
inline Poly from_ntl(const NTL::GF2X &p) { Poly r; for (long i = 0; i <= NTL::deg(p); i++) if (NTL::IsOne(NTL::coeff(p, i))) r.set((int)i); return r; }

// ---- words -------------------------------------------------------------
template <class U> struct W {
    static constexpr int bits = (int)sizeof(U) * 8;
    static const char *name() { return bits == 16 ? "uint16_t" : bits == 32 ? "uint32_t" : "uint64_t"; }
    static bool get(const U &u, int i) { return (u >> i) & 1; }
    static void flip(U &u, int i) { u = (U)(u ^ ((U)1 << i)); }
    static U zero() { return 0; }
    static bool eq(const U &a, const U &b) { return a == b; }
    static U mk(uint64_t lo, uint64_t) { return (U)lo; }
    static uint64_t lo(const U &u) { return (uint64_t)u; }
    static uint64_t hi(const U &) { return 0; }
    static U x_or(const U &a, const U &b) { return (U)(a ^ b); }
    static U x_and(const U &a, const U &b) { return (U)(a & b); }
    static U shl(const U &a, int s) { return s < 0 ? (-s >= bits ? (U)0 : (U)(a >> -s)) : s >= bits ? (U)0 : (U)(a << s); } // s < 0: right
};
#ifdef WITH_W128
using MTToolBox::w128_t;
template <> struct W<w128_t> {
    static constexpr int bits = 128;
    static const char *name() { return "w128_t"; }
    static bool get(const w128_t &u, int i) { return (u.u64[i / 64] >> (i % 64)) & 1; }
    static void flip(w128_t &u, int i) { u.u64[i / 64] ^= UINT64_C(1) << (i % 64); }
    static w128_t zero() { w128_t r; r.u64[0] = r.u64[1] = 0; return r; }
    static bool eq(const w128_t &a, const w128_t &b) { return a.u64[0] == b.u64[0] && a.u64[1] == b.u64[1]; }
    static w128_t mk(uint64_t lo, uint64_t hi) { w128_t r; r.u64[0] = lo; r.u64[1] = hi; return r; }
    static uint64_t lo(const w128_t &u) { return u.u64[0]; }
    static uint64_t hi(const w128_t &u) { return u.u64[1]; }
    static w128_t x_or(const w128_t &a, const w128_t &b) { return mk(a.u64[0] ^ b.u64[0], a.u64[1] ^ b.u64[1]); }
    static w128_t x_and(const w128_t &a, const w128_t &b) { return mk(a.u64[0] & b.u64[0], a.u64[1] & b.u64[1]); }
    static w128_t shl(const w128_t &a, int s) {
        unsigned __int128 v = ((unsigned __int128)a.u64[1] << 64) | a.u64[0]; v = s < 0 ? (-s >= 128 ? 0 : v >> -s) : s >= 128 ? 0 : v << s; return mk((uint64_t)v, (uint64_t)(v >> 64));
    }
};
#endif
template <class U> U rev(const U &u) { U r = W<U>::zero(); for (int i = 0; i < W<U>::bits; i++) if (W<U>::get(u, i)) W<U>::flip(r, W<U>::bits - 1 - i); return r; }
template <class U> U topmask(int k) { U r = W<U>::zero(); for (int i = 0; i < k; i++) W<U>::flip(r, W<U>::bits - 1 - i); return r; }
template <class U> std::string hex(const U &u) { char b[40]; if (W<U>::bits == 128) snprintf(b, 40, "%016llx%016llx", (unsigned long long)W<U>::hi(u), (unsigned long long)W<U>::lo(u)); else snprintf(b, 40, "%llx", (unsigned long long)W<U>::lo(u)); return b; }
template <class U> bool wzero(const U &u) { return W<U>::eq(u, W<U>::zero()); }
inline BV rnd_bv(pbt::Case &c, int n) { BV v = gf2::bv((size_t)n); for (auto &x : v) x = c.u64(); if (n % 64) v.back() &= ~UINT64_C(0) >> (64 - n % 64); return v; }
inline BV hash_bv(uint64_t s, int n) { BV v = gf2::bv((size_t)n); for (auto &x : v) x = pbt::splitmix(s); if (n % 64) v.back() &= ~UINT64_C(0) >> (64 - n % 64); return v; }

// ---- transitions -------------------------------------------------------
struct LinMap {
    int n = 0; std::string what;
    virtual ~LinMap() {}
    virtual void step(BV &x) const = 0;
};
struct Blocks : LinMap { // multiplication by x in the direct sum of GF(2)[x]/p_i
    std::vector<Poly> p; std::vector<int> off;
    explicit Blocks(const std::vector<Poly> &q) : p(q) {
        what = "blocks"; for (auto &x : p) { off.push_back(n); n += x.deg(); what += " (" + gf2::str(x) + ")"; }
    }
    void step(BV &x) const override {
        if (p.size() == 1) { // fast path
            int d = p[0].deg(); uint64_t c = 0; bool top = gf2::bit(x, (size_t)d - 1);
            if (top) gf2::setbit(x, (size_t)d - 1, false);
            for (auto &w : x) { uint64_t nc = w >> 63; w = (w << 1) | c; c = nc; }
            if (top) { for (size_t i = 0; i < x.size() && i < p[0].w.size(); i++) x[i] ^= p[0].w[i]; if (d % 64) x.back() &= ~UINT64_C(0) >> (64 - d % 64); }
            return;
        }
        for (size_t k = 0; k < p.size(); k++) {
            int d = p[k].deg(), o = off[k]; bool top = gf2::bit(x, (size_t)(o + d - 1));
            for (int i = d - 1; i > 0; i--) gf2::setbit(x, (size_t)(o + i), gf2::bit(x, (size_t)(o + i - 1)));
            gf2::setbit(x, (size_t)o, false);
            if (top) for (int i = 0; i < d; i++) if (p[k].get(i)) gf2::setbit(x, (size_t)(o + i), !gf2::bit(x, (size_t)(o + i)));
        }
    }
};
struct Dense : LinMap {
    std::vector<BV> rows;
    Dense(int nn, std::vector<BV> r) : rows(std::move(r)) { n = nn; what = "dense n=" + std::to_string(n); }
    void step(BV &x) const override { BV y = gf2::bv((size_t)n); for (int i = 0; i < n; i++) if (gf2::dot(rows[(size_t)i], x)) gf2::setbit(y, (size_t)i); x = y; }
};
struct Buf : LinMap { // N words of w bits: x_{i+N} = A(x_i) ^ B(x_{i+m}) ^ C(x_{i+N-1}), xorshift style
    int w, N, m, a, b, c; bool odd;
    Buf(int w_, int N_, int m_, int a_, int b_, int c_, bool odd_) : w(w_), N(N_), m(m_), a(a_), b(b_), c(c_), odd(odd_) {
        n = w * N; std::ostringstream s; s << "xorshift w=" << w << " N=" << N << " m=" << m << " a=" << a << " b=" << b << " c=" << c; what = s.str();
    }
    uint64_t word(const BV &x, int i) const { uint64_t r = 0; for (int k = 0; k < w; k++) if (gf2::bit(x, (size_t)(i * w + k))) r |= UINT64_C(1) << k; return r; }
    void step(BV &x) const override {
        uint64_t M = w == 64 ? ~UINT64_C(0) : (UINT64_C(1) << w) - 1;
        uint64_t s = word(x, 0), t = word(x, N - 1), u = word(x, m); s ^= (s << a) & M; s ^= s >> b; t ^= odd ? (t << c) & M : t >> c; uint64_t v = (s ^ t ^ (N > 2 ? u : 0)) & M;
        BV y = gf2::bv((size_t)n); for (int i = w; i < n; i++) if (gf2::bit(x, (size_t)i)) gf2::setbit(y, (size_t)(i - w));
        for (int k = 0; k < w; k++) if ((v >> k) & 1) gf2::setbit(y, (size_t)(n - w + k));
        x = y;
    }
};

inline Poly rnd_poly(pbt::Case &c, int d, bool const1 = true) {
    Poly p; p.w = rnd_bv(c, d); p.norm(); p.set(d); if (const1) p.set(0); return p;
}
// irreducible of degree d (constructed: first irreducible at or after a random start)
inline Poly irr_from(uint64_t seed, int d) {
    if (d == 1) return (seed & 1) ? Poly(2) : Poly(3); // x or x+1
    for (uint64_t k = 0;; k++) {
        uint64_t s = seed + k * 0x9E3779B97F4A7C15ULL; BV v = hash_bv(s, d); Poly p; p.w = v; p.norm(); p.set(d); p.set(0);
        if (p.weight() % 2 == 0) { if (d > 1) { int j = 1 + (int)(pbt::splitmix(s) % (uint64_t)(d - 1)); p.set(j, !p.get(j)); } }
        if (gf2::irreducible(p)) return p;
    }
}
inline Poly irr(pbt::Case &c, int d) { uint64_t s = c.below(1u << 16); if (d == 1) return Poly(3); return irr_from(s * 977 + (uint64_t)d, d); }

// ---- specification of a generator --------------------------------------
template <class U> struct Spec {
    std::shared_ptr<const LinMap> T;
    std::vector<BV> B;               // bits rows; B[i]: output bit i (LSB = 0)
    std::vector<BV> P;               // parity word rows
    std::vector<int> sh;             // tempering shifts
    bool lazy = false;               // tempering takes effect only after setUpTempering()
    int mexp = 0;
    uint64_t salt = 0;
    int id = 0;
    BV seed1; bool has_seed1 = false;// state after seed(1)
    int n() const { return T->n; }
};

template <class U> class Gen : public MTToolBox::ReducibleTemperingCalculatable<U> {
public:
    typedef std::shared_ptr<const Spec<U>> SP;
    typedef std::function<SP(MTToolBox::ParameterGenerator &)> Factory;
    SP s; BV x; std::vector<U> tp, eff; bool revflag = false; U parity = W<U>::zero(); Factory fac;
    long *setups = nullptr;          // counts setUpParam calls, when given
    explicit Gen(SP sp) : s(sp), tp(sp->sh.size(), W<U>::zero()), eff(tp) { x = gf2::bv((size_t)s->n()); seed(W<U>::mk(1, 0)); }
    Gen(const Gen &o) = default;
    // AbstractGenerator
    U generate() override { s->T->step(x); return out(); }
    void seed(U v) override {
        if (s->has_seed1 && W<U>::eq(v, W<U>::mk(1, 0))) { x = s->seed1; return; }
        x = hash_bv(s->salt ^ (W<U>::lo(v) * 0x9E3779B97F4A7C15ULL) ^ (W<U>::hi(v) * 0xD1B54A32D192ED03ULL), s->n());
    }
    int bitSize() const override { return s->n(); }
    // RecursionSearchable
    void setUpParam(MTToolBox::ParameterGenerator &g) override {
        if (setups) ++*setups;
        if (fac) { s = fac(g); size_t w = gf2::bv((size_t)s->n()).size(); if (x.size() != w) { x = gf2::bv((size_t)s->n()); seed(W<U>::mk(1, 0)); } else if (s->n() % 64) x[w - 1] &= (UINT64_C(1) << (s->n() % 64)) - 1; /* as in the samples, the state stays */ tp.assign(s->sh.size(), W<U>::zero()); eff = tp; }
        else (void)g.getUint32();
    }
    const std::string getHeaderString() override { return "gen"; }
    const std::string getParamString() override { std::string r = "gen " + std::to_string(s->id); for (auto &t : tp) r += "," + hex<U>(t); r += "," + hex<U>(parity); return r; }
    // EquidistributionCalculatable
    Gen *clone() const override { return new Gen(*this); }
    U generate(int len) override { U u = generate(); if (revflag) u = rev<U>(u); return W<U>::x_and(u, topmask<U>(len)); }
    void add(MTToolBox::EquidistributionCalculatable<U> &that) override {
        Gen *o = dynamic_cast<Gen *>(&that); if (!o) throw std::logic_error("add: the other generator has another type"); gf2::xorv(x, o->x);
    }
    void setZero() override { for (auto &w : x) w = 0; }
    bool isZero() const override { return gf2::zero(x); }
    // ReducibleGenerator
    void setOneBit(int p) override { setZero(); gf2::setbit(x, (size_t)p); }
    U getParityValue() const override { U r = W<U>::zero(); for (int i = 0; i < W<U>::bits; i++) if (gf2::dot(s->P[(size_t)i], x)) W<U>::flip(r, i); return r; }
    void setParityValue(U p) override { parity = p; }
    int getMexp() const override { return s->mexp; }
    // TemperingCalculatable
    void setTemperingPattern(U mask, U pat, int i) override {
        U nm = W<U>::zero(); for (int k = 0; k < W<U>::bits; k++) W<U>::flip(nm, k); nm = W<U>::x_or(nm, mask);
        tp.at((size_t)i) = W<U>::x_or(W<U>::x_and(tp.at((size_t)i), nm), W<U>::x_and(pat, mask)); if (!s->lazy) eff = tp;
    }
    void setUpTempering() override { eff = tp; }
    void setReverseOutput() override { revflag = true; }
    void resetReverseOutput() override { revflag = false; }
    bool isReverseOutput() override { return revflag; }
    // the output function at the current state
    U out() const {
        U r = W<U>::zero(); for (int i = 0; i < W<U>::bits; i++) if (gf2::dot(s->B[(size_t)i], x)) W<U>::flip(r, i);
        for (size_t k = 0; k < s->sh.size(); k++) r = W<U>::x_or(r, W<U>::x_and(W<U>::shl(r, s->sh[k]), eff[k]));
        return r;
    }
};

// output matrix: rows random / unit / duplicates / zero
template <class U> std::vector<BV> rnd_rows(pbt::Case &c, int n, int kind, const char **what = nullptr) {
    static const char *names[] = {"random", "unit", "window", "sparse", "repeated", "with-zero-rows", "low-rank"};
    if (what) *what = names[kind];
    std::vector<BV> B; int w = W<U>::bits; std::vector<BV> pool; int off = n > 0 ? (int)c.below((uint64_t)n) : 0;
    for (int i = 0; i < w; i++) {
        BV r = gf2::bv((size_t)n);
        switch (kind) {
        case 1: gf2::setbit(r, (size_t)c.below((uint64_t)n)); break;
        case 2: gf2::setbit(r, (size_t)((off + i) % n)); break;
        case 3: for (int k = 0; k < 3; k++) gf2::setbit(r, (size_t)c.below((uint64_t)n)); break;
        case 4: if (i && c.chance(1, 3)) r = B[(size_t)c.below((uint64_t)i)]; else r = rnd_bv(c, n); break;
        case 5: if (!c.chance(1, 4)) r = rnd_bv(c, n); break;
        case 6: if (i < 3) r = rnd_bv(c, n); else { for (int k = 0; k < 3; k++) if (c.coin()) gf2::xorv(r, B[(size_t)k]); } break;
        default: r = rnd_bv(c, n);
        }
        B.push_back(r);
    }
    return B;
}
// a transition of dimension n exactly (kind chosen inside)
inline std::shared_ptr<const LinMap> rnd_map(pbt::Case &c, int n, bool invertible, std::string *kind = nullptr) {
    auto set = [&](const char *k) { if (kind) *kind = k; };
    switch (c.weighted({4, 3, 3, 2, 2})) {
    case 0: set("irreducible"); return std::make_shared<Blocks>(std::vector<Poly>{irr(c, n)});
    case 1: { set("random companion"); return std::make_shared<Blocks>(std::vector<Poly>{rnd_poly(c, n, invertible || c.coin())}); }
    case 2: { // several blocks
        set("blocks"); std::vector<Poly> ps; int left = n;
        if (!invertible && n >= 2 && c.coin()) { int d = c.range_log(1, std::min(6, n - 1)); Poly q; q.set(d); ps.push_back(q); left -= d; } // nilpotent part
        while (left > 0) { int d = ps.size() >= 5 ? left : c.range(1, left); ps.push_back(c.chance(1, 2) ? irr(c, d) : rnd_poly(c, d, invertible || c.coin())); if (left >= 2 * d && c.chance(1, 4)) { ps.push_back(ps.back()); left -= d; } left -= d; }
        return std::make_shared<Blocks>(ps);
    }
    case 3: { // dense
        if (n > 200) { set("random companion"); return std::make_shared<Blocks>(std::vector<Poly>{rnd_poly(c, n, true)}); }
        set("dense"); std::vector<BV> r; for (int i = 0; i < n; i++) r.push_back(rnd_bv(c, n));
        if (invertible) { // L*U with unit diagonals, rows permuted cyclically
            std::vector<BV> L = r, U = r, R; for (int i = 0; i < n; i++) { for (int j = i; j < n; j++) gf2::setbit(L[(size_t)i], (size_t)j, i == j); for (int j = 0; j <= i; j++) gf2::setbit(U[(size_t)i], (size_t)j, i == j); }
            for (int i = 0; i < n; i++) { BV v = gf2::bv((size_t)n); for (int j = 0; j <= i; j++) if (gf2::bit(L[(size_t)i], (size_t)j)) gf2::xorv(v, U[(size_t)j]); R.push_back(v); }
            std::rotate(R.begin(), R.begin() + (long)c.below((uint64_t)n), R.end()); r = R;
        }
        return std::make_shared<Dense>(n, r);
    }
    default: { // word-wise recursion, when n factors suitably
        std::vector<int> ws; for (int w : {4, 8, 16, 32}) if (n % w == 0 && n / w >= 2) ws.push_back(w);
        if (ws.empty()) { set("random companion"); return std::make_shared<Blocks>(std::vector<Poly>{rnd_poly(c, n, true)}); }
        set("xorshift"); int w = c.pick(ws), N = n / w; return std::make_shared<Buf>(w, N, N > 2 ? c.range(1, N - 2) : 0, c.range(1, w - 1), c.range(1, w - 1), c.range(1, w - 1), c.coin());
    }
    }
}
template <class U> std::shared_ptr<Spec<U>> rnd_spec(pbt::Case &c, int n, bool invertible) {
    auto s = std::make_shared<Spec<U>>(); std::string k; const char *b = "";
    s->T = rnd_map(c, n, invertible, &k); c.label("T:" + k);
    s->B = rnd_rows<U>(c, n, c.weighted({5, 2, 3, 2, 2, 2, 1}), &b); c.label(std::string("B:") + b);
    s->salt = c.below(1 << 16); s->mexp = n;
    c.desc << "U=" << W<U>::name() << " n=" << n << " T=" << s->T->what << " B=" << b;
    return s;
}
inline std::string hexbv(const BV &v) { std::string r; char b[20]; for (size_t i = v.size(); i-- > 0;) { snprintf(b, 20, "%016llx", (unsigned long long)v[i]); r += b; } return r; }

// a ParameterGenerator with a reproducible endless stream
struct TapePG : MTToolBox::ParameterGenerator {
    uint64_t st, n = 0; explicit TapePG(uint64_t s) : st(s) {}
    uint32_t getUint32() override { n++; return (uint32_t)(pbt::splitmix(st) >> 32); }
    uint64_t getUint64() override { n++; return pbt::splitmix(st); }
    void seed(uint64_t v) override { st = v; }
};
// silence std::cout/cerr for a scope and keep the text
struct Capture {
    std::ostringstream os; std::streambuf *o, *e;
    Capture() { o = std::cout.rdbuf(os.rdbuf()); e = std::cerr.rdbuf(os.rdbuf()); }
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout << std::dec; }
};
} // namespace gens
#endif
