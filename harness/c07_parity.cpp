// AlgorithmCalculateParity: the period certification vector
#include "gens.hpp"
#include "dcmodels.hpp"
#include "sfmtmodel.hpp"
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include "RMT/rmt64.hpp"
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C07";
const char *pbt::property_rule = "A case is a reducible generator whose transition has characteristic polynomial f*q (f irreducible of degree mexp, q coprime to f), with a random linear parity word (of full or low rank, few or many bits); the vector returned is checked against a basis of Ker q. Non-trivial: deg q >= 2.";
std::vector<std::string> pbt::assumptions = {"q coprime to f, every state of Ker q that does not become zero shows in the parity word at some time (observable)"};

template <class U> static void body(pbt::Case &c, int m, int r) {
    const int w = W<U>::bits; Poly f = irr(c, m); std::vector<Poly> qs; int left = r; bool sing = r > 0 && c.chance(1, 4); if (sing) { int d = c.range_log(1, std::min(r, 12)); if (c.coin()) qs.push_back(gf2::xpow(d)); else for (int i = 0; i < d; i++) qs.push_back(gf2::xpow(1)); left -= d; }
    while (left > 0) { int d = c.range_log(1, left); Poly q = c.coin() ? irr(c, d) : rnd_poly(c, d, true); if (gf2::gcd(q, f).deg() > 0) { q = gf2::xpow(d); q.set(0); if (gf2::gcd(q, f).deg() > 0) throw pbt::Discard(); } qs.push_back(q); left -= d; if (left >= d && c.chance(1, 4)) { qs.push_back(q); left -= d; } }
    auto sp = std::make_shared<Spec<U>>(); std::vector<BV> ker; int n = m + r; bool single = c.coin();
    if (single) { // companion matrix of f*q: Ker q = multiples of f
        Poly h = f; for (auto &q : qs) h = gf2::mul(h, q); sp->T = std::make_shared<Blocks>(std::vector<Poly>{h});
        for (int i = 0; i < r; i++) { Poly k = gf2::mul(f, gf2::xpow(i)); BV v = gf2::bv((size_t)n); for (int j = 0; j < n; j++) if (k.get(j)) gf2::setbit(v, (size_t)j); ker.push_back(v); }
    } else { // direct sum, f at a random place
        std::vector<Poly> ps = qs; size_t at = (size_t)c.below(ps.size() + 1); ps.insert(ps.begin() + (long)at, f); auto b = std::make_shared<Blocks>(ps); sp->T = b;
        for (size_t k = 0; k < ps.size(); k++) if (k != at) for (int j = 0; j < ps[k].deg(); j++) { BV v = gf2::bv((size_t)n); gf2::setbit(v, (size_t)(b->off[k] + j)); ker.push_back(v); }
    }
    if (c.coin() && n <= 130) { // hide the structure behind a change of basis: y = S x with S = product of elementary additions
        std::vector<std::pair<int, int>> el; for (int i = 0; i < 4 * n; i++) { int a = (int)c.below((uint64_t)n), b = (int)c.below((uint64_t)n); if (a != b) el.push_back({a, b}); }
        auto fw = [&](BV &x) { for (auto &e : el) if (gf2::bit(x, (size_t)e.second)) gf2::setbit(x, (size_t)e.first, !gf2::bit(x, (size_t)e.first)); };
        auto bw = [&](BV &x) { for (size_t i = el.size(); i-- > 0;) if (gf2::bit(x, (size_t)el[i].second)) gf2::setbit(x, (size_t)el[i].first, !gf2::bit(x, (size_t)el[i].first)); };
        std::vector<BV> rows((size_t)n, gf2::bv((size_t)n));
        for (int j = 0; j < n; j++) { BV e = gf2::bv((size_t)n); gf2::setbit(e, (size_t)j); bw(e); sp->T->step(e); fw(e); for (int i = 0; i < n; i++) if (gf2::bit(e, (size_t)i)) gf2::setbit(rows[(size_t)i], (size_t)j); }
        std::string wh = sp->T->what; auto d = std::make_shared<Dense>(n, rows); d->what = "conjugated " + wh; sp->T = d; for (auto &k : ker) fw(k); c.label("dense");
    } else c.label(single ? "companion" : "direct sum");
    const char *bn, *pn; sp->B = rnd_rows<U>(c, n, 0, &bn); sp->P = rnd_rows<U>(c, n, c.weighted({4, 2, 2, 2, 2, 2, 2}), &pn); if (c.chance(1, 6)) { int keep = c.range(0, w - 1); for (int i = 0; i < w; i++) if (i != keep && !c.chance(1, 8)) sp->P[(size_t)i].assign(sp->P[(size_t)i].size(), 0); c.label("few parity bits"); };  sp->mexp = m; Gen<U> g(sp); g.x = rnd_bv(c, n);
    c.desc << "U=" << W<U>::name() << " f=" << gf2::str(f) << " T=" << sp->T->what << " P=" << pn << " " << c.choices().size(); c.ready();
    gf2::Echelon e((size_t)w); bool inj = true; std::vector<U> img;
    for (auto &k : ker) { Gen<U> t(g); t.x = k; U u = t.getParityValue(); img.push_back(u); BV v = gf2::bv((size_t)std::max(64, w)); for (int i = 0; i < w; i++) if (W<U>::get(u, i)) gf2::setbit(v, (size_t)i); if (!e.insert(v)) inj = false; }
    if (!inj) { // then every state of Ker q that does not become zero must show in the parity word sooner or later
        gf2::Echelon ob((size_t)(w * r)), in((size_t)n); for (auto &k : ker) { BV x = k; for (int t = 0; t < r; t++) sp->T->step(x); if (!in.insert(x)) continue; BV row = gf2::bv((size_t)(w * r)); for (int t = 0; t < r; t++) { Gen<U> h(g); h.x = x; U u = h.getParityValue(); for (int i = 0; i < w; i++) if (W<U>::get(u, i)) gf2::setbit(row, (size_t)(t * w + i)); sp->T->step(x); } if (!ob.insert(row)) { c.label("Ker q not observable"); throw pbt::Discard(); } }
        c.label("parity word not injective on Ker q");
    }
    if (sing) c.label("singular transition"); c.label(W<U>::name()); c.label(r == 0 ? "q=1" : r >= w ? "deg q >= w" : r == w - 1 ? "deg q = w-1" : "deg q < w-1"); c.label(std::string("P:") + pn); if (r >= 2) c.nontrivial();
    BV bx = g.x; U p;
    if ((int)e.rank() == w) { // the parity words of Ker q fill the word: no vector exists, so none may be returned or given to the generator
        c.label("no parity vector exists"); U before = g.parity; bool thrown = false;
        { Capture cap; AlgorithmCalculateParity<U, Gen<U>> cp; try { p = cp.searchParity(g, to_ntl(f)); } catch (...) { thrown = true; } }
        PBT_REQUIRE(thrown, "no parity vector exists, but " << hex<U>(p) << " was returned");
        PBT_REQUIRE(W<U>::eq(g.parity, before), "no parity vector exists, but " << hex<U>(g.parity) << " was given to the generator"); PBT_REQUIRE(g.x == bx, "the state of the generator was modified"); return;
    }
    { Capture cap; AlgorithmCalculateParity<U, Gen<U>> cp; p = cp.searchParity(g, to_ntl(f)); if (c.chance(1, 5)) { U p2 = cp.searchParity(g, to_ntl(f)); PBT_REQUIRE(W<U>::eq(p, p2), "a second search gives another vector"); } }
    PBT_REQUIRE(!wzero<U>(p), "the parity vector is zero");
    PBT_REQUIRE(W<U>::eq(g.parity, p), "returned " << hex<U>(p) << " but gave " << hex<U>(g.parity) << " to setParityValue");
    for (size_t k = 0; k < img.size(); k++) { U a = W<U>::x_and(img[k], p); int par = 0; for (int i = 0; i < w; i++) par ^= W<U>::get(a, i); PBT_REQUIRE(par == 0, "parity vector " << hex<U>(p) << " has inner product 1 with a state of Ker q: its parity word is " << hex<U>(img[k])); }
    PBT_REQUIRE(g.x == bx, "the state of the generator was modified");
}
PBT_CHECK(small_any_width, 30000, 400000) {
    int m = c.range_log(2, 60);
    switch (c.weighted({4, 3, 2})) { case 0: body<uint32_t>(c, m, c.chance(1, 10) ? c.range(32, 50) : c.chance(1, 8) ? 31 : c.range_log(0, 31)); break; case 1: body<uint64_t>(c, m, c.chance(1, 12) ? c.range(64, 76) : c.chance(1, 8) ? 63 : c.range_log(0, 63)); break; default: body<w128_t>(c, m, c.chance(1, 24) ? c.range(128, 134) : c.chance(1, 12) ? 127 : c.range_log(0, 60)); }
}
PBT_CHECK(large, 400, 4000) { int m = c.range(100, 300); switch (c.below(3)) { case 0: body<uint32_t>(c, m, c.range(0, 31)); break; case 1: body<uint64_t>(c, m, c.range(0, 40)); break; default: body<w128_t>(c, m, c.range(0, 60)); } }
// the class of rmt64dc: its transition is singular for every second mata
struct RmtV : dcm::Rmt { BV vec() const { return s; } void from(const BV &v) { s = v; } void step() { raw(); } BV rnd(uint64_t &st) const { BV v = s; for (auto &x : v) x = pbt::splitmix(st); return v; } };
static Poly rmt_minpoly(const RmtV &m0, uint64_t st) { Poly l(1); int n = m0.bits(); for (int ok = 0; ok < 30 && l.deg() < n;) { BV y = sm::apply(m0, l, m0.rnd(st)); if (gf2::zero(y)) { ok++; continue; } ok = 0; RmtV m = m0; m.from(y); BV h = m0.rnd(st); std::vector<uint8_t> q; for (int i = 0; i < 2 * (n - l.deg()); i++) { q.push_back(gf2::dot(h, m.vec())); m.step(); } Poly g = gf2::berlekamp_massey(q); if (g.deg() > 0) l = gf2::mul(l, g); } return l; }
PBT_CHECK(rmt64_class, 2500, 40000) {
    RmtV m; int n = c.range(2, 5); m.s.resize((size_t)n); m.pos = c.range(0, n - 1); uint64_t st = c.u64(); Poly chi, f, q; bool ok = false;
    for (int k = 0; k < 15 && !ok; k++) { m.mata = k ? pbt::splitmix(st) : c.word(); chi = rmt_minpoly(m, st); if (!sm::big_factor(chi, std::max(64 * (n - 1), 32 * n + 1), 64 * n - 1, &f)) continue; q = gf2::quo(chi, f); ok = gf2::gcd(q, f).deg() == 0; }
    if (!ok) { c.label("no factor of a suitable degree"); return; } m.mexp = f.deg(); c.desc << "RMT64Search mexp=" << m.mexp << " pos=" << m.pos << " mata=" << std::hex << m.mata << std::dec; c.ready(); c.label(chi.get(0) ? "invertible transition" : "singular transition"); c.nontrivial();
    gf2::Echelon e(64); for (int b = 0; b < 64 * n; b++) { BV u((size_t)n, 0); gf2::setbit(u, (size_t)b); e.insert(BV{sm::apply(m, f, u).back()}); }
    RMT64Search g(m.mexp, m.pos, m.mata, c.word()); uint64_t p = 0; bool thrown = false; { Capture cap; AlgorithmCalculateParity<uint64_t, RMT64Search> cp; try { p = cp.searchParity(g, to_ntl(f)); } catch (...) { thrown = true; } }
    if (e.rank() == 64) { c.label("no parity vector exists"); PBT_REQUIRE(thrown, "no parity vector exists, but " << std::hex << p << " was returned"); return; }
    PBT_REQUIRE(!thrown, "no parity vector is found"); PBT_REQUIRE(p, "the parity vector is zero"); for (auto &r : e.rows) PBT_REQUIRE(!(__builtin_popcountll(r[0] & p) & 1), "the parity vector " << std::hex << p << " accepts a state without long-period part, parity word " << r[0]);
    char b[20]; snprintf(b, 20, ",%016llx,", (unsigned long long)p); PBT_REQUIRE(g.getParamString().find(b) != std::string::npos, "searchParity() returns " << std::hex << p << " but the parameters say " << g.getParamString());
}
