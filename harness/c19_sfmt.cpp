// sfmt: the generator class, its period certification, and the component and parity calculations
#include "gens.hpp"
#include "sfmtmodel.hpp"
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include "sfmtdc/sfmtsearch.hpp"
#include "sfmtdc/Annihilate.h"
using namespace MTToolBox;
const char *pbt::property_id = "C19";
const char *pbt::property_rule = "A case is a history over several sfmt instances (parameters, seeding, draws in every start and weight mode, top bits, reversal, clone, copy, add at different buffer positions, one-bit and zero states, parity word), or a certification of a seeded state, or generated parameters whose characteristic polynomial has one irreducible factor of degree mexp. Non-trivial: a draw checked on an instance that was copied, added to or switched in mode; for the others every case.";
std::vector<std::string> pbt::assumptions = {"2 words or more, shifts sl1 and sr1 of 1 to 31 bits, sl2 and sr2 of 1 to 7 bytes", "periodCertification() is called on a freshly seeded state and the parity vector is not zero"};
using sm::W; using sm::Sfmt;
static w128_t w(const W &a) { return gens::W<w128_t>::mk(a.l, a.h); }
static W un(const w128_t &a) { W r; r.l = a.u64[0]; r.h = a.u64[1]; return r; }
static std::string hx(const W &a) { return gens::hex<w128_t>(w(a)); }
static W word(pbt::Case &c) { W r; r.l = c.word(); r.h = c.word(); return r; }
static sfmt_param params(const Sfmt &m) { sfmt_param p; p.mexp = m.mexp; p.pos1 = m.pos1; p.sl1 = m.sl1; p.sl2 = m.sl2; p.sr1 = m.sr1; p.sr2 = m.sr2; p.msk1 = m.msk.u(0); p.msk2 = m.msk.u(1); p.msk3 = m.msk.u(2); p.msk4 = m.msk.u(3); p.parity1 = m.parity.u(0); p.parity2 = m.parity.u(1); p.parity3 = m.parity.u(2); p.parity4 = m.parity.u(3); return p; }
static std::string text(const Sfmt &m) { std::ostringstream o; char b[20]; o << m.mexp << "," << m.pos1 << "," << m.sl1 << "," << m.sl2 << "," << m.sr1 << "," << m.sr2 << ","; for (int i = 0; i < 8; i++) { snprintf(b, 20, "%08x,", i < 4 ? m.msk.u(i) : m.parity.u(i - 4)); o << b; } return o.str(); }
static bool parse(const std::string &s, Sfmt &m) { unsigned k[4], p[4]; if (sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d,%x,%x,%x,%x,%x,%x,%x,%x", &m.mexp, &m.pos1, &m.sl1, &m.sl2, &m.sr1, &m.sr2, k, k + 1, k + 2, k + 3, p, p + 1, p + 2, p + 3) != 14) return false; for (int i = 0; i < 4; i++) { m.msk.set(i, k[i]); m.parity.set(i, p[i]); } return true; }
static void rnd_param(pbt::Case &c, Sfmt &m, int n) { m.s.resize((size_t)n); m.pos1 = n > 2 ? c.range(0, n - 2) : c.range(0, 1); m.sl1 = c.range(1, 31); m.sl2 = c.range(1, 7); m.sr1 = c.range(1, 31); m.sr2 = c.range(1, 7); for (int i = 0; i < 4; i++) m.msk.set(i, (uint32_t)(c.u64() | c.u64())); }
struct Inst { std::unique_ptr<sfmt> g; Sfmt m; bool touched = false; };
struct Other : ReducibleGenerator<w128_t> {
    w128_t generate() override { return w128_t(); } w128_t generate(int) override { return w128_t(); } void seed(w128_t) override {} void setUpParam(ParameterGenerator &) override {} int bitSize() const override { return 1; } bool isZero() const override { return true; } void setZero() override {}
    void add(EquidistributionCalculatable<w128_t> &) override {} EquidistributionCalculatable<w128_t> *clone() const override { return new Other; } const std::string getHeaderString() override { return ""; } const std::string getParamString() override { return ""; }
    int getMexp() const override { return 1; } void setParityValue(w128_t) override {} w128_t getParityValue() const override { return w128_t(); } void setOneBit(int) override {}
};
PBT_CHECK(history, 300000, 6000000) {
    std::vector<Inst> v(1); v.reserve(4); Inst &f = v[0]; int n = c.weighted({3, 2, 1}) ? c.range(2, 9) : c.range(2, 5); f.m.mexp = 128 * (n - 1) + c.range(0, 127); bool nt = false;
    if (n > 2 && c.chance(1, 4)) { f.g.reset(new sfmt(f.m.mexp)); f.m.s.resize((size_t)n); std::unique_ptr<ParameterGenerator> pg; if (c.coin()) pg.reset(new MersenneTwister((uint32_t)c.u64())); else pg.reset(new gens::TapePG(c.u64())); f.g->setUpParam(*pg); std::string s = f.g->getParamString(); Sfmt &m = f.m; int me = m.mexp; PBT_REQUIRE(parse(s, m) && m.mexp == me, "parameter string " << s);
        PBT_REQUIRE(m.pos1 >= 1 && m.pos1 <= n - 2 && m.sl1 >= 1 && m.sl1 <= 31 && m.sr1 >= 1 && m.sr1 <= 31 && m.sl2 >= 1 && m.sl2 <= 7 && m.sr2 >= 1 && m.sr2 <= 7, "setUpParam() gives parameters the recursion cannot use: " << s); c.label("setUpParam"); W sd = word(c); f.g->seed(w(sd)); m.seed(sd); }
    else { rnd_param(c, f.m, n); f.m.parity = word(c); f.g.reset(new sfmt(params(f.m))); f.m.zero(); c.label("from parameters"); if (c.coin()) { W sd = word(c); f.g->seed(w(sd)); f.m.seed(sd); c.desc << " seed " << hx(sd); } }
    c.desc << text(f.m); Other ot; bool th = false; try { f.g->add(ot); } catch (const std::invalid_argument &) { th = true; } PBT_REQUIRE(th, "add() took a generator of another class");
    auto draw = [&](Inst &i, int bits) { W e = i.m.raw(), g; if (bits) { w128_t x = w(e); if (i.m.rev) x = gens::rev<w128_t>(x); w128_t t = gens::topmask<w128_t>(bits); e.l = x.u64[0] & t.u64[0]; e.h = x.u64[1] & t.u64[1]; g = un(i.g->generate(bits)); } else g = un(i.g->generate()); PBT_REQUIRE(g == e, "generate(" << (bits ? std::to_string(bits) : "") << ") = " << hx(g) << ", by the recursion " << hx(e) << " after: " << c.desc.str()); if (i.touched) nt = true; };
    int ops = c.range(2, 24); bool lng = c.chance(1, 2000); // long histories: counters and positions over 16 bits
    for (int o = 0; o < ops; o++) { size_t k = (size_t)c.below(v.size()); Inst &i = v[k];
        switch (c.weighted({5, 3, 2, 3, 4, 4, 1, 3, 3, 1, 2})) {
        case 0: { int t = lng ? c.range_log(40, 200000) : c.range_log(1, 40); if (t > 65536) c.label("over 65536 draws at once"); c.desc << "; " << k << " draws " << t; for (; t > 0; t--) draw(i, 0); break; }
        case 1: { int t = c.range_log(1, 15), b = c.range(1, 128); c.desc << "; " << k << " draws " << t << " of " << b << " bits"; for (; t > 0; t--) draw(i, b); break; }
        case 2: { W sd = word(c); c.desc << "; " << k << " seed " << hx(sd); i.g->seed(w(sd)); i.m.seed(sd); break; }
        case 3: i.m.rev = c.coin(); c.desc << "; " << k << " reverse " << i.m.rev; if (i.m.rev) i.g->set_reverse_bit(); else i.g->reset_reverse_bit(); break;
        case 4: { if (v.size() >= 4) break; bool cp = c.coin(); c.desc << "; " << k << (cp ? " copied" : " cloned") << " as " << v.size(); Inst x; x.m = i.m; x.g.reset(cp ? new sfmt(*i.g) : dynamic_cast<sfmt *>(i.g->clone())); PBT_REQUIRE(x.g.get(), "clone() gives no sfmt"); x.touched = i.touched = true; v.push_back(std::move(x)); c.label("copied"); break; }
        case 5: { if (v.size() < 2) break; size_t q = (size_t)c.below(v.size()); if (q == k && c.chance(3, 4)) q = (q + 1) % v.size(); c.desc << "; " << k << " += " << q; i.g->add(*v[q].g); Sfmt om = v[q].m; for (size_t t = 0; t < om.s.size(); t++) i.m.s[t] = i.m.s[t] ^ om.s[t]; i.m.prev = i.m.prev ^ om.prev; i.touched = true; c.label("added"); break; }
        case 6: { c.desc << "; " << k << " zero"; i.g->setZero(); i.m.zero(); break; }
        case 7: i.m.sm = c.range(0, 3); c.desc << "; " << k << " start mode " << i.m.sm; i.g->setStartMode(i.m.sm); i.touched = true; c.label("start mode " + std::to_string(i.m.sm)); break;
        case 8: i.m.wm = c.range(1, 4); i.m.prev = W(); c.desc << "; " << k << " weight mode " << i.m.wm; i.g->setWeightMode(i.m.wm); i.touched = true; c.label("weight mode " + std::to_string(i.m.wm)); break;
        case 9: { int b = c.range(0, 128 * n - 1); c.desc << "; " << k << " one bit " << b; i.g->setOneBit(b); i.m.zero(); size_t q = (size_t)((b / 128 + n - 1) % n); (b % 128 < 64 ? i.m.s[q].l : i.m.s[q].h) = UINT64_C(1) << (b % 64); break; } // word 0 of the buffer is the newest of a fresh state
        default: { W p = word(c); c.desc << "; " << k << " parity word " << hx(p); PBT_REQUIRE(un(i.g->getParityValue()) == i.m.s.back(), "getParityValue() is " << hx(un(i.g->getParityValue())) << ", the newest word is " << hx(i.m.s.back())); i.g->setParityValue(w(p)); i.m.s.back() = p; i.m.parity = p; } }
        c.ready(); PBT_REQUIRE(i.g->isZero() == i.m.iszero(), "isZero() is " << i.g->isZero() << " after: " << c.desc.str()); PBT_REQUIRE(i.g->bitSize() == 128 * n && i.g->getMexp() == i.m.mexp && i.g->getStartMode() == i.m.sm && i.g->getWeightMode() == i.m.wm, "bitSize, getMexp or the modes are wrong after: " << c.desc.str());
    }
    for (auto &i : v) { PBT_REQUIRE(i.g->getParamString() == text(i.m), "the parameter string " << i.g->getParamString() << " should be " << text(i.m)); for (int t = 0; t < n + 3; t++) draw(i, t & 1 ? 128 : 0); }
    if (nt) c.nontrivial();
}
static int parity_of(const W &a, const W &b) { return (__builtin_popcountll(a.l & b.l) + __builtin_popcountll(a.h & b.h)) & 1; }
// certification: an accepted state is left alone; a refused one gets one parity bit flipped and is then accepted
static void certify(sfmt &g, const Sfmt &m0, const std::string &what) {
    Sfmt m = m0; std::unique_ptr<sfmt> before(new sfmt(g)); int want = parity_of(m.s.back(), m.parity); int r = g.periodCertification(); PBT_REQUIRE(r == want, "periodCertification() returns " << r << ", the parity product is " << want << " for " << what);
    W now = un(g.getParityValue()), d = now ^ m.s.back(); int bits = __builtin_popcountll(d.l) + __builtin_popcountll(d.h);
    if (want) PBT_REQUIRE(bits == 0, "an accepted state was changed by " << hx(d) << " for " << what); else PBT_REQUIRE(bits == 1 && parity_of(d, m.parity) == 1, "a refused state was changed by " << hx(d) << ", parity " << hx(m.parity) << " for " << what);
    m.s.back() = now; PBT_REQUIRE(g.periodCertification() == 1 && un(g.getParityValue()) == now, "the corrected state is not accepted for " << what); for (size_t t = 0; t < 2 * m.s.size(); t++) { W e = m.raw(), o = un(g.generate()); PBT_REQUIRE(e == o, "certification changed more than the parity word, output " << t << " for " << what); }
}
PBT_CHECK(certification, 200000, 3000000) {
    Sfmt m; int n = c.range(2, 6); m.mexp = 128 * (n - 1) + c.range(0, 127); rnd_param(c, m, n); m.parity = word(c); if (c.chance(1, 3)) { m.parity = W(); int b = c.range(0, 127); (b < 64 ? m.parity.l : m.parity.h) = UINT64_C(1) << (b % 64); } if (!(m.parity.l | m.parity.h)) m.parity.h = UINT64_C(1) << 63; W sd = word(c); c.desc << text(m) << " seed " << hx(sd); c.ready(); c.nontrivial();
    sfmt g(params(m)); g.seed(w(sd)); m.seed(sd); if (c.chance(1, 6)) { g.setZero(); m.zero(); c.label("zero state"); } c.label(parity_of(m.s.back(), m.parity) ? "accepted" : "corrected"); certify(g, m, c.desc.str());
}
// parameters whose characteristic polynomial has one irreducible factor f of degree mexp
static void component(pbt::Case &c, int n) {
    Sfmt m; rnd_param(c, m, n); uint64_t st = c.u64(); sm::Poly chi = sm::minpoly_T(m, st), f; if (!sm::big_factor(chi, std::max(128 * (n - 1), 64 * n + 1), 128 * n - 1, &f)) { c.label("no factor of a suitable degree"); return; }
    m.mexp = f.deg(); if (gf2::gcd(gf2::quo(chi, f), f).deg() > 0) { c.label("repeated factor"); return; } sm::Poly q = gf2::quo(chi, f); W sd; sd.l = c.word(); sd.h = c.word(); c.desc << text(m) << " deg chi " << chi.deg() << " seed " << hx(sd); c.ready();
    std::unique_ptr<sfmt> g(new sfmt(params(m))); g->seed(w(sd)); m.seed(sd); sm::BV x0 = m.vec(), fx = sm::apply(m, q, x0); if (gf2::zero(fx)) { c.label("no f component"); return; }
    // anni() reads bit 0 of the outputs: it has to show the whole recursion
    { sm::Poly l(1); for (int k = 0; k < 12 && l.deg() < chi.deg(); k++) { Sfmt t = m; t.from(sm::rnd_state(m, st)); std::vector<uint8_t> z; for (int i = 0; i < 2 * 128 * n; i++) { t.step(); z.push_back((uint8_t)(t.s.back().l & 1)); } sm::Poly b = gf2::berlekamp_massey(z); if (b.deg() > 0) l = gf2::mul(l, gf2::quo(b, gf2::gcd(b, l))); } if (l.deg() < chi.deg()) { c.label("bit 0 does not show the whole recursion"); return; }
      Sfmt t = m; t.from(fx); bool see = false; for (int i = 0; i < 128 * n && !see; i++) { t.step(); see = t.s.back().l & 1; } if (!see) { c.label("no f component"); return; } }
    // anni(): the state is projected to the f component
    sfmt a(*g); bool ok; { gens::Capture cap; ok = anni(a); } PBT_REQUIRE(ok, "anni() fails for " << c.desc.str());
    Sfmt ma = m; for (int t = 0; t < n; t++) { ma.s[(size_t)t] = un(a.generate()); } sm::BV y = ma.vec(); PBT_REQUIRE(!gf2::zero(y), "anni() leaves the zero state for " << c.desc.str()); PBT_REQUIRE(gf2::zero(sm::apply(ma, f, y)), "after anni() the state is not in the component of the irreducible factor: " << c.desc.str()); Sfmt mb = ma; for (int t = 0; t < 2 * n; t++) { W e = mb.raw(), o = un(a.generate()); PBT_REQUIRE(e == o, "after anni() the generator does not follow its recursion: " << c.desc.str()); }
    c.nontrivial(); c.label(chi.deg() == 128 * n ? "full minimal polynomial" : "defective minimal polynomial"); c.label("size " + std::to_string(n));
    // searchParity(): orthogonal to the parity words of every state without f component
    { if (!chi.get(0)) c.label("singular transition");
      std::vector<W> K; gf2::Echelon e((size_t)128); for (int b = 0; b < 128 * n && e.rank() < 128; b++) { sm::BV u((size_t)2 * (size_t)n, 0); gf2::setbit(u, (size_t)b); sm::BV z = sm::apply(m, f, u); sm::BV p(z.end() - 2, z.end()); e.insert(p); } if (e.rank() >= 128) { c.label("no parity vector exists"); return; }
      GF2X F = gens::to_ntl(f); W p; { gens::Capture cap; AlgorithmCalculateParity<w128_t, sfmt> cp; cp.searchParity(*g, F); p = un(g->getParityValue()); } PBT_REQUIRE(p.l | p.h, "the parity vector is zero for " << c.desc.str()); for (auto &r : e.rows) PBT_REQUIRE(!(gf2::dot(r, sm::BV{p.l, p.h})), "the parity vector " << hx(p) << " accepts a state without long-period part, parity word " << hx(W{r[0], r[1]}) << " for " << c.desc.str());
      Sfmt t; PBT_REQUIRE(parse(g->getParamString(), t) && t.parity == p && t.mexp == m.mexp && t.msk == m.msk, "searchParity() returns " << hx(p) << " but the parameters say " << g->getParamString()); m.parity = p; c.label("parity");
      sfmt h(params(m)); W s2; s2.l = c.u64(); s2.h = c.word(); h.seed(w(s2)); Sfmt mm = m; mm.seed(s2); certify(h, mm, text(m)); // and a certified state does have the long period
      sfmt h2(params(m)); h2.seed(w(s2)); h2.periodCertification(); mm.s.back() = un(h2.getParityValue()); PBT_REQUIRE(!gf2::zero(sm::apply(mm, q, mm.vec())), "a certified state has no part of period 2^mexp-1: " << text(m) << " seed " << hx(s2)); }
}
PBT_CHECK(component_small, 6000, 60000) { component(c, c.range(2, 3)); }
PBT_CHECK(component_large, 1500, 12000) { component(c, c.range(4, c.thorough ? 7 : 5)); }
