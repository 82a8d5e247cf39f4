// dSFMT: the generator class, its period certification with fix point, and the component calculations
#include "gens.hpp"
#include "sfmtmodel.hpp"
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include "dSFMTdc/dSFMTsearch.hpp"
#include "dSFMTdc/Annihilate.h"
#include "dSFMTdc/calc_fixpoint.h"
using namespace MTToolBox;
const char *pbt::property_id = "C20";
const char *pbt::property_rule = "A case is a history over several dSFMT instances (parameters, seeding with and without the exponent prefix, draws in every start and weight mode, top bits, clone, copy, add at different buffer positions, constant vector, one-bit and zero states, comparison, lung), or a certification of a seeded state with or without fix point, or generated parameters whose characteristic polynomial has one irreducible factor of degree mexp. Non-trivial: a draw checked on an instance that was copied, added to or switched in mode; for the others every case.";
std::vector<std::string> pbt::assumptions = {"2 words or more, shift sl1 of 1 to 51 bits, masks of 52 bits", "the parity vector is not zero"};
using sm::W; using sm::Dsfmt;
static const uint64_t ONE = UINT64_C(0x3ff0000000000000), M52 = (UINT64_C(1) << 52) - 1;
static w128_t w(const W &a) { return gens::W<w128_t>::mk(a.l, a.h); }
static W un(const w128_t &a) { W r; r.l = a.u64[0]; r.h = a.u64[1]; return r; }
static std::string hx(const W &a) { return gens::hex<w128_t>(w(a)); }
static W word(pbt::Case &c) { W r; r.l = c.word(); r.h = c.word(); return r; }
static dSFMT_param params(const Dsfmt &m) { dSFMT_param p; p.mexp = m.mexp; p.pos1 = m.pos1; p.sl1 = m.sl1; p.msk1 = m.msk[0]; p.msk2 = m.msk[1]; p.fix1 = m.fix[0]; p.fix2 = m.fix[1]; p.parity1 = m.parity[0]; p.parity2 = m.parity[1]; return p; }
static std::string text(const Dsfmt &m) { std::ostringstream o; char b[20]; o << m.mexp << "," << m.pos1 << "," << m.sl1 << ","; for (const uint64_t *q : {m.msk, m.fix, m.parity}) for (int i = 0; i < 2; i++) { snprintf(b, 20, "%016llx,", (unsigned long long)q[i]); o << b; } return o.str(); }
static bool parse(const std::string &s, Dsfmt &m) { unsigned long long k[6]; if (sscanf(s.c_str(), "%d,%d,%d,%llx,%llx,%llx,%llx,%llx,%llx", &m.mexp, &m.pos1, &m.sl1, k, k + 1, k + 2, k + 3, k + 4, k + 5) != 9) return false; for (int i = 0; i < 2; i++) { m.msk[i] = k[i]; m.fix[i] = k[2 + i]; m.parity[i] = k[4 + i]; } return true; }
static void rnd_param(pbt::Case &c, Dsfmt &m, int n) { m.s.resize((size_t)n); m.pos1 = n > 2 ? c.range(0, n - 2) : c.range(0, 1); m.sl1 = c.range(1, 51); for (int i = 0; i < 2; i++) m.msk[i] = (c.u64() | c.u64()) & M52; m.mexp = 128 + 104 * (n - 1) + c.range(0, 103); }
static void prefix(Dsfmt &m, uint64_t p) { for (auto &x : m.s) { x.l |= p; x.h |= p; } }
static Dsfmt constant(const Dsfmt &m0) { Dsfmt m = m0; m.zero(); prefix(m, ONE); m.step(); for (auto &x : m.s) { x.l ^= ONE; x.h ^= ONE; } m.prev = W(); return m; } // what one step adds to the 52-bit state
struct Inst { std::unique_ptr<dSFMT> g; Dsfmt m; uint64_t pre = 0; bool touched = false; };
struct Other : ReducibleGenerator<w128_t> {
    w128_t generate() override { return w128_t(); } w128_t generate(int) override { return w128_t(); } void seed(w128_t) override {} void setUpParam(ParameterGenerator &) override {} int bitSize() const override { return 1; } bool isZero() const override { return true; } void setZero() override {}
    void add(EquidistributionCalculatable<w128_t> &) override {} EquidistributionCalculatable<w128_t> *clone() const override { return new Other; } const std::string getHeaderString() override { return ""; } const std::string getParamString() override { return ""; }
    int getMexp() const override { return 1; } void setParityValue(w128_t) override {} w128_t getParityValue() const override { return w128_t(); } void setOneBit(int) override {}
};
PBT_CHECK(history, 300000, 6000000) {
    std::vector<Inst> v(1); v.reserve(4); Inst &f = v[0]; int n = c.weighted({3, 2, 1}) ? c.range(2, 9) : c.range(2, 5); bool nt = false;
    if (n > 2 && c.chance(1, 4)) { f.m.mexp = 128 + 104 * (n - 1) + c.range(0, 103); f.g.reset(new dSFMT(f.m.mexp)); f.m.s.resize((size_t)n); int fx = 0; if (c.coin()) { fx = c.range(1, 51); f.g->setFixed(true); f.g->setFixedSL1(fx); c.label("fixed sl1"); if (c.chance(1, 4)) { f.g->setFixed(false); fx = 0; } }
        if (c.chance(1, 3)) { f.g.reset(c.coin() ? new dSFMT(*f.g) : dynamic_cast<dSFMT *>(static_cast<EquidistributionCalculatable<w128_t> *>(f.g->clone()))); c.label("copied before setUpParam"); }
        std::unique_ptr<ParameterGenerator> pg; if (c.coin()) pg.reset(new MersenneTwister64(c.u64())); else pg.reset(new gens::TapePG(c.u64())); f.g->setUpParam(*pg); std::string s = f.g->getParamString(); Dsfmt &m = f.m; int me = m.mexp; PBT_REQUIRE(parse(s, m) && m.mexp == me, "parameter string " << s);
        PBT_REQUIRE(m.pos1 >= 1 && m.pos1 <= n - 2 && m.sl1 >= 1 && m.sl1 <= 51 && !(m.msk[0] & ~M52) && !(m.msk[1] & ~M52), "setUpParam() gives parameters the recursion cannot use: " << s); if (fx) PBT_REQUIRE(m.sl1 == fx, "sl1 is fixed at " << fx << " but " << s); c.label("setUpParam"); W sd = word(c); f.g->seed(w(sd)); m.seed(sd); }
    else { rnd_param(c, f.m, n); for (int i = 0; i < 2; i++) { f.m.fix[i] = c.word(); f.m.parity[i] = c.word(); } f.g.reset(new dSFMT(params(f.m))); f.m.zero(); c.label("from parameters"); if (c.coin()) { W sd = word(c); f.g->seed(w(sd)); f.m.seed(sd); c.desc << " seed " << hx(sd); } }
    c.desc << text(f.m); Other ot; bool th = false; try { static_cast<EquidistributionCalculatable<w128_t> *>(f.g.get())->add(ot); } catch (const std::invalid_argument &) { th = true; } PBT_REQUIRE(th, "add() took a generator of another class");
    auto draw = [&](Inst &i, int bits) { W e = i.m.raw(), g; if (bits) { w128_t t = gens::topmask<w128_t>(bits); e.l &= t.u64[0]; e.h &= t.u64[1]; g = un(i.g->generate(bits)); } else g = un(i.g->generate()); PBT_REQUIRE(g == e, "generate(" << (bits ? std::to_string(bits) : "") << ") = " << hx(g) << ", by the recursion " << hx(e) << " after: " << c.desc.str()); if (i.touched) nt = true; };
    int ops = c.range(2, 24); bool lng = c.chance(1, 2000); // long histories: counters and positions over 16 bits
    for (int o = 0; o < ops; o++) { size_t k = (size_t)c.below(v.size()); Inst &i = v[k];
        switch (c.weighted({5, 3, 2, 2, 4, 4, 1, 3, 3, 1, 2, 1, 2, 1})) {
        case 0: { int t = lng ? c.range_log(40, 200000) : c.range_log(1, 40); if (t > 65536) c.label("over 65536 draws at once"); c.desc << "; " << k << " draws " << t; for (; t > 0; t--) draw(i, 0); break; }
        case 1: { int t = c.range_log(1, 15), b = c.range(1, 128); c.desc << "; " << k << " draws " << t << " of " << b << " bits"; for (; t > 0; t--) draw(i, b); break; }
        case 2: { W sd = word(c); c.desc << "; " << k << " seed " << hx(sd); i.g->seed(w(sd)); i.m.seed(sd); prefix(i.m, i.pre); break; }
        case 3: i.pre = c.coin() ? 0 : c.coin() ? ONE : c.u64() & ~M52; c.desc << "; " << k << " prefix " << std::hex << i.pre << std::dec; i.g->setPrefix(i.pre); break;
        case 4: { if (v.size() >= 4) break; bool cp = c.coin(); c.desc << "; " << k << (cp ? " copied" : " cloned") << " as " << v.size(); Inst x; x.m = i.m; x.pre = i.pre; x.g.reset(cp ? new dSFMT(*i.g) : dynamic_cast<dSFMT *>(i.g->clone())); PBT_REQUIRE(x.g.get(), "clone() gives no dSFMT"); x.touched = i.touched = true; v.push_back(std::move(x)); c.label("copied"); break; }
        case 5: { if (v.size() < 2) break; size_t q = (size_t)c.below(v.size()); if (q == k && c.chance(3, 4)) q = (q + 1) % v.size(); c.desc << "; " << k << " += " << q; Dsfmt om = v[q].m; if (c.coin()) i.g->add(static_cast<const dSFMT *>(v[q].g.get())); else static_cast<EquidistributionCalculatable<w128_t> *>(i.g.get())->add(*v[q].g); for (size_t t = 0; t < om.s.size(); t++) i.m.s[t] = i.m.s[t] ^ om.s[t]; i.m.lung = i.m.lung ^ om.lung; i.m.prev = i.m.prev ^ om.prev; i.touched = true; c.label("added"); break; }
        case 6: { c.desc << "; " << k << " zero"; i.g->setZero(); i.m.zero(); break; }
        case 7: i.m.sm = c.range(0, 1); c.desc << "; " << k << " start mode " << i.m.sm; i.g->setStartMode(i.m.sm); i.touched = true; c.label("start mode " + std::to_string(i.m.sm)); break;
        case 8: i.m.wm = c.range(1, 2); i.m.prev = W(); c.desc << "; " << k << " weight mode " << i.m.wm; i.g->setWeightMode(i.m.wm); i.touched = true; c.label("weight mode " + std::to_string(i.m.wm)); break;
        case 9: { int b = c.range(0, 104 * n + 127); c.desc << "; " << k << " one bit " << b; i.g->setOneBit(b); i.m.zero(); if (b < 104 * n) { size_t q = (size_t)((b / 104 + n - 1) % n); (b % 104 < 52 ? i.m.s[q].l : i.m.s[q].h) = UINT64_C(1) << (b % 52); } else { b -= 104 * n; (b < 64 ? i.m.lung.l : i.m.lung.h) = UINT64_C(1) << (b % 64); } break; } // word 0 of the buffer is the newest of a fresh state
        case 10: { W p = word(c); c.desc << "; " << k << " parity word " << hx(p); PBT_REQUIRE(un(i.g->getParityValue()) == i.m.lung, "getParityValue() is " << hx(un(i.g->getParityValue())) << ", the lung is " << hx(i.m.lung)); i.g->setParityValue(w(p)); i.m.lung = p; i.m.parity[0] = p.l; i.m.parity[1] = p.h; break; }
        case 11: { c.desc << "; " << k << " constant vector"; i.g->setConst(); Dsfmt t = constant(i.m); i.m = t; i.pre = 0; c.label("constant vector"); break; }
        case 12: { if (v.size() < 2) break; size_t q = (size_t)c.below(v.size()); bool eq = i.g->equals(*v[q].g), want = i.m.vec() == v[q].m.vec(); PBT_REQUIRE(eq == want, "equals() of " << k << " and " << q << " is " << eq << " after: " << c.desc.str()); c.label(want ? "equal" : "not equal"); break; }
        default: { W x = word(c); c.desc << "; " << k << " fix point " << hx(x); i.g->setFixPoint(w(x)); i.m.fix[0] = x.l; i.m.fix[1] = x.h; } }
        c.ready(); PBT_REQUIRE(i.g->isZero() == i.m.iszero(), "isZero() is " << i.g->isZero() << " after: " << c.desc.str()); PBT_REQUIRE(i.g->bitSize() == 104 * n + 128 && i.g->getMexp() == i.m.mexp && i.g->getStartMode() == i.m.sm && i.g->getWeightMode() == i.m.wm, "bitSize, getMexp or the modes are wrong after: " << c.desc.str());
    }
    for (auto &i : v) { PBT_REQUIRE(i.g->getParamString() == text(i.m), "the parameter string " << i.g->getParamString() << " should be " << text(i.m)); for (int t = 0; t < n + 3; t++) draw(i, t & 1 ? 128 : 0); PBT_REQUIRE(un(i.g->getParityValue()) == i.m.lung, "the lung is wrong after: " << c.desc.str()); }
    if (nt) c.nontrivial();
}
static int parity_of(const W &a, const W &b) { return (__builtin_popcountll(a.l & b.l) + __builtin_popcountll(a.h & b.h)) & 1; }
static void certify(dSFMT &g, const Dsfmt &m0, bool nofix, const std::string &what) {
    Dsfmt m = m0; W p, fx; p.l = m.parity[0]; p.h = m.parity[1]; if (!nofix) { fx.l = m.fix[0]; fx.h = m.fix[1]; }
    int want = parity_of(m.lung ^ fx, p), r = nofix ? g.periodCertification(true) : g.periodCertification(); PBT_REQUIRE(r == want, "periodCertification() returns " << r << ", the parity product is " << want << " for " << what);
    W now = un(g.getParityValue()), d = now ^ m.lung; int bits = __builtin_popcountll(d.l) + __builtin_popcountll(d.h);
    if (want) PBT_REQUIRE(bits == 0, "an accepted state was changed by " << hx(d) << " for " << what); else PBT_REQUIRE(bits == 1 && parity_of(d, p) == 1, "a refused state was changed by " << hx(d) << ", parity " << hx(p) << " for " << what);
    m.lung = now; PBT_REQUIRE(g.periodCertification(nofix) == 1 && un(g.getParityValue()) == now, "the corrected state is not accepted for " << what); for (size_t t = 0; t < 2 * m.s.size(); t++) { W e = m.raw(), o = un(g.generate()); PBT_REQUIRE(e == o, "certification changed more than the lung, output " << t << " for " << what); }
}
PBT_CHECK(certification, 200000, 3000000) {
    Dsfmt m; int n = c.range(2, 6); rnd_param(c, m, n); W p = word(c), fx = word(c); if (c.chance(1, 3)) { p = W(); int b = c.range(0, 127); (b < 64 ? p.l : p.h) = UINT64_C(1) << (b % 64); } if (!(p.l | p.h)) p.l = UINT64_C(1) << 63; m.parity[0] = p.l; m.parity[1] = p.h; m.fix[0] = fx.l; m.fix[1] = fx.h; W sd = word(c); c.desc << text(m) << " seed " << hx(sd); c.ready(); c.nontrivial(); bool nofix = c.chance(1, 3);
    dSFMT g(params(m)); if (c.coin()) { g.setPrefix(ONE); g.seed(w(sd)); m.seed(sd); prefix(m, ONE); } else { g.seed(w(sd)); m.seed(sd); } for (int t = c.coin() ? 0 : c.range(0, 20); t > 0; t--) { g.generate(); m.raw(); } if (c.chance(1, 6)) { g.setZero(); m.zero(); c.label("zero state"); } c.label(nofix ? "without fix point" : "with fix point"); certify(g, m, nofix, c.desc.str());
}
static sm::BV sub(const sm::BV &a, const sm::BV &b) { sm::BV r = a; gf2::xorv(r, b); return r; }
// parameters whose characteristic polynomial has one irreducible factor f of degree mexp
static void component(pbt::Case &c, int n) {
    Dsfmt m; rnd_param(c, m, n); uint64_t st = c.u64(); int N = m.bits(); sm::Poly chi = sm::minpoly_T(m, st), f; if (!sm::big_factor(chi, 128 + 104 * (n - 1), N - 1, &f)) { c.label("no factor of a suitable degree"); return; }
    m.mexp = f.deg(); if (Dsfmt::words(m.mexp) != n) { c.label("no factor of a suitable degree"); return; } sm::Poly q = gf2::quo(chi, f); if (gf2::gcd(q, f).deg() > 0) { c.label("repeated factor"); return; } W sd; sd.l = c.word(); sd.h = c.word(); c.desc << text(m) << " deg chi " << chi.deg() << " seed " << hx(sd); c.ready();
    std::unique_ptr<dSFMT> g(new dSFMT(params(m))); g->seed(w(sd)); m.seed(sd); sm::BV x0 = m.vec(), fx = sm::apply(m, q, x0); if (gf2::zero(fx)) { c.label("no f component"); return; }
    { sm::Poly l(1); for (int k = 0; k < 12 && l.deg() < chi.deg(); k++) { Dsfmt t = m; t.from(sm::rnd_state(m, st)); std::vector<uint8_t> z; for (int i = 0; i < 2 * N; i++) { t.step(); z.push_back((uint8_t)(t.lung.l & 1)); } sm::Poly b = gf2::berlekamp_massey(z); if (b.deg() > 0) l = gf2::mul(l, gf2::quo(b, gf2::gcd(b, l))); } if (l.deg() < chi.deg()) { c.label("bit 0 of the lung does not show the whole recursion"); return; }
      Dsfmt t = m; t.from(fx); bool see = false; for (int i = 0; i < N && !see; i++) { t.step(); see = t.s.back().l & 1; } if (!see) { c.label("no f component"); return; } }
    std::string id = c.desc.str(); GF2X F = gens::to_ntl(f), L; c.nontrivial(); c.label(chi.deg() == N ? "full minimal polynomial" : "defective minimal polynomial"); c.label("size " + std::to_string(n));
    { gens::Capture cap; if (c.coin()) L = F; else SetCoeff(L, 0); getLCMPoly(L, *g); } PBT_REQUIRE(L == gens::to_ntl(chi), "getLCMPoly() gives a polynomial of degree " << deg(L) << " which is not the minimal polynomial of the recursion: " << id);
    // anni(): the state is projected to the f component
    { dSFMT a(*g); int sm_ = c.range(0, 1); bool ok; { gens::Capture cap; ok = anni(a); } PBT_REQUIRE(ok, "anni() fails for " << id); Dsfmt ma = m; ma.zero(); for (int t = 0; t < n; t++) ma.s[(size_t)t] = un(a.generate()); ma.lung = un(a.getParityValue()); sm::BV y = ma.vec(); PBT_REQUIRE(!gf2::zero(y) && gf2::zero(sm::apply(ma, f, y)), "after anni() the state is not in the component of the irreducible factor: " << id); a.setStartMode(sm_); ma.sm = sm_; for (int t = 0; t < 2 * n; t++) { W e = ma.raw(), o = un(a.generate()); PBT_REQUIRE(e == o, "after anni() the generator does not follow its recursion: " << id); } }
    // the fix point of the f component of the real (affine) recursion
    Dsfmt k = constant(m); sm::BV cv = k.vec(), z; { // e = b q = 1 mod f, 0 mod q: z = (T+1)^-1 e(T) c in Ker f
        sm::BV cf = sm::apply(m, q, cv); sm::Poly inv = sm::invmod(gf2::mod(gf2::mul(q, gf2::add(sm::Poly(2), sm::Poly(1))), f), f); z = sm::apply(m, inv, cf); Dsfmt t = m; t.from(z); t.step(); sm::BV ef = sm::apply(m, sm::invmod(gf2::mod(q, f), f), cf); if (sub(sub(t.vec(), z), ef) != sm::BV(z.size(), 0)) throw pbt::Failure{"harness: fix point"}; }
    W fix; { gens::Capture cap; fix = un(calc_fixpoint(*g, F, gens::to_ntl(q))); } W zl; zl.l = z[z.size() - 2]; zl.h = z[z.size() - 1]; PBT_REQUIRE(fix == zl, "calc_fixpoint() gives " << hx(fix) << ", the fix point of the long-period component has the lung " << hx(zl) << ": " << id); m.fix[0] = fix.l; m.fix[1] = fix.h; g->setFixPoint(w(fix));
    if (!chi.get(0)) c.label("singular transition");
    gf2::Echelon e((size_t)128); for (int b = 0; b < N && e.rank() < 128; b++) { Dsfmt t = m; t.zero(); if (b < 104 * n) { (b % 104 < 52 ? t.s[(size_t)(b / 104)].l : t.s[(size_t)(b / 104)].h) = UINT64_C(1) << (b % 52); } else (b - 104 * n < 64 ? t.lung.l : t.lung.h) = UINT64_C(1) << ((b - 104 * n) % 64); sm::BV u = sm::apply(m, f, t.vec()); e.insert(sm::BV(u.end() - 2, u.end())); }
    if (e.rank() >= 128) { c.label("no parity vector exists"); return; }
    W p; { gens::Capture cap; AlgorithmCalculateParity<w128_t, dSFMT> cp; cp.searchParity(*g, F); p = un(g->getParityValue()); } PBT_REQUIRE(p.l | p.h, "the parity vector is zero for " << id); for (auto &r : e.rows) PBT_REQUIRE(!(gf2::dot(r, sm::BV{p.l, p.h})), "the parity vector " << hx(p) << " accepts a state without long-period part, lung " << hx(W{r[0], r[1]}) << " for " << id);
    m.parity[0] = p.l; m.parity[1] = p.h; PBT_REQUIRE(g->getParamString() == text(m), "the parameters say " << g->getParamString() << " after " << text(m)); c.label("parity");
    for (int r = 0; r < 3; r++) { // with the exponent bits set and certified, the state is off the fix point of the long-period component
        dSFMT h(params(m)); h.setPrefix(ONE); W s2; s2.l = c.u64(); s2.h = c.word(); h.seed(w(s2)); Dsfmt mm = m; mm.seed(s2); h.periodCertification(); mm.lung = un(h.getParityValue()); PBT_REQUIRE(!gf2::zero(sm::apply(mm, q, sub(mm.vec(), z))), "a certified state has no part of period 2^mexp-1: " << text(m) << " seed " << hx(s2)); }
}
PBT_CHECK(component_small, 3000, 40000) { component(c, c.range(2, 3)); }
PBT_CHECK(component_large, 600, 8000) { component(c, c.range(4, c.thorough ? 7 : 5)); }
