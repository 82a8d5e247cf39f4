// generator classes the dynamic creators search with (tinymt32, mtgp32, RMT64Search) and
// the C implementation of xorshift128: histories against the published recursions
#include "gens.hpp"
#include "mtref.hpp"
#include "dcmodels.hpp"
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include "TinyMTDC/tinymt32search.hpp"
#include "MTGPDC/MTGP32search.hpp"
using namespace std;
#include "RMT/rmt64.hpp"
#include "XORSHIFT/xorshift128.h"
using namespace MTToolBox;
#if PROBE_MT2
#include "mt2_class.hpp"
#endif
const char *pbt::property_id = "C18";
const char *pbt::property_rule = "A case is a history over several instances of one generator class (set up parameters, seed, draw words or their top bits, reverse the output, clone and copy, add instances whose buffers stand at different places, set temperings, zero, set one bit, change the parity word), compared draw by draw with an independent model built from the parameters alone. Non-trivial: a draw was checked on an instance that was copied, added to or re-tempered.";
std::vector<std::string> pbt::assumptions = {"generate(n) with 1 <= n <= width", "add() between instances with the same parameters", "mexp, id and position as the creators use them, mtgp32 and RMT64 also with small sizes"};
static std::string hx(uint64_t v) { char b[20]; snprintf(b, 20, "%llx", (unsigned long long)v); return b; }
template <class U> static U top(U v, int n) { return (U)(v >> (gens::W<U>::bits - n) << (gens::W<U>::bits - n)); }
static uint64_t field(const std::string &s, int i, int base) { size_t p = 0; while (i--) { p = s.find(',', p); if (p == std::string::npos) throw pbt::Failure{"the parameter string has too few fields: " + s}; p++; } return strtoull(s.c_str() + p, nullptr, base); }

// ---- models ---------------------------------------------------------------
struct MTiny : dcm::Tiny { typedef tinymt::tinymt32 G; };
struct MMtgp : dcm::Mtgp { typedef mtgp::mtgp32 G; };
struct MRmt : dcm::Rmt { typedef RMT64Search G; };
using dcm::mats;
template <class M> struct Inst { std::unique_ptr<typename M::G> g; M m; bool touched = false; };
static void temper(pbt::Case &c, tinymt::tinymt32 &g, MTiny &m) { uint32_t k = (uint32_t)c.word(), p = (uint32_t)c.word(); g.setTemperingPattern(k, p, 0); m.tmat = (m.tmat & ~k) | (p & k); }
static void temper(pbt::Case &c, mtgp::mtgp32 &g, MMtgp &m) { uint32_t k = (uint32_t)c.word(), p = (uint32_t)c.word(); int j = (int)c.below(4); g.setTemperingPattern(k, p, j); m.tmp[j] = (m.tmp[j] & ~k) | (p & k); if (c.chance(1, 3)) return; g.setUpTempering(); memcpy(m.eff, m.tmp, sizeof m.eff); }
static void temper(pbt::Case &c, RMT64Search &g, MRmt &m) { uint64_t k = c.word(), p = c.word(); int j = (int)c.below(2); g.setTemperingPattern(k, p, j); (j ? m.mc : m.mb) = ((j ? m.mc : m.mb) & ~k) | (p & k); g.setUpTempering(); }
#if PROBE_MT2
struct MMt2 : dcm::Mt32 { typedef mt2p::MT32Search G; };
static void temper(pbt::Case &c, mt2p::MT32Search &g, MMt2 &m) { uint32_t k = (uint32_t)c.word(), p = (uint32_t)c.word(); int j = (int)c.below(2); g.setTemperingPattern(k, p, j); (j ? m.mc : m.mb) = ((j ? m.mc : m.mb) & ~k) | (p & k); g.setUpTempering(); }
static void string_check(mt2p::MT32Search &g, const MMt2 &m) { std::string s = g.getParamString(); PBT_REQUIRE(field(s, 0, 10) == (uint64_t)m.mexp && (int)field(s, 1, 10) == m.id && field(s, 2, 10) == (uint64_t)m.pos && field(s, 3, 16) == m.mata && field(s, 4, 16) == m.mb && field(s, 5, 16) == m.mc, "the parameter string " << s << " does not describe the generator"); }
#endif
static bool lazy(const MMtgp &m) { return memcmp(m.eff, m.tmp, sizeof m.eff) != 0; }
template <class M> static bool lazy(const M &) { return false; }

static void string_check(tinymt::tinymt32 &g, const MTiny &m) {
    std::string s = g.getParamString(); PBT_REQUIRE(field(s, 0, 10) == m.id && field(s, 1, 16) == m.m1 && field(s, 2, 16) == m.m2 && field(s, 3, 16) == m.tmat, "the parameter string " << s << " is not of mat1=" << hx(m.m1) << " mat2=" << hx(m.m2) << " tmat=" << hx(m.tmat));
}
static void string_check(mtgp::mtgp32 &g, const MMtgp &m) {
    std::string s = g.getParamString(); bool ok = field(s, 1, 10) == (uint64_t)m.mexp && field(s, 3, 10) == m.id && field(s, 4, 10) == (uint64_t)m.pos && field(s, 5, 10) == 13 && field(s, 6, 10) == 4 && field(s, 15, 16) == m.mask();
    for (int j = 0; j < 4; j++) ok = ok && field(s, 7 + j, 16) == m.tbl[j] && field(s, 11 + j, 16) == m.tmp[j];
    PBT_REQUIRE(ok, "the parameter string " << s << " does not describe the generator");
}
static void string_check(RMT64Search &g, const MRmt &m) { // the string drops mask bits that the shifts never reach
    std::string s = g.getParamString(); PBT_REQUIRE(field(s, 0, 10) == (uint64_t)m.mexp && field(s, 1, 10) == (uint64_t)m.pos && field(s, 2, 16) == m.mata && field(s, 3, 16) == m.parity && field(s, 4, 16) == (m.mb >> 17 << 17) && field(s, 5, 16) == (m.mc >> 37 << 37), "the parameter string " << s << " does not describe the generator");
}
struct Other : TemperingCalculatable<uint32_t> { // another type: add() must refuse it
    uint32_t generate() override { return 0; } uint32_t generate(int) override { return 0; } void seed(uint32_t) override {} void setUpParam(ParameterGenerator &) override {} int bitSize() const override { return 1; } bool isZero() const override { return true; } void setZero() override {}
    void add(EquidistributionCalculatable<uint32_t> &) override {} EquidistributionCalculatable<uint32_t> *clone() const override { return new Other; } const std::string getHeaderString() override { return ""; } const std::string getParamString() override { return ""; }
    void setTemperingPattern(uint32_t, uint32_t, int) override {} void setUpTempering() override {} void setReverseOutput() override {} void resetReverseOutput() override {} bool isReverseOutput() override { return false; }
};
template <class M> static void history(pbt::Case &c, std::vector<Inst<M>> &v, const char *cls) {
    typedef typename M::U U; typedef typename M::G G; const int w = gens::W<U>::bits; c.label(cls); bool nt = false; v.reserve(4);
    auto draw = [&](Inst<M> &i, int how, int n) { U e = i.m.raw(), g; if (how == 0) g = i.g->generate(); else { if (i.m.rev) e = gens::rev<U>(e); e = top<U>(e, n); g = i.g->generate(n); }
        PBT_REQUIRE(g == e, cls << ": generate(" << (how ? std::to_string(n) : "") << ") = " << hx(g) << ", by the recursion " << hx(e) << " after: " << c.desc.str()); if (i.touched) nt = true; };
    int ops = c.range(2, 26); bool lng = c.chance(1, 1200); // long histories: counters and positions over 16 bits
    for (int o = 0; o < ops; o++) { size_t k = (size_t)c.below(v.size()); Inst<M> &i = v[k];
        switch (c.weighted({5, 5, 2, 3, 4, 4, 1, 3, 1, 1})) {
        case 0: { int n = lng ? c.range_log(60, 200000) : c.range_log(1, 60); if (n > 65536) c.label("over 65536 draws at once"); c.desc << "; " << k << " draws " << n; for (int t = 0; t < n; t++) draw(i, 0, 0); break; }
        case 1: { int n = c.range_log(1, 20), b = c.range(1, w); c.desc << "; " << k << " draws " << n << " of " << b << " bits"; for (int t = 0; t < n; t++) draw(i, 1, b); break; }
        case 2: { U s = (U)c.word(); c.desc << "; " << k << " seed " << hx(s); i.g->seed(s); i.m.seed(s); break; }
        case 3: i.m.rev = c.coin(); c.desc << "; " << k << " reverse " << i.m.rev; if (i.m.rev) i.g->setReverseOutput(); else i.g->resetReverseOutput(); break;
        case 4: { if (v.size() >= 4) break; bool cp = c.coin(); c.desc << "; " << k << (cp ? " copied" : " cloned") << " as " << v.size(); Inst<M> n; n.m = i.m; n.g.reset(cp ? new G(*i.g) : dynamic_cast<G *>(i.g->clone())); PBT_REQUIRE(n.g.get() && n.g.get() != i.g.get(), "clone() gives no new generator of the class"); if (std::is_same<M, MTiny>::value && n.m.rev && !n.g->isReverseOutput() && c.known("tinymt32-copy-normal-order")) n.m.rev = false; // the published TinyMT parameters come from this: see DESIGN.md
            n.touched = i.touched = true; v.push_back(std::move(n)); c.label("copied"); break; }
        case 5: { if (v.size() < 2) break; size_t q = (size_t)c.below(v.size()); if (q == k && c.chance(3, 4)) q = (q + 1) % v.size(); c.desc << "; " << k << " += " << q; bool thrown = false; M om = v[q].m; try { i.g->add(*v[q].g); } catch (const std::invalid_argument &) { thrown = true; }
            if (!i.m.same(om)) { PBT_REQUIRE(thrown, cls << ": add() took a generator with other parameters after: " << c.desc.str()); c.label("add refused"); break; }
            PBT_REQUIRE(!thrown, cls << ": add() refuses a generator with the same parameters after: " << c.desc.str()); for (size_t t = 0; t < i.m.s.size(); t++) i.m.s[t] ^= om.s[t]; i.touched = true; c.label("added"); if (k == q) c.label("added to itself"); break; }
        case 6: c.desc << "; " << k << " zero"; i.g->setZero(); i.m.setZero(); break;
        case 7: c.desc << "; " << k << " tempering"; temper(c, *i.g, i.m); i.touched = true; c.desc << (lazy(i.m) ? " (not yet set up)" : ""); c.label("tempered"); break;
        case 8: string_check(*i.g, i.m); break;
        default: { c.desc << "; " << k << " zero?"; PBT_REQUIRE(i.g->isReverseOutput() == i.m.rev, cls << ": isReverseOutput() is " << i.g->isReverseOutput() << " after: " << c.desc.str()); }
        }
        c.ready();
        PBT_REQUIRE(i.g->isZero() == i.m.zero(), cls << ": isZero() is " << i.g->isZero() << " after: " << c.desc.str());
        PBT_REQUIRE(i.g->bitSize() == i.m.bits(), cls << ": bitSize() is " << i.g->bitSize());
    }
    for (size_t k = 0; k < v.size(); k++) { PBT_REQUIRE(v[k].g->isReverseOutput() == v[k].m.rev, cls << ": isReverseOutput() of " << k << " is wrong after: " << c.desc.str()); string_check(*v[k].g, v[k].m); for (size_t t = 0; t < v[k].m.s.size() + 3; t++) draw(v[k], t % 2, w); }
    if (nt) c.nontrivial();
}
static std::unique_ptr<ParameterGenerator> source(pbt::Case &c) { if (c.chance(1, 3)) { uint32_t s = (uint32_t)c.u64(); return std::unique_ptr<ParameterGenerator>(new MersenneTwister(s)); } return std::unique_ptr<ParameterGenerator>(new gens::TapePG(c.u64())); }

// parameters: derived from the source in the way the creators document
PBT_CHECK(tinymt, 200000, 4000000) {
    uint32_t id = c.coin() ? (uint32_t)c.word() : (uint32_t)c.range(0, 70000), num = c.coin() ? (uint32_t)c.word() : (uint32_t)c.below(1u << 20); c.desc << "id=" << hx(id) << " num=" << hx(num);
    std::vector<Inst<MTiny>> v(1); v.reserve(4); Inst<MTiny> &i = v[0]; i.m.id = id; i.g.reset(new tinymt::tinymt32(id)); PBT_REQUIRE(i.g->isZero(), "a new tinymt32 is not zero");
    Sequential<uint32_t> sq(0, num); i.g->setUpParam(sq); i.g->get_mat(&i.m.m1, &i.m.m2); uint32_t a, b; mats(num, id, &a, &b); PBT_REQUIRE(a == i.m.m1 && b == i.m.m2, "mat1, mat2 of number " << hx(num) << " and id " << hx(id) << " are " << hx(i.m.m1) << " " << hx(i.m.m2));
    if (c.chance(1, 4)) { tinymt::tinymt32_param p = i.g->get_param(); p.tmat = (uint32_t)c.word(); i.m.tmat = p.tmat; i.g.reset(new tinymt::tinymt32(p)); c.desc << " tmat=" << hx(p.tmat); c.label("from parameters"); }
    if (c.coin()) { uint32_t st[4]; for (int k = 0; k < 4; k++) i.m.s[(size_t)k] = st[k] = (uint32_t)c.word(); i.g->set_status(st); c.desc << " status " << hx(st[0]) << " " << hx(st[1]) << " " << hx(st[2]) << " " << hx(st[3]); for (int k = 0; k < 4; k++) PBT_REQUIRE(i.g->get_status(k) == st[k], "get_status(" << k << ")"); c.label("set_status"); }
    else { i.g->seed(1); i.m.seed(1); }
    Other o; bool th = false; try { i.g->add(o); } catch (const std::invalid_argument &) { th = true; } PBT_REQUIRE(th, "tinymt32::add() took a generator of another class");
    history(c, v, "tinymt32");
}
PBT_CHECK(tinymt_params_distinct, 100000, 2000000) { // different numbers or ids never give the same recursion
    uint32_t id = (uint32_t)c.word(), id2 = c.coin() ? id : c.coin() ? id ^ (1u << c.below(32)) : (uint32_t)c.word(), n1 = (uint32_t)c.word() & 0x7fffffff, n2 = c.coin() ? n1 ^ (1u << c.below(31)) : (uint32_t)c.u64() & 0x7fffffff; if (id == id2 && n1 == n2) return;
    c.desc << "id " << hx(id) << "/" << hx(id2) << " num " << hx(n1) << "/" << hx(n2); c.ready(); c.nontrivial(); uint32_t a[2], b[2]; tinymt::tinymt32 g(id), h(id2); Sequential<uint32_t> s1(0, n1), s2(0, n2); g.setUpParam(s1); h.setUpParam(s2); g.get_mat(&a[0], &a[1]); h.get_mat(&b[0], &b[1]);
    PBT_REQUIRE(a[0] != b[0] || a[1] != b[1], "the same mat1=" << hx(a[0]) << " mat2=" << hx(a[1]));
}
PBT_CHECK(mtgp, 150000, 3000000) {
    static const std::vector<int> big = {521, 607, 1279, 2203, 3217, 4253}; int mexp = c.chance(1, 3) ? c.pick(big) : c.range(256, 480); if (mexp % 32 == 0) mexp++; uint32_t id = c.coin() ? (uint32_t)c.word() : (uint32_t)c.range(0, 3000000); c.desc << "mexp=" << mexp << " id=" << hx(id);
    std::vector<Inst<MMtgp>> v(1); v.reserve(4); Inst<MMtgp> &i = v[0]; MMtgp &m = i.m; m.mexp = mexp; m.id = id; m.s.assign((size_t)(mexp / 32 + 1), 0); int n = (int)m.s.size(); m.seed(0); i.g.reset(new mtgp::mtgp32(mexp, id));
    auto src = source(c); i.g->setUpParam(*src); auto p = i.g->get_param(); int hi = n > 100 ? n - (1 << (31 - __builtin_clz((unsigned)n))) - 1 : n / 2 - 1; PBT_REQUIRE(p.pos >= 3 && p.pos <= hi, "pos " << p.pos << " of " << n << " words"); m.pos = p.pos; for (int j = 0; j < 4; j++) m.tbl[j] = p.tbl[j];
    PBT_REQUIRE(p.mexp == mexp && p.id == id && p.sh1 == 13 && p.sh2 == 4 && p.mask == m.mask(), "mexp, id, shifts or mask are wrong: " << i.g->getParamString());
    PBT_REQUIRE(((p.tbl[2] >> 4) & 0xffff) == (id & 0xffff) && (p.tbl[3] >> 16) == (id >> 16), "the table does not carry the id: " << i.g->getParamString());
    c.desc << " pos=" << p.pos; Other o; bool th = false; try { i.g->add(o); } catch (const std::invalid_argument &) { th = true; } PBT_REQUIRE(th, "mtgp32::add() took a generator of another class");
    if (c.coin()) { uint32_t s = (uint32_t)c.word(); i.g->seed(s); m.seed(s); c.desc << " seed " << hx(s); }
    history(c, v, "mtgp32");
}
PBT_CHECK(rmt, 150000, 3000000) {
    static const std::vector<int> big = {521, 607, 1279, 2203}; int mexp = c.chance(1, 3) ? c.pick(big) : c.range(64, 450); std::vector<Inst<MRmt>> v(1); v.reserve(4); Inst<MRmt> &i = v[0]; MRmt &m = i.m; m.mexp = mexp; m.s.assign((size_t)(mexp / 64 + 1), 0); uint64_t sd = c.word(); c.desc << "mexp=" << mexp << " seed " << hx(sd);
    switch (c.below(3)) {
    case 0: { i.g.reset(new RMT64Search(mexp, sd)); auto src = source(c); i.g->setUpParam(*src); std::string s = i.g->getParamString(); m.pos = (int)field(s, 1, 10); m.mata = field(s, 2, 16); PBT_REQUIRE(m.pos >= 0 && m.pos < (int)m.s.size(), "pos " << m.pos << " of " << m.s.size() << " words"); c.label("setUpParam"); break; }
    case 1: m.pos = (int)c.below(m.s.size()); m.mata = c.word(); i.g.reset(new RMT64Search(mexp, m.pos, m.mata, sd)); break;
    default: m.pos = (int)c.below(m.s.size()); m.mata = c.word(); m.mb = c.word(); m.mc = c.word(); i.g.reset(new RMT64Search(mexp, m.pos, m.mata, m.mb, m.mc, sd));
    }
    m.seed(sd); c.desc << " pos=" << m.pos << " mata=" << hx(m.mata) << " mb=" << hx(m.mb) << " mc=" << hx(m.mc); PBT_REQUIRE(i.g->getMexp() == mexp, "getMexp() is " << i.g->getMexp());
    if (c.chance(1, 4)) { uint64_t pv = c.word(); int n = c.range(0, 5); for (int t = 0; t < n; t++) { i.g->generate(); m.raw(); } PBT_REQUIRE(i.g->getParityValue() == m.s.back(), "getParityValue() is " << hx(i.g->getParityValue()) << ", the newest word is " << hx(m.s.back())); i.g->setParityValue(pv); m.s.back() = pv; m.parity = pv; c.desc << " parity " << hx(pv) << " after " << n; c.label("parity"); }
    history(c, v, "RMT64");
}
PBT_CHECK(rmt_one_bit, 60000, 600000) { // the states set by setOneBit are the unit vectors: one bit each, all different
    int mexp = c.range(64, 700); RMT64Search g(mexp, 5); int n = g.bitSize(), b = (int)c.below((uint64_t)n); c.desc << "mexp=" << mexp << " bit " << b; c.ready(); c.label(b % 64 >= 31 ? "bit 31 or above" : "bit below 31"); int N = n / 64;
    RMT64Search z(mexp, 0, 0, 5); z.setOneBit(b); PBT_REQUIRE(!z.isZero(), "setOneBit(" << b << ") gives the zero state"); // pos 0 and mata 0 keep the words apart: word i -> f(word i)
    int words = 0, bitsn = 0; MRmt m; m.mexp = mexp; m.s.assign((size_t)N, 0); m.s[(size_t)(b / 64)] = UINT64_C(1) << (b % 64); c.nontrivial();
    for (int t = 0; t < 2 * N; t++) { uint64_t e = m.raw(), o = z.generate(); if (o) words++; bitsn += __builtin_popcountll(o); PBT_REQUIRE(e == o, "output " << t << " after setOneBit(" << b << ") is " << hx(o) << ", should be " << hx(e)); }
}
#if PROBE_MT2
PBT_CHECK(mt2, 100000, 2000000) { // the class of the program mt2
    static const std::vector<int> big = {521, 607, 1279, 2203, 2281, 3217, 4253}; int mexp = c.chance(1, 3) ? c.pick(big) : c.range(97, 450); if (mexp % 32 == 0) mexp++; std::vector<Inst<MMt2>> v(1); v.reserve(4); Inst<MMt2> &i = v[0]; MMt2 &m = i.m; m.mexp = mexp; m.s.assign((size_t)(mexp / 32 + 1), 0); int n = (int)m.s.size(); uint32_t sd = (uint32_t)c.word(); m.id = c.chance(1, 5) ? -1 : c.range(0, 65535); c.desc << "mexp=" << mexp << " id=" << m.id << " seed " << hx(sd);
    if (c.coin()) { i.g.reset(new mt2p::MT32Search(mexp, m.id, sd)); auto src = source(c); i.g->setUpParam(*src); std::string s = i.g->getParamString(); m.pos = (int)field(s, 2, 10); m.mata = (uint32_t)field(s, 3, 16); PBT_REQUIRE(m.pos >= 2 && m.pos < n, "pos " << m.pos << " of " << n << " words"); PBT_REQUIRE(m.id < 0 || (m.mata & 0xffff) == (uint32_t)m.id, "mata " << hx(m.mata) << " does not carry the id " << m.id); c.label("setUpParam"); }
    else { m.pos = c.range(2, n - 1); m.mata = (uint32_t)c.word(); m.mb = (uint32_t)c.word(); m.mc = (uint32_t)c.word(); i.g.reset(new mt2p::MT32Search(mexp, m.id, m.pos, m.mata, m.mb, m.mc, sd)); }
    m.seed(sd); c.desc << " pos=" << m.pos << " mata=" << hx(m.mata) << " mb=" << hx(m.mb) << " mc=" << hx(m.mc); Other o; bool th = false; try { i.g->add(o); } catch (const std::invalid_argument &) { th = true; } PBT_REQUIRE(th, "MT32Search::add() took a generator of another class");
    history(c, v, "MT32Search");
}
PBT_CHECK(mt2_states, 3000, 40000) { // states of one or two bits, built as sums of seeded states: isZero() and the outputs
    int mexp = c.range(97, 190); if (mexp % 32 == 0) mexp++; int pos = c.range(2, mexp / 32); uint32_t mata = (uint32_t)c.word(), salt = (uint32_t)c.u64(); MMt2 m; m.mexp = mexp; m.pos = pos; m.mata = mata; m.s.assign((size_t)(mexp / 32 + 1), 0); int n = (int)m.s.size(), d = 32 * n; mt2p::MT32Search g(mexp, 0, pos, mata, 0, 0, 1); g.setZero();
    int b = c.coin() ? d - 1 - (int)c.below(32) : c.coin() ? (int)c.below(32) : (int)c.below((uint64_t)d), b2 = c.chance(1, 4) ? (int)c.below((uint64_t)d) : b, turn = c.range(0, n); c.desc << "mexp=" << mexp << " pos=" << pos << " mata=" << hx(mata) << " bits " << b << " " << b2 << " place " << turn; c.ready();
    std::vector<std::pair<gf2::BV, gf2::BV>> rows((size_t)d); std::vector<bool> have((size_t)d); size_t S = (size_t)d + 40; MMt2 k = m; // reduce the seeded states, remembering which are used
    for (size_t q = 0; q < S; q++) { k.seed(salt + (uint32_t)q * 2654435761u); gf2::BV x = gf2::bv((size_t)d), u = gf2::bv(S); for (int j = 0; j < d; j++) if (k.s[(size_t)j / 32] >> (j % 32) & 1) gf2::setbit(x, (size_t)j, true); gf2::setbit(u, q, true);
        for (int j = 0; j < d; j++) if (gf2::bit(x, (size_t)j)) { if (!have[(size_t)j]) { rows[(size_t)j] = {x, u}; have[(size_t)j] = true; break; } gf2::xorv(x, rows[(size_t)j].first); gf2::xorv(u, rows[(size_t)j].second); } }
    gf2::BV x = gf2::bv((size_t)d), u = gf2::bv(S); gf2::setbit(x, (size_t)b, true); if (b2 != b) gf2::setbit(x, (size_t)b2, true); gf2::BV want = x; for (int j = 0; j < d; j++) if (gf2::bit(x, (size_t)j)) { if (!have[(size_t)j]) throw pbt::Discard(); gf2::xorv(x, rows[(size_t)j].first); gf2::xorv(u, rows[(size_t)j].second); }
    for (int t = 0; t < turn; t++) g.generate(); // the zero state at another place of the buffer
    for (size_t q = 0; q < S; q++) if (gf2::bit(u, q)) { mt2p::MT32Search a(mexp, 0, pos, mata, 0, 0, salt + (uint32_t)q * 2654435761u); g.add(a); }
    for (int j = 0; j < d; j++) if (gf2::bit(want, (size_t)j)) m.s[(size_t)j / 32] |= UINT32_C(1) << (j % 32);
    c.nontrivial(); c.label(m.zero() ? "only bits without effect" : "a state"); c.label(b / 32 == n - 1 ? "newest word" : b / 32 ? "middle word" : "oldest word"); PBT_REQUIRE(g.isZero() == m.zero(), "isZero() is " << g.isZero() << " for the state with the bits " << b << " and " << b2 << " (counted from the oldest word; the low " << 32 * n - mexp << " bits of that word have no effect)"); bool any = false;
    for (int t = 0; t < 2 * d; t++) { uint32_t e = m.raw(), o = g.generate(); any |= o != 0; PBT_REQUIRE(e == o, "output " << t << " is " << hx(o) << ", by the recursion " << hx(e)); PBT_REQUIRE(g.isZero() == m.zero(), "isZero() is " << g.isZero() << " after output " << t); }
}
#endif
// ---- xorshift128 --------------------------------------------------------
PBT_CHECK(xorshift128, 200000, 3000000) {
    xorshift128_t x; memset(&x, (int)c.below(256), sizeof x); uint32_t s[4]; int kind = (int)c.below(3);
    if (kind == 0) { uint32_t sd = (uint32_t)c.word(); c.desc << "seed " << hx(sd); s[0] = sd; for (uint32_t i = 1; i < 8; i++) s[i % 4] = 1812433253u * (s[(i - 1) % 4] ^ (s[(i - 1) % 4] >> 30)) + i; xorshift128_init(&x, sd); c.label("seeded"); }
    else if (kind == 1) { for (auto &e : s) e = (uint32_t)c.word(); x.x = s[0]; x.y = s[1]; x.z = s[2]; x.w = s[3]; c.desc << "state " << hx(s[0]) << " " << hx(s[1]) << " " << hx(s[2]) << " " << hx(s[3]); }
    else { // the state is a function of the key alone, never zero, and changes with every part of the key
        std::vector<uint32_t> k((size_t)c.range(1, 14)); for (auto &e : k) e = (uint32_t)c.word(); c.desc << "key of " << k.size(); for (auto e : k) c.desc << " " << hx(e); c.ready(); c.label("key array"); xorshift128_init_by_array(&x, k.data(), (int)k.size());
        xorshift128_t y; memset(&y, (int)c.below(256), sizeof y); xorshift128_init_by_array(&y, k.data(), (int)k.size()); PBT_REQUIRE(!memcmp(&x, &y, sizeof x), "the same key gives different states (something is left unset)"); PBT_REQUIRE(x.x | x.y | x.z | x.w, "the key gives the zero state");
        std::vector<uint32_t> k2 = k; if (c.coin()) { size_t j = (size_t)c.below(k.size()); k2[j] ^= 1u << c.below(32); c.desc << " word " << j << " changed"; } else { k2.push_back(0); c.desc << " one zero word more"; } xorshift128_init_by_array(&y, k2.data(), (int)k2.size()); PBT_REQUIRE(memcmp(&x, &y, sizeof x), "another key gives the same state: " << c.desc.str());
        s[0] = x.x; s[1] = x.y; s[2] = x.z; s[3] = x.w;
    }
    int n = c.range(1, 80); c.ready(); c.nontrivial();
    for (int i = 0; i < n; i++) { uint32_t t = s[0] ^ (s[0] << 11); t ^= t >> 7; uint32_t e = s[3] ^ (s[3] << 20) ^ t; s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; s[3] = e; uint32_t g = xorshift128_generate(&x); PBT_REQUIRE(g == e, "output " << i << " is " << hx(g) << ", should be " << hx(e)); }
}
