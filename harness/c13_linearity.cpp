// TestLinearity: true on every linear generator, false on generators that break
// additivity visibly, and the tested generator is left alone
#include "gens.hpp"
#include <MTToolBox/TestLinearity.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C13";
const char *pbt::property_rule = "A case is a linear generator, or one with a named non-linearity (affine output, AND of two functionals in the output, integer addition, non-linear transition, late deviation, wrong add()) that our own evaluation sees within 40 outputs for all of 20 random pairs of states (of equal states, for an add() that fails on these). Non-trivial: a non-linear case, or a linear one with a non-zero output sequence.";
std::vector<std::string> pbt::assumptions = {"a non-linear generator must be rejected only when every one of 20 random pairs of states breaks additivity within 40 outputs", "seed() gives a state that is a function of the seed"};
enum Kind { LINEAR, AFFINE, ANDOUT, ADDOUT, NLSTEP, LATE, ADDNOP, ADDOR, ADDPART, ADDCOPY, ADDSELF, PULSE, KINDS };
static const char *kn[] = {"linear", "affine output", "AND in the output", "integer addition in the output", "non-linear transition", "late deviation", "add() does nothing", "add() is OR", "add() skips some bits", "add() copies", "add() of an equal state does nothing", "one output is not linear"};
static int live = 0, cloned = 0;
template <class U> struct NL : Gen<U> {
    Kind k; int bitpos, when, n = 0; U c0; BV a, b; bool on = true;
    NL(typename Gen<U>::SP s, Kind kk) : Gen<U>(s), k(kk) { live++; }
    NL(const NL &o) : Gen<U>(o), k(o.k), bitpos(o.bitpos), when(o.when), n(o.n), c0(o.c0), a(o.a), b(o.b) { live++; }
    ~NL() { live--; }
    NL *clone() const override { cloned++; return new NL(*this); }
    void seed(U v) override { Gen<U>::seed(v); n = 0; }
    U generate(int l) override { return W<U>::x_and(generate(), topmask<U>(l)); }
    U generate() override {
        if (k == NLSTEP) { bool t = gf2::dot(a, this->x) && gf2::dot(b, this->x); this->s->T->step(this->x); if (t) gf2::setbit(this->x, (size_t)(when % this->s->n()), !gf2::bit(this->x, (size_t)(when % this->s->n()))); }
        else this->s->T->step(this->x);
        n++; U r = this->out();
        if (k == AFFINE) r = r ^ c0;
        if (k == LATE && n > when) r = r ^ c0;
        if (k == ANDOUT && gf2::dot(a, this->x) && gf2::dot(b, this->x)) W<U>::flip(r, bitpos);
        if (k == PULSE && n == when + 1) { U h = W<U>::mk(W<U>::lo(r) >> 1, W<U>::hi(r) << 1); r = r ^ W<U>::x_and(r, h); } // zero stays zero
        if (k == ADDOUT) r = W<U>::mk(W<U>::lo(r) + (W<U>::lo(r) >> 3 | 1), W<U>::hi(r));
        return r;
    }
    void add(EquidistributionCalculatable<U> &that) override {
        NL *o = dynamic_cast<NL *>(&that); if (!o) throw std::logic_error("add: other type");
        if (k == ADDSELF && this->x == o->x) return;
        for (size_t i = 0; i < this->x.size(); i++) { uint64_t p = this->x[i], q = o->x[i];
            this->x[i] = k == ADDNOP ? p : k == ADDOR ? p | q : k == ADDCOPY ? q : k == ADDPART ? ((p ^ q) & ~a[i]) | (p & a[i]) : p ^ q; }
    }
};
template <class U> static void lin(pbt::Case &c) {
    Kind k = c.coin() ? LINEAR : (Kind)c.range(1, KINDS - 1); int n = c.range_log(k == LINEAR ? 1 : 64, c.thorough ? 400 : 200); std::shared_ptr<Spec<U>> s;
    if (k == LINEAR) s = rnd_spec<U>(c, n, c.coin());
    else { // no state is special: irreducible transition, dense output, so that whatever states the test picks it sees the defect
        s = std::make_shared<Spec<U>>(); s->T = std::make_shared<Blocks>(std::vector<Poly>{irr(c, n)}); s->B = rnd_rows<U>(c, n, 0); s->salt = c.below(1 << 16); s->mexp = n; c.desc << "U=" << W<U>::name() << " n=" << n << " T=" << s->T->what; }
    for (int i = c.range(0, 2); i > 0; i--) s->sh.push_back(c.range(1, W<U>::bits - 1)); c.desc << " kind=" << kn[k]; c.label(kn[k]); c.label(W<U>::name());
    NL<U> g(s, k); g.bitpos = c.range(0, W<U>::bits - 1); g.when = k == PULSE && c.coin() ? 0 : k == LATE || k == PULSE ? c.range(0, 30) : c.range(0, 60); g.c0 = W<U>::zero(); W<U>::flip(g.c0, g.bitpos); if (c.coin()) g.c0 = W<U>::x_or(g.c0, W<U>::mk(c.u64() & ~UINT64_C(1), 0)); if (wzero(g.c0)) W<U>::flip(g.c0, 0); g.a = rnd_bv(c, n); g.b = rnd_bv(c, n); if (k != LINEAR && (gf2::weight(g.a) < 20 || gf2::weight(g.b) < 20)) throw pbt::Discard();
    for (size_t i = 0; i < s->sh.size(); i++) g.setTemperingPattern(topmask<U>(W<U>::bits), W<U>::mk(c.u64(), c.u64()), (int)i); g.setUpTempering();
    g.x = rnd_bv(c, n); bool used = c.coin(); if (used) for (int i = c.range(0, 50); i > 0; i--) g.generate(); c.desc << " bit=" << g.bitpos << " when=" << g.when << " state=" << hexbv(g.x); c.ready();
    if (k == LINEAR) { NL<U> o(g); bool nz = false; for (int i = 0; i < 40; i++) nz |= !wzero<U>(o.generate()); if (nz) c.nontrivial(); }
    else { // does everyone see it?
        g.n = 0;
        for (int t = 0; t < 20; t++) {
            NL<U> p(g), q(g); p.seed(W<U>::mk(c.u64(), 0)); if (k == ADDSELF) q = p; else q.seed(W<U>::mk(c.u64(), 0)); NL<U> r(p); r.add(q); bool broken = false; for (int i = 0; i < 40 && !broken; i++) { U u = p.generate() ^ q.generate(), v = r.generate(); broken = !W<U>::eq(u, v); } if (!broken) throw pbt::Discard(); }
        c.nontrivial();
    }
    live = 1; cloned = 0; NL<U> keep(g); live = 1; bool res, res2; std::string out; { Capture cap; TestLinearity<U> t; res = t(g); res2 = t(g); out = cap.os.str(); }
    PBT_REQUIRE(res == (k == LINEAR), "TestLinearity says " << (res ? "linear" : "not linear") << " for a generator with: " << kn[k]); PBT_REQUIRE(res2 == res, "two runs disagree");
    PBT_REQUIRE(g.x == keep.x && g.n == keep.n && g.isReverseOutput() == keep.isReverseOutput(), "the tested generator was changed"); PBT_REQUIRE(live == 1, (live - 1) << " of " << cloned << " clones were not deleted"); PBT_REQUIRE(out.empty(), "TestLinearity prints");
}
PBT_CHECK(linearity, 30000, 400000) { switch (c.weighted({4, 3, 2})) { case 0: lin<uint32_t>(c); break; case 1: lin<uint64_t>(c); break; default: lin<w128_t>(c); } }
