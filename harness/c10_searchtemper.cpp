// AlgorithmRecursionAndTempering and AlgorithmReducibleRecursionAndTempering
#include "equi.hpp"
#include "fields.hpp"
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C10";
const char *pbt::property_rule = "A case is a family of candidate generators selected by the parameter stream, two tempering algorithms that set recorded patterns, and the verbose / no_lsb options of search(); candidate, polynomial, weight, defect, parity vector and the calls made are predicted. Non-trivial: a candidate is rejected before one is accepted, or both tempering algorithms run.";
std::vector<std::string> pbt::assumptions = {"a valid candidate exists or the parameter source throws when exhausted", "tempering algorithms leave the reversal flag reset, as the shipped ones do", "reducible case: the parity word is injective on Ker q"};

struct Log { std::vector<std::string> ev; };
template <class U> struct Rec : AlgorithmTempering<U> { // a tempering algorithm with a fixed result
    Log *log; std::string name; bool lsb; std::vector<U> pat; const void *gen = nullptr; bool rev_at_entry = false;
    int operator()(TemperingCalculatable<U> &r, bool verbose) override {
        log->ev.push_back(name + (verbose ? "v" : "")); gen = &r; rev_at_entry = r.isReverseOutput(); if (lsb) r.setReverseOutput(); else r.resetReverseOutput();
        U all = W<U>::zero(); for (int i = 0; i < W<U>::bits; i++) W<U>::flip(all, i);
        for (size_t i = 0; i < pat.size(); i++) r.setTemperingPattern(all, pat[i], (int)i); r.setUpTempering(); r.resetReverseOutput(); return 0;
    }
    bool isLSBTempering() const override { return lsb; }
};
template <class U> struct Cand { std::shared_ptr<const Spec<U>> s; bool ok; Poly m, f; };
template <class U> static int defect(const Gen<U> &g, int len, int size) { auto o = equi::orbit_of<U>(g); int s = 0; for (int v = 1; v <= len; v++) s += size / v - o.k(v); return s; }
// parameter source shared by both checks
struct Source {
    bool seq; uint64_t seed; uint32_t smask, sstart; TapePG tape, tape2; Sequential<uint32_t> sq; uint32_t nx; bool err = false;
    explicit Source(pbt::Case &c) : seq(c.chance(1, 3)), seed(c.below(1 << 20)), smask((uint32_t)c.below(256)), sstart((uint32_t)c.range(0, 60)), tape(seed), tape2(seed), sq(smask, sstart), nx(sstart) {}
    ParameterGenerator &pg() { if (seq) return sq; return tape; }
    size_t next(size_t k, bool &thrown) { thrown = false; if (!seq) return tape2.getUint32() % k; if (err) { thrown = true; return 0; } if (nx == 0) err = true; uint32_t v = nx-- ^ smask; return v % k; }
};
template <class U> static std::vector<U> pats(pbt::Case &c, int np) { std::vector<U> v; for (int i = 0; i < np; i++) v.push_back(c.chance(1, 6) ? W<U>::zero() : W<U>::mk(c.u64(), c.u64())); return v; }

template <class U> static void irred(pbt::Case &c) {
    const int w = W<U>::bits; bool mers = c.coin(); int n; if (mers) { static const std::vector<int> m = {3, 5, 7, 13, 17, 19, 31, 61}; n = c.pick(m); } else n = c.range_log(3, 50);
    static const std::vector<std::string> none; const std::vector<std::string> &pr = mers ? none : mersenne_factors().at(n); std::vector<const char *> cs; for (auto &x : pr) cs.push_back(x.c_str()); cs.push_back(nullptr); AlgorithmPrimitivity own(cs.data());
    c.desc << "U=" << W<U>::name() << " n=" << n << (mers ? " Mersenne" : " factors"); std::vector<Cand<U>> F; size_t k = (size_t)c.range(1, 6); std::vector<int> sh; int np = c.range(0, 3); for (int i = 0; i < np; i++) sh.push_back(c.range(1, w - 1)); bool lazy = c.coin(); bool any = false;
    for (size_t i = 0; i < k; i++) {
        auto s = std::make_shared<Spec<U>>(); s->id = (int)i; s->mexp = n; s->sh = sh; s->lazy = lazy; s->salt = c.below(1 << 16); s->B = rnd_rows<U>(c, n, c.weighted({5, 2, 3, 2, 1, 1})); s->seed1 = rnd_bv(c, n); s->has_seed1 = true;
        s->T = c.chance(2, 3) ? std::make_shared<Blocks>(std::vector<Poly>{irr(c, n)}) : rnd_map(c, n, true);
        Gen<U> o(s); o.seed(W<U>::mk(1, 0)); std::vector<uint8_t> q; for (int t = 0; t < 2 * n + 10; t++) q.push_back(W<U>::get(o.generate(), 0));
        Cand<U> t; t.s = s; t.m = gf2::berlekamp_massey(q); t.ok = t.m.deg() == n && gf2::irreducible(t.m) && (mers || fields::primitive(t.m, pr)); any |= t.ok; F.push_back(t); c.desc << "\n  candidate " << i << (t.ok ? " valid" : "") << ": " << s->T->what;
    }
    Source src(c); if (!any && !src.seq) throw pbt::Discard();
    Gen<U> g(F[0].s); g.fac = [&](ParameterGenerator &p) { return F[(size_t)(p.getUint32() % k)].s; };
    Log log; Rec<U> st1, st2; st1.log = st2.log = &log; st1.name = "msb"; st2.name = "lsb"; st1.lsb = c.chance(1, 8); st2.lsb = c.chance(2, 3); st1.pat = pats<U>(c, np); st2.pat = pats<U>(c, np); if (np && c.coin()) st1.pat.resize((size_t)c.range(0, np - 1));
    bool verbose = c.coin(), no_lsb = c.coin(), one = no_lsb && c.coin(), defos = c.chance(1, 4); c.desc << "\n  verbose=" << verbose << " no_lsb=" << no_lsb << (src.seq ? " Sequential " : " stream ") << src.seed << "/" << src.smask << "/" << src.sstart; c.ready();
    // prediction
    size_t idx = 0; bool thrown = false; int rej = 0; for (;;) { idx = src.next(k, thrown); if (thrown || F[idx].ok) break; rej++; }
    c.label(W<U>::name()); c.label(verbose ? "verbose" : "quiet"); c.label(one ? "one algorithm" : no_lsb ? "no_lsb" : "both"); if (rej) c.label("rejects then accepts"); if (rej || !no_lsb) c.nontrivial();
    std::ostringstream os; std::string out; bool got = false, got_thrown = false; int wt = 0, dl = 0; Poly cp;
    { Capture cap; AlgorithmRecursionAndTempering<U> a1(src.pg()), a2(src.pg(), mers ? MersennePrimitivity : own); AlgorithmRecursionAndTempering<U> &a = mers && c.coin() ? a1 : a2;
      try { if (one) got = defos ? a.search(g, st1, verbose) : a.search(g, st1, verbose, os); else got = defos && !no_lsb ? a.search(g, st1, st2, verbose) : a.search(g, st1, st2, verbose, os, no_lsb); } catch (const std::underflow_error &) { got_thrown = true; }
      if (got) { wt = a.getWeight(); dl = a.getDelta(); cp = from_ntl(a.getCharacteristicPolynomial()); } out = cap.os.str(); }
    if (thrown) { c.label("parameters exhausted"); PBT_REQUIRE(got_thrown, "the underflow_error of Sequential was not passed on"); PBT_REQUIRE(log.ev.empty(), "a tempering search ran although nothing was found"); return; }
    PBT_REQUIRE(!got_thrown && got, "search() did not succeed"); const Cand<U> &C = F[idx];
    PBT_REQUIRE((size_t)g.s->id == idx, "accepted candidate " << g.s->id << ", the first valid one is " << idx);
    PBT_REQUIRE(cp == C.m, "getCharacteristicPolynomial is " << gf2::str(cp) << ", should be " << gf2::str(C.m)); PBT_REQUIRE(wt == C.m.weight(), "getWeight is " << wt << ", the polynomial has weight " << C.m.weight());
    std::vector<std::string> ev; std::string v = verbose ? "v" : ""; if (!no_lsb) ev.push_back("lsb" + v); ev.push_back("msb" + v); std::string es, ls; for (auto &x : ev) es += x + " "; for (auto &x : log.ev) ls += x + " ";
    PBT_REQUIRE(ls == es, "tempering searches run: " << ls << "; expected: " << es); PBT_REQUIRE(st1.gen == static_cast<TemperingCalculatable<U> *>(&g), "the MSB tempering search got another generator"); PBT_REQUIRE(!st1.rev_at_entry, "the MSB tempering search starts with reversed output");
    PBT_REQUIRE(!g.isReverseOutput(), "the output is left reversed");
    std::vector<U> tp((size_t)np, W<U>::zero()); if (!no_lsb) for (size_t i = 0; i < st2.pat.size(); i++) tp[i] = st2.pat[i]; for (size_t i = 0; i < st1.pat.size(); i++) tp[i] = st1.pat[i];
    for (int i = 0; i < np; i++) PBT_REQUIRE(W<U>::eq(tp[(size_t)i], g.tp[(size_t)i]) && W<U>::eq(tp[(size_t)i], g.eff[(size_t)i]), "tempering parameter " << i << " is not the one the algorithm set");
    int d = defect<U>(g, w, n); PBT_REQUIRE(dl == d, "getDelta is " << dl << ", the defect of the tempered generator is " << d);
    if (!verbose) PBT_REQUIRE(out.empty() && os.str().empty(), "output although verbose is false: " << (out + os.str()).substr(0, 100));
}
PBT_CHECK(irreducible, 16000, 200000) { if (c.chance(3, 5)) irred<uint32_t>(c); else irred<uint64_t>(c); }

template <class U> static void redu(pbt::Case &c) {
    const int w = W<U>::bits; int m; if (c.coin()) { static const std::vector<int> v = {5, 7, 13, 17, 19, 31}; m = c.pick(v); } else m = c.range_log(4, 50);
    int n = m + c.range_log(0, std::min(m - 1, 14)); c.desc << "U=" << W<U>::name() << " mexp=" << m << " n=" << n; std::vector<Cand<U>> F; size_t k = (size_t)c.range(1, 5); std::vector<int> sh; int np = c.range(0, 3); for (int i = 0; i < np; i++) sh.push_back(c.range(1, w - 1)); bool lazy = c.coin(), any = false;
    std::vector<std::vector<BV>> kers;
    for (size_t i = 0; i < k; i++) {
        auto s = std::make_shared<Spec<U>>(); s->id = (int)i; s->mexp = m; s->sh = sh; s->lazy = lazy; s->salt = c.below(1 << 16); std::vector<Poly> ps; int kind = c.weighted({4, 1, 1}); std::vector<BV> ker;
        if (kind == 1) ps.push_back(rnd_poly(c, n, true)); else { int a = kind == 0 ? m : c.range(1, m - 1); ps.push_back(irr(c, a)); int left = n - a; while (left > 0) { int d = c.range(1, left); ps.push_back(c.coin() ? irr(c, d) : rnd_poly(c, d, true)); left -= d; } }
        bool merged = c.coin(); if (merged) { Poly h(1); for (auto &p : ps) h = gf2::mul(h, p); ps = {h}; }
        auto T = std::make_shared<Blocks>(ps); s->T = T; s->B = rnd_rows<U>(c, n, c.weighted({5, 2, 3, 2, 1, 1})); s->P = rnd_rows<U>(c, n, 0); s->seed1 = rnd_bv(c, n); s->has_seed1 = true;
        Gen<U> o(s); o.seed(W<U>::mk(1, 0)); std::vector<uint8_t> q; for (int t = 0; t < 2 * n + 10; t++) q.push_back(W<U>::get(o.generate(), 0));
        Cand<U> t; t.s = s; t.m = gf2::berlekamp_massey(q); t.ok = false; for (auto &x : gf2::ddf(t.m)) if (x.first == m && x.second.deg() == m) { t.ok = true; t.f = x.second; }
        if (t.ok) { // Ker q = image of f(T)
            gf2::Echelon e((size_t)n); for (int j = 0; j < n; j++) { BV x = gf2::bv((size_t)n), r = x; gf2::setbit(x, (size_t)j); for (int d = 0; d <= m; d++) { if (t.f.get(d)) gf2::xorv(r, x); T->step(x); } if (e.insert(r)) ker.push_back(r); }
            PBT_REQUIRE((int)ker.size() == n - m, "harness: Ker q has dimension " << ker.size());
        }
        kers.push_back(ker); any |= t.ok; F.push_back(t); c.desc << "\n  candidate " << i << (t.ok ? " valid" : "") << ": " << s->T->what;
    }
    Source src(c); if (!any && !src.seq) throw pbt::Discard();
    Gen<U> g(F[0].s); g.fac = [&](ParameterGenerator &p) { return F[(size_t)(p.getUint32() % k)].s; };
    Log log; Rec<U> st1, st2; st1.log = st2.log = &log; st1.name = "msb"; st2.name = "lsb"; st1.lsb = c.chance(1, 8); st2.lsb = c.chance(2, 3); st1.pat = pats<U>(c, np); st2.pat = pats<U>(c, np);
    bool verbose = c.coin(), no_lsb = c.coin(), defos = !no_lsb && c.chance(1, 4), one = no_lsb && c.chance(1, 3); c.desc << "\n  verbose=" << verbose << " no_lsb=" << no_lsb << (src.seq ? " Sequential " : " stream ") << src.seed << "/" << src.smask << "/" << src.sstart; c.ready();
    size_t idx = 0; bool thrown = false; int rej = 0; for (;;) { idx = src.next(k, thrown); if (thrown || F[idx].ok) break; rej++; }
    std::vector<U> img; if (!thrown) { gf2::Echelon e((size_t)w); for (auto &x : kers[idx]) { Gen<U> t(F[idx].s); t.x = x; U u = t.getParityValue(); img.push_back(u); BV v = {W<U>::lo(u)}; if (!e.insert(v)) throw pbt::Discard(); } }
    c.label(W<U>::name()); c.label(verbose ? "verbose" : "quiet"); c.label(one ? "one algorithm" : no_lsb ? "no_lsb" : "both"); if (rej) c.label("rejects then accepts"); c.label(n == m ? "n = mexp" : "n > mexp"); if (rej || !no_lsb) c.nontrivial();
    std::ostringstream os; std::string out; bool got = false, got_thrown = false; int dl = 0; Poly f; U par = W<U>::zero();
    { Capture cap; AlgorithmReducibleRecursionAndTempering<U, Gen<U>> a(src.pg());
#if PROBE_RT_ONE
      try { got = one ? a.search(g, st1, verbose, os) : defos ? a.search(g, st1, st2, verbose) : a.search(g, st1, st2, verbose, os, no_lsb); } catch (const std::underflow_error &) { got_thrown = true; }
#else
      if (one) c.fail("the documented overload search(rg, st, verbose, os) of AlgorithmReducibleRecursionAndTempering cannot be instantiated");
      try { got = defos ? a.search(g, st1, st2, verbose) : a.search(g, st1, st2, verbose, os, no_lsb); } catch (const std::underflow_error &) { got_thrown = true; }
#endif
      if (got) { dl = a.getDelta(); f = from_ntl(a.getIrreducibleFactor()); par = a.getParity(); } out = cap.os.str(); }
    if (thrown) { c.label("parameters exhausted"); PBT_REQUIRE(got_thrown, "the underflow_error of Sequential was not passed on"); PBT_REQUIRE(log.ev.empty(), "a tempering search ran although nothing was found"); return; }
    PBT_REQUIRE(!got_thrown && got, "search() did not succeed"); const Cand<U> &C = F[idx];
    PBT_REQUIRE((size_t)g.s->id == idx, "accepted candidate " << g.s->id << ", the first valid one is " << idx); PBT_REQUIRE(f == C.f, "getIrreducibleFactor is " << gf2::str(f) << ", should be " << gf2::str(C.f));
    PBT_REQUIRE(!wzero<U>(par), "the parity vector is zero"); PBT_REQUIRE(W<U>::eq(par, g.parity), "getParity differs from the value given to the generator");
    for (auto &u : img) PBT_REQUIRE(__builtin_parityll(W<U>::lo(u) & W<U>::lo(par)) == 0, "the parity vector " << hex<U>(par) << " has inner product 1 with a state of Ker q");
    std::vector<std::string> ev; std::string v = verbose ? "v" : ""; if (!no_lsb) ev.push_back("lsb" + v); ev.push_back("msb" + v); std::string es, ls; for (auto &x : ev) es += x + " "; for (auto &x : log.ev) ls += x + " ";
    PBT_REQUIRE(ls == es, "tempering searches run: " << ls << "; expected: " << es); PBT_REQUIRE(!st1.rev_at_entry, "the MSB tempering search starts with reversed output"); PBT_REQUIRE(!g.isReverseOutput(), "the output is left reversed");
    std::vector<U> tp((size_t)np, W<U>::zero()); if (!no_lsb) tp = st2.pat; tp = st1.pat; for (int i = 0; i < np; i++) PBT_REQUIRE(W<U>::eq(tp[(size_t)i], g.tp[(size_t)i]) && W<U>::eq(tp[(size_t)i], g.eff[(size_t)i]), "tempering parameter " << i << " is not the one the algorithm set");
    // the state left is a non-zero state of the component of f, as seen from the outputs
    Gen<U> o(g); std::vector<U> u; for (int i = 0; i < 2 * n + 10; i++) u.push_back(o.generate()); Poly l(1); for (int b = 0; b < w; b++) { std::vector<uint8_t> s; for (auto &x : u) s.push_back(W<U>::get(x, b)); l = gf2::lcm(l, gf2::berlekamp_massey(s)); }
    PBT_REQUIRE(l == C.f, "after search() the outputs have minimal polynomial " << gf2::str(l) << ", not the irreducible factor");
    int d = defect<U>(g, w, m); PBT_REQUIRE(dl == d, "getDelta is " << dl << ", the defect of the tempered generator (against mexp) is " << d);
    if (!verbose) PBT_REQUIRE(out.empty() && os.str().empty(), "output although verbose is false: " << (out + os.str()).substr(0, 100));
}
PBT_CHECK(reducible, 12000, 150000) { if (c.chance(3, 5)) redu<uint32_t>(c); else redu<uint64_t>(c); }
