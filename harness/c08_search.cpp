// AlgorithmRecursionSearch
#include "gens.hpp"
#include "fields.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C08";
const char *pbt::property_rule = "A case is a family of generated candidate generators selected by the parameter stream, a primitivity test and a history of start(try_count) calls; outcome, count, candidate and polynomial are predicted by our own search. Non-trivial: some call rejects a candidate and accepts a later one, or the history has a failing and a succeeding call.";
std::vector<std::string> pbt::assumptions = {"MersennePrimitivity is used with Mersenne-exponent sizes, factor-list primitivity with complete lists"};

struct Truth { bool ok; Poly m; };
template <class U> struct Family {
    std::vector<std::shared_ptr<const Spec<U>>> cand; std::vector<Truth> truth;
};
template <class U> static Family<U> make(pbt::Case &c, int n, const std::vector<std::string> &primes) {
    Family<U> F; int k = c.range(1, 10); bool reject_all = c.chance(1, 10);
    for (int i = 0; i < k; i++) {
        auto s = std::make_shared<Spec<U>>(); s->id = i; Poly f; int kind = c.weighted({2, 2, 3, 1}); if (reject_all && kind < 2) kind = 2;
        switch (kind) { case 0: f = irr(c, n); s->T = std::make_shared<Blocks>(std::vector<Poly>{f}); break;
        case 1: { f = irr(c, n); if (!primes.empty() && !fields::is_mexp((unsigned)n)) { fields::Z e(c.pick(primes).c_str()); f = fields::minpoly_of(gf2::powmod(gf2::xpow(1), fields::bits(e), f), f); } if (f.deg() != n) f = rnd_poly(c, n, true); s->T = std::make_shared<Blocks>(std::vector<Poly>{f}); break; }
        case 2: s->T = rnd_map(c, n, true); break;
        default: { int d = c.range(1, n - 1); s->T = std::make_shared<Blocks>(std::vector<Poly>{irr(c, d), irr(c, n - d)}); } }
        s->B = rnd_rows<U>(c, n, c.weighted({5, 2, 3, 2, 1, 1})); s->salt = c.below(1 << 16); s->mexp = n; s->seed1 = rnd_bv(c, n); s->has_seed1 = true; if (c.chance(1, 12)) s->seed1.assign(s->seed1.size(), 0);
        Gen<U> o(s); o.seed(W<U>::mk(1, 0)); std::vector<uint8_t> q; for (int t = 0; t < 2 * n + 10; t++) q.push_back(W<U>::get(o.generate(), 0));
        Truth t; t.m = gf2::berlekamp_massey(q); t.ok = t.m.deg() == n && gf2::irreducible(t.m) && (primes.empty() || fields::primitive(t.m, primes)); if (reject_all && t.ok) { s->seed1.assign(s->seed1.size(), 0); t.ok = false; t.m = Poly(1); }
        F.cand.push_back(s); F.truth.push_back(t); c.desc << "\n  candidate " << i << (t.ok ? " valid" : "") << ": " << s->T->what;
    }
    return F;
}
template <class U> static void body(pbt::Case &c) {
    bool mers = c.coin(); int n; if (mers) { static const std::vector<int> m = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107}; n = c.pick(m); } else n = c.range_log(2, 70);
    static const std::vector<std::string> none; const std::vector<std::string> &pr = mers ? none : mersenne_factors().at(n);
    std::vector<const char *> cs; for (auto &x : pr) cs.push_back(x.c_str()); cs.push_back(nullptr); AlgorithmPrimitivity own(cs.data()), own_m;
    c.desc << "U=" << W<U>::name() << " n=" << n << (mers ? " Mersenne" : " factors"); Family<U> F = make<U>(c, n, pr); size_t k = F.cand.size();
    // parameter source: an endless stream, or a Sequential counting down (throws when exhausted)
    bool seq = c.coin(); uint64_t seed = c.below(1 << 20); uint32_t smask = (uint32_t)c.below(1 << 8), sstart = (uint32_t)c.range(0, 40); bool use64 = c.coin();
    TapePG tape(seed), tape2(seed); Sequential<uint32_t> sq(smask, sstart); uint64_t seq_next = sstart; bool seq_err = false; ParameterGenerator &pg = seq ? (ParameterGenerator &)sq : tape;
    auto next_idx = [&](bool &thrown) -> size_t { thrown = false; uint64_t v; if (seq) { if (seq_err) { thrown = true; return 0; } if (seq_next == 0) seq_err = true; v = (uint32_t)seq_next ^ smask; seq_next--; } else v = use64 ? tape2.getUint64() : tape2.getUint32(); return (size_t)(v % k); };
    Gen<U> g(F.cand[0]); long setups = 0; g.setups = &setups; g.fac = [&](ParameterGenerator &p) { uint64_t v = use64 ? p.getUint64() : p.getUint32(); return F.cand[(size_t)(v % k)]; };
    int calls = c.range(1, 4); std::vector<int> tries; for (int i = 0; i < calls; i++) tries.push_back(c.chance(1, 12) ? 0 : c.range(1, 15)); c.desc << "\n  " << (seq ? "Sequential mask/start " : "stream ") << (seq ? smask : seed) << "/" << sstart << " calls"; for (int t : tries) c.desc << " " << t; c.ready();
    c.label(W<U>::name()); c.label(seq ? "Sequential" : "stream"); c.label(mers ? "Mersenne" : "factors");
    bool defctor = mers && c.coin(); AlgorithmRecursionSearch<U> s1(g, pg), s2(g, pg, mers ? (c.coin() ? own_m : MersennePrimitivity) : own); AlgorithmRecursionSearch<U> &s = defctor ? s1 : s2;
    PBT_REQUIRE(s.getCount() == 0, "the count starts at " << s.getCount());
    long count = 0; bool any_fail = false, any_ok = false, rej = false;
    for (int t : tries) {
        bool exp = false, thrown = false; size_t idx = 0; long draws = 0; int rejected = 0;
        for (int i = 0; i < t; i++) { idx = next_idx(thrown); draws++; if (thrown) break; count++; if (F.truth[idx].ok) { exp = true; break; } rejected++; }
        bool got = false, got_thrown = false; try { got = s.start(t); } catch (const std::underflow_error &) { got_thrown = true; }
        if (thrown) { c.label("parameters exhausted"); PBT_REQUIRE(got_thrown, "the underflow_error of Sequential was not passed on; start returned " << got); PBT_REQUIRE(s.getCount() == count, "count is " << s.getCount() << ", tried " << count); break; }
        PBT_REQUIRE(!got_thrown, "unexpected underflow_error");
        PBT_REQUIRE(got == exp, "start(" << t << ") returned " << got << (exp ? ", but candidate " + std::to_string(idx) + " is valid" : ", but no candidate among those tried is valid"));
        PBT_REQUIRE(s.getCount() == count, "count is " << s.getCount() << ", tried " << count); PBT_REQUIRE(setups == count, "setUpParam was called " << setups << " times for " << count << " candidates");
        if (t > 0) { PBT_REQUIRE((size_t)g.s->id == idx, "the generator holds candidate " << g.s->id << ", the last tried is " << idx); PBT_REQUIRE(s.getParamString() == g.getParamString(), "getParamString differs from the generator's"); }
        if (exp) { PBT_REQUIRE(from_ntl(s.getMinPoly()) == F.truth[idx].m, "getMinPoly is " << gf2::str(from_ntl(s.getMinPoly())) << ", the minimal polynomial of the accepted candidate is " << gf2::str(F.truth[idx].m)); any_ok = true; if (rejected) rej = true; } else any_fail = true;
        if (!seq) PBT_REQUIRE(tape.n == tape2.n, "the parameter stream was read " << tape.n << " times instead of " << tape2.n);
    }
    c.label(any_ok ? "found" : "not found"); if (rej) c.label("rejects then accepts"); if (rej || (any_ok && any_fail)) c.nontrivial();
}
PBT_CHECK(history, 25000, 300000) { switch (c.weighted({4, 3, 1})) { case 0: body<uint32_t>(c); break; case 1: body<uint64_t>(c); break; default: body<w128_t>(c); } }
// many candidates: the one valid candidate comes after up to 10^5 others
template <class U> static void long_search(pbt::Case &c) {
    static const std::vector<int> m = {3, 5, 7, 13}; int n = c.pick(m); std::vector<std::string> none; std::vector<std::shared_ptr<const Spec<U>>> bad; std::shared_ptr<const Spec<U>> good; Poly gm;
    for (int t = 0; t < 40 && (!good || bad.size() < 3); t++) { Family<U> F = make<U>(c, n, none); for (size_t i = 0; i < F.cand.size(); i++) if (F.truth[i].ok) { good = F.cand[i]; gm = F.truth[i].m; } else bad.push_back(F.cand[i]); c.desc.str(""); } if (!good || bad.empty()) { c.label("no valid candidate"); return; }
    uint32_t total = (uint32_t)(c.coin() ? c.range_log(500, 60000) : c.range(66000, c.thorough ? 400000 : 110000)), at = c.chance(1, 5) ? total + 1 : c.coin() ? total - (uint32_t)c.range(0, 9) : (uint32_t)c.below(total) + 1; // the at-th candidate is the valid one
    int calls = c.range(1, 3); c.desc << "U=" << W<U>::name() << " n=" << n << ", candidate " << at << " of " << total << " is valid, " << calls << " calls"; c.ready(); c.nontrivial(); c.label(at > 65536 ? "more than 65536 candidates" : at > 32768 ? "more than 32768 candidates" : "up to 32768 candidates");
    Sequential<uint32_t> sq(0, total); Gen<U> g(bad[0]); uint32_t draws = 0; g.fac = [&](ParameterGenerator &p) { (void)p.getUint32(); draws++; return draws == at ? good : bad[draws % bad.size()]; }; AlgorithmRecursionSearch<U> s(g, sq); uint32_t left = total, done = 0; bool found = false;
    for (int k = 0; k < calls && !found; k++) { uint32_t t = k == calls - 1 ? left : (uint32_t)c.below(left) + 1; if (t == 0) break; bool got = s.start((int)t), exp = at > done && at <= done + t; PBT_REQUIRE(got == exp, "start(" << t << ") after " << done << " candidates returned " << got); done = exp ? at : done + t; left = total - done; found = exp; PBT_REQUIRE((uint64_t)s.getCount() == done, "count is " << s.getCount() << ", tried " << done); PBT_REQUIRE(draws == done, draws << " parameter sets were drawn for " << done << " candidates"); }
    if (found) PBT_REQUIRE(from_ntl(s.getMinPoly()) == gm && g.s == good, "the polynomial or the generator is not that of the valid candidate");
}
PBT_CHECK(many_candidates, 24, 240) { switch (c.weighted({4, 3, 1})) { case 0: long_search<uint32_t>(c); break; case 1: long_search<uint64_t>(c); break; default: long_search<w128_t>(c); } }
