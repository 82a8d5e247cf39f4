// AlgorithmReducibleRecursionSearch
#include "gens.hpp"
#include "fields.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C09";
const char *pbt::property_rule = "A case is a family of reducible candidate generators (state size n < 2*mexp) selected by the parameter stream and a history of start(try_count) calls; outcome, count, candidate, polynomial and factor are predicted by our own factorisation. Non-trivial: some call rejects a candidate and accepts a later one, or the history has a failing and a succeeding call.";
std::vector<std::string> pbt::assumptions = {"bitSize() < 2*getMexp(), as for every reducible generator shipped"};
template <class U> struct Cand { std::shared_ptr<const Spec<U>> s; bool ok; Poly m, f; };
template <class U> static void body(pbt::Case &c) {
    int m; if (c.coin()) { static const std::vector<int> v = {3, 5, 7, 13, 17, 19, 31, 61}; m = c.pick(v); } else m = c.range_log(3, 70);
    int n = m + c.range_log(0, std::min(m - 1, 30)); c.desc << "U=" << W<U>::name() << " mexp=" << m << " n=" << n;
    std::vector<Cand<U>> F; size_t k = (size_t)c.range(1, 9);
    for (size_t i = 0; i < k; i++) {
        auto s = std::make_shared<Spec<U>>(); s->id = (int)i; std::vector<Poly> ps;
        switch (c.weighted({4, 2, 2, 2})) {
        case 0: { ps.push_back(irr(c, m)); int left = n - m; while (left > 0) { int d = c.range(1, left); ps.push_back(c.coin() ? irr(c, d) : rnd_poly(c, d, c.chance(5, 6))); left -= d; } break; }
        case 1: ps.push_back(rnd_poly(c, n, true)); break;
        case 2: { int d = c.range(1, n - 1); ps.push_back(irr(c, d)); ps.push_back(irr(c, n - d)); break; }
        default: if (n > 1 && m > 2) { int d = c.range(1, 2); ps.push_back(irr(c, m - d)); ps.push_back(rnd_poly(c, n - m + d, true)); } else ps.push_back(irr(c, n)); }
        if (c.coin()) { Poly h(1); for (auto &p : ps) h = gf2::mul(h, p); ps = {h}; }
        s->T = std::make_shared<Blocks>(ps); s->B = rnd_rows<U>(c, n, c.weighted({5, 2, 3, 2, 1, 1})); s->salt = c.below(1 << 16); s->mexp = m; s->seed1 = rnd_bv(c, n); s->has_seed1 = true; if (c.chance(1, 12)) s->seed1.assign(s->seed1.size(), 0);
        Gen<U> o(s); o.seed(W<U>::mk(1, 0)); std::vector<uint8_t> q; for (int t = 0; t < 2 * n + 10; t++) q.push_back(W<U>::get(o.generate(), 0));
        Cand<U> t; t.s = s; t.m = gf2::berlekamp_massey(q); t.ok = false; for (auto &x : gf2::ddf(t.m)) if (x.first == m && x.second.deg() == m) { t.ok = true; t.f = x.second; }
        F.push_back(t); c.desc << "\n  candidate " << i << (t.ok ? " valid" : "") << ": minpoly " << gf2::str(t.m);
    }
    bool seq = c.coin(); uint64_t seed = c.below(1 << 20); uint64_t smask = c.below(1 << 8), sstart = (uint64_t)c.range(0, 40); bool use64 = c.coin();
    TapePG tape(seed), tape2(seed); Sequential<uint64_t> sq(smask, sstart); uint64_t seq_next = sstart; bool seq_err = false; ParameterGenerator &pg = seq ? (ParameterGenerator &)sq : tape;
    auto next_idx = [&](bool &thrown) -> size_t { thrown = false; uint64_t v; if (seq) { if (seq_err) { thrown = true; return 0; } if (seq_next == 0) seq_err = true; v = seq_next ^ smask; seq_next--; } else v = use64 ? tape2.getUint64() : tape2.getUint32(); return (size_t)(v % k); };
    Gen<U> g(F[0].s); long setups = 0; g.setups = &setups; g.fac = [&](ParameterGenerator &p) { uint64_t v = use64 ? p.getUint64() : p.getUint32(); return F[(size_t)(v % k)].s; };
    int calls = c.range(1, 4); std::vector<int> tries; for (int i = 0; i < calls; i++) tries.push_back(c.chance(1, 12) ? 0 : c.range(1, 15)); c.desc << "\n  " << (seq ? "Sequential mask/start " : "stream ") << (seq ? smask : seed) << "/" << sstart << " calls"; for (int t : tries) c.desc << " " << t; c.ready();
    c.label(W<U>::name()); c.label(seq ? "Sequential" : "stream"); c.label(n == m ? "n = mexp" : "n > mexp");
    AlgorithmReducibleRecursionSearch<U> s(g, pg); PBT_REQUIRE(s.getCount() == 0, "the count starts at " << s.getCount());
    long count = 0; bool any_fail = false, any_ok = false, rej = false;
    for (int t : tries) {
        bool exp = false, thrown = false; size_t idx = 0; int rejected = 0;
        for (int i = 0; i < t; i++) { idx = next_idx(thrown); if (thrown) break; count++; if (F[idx].ok) { exp = true; break; } rejected++; }
        bool got = false, got_thrown = false; try { got = s.start(t); } catch (const std::underflow_error &) { got_thrown = true; }
        if (thrown) { c.label("parameters exhausted"); PBT_REQUIRE(got_thrown, "the underflow_error of Sequential was not passed on; start returned " << got); PBT_REQUIRE(s.getCount() == count, "count is " << s.getCount() << ", tried " << count); break; }
        PBT_REQUIRE(!got_thrown, "unexpected underflow_error");
        PBT_REQUIRE(got == exp, "start(" << t << ") returned " << got << (exp ? ", but candidate " + std::to_string(idx) + " is valid" : ", but no candidate among those tried is valid"));
        PBT_REQUIRE(s.getCount() == count, "count is " << s.getCount() << ", tried " << count); PBT_REQUIRE(setups == count, "setUpParam was called " << setups << " times for " << count << " candidates");
        if (t > 0) { PBT_REQUIRE((size_t)g.s->id == idx, "the generator holds candidate " << g.s->id << ", the last tried is " << idx); PBT_REQUIRE(s.getParamString() == g.getParamString(), "getParamString differs from the generator's"); }
        if (exp) {
            PBT_REQUIRE(from_ntl(s.getCharacteristicPolynomial()) == F[idx].m, "getCharacteristicPolynomial is " << gf2::str(from_ntl(s.getCharacteristicPolynomial())) << ", the accepted candidate has " << gf2::str(F[idx].m));
            PBT_REQUIRE(from_ntl(s.getIrreducibleFactor()) == F[idx].f, "getIrreducibleFactor is " << gf2::str(from_ntl(s.getIrreducibleFactor())) << ", the factor of degree " << m << " is " << gf2::str(F[idx].f)); any_ok = true; if (rejected) rej = true; } else any_fail = true;
        if (!seq) PBT_REQUIRE(tape.n == tape2.n, "the parameter stream was read " << tape.n << " times instead of " << tape2.n);
    }
    c.label(any_ok ? "found" : "not found"); if (rej) c.label("rejects then accepts"); if (rej || (any_ok && any_fail)) c.nontrivial();
}
PBT_CHECK(history, 45000, 500000) { switch (c.weighted({4, 3, 1})) { case 0: body<uint32_t>(c); break; case 1: body<uint64_t>(c); break; default: body<w128_t>(c); } }
// many candidates: the one valid candidate comes after up to 10^5 others
template <class U> static void long_search(pbt::Case &c) {
    static const std::vector<int> v = {3, 5, 7, 13}; int m = c.pick(v), n = m + c.range(0, m - 1); std::vector<std::shared_ptr<const Spec<U>>> bad; std::shared_ptr<const Spec<U>> good; Poly gm, gf;
    for (int i = 0; i < 60 && (!good || bad.size() < 3); i++) { auto s = std::make_shared<Spec<U>>(); s->id = i; std::vector<Poly> ps; if (!good) { ps.push_back(irr(c, m)); if (n > m) ps.push_back(rnd_poly(c, n - m, true)); } else ps.push_back(rnd_poly(c, n, true));
        s->T = std::make_shared<Blocks>(ps); s->B = rnd_rows<U>(c, n, 0); s->salt = c.below(1 << 16); s->mexp = m; s->seed1 = rnd_bv(c, n); s->has_seed1 = true; Gen<U> o(s); o.seed(W<U>::mk(1, 0)); std::vector<uint8_t> q; for (int t = 0; t < 2 * n + 10; t++) q.push_back(W<U>::get(o.generate(), 0));
        Poly p = gf2::berlekamp_massey(q), f; bool ok = false; for (auto &x : gf2::ddf(p)) if (x.first == m && x.second.deg() == m) { ok = true; f = x.second; } if (!ok) bad.push_back(s); else if (!good) { good = s; gm = p; gf = f; } }
    if (!good || bad.empty()) { c.label("no valid or no other candidate"); return; }
    uint32_t total = (uint32_t)(c.coin() ? c.range_log(500, 60000) : c.range(66000, c.thorough ? 400000 : 110000)), at = c.chance(1, 5) ? total + 1 : c.coin() ? total - (uint32_t)c.range(0, 9) : (uint32_t)c.below(total) + 1; int calls = c.range(1, 3); // the at-th candidate is the valid one
    c.desc << "U=" << W<U>::name() << " mexp=" << m << " n=" << n << ", candidate " << at << " of " << total << " is valid, " << calls << " calls"; c.ready(); c.nontrivial(); c.label(at > 65536 ? "more than 65536 candidates" : at > 32768 ? "more than 32768 candidates" : "up to 32768 candidates");
    Sequential<uint32_t> sq(0, total); Gen<U> g(bad[0]); uint32_t draws = 0; g.fac = [&](ParameterGenerator &p) { (void)p.getUint32(); draws++; return draws == at ? good : bad[draws % bad.size()]; }; AlgorithmReducibleRecursionSearch<U> s(g, sq); uint32_t left = total, done = 0; bool found = false;
    for (int k = 0; k < calls && !found; k++) { uint32_t t = k == calls - 1 ? left : (uint32_t)c.below(left) + 1; if (t == 0) break; bool got = s.start((int)t), exp = at > done && at <= done + t; PBT_REQUIRE(got == exp, "start(" << t << ") after " << done << " candidates returned " << got); done = exp ? at : done + t; left = total - done; found = exp; PBT_REQUIRE((uint64_t)s.getCount() == done, "count is " << s.getCount() << ", tried " << done); PBT_REQUIRE(draws == done, draws << " parameter sets were drawn for " << done << " candidates"); }
    if (found) PBT_REQUIRE(from_ntl(s.getCharacteristicPolynomial()) == gm && from_ntl(s.getIrreducibleFactor()) == gf && g.s == good, "the polynomial, the factor or the generator is not that of the valid candidate");
}
PBT_CHECK(many_candidates, 24, 240) { switch (c.weighted({4, 3, 1})) { case 0: long_search<uint32_t>(c); break; case 1: long_search<uint64_t>(c); break; default: long_search<w128_t>(c); } }
