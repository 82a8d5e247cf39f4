// AlgorithmBestBits against a direct level-by-level search (the search of MTDC)
// that evaluates every pattern with the independent equidistribution of equi.hpp
#include "equi.hpp"
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace gens; using namespace MTToolBox;
const char *pbt::property_id = "C12";
const char *pbt::property_rule = "A case is a tempered generator with one or two tempering parameters, shift values and a bit limit; the whole level-by-level search (every best prefix kept) is recomputed from independent equidistribution values. Non-trivial: at some level the patterns have different defects.";
std::vector<std::string> pbt::assumptions = {"one or two tempering parameters (the documented, tested case is two)", "positive shift values below the word width", "out_bit_length is the width of the output word"};

template <class U> static void bb(pbt::Case &c, int maxn, int maxlimit, long cap, bool far = false, bool tied = false) {
    const int w = W<U>::bits; int n = c.range_log(2, maxn), np = !tied && c.chance(3, 4) ? 2 : 1, limit = far ? c.range(maxlimit / 2, maxlimit) : c.range(1, maxlimit); if (c.thorough && !far && c.chance(1, 20)) n = c.range(n, 2 * maxn);
    std::shared_ptr<Spec<U>> s = rnd_spec<U>(c, n, true); s->lazy = c.coin(); std::vector<int> sh; for (int i = 0; i < np; i++) sh.push_back(far ? c.range(w - c.range(1, 6), w - 1) : c.chance(1, 3) ? c.range(1, w - 1) : c.range(1, w / 2)); s->sh = sh; if (c.chance(1, 4)) for (auto &x : s->sh) x = c.range(1, w - 1);
    if (!tied && c.chance(1, 3)) { // a top-heavy defect for the tempering to repair: the first output bits repeat one another
        for (int i = 0; i < 3; i++) s->B[(size_t)(w - 1 - i)] = s->B[(size_t)(w - 1 - i - 1)]; c.label("repeated leading bits"); }
    if (tied) { // patterns that tie for many levels and are told apart by a late output bit that repeats early tempered ones
        int b = c.range(5, 7); limit = b + c.range(3, 6); static const int ns[] = {23, 47, 59, 59}; n = c.chance(1, 5) ? c.range(2 * limit, 48) : ns[c.below(4)]; s = rnd_spec<U>(c, n, true); s->lazy = c.coin(); sh = {w - b}; s->sh = sh; 
        for (int i = 0; i < w; i++) s->B[(size_t)i] = rnd_bv(c, n);
        for (int L = b + 1; L < limit; L++) if (c.chance(2, 3)) { int k = c.chance(2, 3) ? 1 : 2; BV r = gf2::bv((size_t)n); for (int j = 0; j < k; j++) { int i = L == b + 1 || c.coin() ? c.range(0, 2) : c.range(0, b - 1); gf2::xorv(r, s->B[(size_t)(w - 1 - i)]); if (c.chance(4, 5)) gf2::xorv(r, s->B[(size_t)(w - 1 - i - sh[0])]); } s->B[(size_t)(w - 1 - L)] = r; }
        c.label("late decision"); }
    Gen<U> g(s); U all = topmask<U>(w); bool pre = c.coin(); if (pre) for (int i = 0; i < np; i++) g.setTemperingPattern(all, W<U>::mk(c.u64(), 0), i); g.setUpTempering(); g.x = rnd_bv(c, n); if (gf2::zero(g.x)) gf2::setbit(g.x, 0); if (c.chance(1, 4)) g.setReverseOutput();
    bool verbose = c.coin(); c.desc << " parameters=" << np << " limit=" << limit << (s->lazy ? " lazy" : "") << (pre ? " preset" : "") << " verbose=" << verbose << " shifts"; for (int x : sh) c.desc << " " << x; c.desc << "/"; for (int x : s->sh) c.desc << " " << x; c.desc << " state=" << hexbv(g.x); c.ready();
    c.label(W<U>::name()); c.label(np == 2 ? "two parameters" : "one parameter"); c.label(s->lazy ? "setUpTempering needed" : "immediate");
    // reference
    typedef std::vector<U> P; std::vector<P> keep = {P((size_t)np, W<U>::zero())}; Gen<U> r(g); r.revflag = false; bool differ = false, ties = false; long evals = 0; size_t widest = 1;
    for (int v = 0; v < limit; v++) {
        struct Slot { int par, pos, shift; }; std::vector<Slot> slots; // from the highest pattern bit down
        for (int i = 0; i < np; i++) slots.push_back({i, v, sh[(size_t)i]}); if (np == 2) slots.push_back({0, v + sh[1], sh[0] + sh[1]});
        std::vector<P> next; int best = 0;
        for (auto &q : keep) for (int pat = (1 << slots.size()) - 1; pat >= 0; pat--) {
            P t = q; bool ok = true; for (size_t k = 0; k < slots.size(); k++) { bool on = (pat >> (slots.size() - 1 - k)) & 1; if (on && v + slots[k].shift > w) ok = false; int pos = slots[k].pos; if (pos > w - 2) continue; int b = w - 1 - pos; if (W<U>::get(t[(size_t)slots[k].par], b) != on) W<U>::flip(t[(size_t)slots[k].par], b); }
            if (!ok) continue; if (++evals > cap) throw pbt::Discard();
            for (int i = 0; i < np; i++) r.setTemperingPattern(all, t[(size_t)i], i); r.setUpTempering(); auto o = equi::orbit_of<U>(r); int d = 0; for (int k = 1; k <= v + 1; k++) d += n / k - o.k(k);
            if (!next.empty() || differ) {} if (next.empty() || d < best) { if (!next.empty()) differ = true; next.clear(); best = d; } else if (d > best) { differ = true; continue; } next.push_back(t);
        }
        keep = next; widest = std::max(widest, keep.size()); if (keep.size() > 1) ties = true;
    }
    if (differ) { c.label("defects differ"); c.nontrivial(); } if (ties) c.label("ties"); c.label(widest > 64 ? ">64 kept" : widest > 8 ? ">8 kept" : "few kept");
    AlgorithmBestBits<U> a(w, sh.data(), np, limit); for (auto &x : sh) x = -1; int ret; std::string out; BV before = g.x; { Capture cp; AlgorithmTempering<U> &base = a; ret = verbose ? base(g, true) : c.coin() ? base(g) : base(g, false); out = cp.os.str(); }
    PBT_REQUIRE(ret == 0, "returned " << ret); PBT_REQUIRE(!a.isLSBTempering(), "isLSBTempering is true"); PBT_REQUIRE(!g.isReverseOutput(), "the output is left reversed"); PBT_REQUIRE(g.x == before, "the state of the generator has changed"); PBT_REQUIRE(verbose || out.empty(), "output although verbose is false");
    for (int k = 0; k < np; k++) { PBT_REQUIRE(W<U>::eq(g.tp[(size_t)k], keep[0][(size_t)k]), "parameter " << k << " is " << hex<U>(g.tp[(size_t)k]) << ", the best choice of the level-by-level search is " << hex<U>(keep[0][(size_t)k])); PBT_REQUIRE(W<U>::eq(g.eff[(size_t)k], g.tp[(size_t)k]), "the tempering in effect is not the one chosen (setUpTempering)"); }
}
PBT_CHECK(small, 4000, 60000) { if (c.chance(2, 3)) bb<uint32_t>(c, 40, 4, 600); else bb<uint64_t>(c, 30, 4, 400); }
PBT_CHECK(deep, 400, 6000) { if (c.chance(3, 4)) bb<uint32_t>(c, 60, 8, 4000); else bb<uint64_t>(c, 40, 7, 3000); }
// shifts close to the word width: few levels branch, so the search can go down to the last bits
PBT_CHECK(lastbits, 800, 12000) { if (c.chance(3, 4)) bb<uint32_t>(c, 31, 32, 4000, true); else bb<uint64_t>(c, 20, 64, 2000, true); }
// many patterns tie level after level and one late bit decides
PBT_CHECK(ties, 160, 2400) { if (c.chance(3, 4)) bb<uint32_t>(c, 48, 12, 6000, false, true); else bb<uint64_t>(c, 48, 12, 6000, false, true); }
