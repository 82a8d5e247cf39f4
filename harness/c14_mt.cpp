// MersenneTwister (C14) / MersenneTwister64 (C15): histories of constructions, seedings
// and draws against the published algorithm; std::mt19937(_64) as a second opinion
#include "pbt.hpp"
#include <algorithm>
#include "mtref.hpp"
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <memory>
#include <new>
#include <random>
using namespace MTToolBox;
#ifdef MT64BIT
const char *pbt::property_id = "C15"; typedef MersenneTwister64 MT; typedef mtref::MT64 Ref; typedef uint64_t U; typedef std::mt19937_64 Std; static const U DEF = 19650218;
#else
const char *pbt::property_id = "C14"; typedef MersenneTwister MT; typedef mtref::MT32 Ref; typedef uint32_t U; typedef std::mt19937 Std; static const U DEF = 5489;
#endif
const char *pbt::property_rule = "A case is a history: a construction (default, number, string, array), then draws of 32 and 64 bits in any mixture, runs long enough to wrap the state several times, and re-seedings of every kind; each value is compared. Non-trivial: the history crosses the end of the state array or re-seeds.";
std::vector<std::string> pbt::assumptions = {"key arrays have at least one element; an empty string counts as the key {0}", "characters convert to integers as char does on this platform"};

static std::vector<U> rnd_key(pbt::Case &c) { size_t n = c.chance(1, 6) ? (size_t)c.range(600, 1300) : c.chance(1, 4) ? (size_t)c.range(300, 330) : (size_t)c.range(1, 12); std::vector<U> k; uint64_t s = c.below(1 << 20); bool words = n < 20; for (size_t i = 0; i < n; i++) k.push_back((U)(words ? c.word() : pbt::splitmix(s))); return k; }
static std::string rnd_str(pbt::Case &c) { size_t n = c.chance(1, 10) ? (size_t)c.range(300, 1300) : (size_t)c.range(0, 12); std::string s; uint64_t h = c.below(1 << 20); bool high = c.chance(1, 3); for (size_t i = 0; i < n; i++) s += (char)(high ? pbt::splitmix(h) % 256 : 32 + pbt::splitmix(h) % 95); return s; }
PBT_CHECK(history, 60000, 800000) {
    Ref ref; std::unique_ptr<MT> holder; MT *m; std::unique_ptr<Std> stdg; auto plain = [&](uint64_t v) { ref.seed((U)v); stdg.reset(new Std((U)v)); };
    switch (c.below(5)) {
    case 0: holder.reset(new MT()); plain(DEF); c.desc << "default"; c.label("default constructor"); break;
    case 1: { U v = (U)c.word(); holder.reset(new MT(v)); plain(v); c.desc << "number " << v; c.label("number constructor"); break; }
    case 2: { std::string s = rnd_str(c); holder.reset(new MT(s)); ref.keys(mtref::of_string<U>(s)); c.desc << "string of " << s.size(); c.label(s.empty() ? "empty string constructor" : "string constructor"); break; }
    case 3: { auto k = rnd_key(c); holder.reset(new MT(k.data(), (int)k.size())); ref.keys(k); c.desc << "array of " << k.size(); c.label("array constructor"); break; }
    default: { U v = (U)c.range(0, 9999); holder.reset(new MT(v)); plain(v); c.desc << "number " << v; }
    }
    m = holder.get(); ParameterGenerator &pg = *m; long total = 0; int reseeds = 0; int ops = c.range(1, 12);
    for (int o = 0; o < ops; o++) {
        int cnt = c.chance(1, 4) ? c.range(300, 2600) : c.chance(1, 4) ? c.range(300, 630) : c.range(1, 20);
        switch (c.weighted({4, 3, 2, 2, 2, 1, 1})) {
        case 0: { c.desc << "; u32 x" << cnt; for (int i = 0; i < cnt; i++) { U e = ref.next(); if (stdg) { U q = (*stdg)(); PBT_REQUIRE(q == e, "harness: references disagree"); } uint32_t w = sizeof(U) == 8 ? (uint32_t)((uint64_t)e >> 32) : (uint32_t)e; uint32_t g = (i & 1) ? pg.getUint32() : m->getUint32(); PBT_REQUIRE(g == w, "getUint32 number " << i << " is " << g << ", should be " << w); } total += cnt; break; }
        case 1: { c.desc << "; u64 x" << cnt; for (int i = 0; i < cnt; i++) { uint64_t e = ref.next(); if (stdg) (*stdg)(); if (sizeof(U) == 4) { e = (e << 32) | ref.next(); if (stdg) (*stdg)(); } uint64_t g = (i & 1) ? pg.getUint64() : m->getUint64(); PBT_REQUIRE(g == e, "getUint64 number " << i << " is " << g << ", should be " << e); } total += cnt * (sizeof(U) == 4 ? 2 : 1); break; }
        case 2: { c.desc << "; next x" << cnt; for (int i = 0; i < cnt; i++) { U e = ref.next(); if (stdg) (*stdg)(); U g = m->next(); PBT_REQUIRE(g == e, "next number " << i << " is " << g << ", should be " << e); } total += cnt; break; }
        case 3: { uint64_t v = c.word(); if (sizeof(U) == 4 && c.coin()) v = (uint32_t)v; bool base = c.coin(); c.desc << "; seed " << v; if (base) pg.seed(v); else m->seed(v); plain(v); reseeds++; break; }
        case 4: { std::string s = rnd_str(c); c.desc << "; seed string of " << s.size(); m->seed(s); ref.keys(mtref::of_string<U>(s)); stdg.reset(); reseeds++; break; }
        case 5: { auto k = rnd_key(c); c.desc << "; seed array of " << k.size(); m->seed(k.data(), (int)k.size()); ref.keys(k); stdg.reset(); reseeds++; break; }
        default: { MT other((U)c.below(100)); for (int i = 0; i < 5; i++) other.next(); c.desc << "; another generator is used"; }
        }
    }
    c.ready(); c.label(total > 2000 ? ">2000 draws" : total > 624 ? ">624 draws" : "short"); if (reseeds) c.label("re-seeded"); if (reseeds || total > (sizeof(U) == 4 ? 624 : 312)) c.nontrivial();
#ifdef MT64BIT
    PBT_REQUIRE(m->bitSize() == 19937, "bitSize is " << m->bitSize());
#endif
}
// many draws, long keys: counters and lengths of more than 16 bits
PBT_CHECK(long_run, 160, 3000) {
    Ref ref; std::unique_ptr<MT> m; int kind = c.range(0, 3); size_t n = (size_t)c.range_log(1, kind == 0 ? 1 : 150000); uint64_t s = c.u64(); if (kind == 3) kind = 0;
    if (kind == 0) { U v = (U)s; m.reset(new MT(v)); ref.seed(v); c.desc << "number " << v; } else if (kind == 1) { std::vector<U> k(n); for (auto &x : k) x = (U)pbt::splitmix(s); if (c.coin()) m.reset(new MT(k.data(), (int)n)); else { m.reset(new MT((U)1)); m->next(); m->seed(k.data(), (int)n); } ref.keys(k); c.desc << "array of " << n; }
    else { std::string t; for (size_t i = 0; i < n; i++) t += (char)(32 + pbt::splitmix(s) % 95); if (c.coin()) m.reset(new MT(t)); else { m.reset(new MT((U)1)); m->next(); m->seed(t); } ref.keys(mtref::of_string<U>(t)); c.desc << "string of " << n; }
    long draws = c.range_log(1000, c.thorough ? 2000000 : 300000); uint32_t mix = (uint32_t)c.u64(); c.desc << ", " << draws << " draws, mixture " << mix; c.ready(); if (draws > 2000 || n > 1300) c.nontrivial(); c.label(draws > 65536 ? ">65536 draws" : "draws"); c.label(n > 65536 ? "key of >65536" : "key");
    for (long i = 0; i < draws; i++) switch (mix >> (2 * (i % 16)) & 3) {
        case 0: { U e = ref.next(); uint32_t w = sizeof(U) == 8 ? (uint32_t)((uint64_t)e >> 32) : (uint32_t)e, g = m->getUint32(); PBT_REQUIRE(g == w, "draw " << i << ", of 32 bits, is " << g << ", should be " << w); break; }
        case 1: { uint64_t e = ref.next(); if (sizeof(U) == 4) e = (e << 32) | ref.next(); uint64_t g = m->getUint64(); PBT_REQUIRE(g == e, "draw " << i << ", of 64 bits, is " << g << ", should be " << e); break; }
        default: { U e = ref.next(), g = m->next(); PBT_REQUIRE(g == e, "draw " << i << " is " << g << ", should be " << e); } }
}
