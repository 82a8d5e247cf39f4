// Sequential: histories against a counter model
#include "pbt.hpp"
#include <MTToolBox/Sequential.hpp>
#include <memory>
#include <new>
#include <stdexcept>
using namespace MTToolBox;
const char *pbt::property_id = "C16";
const char *pbt::property_rule = "A case is a history over one counter: construction (no argument, mask, mask and start, copy of a used counter), draws through every method, re-seedings, draws past the end. Non-trivial: the count passes zero, or the counter is copied or re-seeded after draws.";
std::vector<std::string> pbt::assumptions = {"unsigned counter types of 8 to 64 bits"};
template <class T> struct Model { T st, mask; bool err; bool next(T &v) { if (err) return false; if (st == 0) err = true; v = (T)(st ^ mask); st = (T)(st - 1); return true; } };
template <class T> static void hist(pbt::Case &c) {
    alignas(16) static unsigned char store[sizeof(Sequential<T>)], store2[sizeof(Sequential<T>)]; int poison = (int)c.below(256); memset(store, poison, sizeof store); memset(store2, poison ^ 255, sizeof store2);
    const int w = (int)sizeof(T) * 8; Sequential<T> *s; Model<T> m; T mask = (T)c.word(), st = (T)(c.chance(2, 3) ? (uint64_t)c.range(0, 12) : c.word()); c.desc << "width " << w; c.label("width " + std::to_string(w)); bool nt = false;
    switch (c.below(4)) {
    case 0: s = new (store) Sequential<T>(); m = {(T)-1, 0, false}; c.desc << " no argument"; c.label("no argument"); break;
    case 1: s = new (store) Sequential<T>(mask); m = {(T)-1, mask, false}; c.desc << " mask " << (uint64_t)mask; break;
    default: s = new (store) Sequential<T>(mask, st); m = {st, mask, false}; c.desc << " mask " << (uint64_t)mask << " start " << (uint64_t)st;
    }
    int ops = c.range(1, 14), drawn = 0; bool at2 = false;
    for (int o = 0; o < ops; o++) switch (c.weighted({6, 2, 2, 1, 2, 1, 1})) {
        case 0: case 1: case 2: { int how = (int)c.below(4), cnt = c.range(1, 8); c.desc << "; draw x" << cnt << "/" << how;
            for (int i = 0; i < cnt; i++) { T e = 0; bool ok = m.next(e); uint64_t g = 0; bool thrown = false; ParameterGenerator &pg = *s;
                try { switch (how) { case 0: g = s->next(); break; case 1: g = s->getUint32(); break; case 2: g = s->getUint64(); break; default: g = i & 1 ? pg.getUint32() : pg.getUint64(); } } catch (const std::underflow_error &) { thrown = true; }
                uint64_t want = (how == 1 || (how == 3 && (i & 1))) ? (uint32_t)e : (uint64_t)e; if (!ok) { nt = true; c.label("past zero"); }
                PBT_REQUIRE(thrown == !ok, (thrown ? "underflow_error although the count is not over" : "no underflow_error although the count is over") << " after: " << c.desc.str()); if (ok) PBT_REQUIRE(g == want, "value " << g << ", should be " << want << " after: " << c.desc.str()); drawn++; }
            break; }
        case 3: { T v = (T)c.range(0, 9); if (c.chance(1, 4)) v = (T)c.word(); c.desc << "; reseed " << (uint64_t)v; s->reseed(v); m.st = v; m.err = false; if (drawn) { nt = true; c.label("re-seeded"); } break; }
        case 4: { uint64_t v = c.chance(3, 4) ? (uint64_t)c.range(0, 9) : c.word(); bool base = c.coin(); c.desc << "; seed(u64) " << v; if (base) { ParameterGenerator &pg = *s; pg.seed(v); } else s->seed(v); m.st = (T)v; m.err = false; if (drawn) { nt = true; c.label("re-seeded"); } break; }
        case 5: { uint32_t v = (uint32_t)c.range(0, 9); c.desc << "; seed(u32) " << v; s->seed(v); m.st = (T)v; m.err = false; if (drawn) nt = true; break; }
        default: { c.desc << "; copy"; Sequential<T> *t = new (at2 ? store : store2) Sequential<T>(*s); Model<T> om = m; T e; // the copy and the original go on independently
            bool ok = om.next(e); bool thrown = false; uint64_t g = 0; try { g = s->next(); } catch (const std::underflow_error &) { thrown = true; } PBT_REQUIRE(thrown == !ok && (thrown || g == e), "the original of a copy goes wrong after: " << c.desc.str());
            at2 = !at2; s = t; if (drawn) { nt = true; c.label("copied"); } }
        }
    c.ready(); PBT_REQUIRE(s->bitSize() == w, "bitSize is " << s->bitSize()); if (nt) c.nontrivial();
}
PBT_CHECK(history, 1000000, 12000000) { switch (c.weighted({4, 3, 1, 1})) { case 0: hist<uint32_t>(c); break; case 1: hist<uint64_t>(c); break; case 2: hist<uint8_t>(c); break; default: hist<uint16_t>(c); } }
// whole counts: every value exactly once, counting down, then the end
template <class T> static void whole(pbt::Case &c, uint64_t top) {
    T start = (T)top, mask = (T)c.word(); Sequential<T> *p; bool dflt = top == (T)-1 && c.coin(), nomask = dflt && c.coin(); if (nomask) mask = 0; p = nomask ? new Sequential<T>() : dflt ? new Sequential<T>(mask) : new Sequential<T>(mask, start); std::unique_ptr<Sequential<T>> s(p); if (!dflt && c.chance(1, 3)) { s->next(); s->seed((uint64_t)start); }
    c.desc << "width " << sizeof(T) * 8 << " mask " << (uint64_t)mask << " from " << (uint64_t)start << (dflt ? " by default" : ""); c.ready(); c.label("width " + std::to_string(sizeof(T) * 8)); c.label(top > 65535 ? "more than 2^16 values" : "up to 2^16 values"); c.nontrivial(); int how = (int)c.below(3);
    for (uint64_t v = start;; v--) { T e = (T)((T)v ^ mask); uint64_t g; try { g = how == 0 ? s->next() : how == 1 ? s->getUint64() : s->getUint32(); } catch (const std::underflow_error &) { throw pbt::Failure{"the end is reported before the value " + std::to_string(v)}; } uint64_t w = how == 2 ? (uint32_t)e : (uint64_t)e; PBT_REQUIRE(g == w, "at count " << v << " the value is " << g << ", not " << w); if (v == 0) break; }
    for (int i = 0; i < 3; i++) { bool thrown = false; try { s->next(); } catch (const std::underflow_error &) { thrown = true; } PBT_REQUIRE(thrown, "after the end draw " << i << " gives a value"); }
}
PBT_CHECK(whole_count, 60, 600) { switch (c.below(5)) { case 0: whole<uint8_t>(c, 255); break; case 1: whole<uint16_t>(c, c.coin() ? 65535 : (uint64_t)c.range_log(1, 65535)); break; case 2: whole<uint64_t>(c, (uint64_t)c.range_log(1, c.thorough ? 3000000 : 400000)); break; default: whole<uint32_t>(c, (uint64_t)c.range_log(1, c.thorough ? 3000000 : 400000)); } }
