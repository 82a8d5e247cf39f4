// util.hpp and the 128-bit word against bit-by-bit definitions
#include "gens.hpp"
#include "c17_words.hpp"
const char *pbt::property_id = "C17";
const char *pbt::property_rule = "A case is one word (or table, polynomial, pair of polynomials) of a random shape given to every helper that takes it; each result is recomputed bit by bit. Non-trivial: the word has between one and width-1 bits set, or the polynomial case is not constant.";
std::vector<std::string> pbt::assumptions = {"floor2p of n >= 1; get_range with start <= end; LCM of non-zero polynomials; bit positions inside the word"};
PBT_CHECK(words, 400000, 6000000) {
    switch (c.weighted({2, 3, 3, 3})) { case 0: word<uint16_t>(c); small<uint16_t>(c); vecs<uint16_t>(c); unvec<uint16_t>(c); break; case 1: word<uint32_t>(c); small<uint32_t>(c); vecs<uint32_t>(c); unvec<uint32_t>(c); reverse<uint32_t>(c); break;
    case 2: word<uint64_t>(c); small<uint64_t>(c); vecs<uint64_t>(c); unvec<uint64_t>(c); reverse<uint64_t>(c); break;
    default: words128(c);
    }
}
PBT_CHECK(numbers, 200000, 3000000) {
    uint64_t v = c.word(); if (!v) v = 1; uint64_t p = UINT64_C(1) << (63 - __builtin_clzll(v)); c.desc << "floor2p " << v; PBT_REQUIRE(floor2p<uint64_t>(v) == p, "floor2p is " << floor2p<uint64_t>(v)); int iv = (int)(v & 0x7fffffff); if (iv) PBT_REQUIRE(floor2p<int>(iv) == 1 << (31 - __builtin_clz((unsigned)iv)), "floor2p<int>(" << iv << ")"); uint32_t uv = (uint32_t)v; if (uv) PBT_REQUIRE(floor2p<uint32_t>(uv) == 1u << (31 - __builtin_clz(uv)), "floor2p<uint32_t>(" << uv << ")");
    int a = c.coin() ? c.range(-1000, 1000) : c.range(-1000000000, 1000000000), len = c.coin() ? c.range(1, 70) : c.range(1, 1000000000); uint64_t in = c.word(); c.desc << " get_range " << in << " " << a << " " << a + len - 1; c.nontrivial();
    int r = get_range<uint64_t>(in, a, a + len - 1); PBT_REQUIRE((int64_t)r == (int64_t)a + (int64_t)(in % (uint64_t)len), "get_range is " << r); uint32_t i32 = (uint32_t)in; r = get_range<uint32_t>(i32, a, a + len - 1); PBT_REQUIRE((int64_t)r == (int64_t)a + (int64_t)(i32 % (uint32_t)len), "get_range is " << r);
}
template <class T> static void table(pbt::Case &c) {
    int k = c.range(0, 9), size = c.chance(2, 3) ? 1 << k : c.range(1, 1 << k); std::vector<T> src, dst((size_t)size, 0); for (int i = 0; i < k; i++) src.push_back((T)c.word()); src.push_back(0); c.desc << "fill_table " << size << " of " << sizeof(T) * 8 << " bits"; if (size > 2) c.nontrivial(); std::vector<T> keep = src;
    fill_table<T>(dst.data(), src.data(), size); PBT_REQUIRE(src == keep, "the source table has changed");
    for (int i = 0; i < size; i++) { T e = 0; for (int j = 0; j < k; j++) if ((i >> j) & 1) e ^= src[(size_t)j]; PBT_REQUIRE(dst[(size_t)i] == e, "entry " << i << " is " << (uint64_t)dst[(size_t)i] << ", should be " << (uint64_t)e); }
}
PBT_CHECK(tables, 30000, 400000) { if (c.coin()) table<uint32_t>(c); else if (c.coin()) table<uint64_t>(c); else table<uint16_t>(c); }
PBT_CHECK(polynomials, 30000, 400000) {
    auto rp = [&](int d) { Poly q; q.w = rnd_bv(c, d + 1); q.norm(); if (q.deg() < 0) q = Poly(1); return q; };
    Poly g = rp(c.range_log(0, 60)), a = gf2::mul(g, rp(c.range_log(0, 100))), b = c.chance(1, 6) ? a : gf2::mul(g, rp(c.range_log(0, 100))); c.desc << "LCM " << gf2::str(a) << " | " << gf2::str(b); if (a.deg() > 0 && b.deg() > 0) c.nontrivial(); NTL::GF2X x = to_ntl(a), y = to_ntl(b), l; LCM(l, x, y); PBT_REQUIRE(from_ntl(l) == gf2::lcm(a, b), "LCM is " << gf2::str(from_ntl(l))); PBT_REQUIRE(from_ntl(x) == a && from_ntl(y) == b, "LCM changed its arguments");
    { NTL::GF2X m = to_ntl(a); LCM(m, m, y); PBT_REQUIRE(m == l, "LCM into one of its arguments gives another result"); }
    bool brk = c.coin(); if (c.chance(1, 20)) { a = Poly(); clear(x); } std::ostringstream os, want; if (brk && c.coin()) print_binary(os, x); else print_binary(os, x, brk);
    if (a.deg() < 0) want << "0deg=-1\n"; else { for (int i = 0; i <= a.deg(); i++) { want << (a.get(i) ? '1' : '0'); if (brk && i % 32 == 31) want << "\n"; } want << "deg=" << a.deg() << "\n"; } PBT_REQUIRE(os.str() == want.str(), "print_binary prints " << os.str());
}
