// bit-by-bit definitions of the word helpers (included by c17_util.cpp and c17_w128d.cpp)
using namespace gens; using namespace MTToolBox;
template <class U> static U rnd_word(pbt::Case &c) { uint64_t l = c.word(); return W<U>::mk(l, W<U>::bits > 64 ? c.word() : 0); }
template <class U> static void word(pbt::Case &c) {
    const int w = W<U>::bits; U x = rnd_word<U>(c), y = rnd_word<U>(c); c.desc << W<U>::name() << " x=" << hex<U>(x) << " y=" << hex<U>(y); c.ready(); c.label(W<U>::name());
    int pop = 0, low = -1; for (int i = w - 1; i >= 0; i--) if (W<U>::get(x, i)) { pop++; low = i; } if (pop && pop < w) c.nontrivial();
    PBT_REQUIRE(bit_size<U>() == w, "bit_size is " << bit_size<U>());
    PBT_REQUIRE(calc_1pos(x) == (low < 0 ? -1 : w - 1 - low), "calc_1pos is " << calc_1pos(x));
    PBT_REQUIRE(isZero<U>(x) == (pop == 0), "isZero is wrong");
    for (int i = 0; i < w; i++) PBT_REQUIRE(getBitOfPos<U>(x, i) == (unsigned)W<U>::get(x, i), "getBitOfPos at " << i);
    int p = c.range(0, w - 1); unsigned b = (unsigned)c.range(0, 3); U z = x; setBitOfPos<U>(&z, p, b); U e = x; if (W<U>::get(e, p) != (b & 1)) W<U>::flip(e, p); PBT_REQUIRE(W<U>::eq(z, e), "setBitOfPos(" << p << "," << b << ") gives " << hex<U>(z));
    U one = getOne<U>(); PBT_REQUIRE(W<U>::eq(one, W<U>::mk(1, 0)), "getOne is " << hex<U>(one)); z = x; setZero<U>(z); PBT_REQUIRE(wzero<U>(z), "setZero");
    U a = convert<U>((uint32_t)W<U>::lo(y)), d = convert<U>((uint64_t)W<U>::lo(y)); PBT_REQUIRE(W<U>::eq(a, W<U>::mk((uint32_t)W<U>::lo(y), 0)) && W<U>::eq(d, W<U>::mk(W<U>::lo(y), 0)), "convert gives " << hex<U>(a) << " and " << hex<U>(d));
}
template <class U> static void small(pbt::Case &c) { U x = rnd_word<U>(c); int pop = 0; for (int i = 0; i < W<U>::bits; i++) pop += W<U>::get(x, i); c.desc << " count_bit " << hex<U>(x); PBT_REQUIRE(count_bit(x) == pop, "count_bit is " << count_bit(x)); }
template <class U> static void vecs(pbt::Case &c) { // only types with & and shifts that give a truth value
    const int w = W<U>::bits; U x = rnd_word<U>(c); NTL::vec_GF2 v; v.SetLength(c.range(0, 200)); toGF2Vec<U>(v, x); PBT_REQUIRE(v.length() == w, "toGF2Vec gives " << v.length() << " elements");
    for (int i = 0; i < w; i++) PBT_REQUIRE((NTL::rep(v[i]) == 1) == W<U>::get(x, w - 1 - i), "toGF2Vec element " << i << " of " << hex<U>(x));
}
template <class U> static void unvec(pbt::Case &c) { const int w = W<U>::bits; U x = rnd_word<U>(c); NTL::vec_GF2 v; v.SetLength(w); for (int i = 0; i < w; i++) v.put(i, W<U>::get(x, w - 1 - i)); U y = fromGF2Vec<U>(v); PBT_REQUIRE(W<U>::eq(x, y), "fromGF2Vec gives " << hex<U>(y) << " for " << hex<U>(x)); }
template <class U> static void reverse(pbt::Case &c) { U x = rnd_word<U>(c), y = reverse_bit(x); PBT_REQUIRE(W<U>::eq(y, rev<U>(x)), "reverse_bit(" << hex<U>(x) << ") is " << hex<U>(y)); }
static void words128(pbt::Case &c) {
    word<w128_t>(c); unvec<w128_t>(c); reverse<w128_t>(c);
    w128_t x = rnd_word<w128_t>(c), y = rnd_word<w128_t>(c); int s = c.range(0, 127), n = c.range(0, 128); c.desc << " shift=" << s << " mask=" << n;
    PBT_REQUIRE(W<w128_t>::eq(x << s, W<w128_t>::shl(x, s)), "operator<< by " << s << " of " << hex(x)); PBT_REQUIRE(W<w128_t>::eq(x >> s, s ? W<w128_t>::shl(x, -s) : x), "operator>> by " << s << " of " << hex(x));
    auto mk = [&](uint64_t l, uint64_t h) { return W<w128_t>::mk(l, h); }; PBT_REQUIRE(W<w128_t>::eq(x & y, mk(x.u64[0] & y.u64[0], x.u64[1] & y.u64[1])), "operator&"); PBT_REQUIRE(W<w128_t>::eq(x ^ y, mk(x.u64[0] ^ y.u64[0], x.u64[1] ^ y.u64[1])), "operator^"); PBT_REQUIRE(W<w128_t>::eq(~x, mk(~x.u64[0], ~x.u64[1])), "operator~");
    w128_t z = x; w128_t &r1 = (z |= y); PBT_REQUIRE(&r1 == &z && W<w128_t>::eq(z, mk(x.u64[0] | y.u64[0], x.u64[1] | y.u64[1])), "operator|="); z = x; z ^= y; PBT_REQUIRE(W<w128_t>::eq(z, mk(x.u64[0] ^ y.u64[0], x.u64[1] ^ y.u64[1])), "operator^=");
    w128_t f = x; if (c.coin()) W<w128_t>::flip(f, s); PBT_REQUIRE((x == f) == W<w128_t>::eq(x, f), "operator==" << hex(x) << " " << hex(f)); PBT_REQUIRE(W<w128_t>::eq(make_msb_mask(n), topmask<w128_t>(n)), "make_msb_mask(" << n << ") is " << hex(make_msb_mask(n))); PBT_REQUIRE(W<w128_t>::eq(and_mask(x, y), mk(x.u64[0] & y.u64[0], x.u64[1] & y.u64[1])), "and_mask");
}
