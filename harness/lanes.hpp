// The stream of words of a generator of 128-bit blocks and its dimension of equidistribution
#ifndef LANES_HPP
#define LANES_HPP
#include "gf2.hpp"
#include <climits>
namespace lanes {
// the words' bit sequences: s[lane * bits + j] = bit j from the top of word `lane` of block t
struct Stream {
    int E, bits, dim, cap; std::vector<gf2::BV> s;
    template <class NEXT> Stream(int E_, int bits_, int n, NEXT next) : E(E_), bits(bits_), dim(n), cap(n) {
        int L = 2 * n + 8; for (int i = 0; i < E * bits; i++) s.push_back(gf2::bv((size_t)L + 64));
        for (int t = 0; t < L; t++) { std::vector<uint64_t> b = next(); for (int i = 0; i < E; i++) for (int j = 0; j < bits; j++) if ((b[(size_t)i] >> (bits - 1 - j)) & 1) gf2::setbit(s[(size_t)(i * bits + j)], (size_t)t); }
    }
    gf2::BV row(int i, int t) const { gf2::BV r = gf2::bv((size_t)cap); size_t q = (size_t)t / 64; int b = t % 64; const gf2::BV &v = s[(size_t)i]; for (size_t k = 0; k < r.size(); k++) { r[k] = v[k + q] >> b; if (b && k + q + 1 < v.size()) r[k] |= v[k + q + 1] << (64 - b); } if (cap % 64) r.back() &= ~UINT64_C(0) >> (64 - cap % 64); return r; }
    int rank(int from) const { gf2::Echelon e((size_t)cap); for (int t = from, idle = 0; t < from + cap && idle < 1 && (int)e.rank() < cap; t++) { bool any = false; for (int i = 0; i < E * bits; i++) any |= e.insert(row(i, t)); if (!any) idle++; } return (int)e.rank(); }
    int words(int o, int v) const { gf2::Echelon e((size_t)cap); for (int p = o;; p++) for (int j = 0; j < v; j++) if (!e.insert(row(p % E * bits + j, p / E))) return p - o; } // the most words from word o on with independent top v bits
    // what the SIMD algorithm defines as k(v); *truth: the exact dimension of the word stream
    int k(int v, int *truth) const {
        std::vector<int> ko; for (int o = 0; o < E; o++) ko.push_back(words(o, v)); int r = INT_MAX; *truth = *std::min_element(ko.begin(), ko.end());
        for (int s0 = 0; s0 < E; s0++) { int m = 0; for (int wt = 1; wt <= E; wt++) m = std::max(m, ko[(size_t)((s0 + wt) % E)] / E * E - (E - wt)); r = std::min(r, m); }
        return r;
    }
};
inline uint64_t rev(uint64_t v, int bits) { uint64_t r = 0; for (int i = 0; i < bits; i++) if ((v >> i) & 1) r |= UINT64_C(1) << (bits - 1 - i); return r; }
} // namespace lanes
#endif
