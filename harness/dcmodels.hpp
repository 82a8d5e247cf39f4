// Independent models of the recursions the dynamic creators search for: the state is a
// queue of words, oldest first
#ifndef DCMODELS_HPP
#define DCMODELS_HPP
#include "pbt.hpp"
namespace dcm {
struct Tiny { typedef uint32_t U;
    uint32_t id, m1 = 0, m2 = 0, tmat = 0; std::vector<uint32_t> s = {0, 0, 0, 0}; bool rev = false;
    U raw() { uint32_t y = s[3], x = (s[0] & 0x7fffffff) ^ s[1] ^ s[2]; x ^= x << 1; y = y ^ (y >> 1) ^ x; uint32_t a = s[1], b = s[2], c = x ^ (y << 10); if (y & 1) { b ^= m1; c ^= m2; } s = {a, b, c, y}; uint32_t t = s[0] ^ (s[2] >> 8); return s[3] ^ t ^ ((t & 1) ? tmat : 0); }
    bool zero() const { return !(s[0] & 0x7fffffff) && !s[1] && !s[2] && !s[3]; }
    void setZero() { s = {0, 0, 0, 0}; }
    void seed(U v) { s = {0, 0, 0, v}; }
    int bits() const { return 127; }
    bool same(const Tiny &o) const { return m1 == o.m1 && m2 == o.m2 && tmat == o.tmat; }
};
struct Mtgp { typedef uint32_t U;
    int mexp = 0, pos = 0; uint32_t id = 0, tbl[4] = {0, 0, 0, 0}, tmp[4] = {0, 0, 0, 0}, eff[4] = {0, 0, 0, 0}; std::vector<uint32_t> s; bool rev = false;
    uint32_t mask() const { int d = 32 * (int)s.size() - mexp; return d >= 32 ? 0 : 0xffffffffu << d; }
    U raw() { size_t n = s.size(); uint32_t x = (s[0] & mask()) ^ s[1]; x ^= x << 13; uint32_t y = x ^ (s[(size_t)pos] >> 4), r = y; for (int j = 0; j < 4; j++) if ((y >> j) & 1) r ^= tbl[j];
        s.erase(s.begin()); s.push_back(r); // the tempering looks at the word pos-1 after the new one
        uint32_t t = s[(size_t)((pos - 1 + (int)n - 1) % (int)n)]; t ^= t >> 16; t ^= t >> 8; U o = r; for (int j = 0; j < 4; j++) if ((t >> j) & 1) o ^= eff[j]; return o; }
    bool zero() const { if (s[0] & mask()) return false; for (size_t i = 1; i < s.size(); i++) if (s[i]) return false; return true; }
    void setZero() { std::fill(s.begin(), s.end(), 0); }
    void seed(U v) { s[0] = v; for (size_t i = 1; i < s.size(); i++) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + (uint32_t)i; }
    int bits() const { return mexp; }
    bool same(const Mtgp &) const { return true; }
};
struct Rmt { typedef uint64_t U;
    int mexp = 0, pos = 0; uint64_t mata = 0, mb = 0, mc = 0, parity = 0; std::vector<uint64_t> s; bool rev = false;
    U raw() { uint64_t a = s[0], y = s[(size_t)pos]; y ^= y << 17; uint64_t x = y ^ (a >> 1) ^ ((a & 1) ? mata : 0); s.erase(s.begin()); s.push_back(x); x ^= (x >> 29) & UINT64_C(0x5555555555555555); x ^= (x << 17) & mb; x ^= (x << 37) & mc; return x ^ (x >> 43); }
    bool zero() const { for (uint64_t v : s) if (v) return false; return true; }
    void setZero() { std::fill(s.begin(), s.end(), 0); }
    void seed(U v) { s[0] = v; for (size_t i = 1; i < s.size(); i++) s[i] = 6364136223846793005ull * (s[i - 1] ^ (s[i - 1] >> 62)) + i; }
    int bits() const { return 64 * (int)s.size(); }
    bool same(const Rmt &) const { return true; }
};
struct Mt32 { typedef uint32_t U; int mexp = 0, pos = 0, id = 0; uint32_t mata = 0, mb = 0, mc = 0; std::vector<uint32_t> s; bool rev = false;
    bool zero() const { if (s[0] & upper()) return false; for (size_t i = 1; i < s.size(); i++) if (s[i]) return false; return true; }
    void setZero() { std::fill(s.begin(), s.end(), 0); }
    int bits() const { return mexp; }
    bool same(const Mt32 &) const { return true; }
    uint32_t upper() const { int r = 32 * (int)s.size() - mexp; return r >= 32 ? 0 : 0xffffffffu << r; }
    U raw() { uint32_t y = (s[0] & upper()) | (s[1] & ~upper()); y = s[(size_t)pos] ^ (y >> 1) ^ ((y & 1) ? mata : 0); s.erase(s.begin()); s.push_back(y); y ^= y >> 12; y ^= (y << 7) & mb; y ^= (y << 15) & mc; return y ^ (y >> 18); }
    void seed(U v) { s[0] = v; for (size_t i = 1; i < s.size(); i++) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + (uint32_t)i; }
};
inline void mats(uint32_t num, uint32_t id, uint32_t *m1, uint32_t *m2) { // word layout of TinyMT parameters: id and the number spread over mat1/mat2, mat2 odd
    uint32_t w = (num ^ (num << 15) ^ (num << 23)) << 1; *m1 = (w & 0xffff0000u) | (id & 0xffffu); *m2 = (w & 0xffffu) | (id & 0xffff0000u); *m1 ^= *m1 >> 19; *m2 ^= *m2 << 18; *m2 ^= 1;
}
} // namespace dcm
#endif
