// reference Mersenne Twister (32 and 64 bits) with array initialisation, written
// from the published recurrence; whole-state regeneration, no circular tricks
#ifndef MTREF_HPP
#define MTREF_HPP
#include <cstdint>
#include <vector>
#include <string>
namespace mtref {
template <class U, int N, int M, int R, U A, U F, int S0> struct Core {
    std::vector<U> s = std::vector<U>(N); int p = N;
    void seed(U v) { s[0] = v; for (int i = 1; i < N; i++) s[(size_t)i] = F * (s[(size_t)i - 1] ^ (s[(size_t)i - 1] >> S0)) + (U)i; p = N; }
    void key(const std::vector<U> &k, U c1, U c2) {
        seed((U)19650218); size_t len = k.size(), i = 1, j = 0;
        auto wrap = [&]() { if (++i == (size_t)N) { s[0] = s[N - 1]; i = 1; } };
        for (size_t t = 0; t < std::max(len, (size_t)N); t++) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> S0)) * c1)) + k[j] + (U)j; wrap(); if (++j == len) j = 0; }
        for (size_t t = 0; t < (size_t)N - 1; t++) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> S0)) * c2)) - (U)i; wrap(); }
        s[0] = (U)1 << (sizeof(U) * 8 - 1); p = N;
    }
    U raw() {
        if (p == N) { std::vector<U> t = s; U lo = ((U)1 << R) - 1; for (int i = 0; i < N; i++) { U y = (s[(size_t)i] & ~lo) | (s[(size_t)((i + 1) % N)] & lo); s[(size_t)i] = s[(size_t)((i + M) % N)] ^ (y >> 1) ^ ((y & 1) ? A : 0); } p = 0; }
        return s[(size_t)p++];
    }
};
struct MT32 : Core<uint32_t, 624, 397, 31, 0x9908b0dfu, 1812433253u, 30> {
    void keys(const std::vector<uint32_t> &k) { key(k, 1664525u, 1566083941u); }
    uint32_t next() { uint32_t y = raw(); y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); }
};
struct MT64 : Core<uint64_t, 312, 156, 31, 0xB5026F5AA96619E9ull, 6364136223846793005ull, 62> {
    void keys(const std::vector<uint64_t> &k) { key(k, 3935559000370003845ull, 2862933555777941757ull); }
    uint64_t next() { uint64_t y = raw(); y ^= (y >> 29) & 0x5555555555555555ull; y ^= (y << 17) & 0x71D67FFFEDA60000ull; y ^= (y << 37) & 0xFFF7EEE000000000ull; return y ^ (y >> 43); }
};
template <class U> std::vector<U> of_string(const std::string &s) { std::vector<U> k; for (char ch : s) k.push_back((U)ch); if (k.empty()) k.push_back(0); return k; }
} // namespace mtref
#endif
