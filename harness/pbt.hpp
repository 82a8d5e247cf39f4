// A small property-based testing engine: choice-sequence generation, fork
// isolation, CPU-time hang detection, internal shrinking, replay files.
//
// Every random decision of a case goes through Case::below(); the sequence of
// decisions *is* the case.  Shrinking edits that sequence (delete, zero, halve),
// a replay file stores it, and a run is a pure function of (seed, tier, code).
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

// in memory shared with the parent process, so that it survives a crash
struct SharedLog {
    static const size_t CAP = 1 << 17, DCAP = 1 << 16;
    size_t n, dn;
    uint64_t choices[CAP];
    char desc[DCAP];
};

class Case {
public:
    // generating
    explicit Case(uint64_t seed, bool thorough_) : replay(false), st(seed), thorough(thorough_) {}
    // replaying
    Case(const std::vector<uint64_t> &c, bool thorough_) : replay(true), in(c), st(0), thorough(thorough_) {}

    // uniform in [0, bound); bound == 0 means the full 64-bit range
    uint64_t below(uint64_t bound) {
        uint64_t v;
        if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (bound) v %= bound;
        } else {
            v = splitmix(st);
            if (bound) v = (uint64_t)(((unsigned __int128)v * bound) >> 64);
        }
        out.push_back(v);
        if (log && log->n < SharedLog::CAP) log->choices[log->n++] = v;
        return v;
    }
    // call when desc describes the case completely: it then survives a crash
    void ready() {
        if (!log) return;
        std::string s = desc.str();
        size_t n = s.size() < SharedLog::DCAP ? s.size() : SharedLog::DCAP;
        memcpy(log->desc, s.data(), n); log->dn = n;
    }
    SharedLog *log = nullptr;
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
    int range_log(int lo, int hi) { // small values more often
        int span = hi - lo + 1, k = range(0, 3);
        for (int i = 0; i < k && span > 1; i++) span = (span + 1) / 2;
        return lo + (int)below((uint64_t)span);
    }
    bool chance(int num, int den) { return below((uint64_t)den) >= (uint64_t)(den - num); }
    bool coin() { return below(2) == 1; }
    // a 64-bit word with interesting shapes mixed in
    uint64_t word() {
        switch (below(8)) {
        case 0: return 0;
        case 1: return ~UINT64_C(0);
        case 2: return UINT64_C(1) << below(64);
        case 3: return ~(UINT64_C(1) << below(64));
        case 4: { uint64_t a = below(64); return ~UINT64_C(0) >> a; }
        case 5: { uint64_t a = below(64); return ~UINT64_C(0) << a; }
        default: return below(0);
        }
    }
    uint64_t u64() { return below(0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[(size_t)below(v.size())]; }
    int weighted(std::initializer_list<int> w) {
        int tot = 0; for (int x : w) tot += x;
        int r = (int)below((uint64_t)tot), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    void label(const std::string &s) { labels.insert(s); }
    void nontrivial() { nontriv = true; }
    // is this the recorded finding KEY of known_findings.txt? If so it is counted, and not a failure
    bool known(const std::string &key) { std::string l = std::string("\n") + (getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : ""); if (l.find("\n" + key + "\t") == std::string::npos) return false; labels.insert("KNOWN " + key); return true; }
    std::ostringstream desc;                 // human-readable description of the case
    [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }

    const std::vector<uint64_t> &choices() const { return out; }
    std::set<std::string> labels;
    bool nontriv = false;
    bool replay;
private:
    std::vector<uint64_t> in, out;
    size_t pos = 0;
    uint64_t st;
public:
    bool thorough;
};

#define PBT_REQUIRE(cond, what)                                              \
    do {                                                                     \
        if (!(cond)) {                                                       \
            std::ostringstream pbt_os_;                                      \
            pbt_os_ << #cond << " failed: " << what;                         \
            throw pbt::Failure{pbt_os_.str()};                               \
        }                                                                    \
    } while (0)

struct Check {
    const char *name;
    long quick, thorough;                  // number of cases
    void (*fn)(Case &);
    int cpu_limit_s;                       // hang limit (CPU seconds) for one case
};
std::vector<Check> &checks();
struct Reg { Reg(const char *n, long q, long t, void (*f)(Case &), int lim = 60) { checks().push_back({n, q, t, f, lim}); } };
#define PBT_CHECK(name, quick, thorough)                                     \
    static void pbt_##name(pbt::Case &c);                                    \
    static pbt::Reg pbt_reg_##name(#name, quick, thorough, pbt_##name);      \
    static void pbt_##name(pbt::Case &c)

#define PBT_CHECK_LIM(name, quick, thorough, lim)                            \
    static void pbt_##name(pbt::Case &c);                                    \
    static pbt::Reg pbt_reg_##name(#name, quick, thorough, pbt_##name, lim); \
    static void pbt_##name(pbt::Case &c)

extern const char *property_id;             // defined by each harness
extern const char *property_rule;           // what makes a case non-trivial
extern std::vector<std::string> assumptions;
std::string scratch_dir();                  // a fresh per-process directory, removed at exit
} // namespace pbt
#endif
