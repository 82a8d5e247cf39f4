// the sample programs of XORSHIFT and MTDC/mt1: exhaustive enumerations and tables, run as black boxes
#include "equi.hpp"
#include "fields.hpp"
#include "progs.hpp"
using progs::lines; using progs::split; using gf2::Poly;
const char *pbt::property_id = "C26";
const char *pbt::property_rule = "A case is a range of shift parameters (or one printed line, or one table) of a sample program: every parameter set of the range is decided by an independent model and has to be printed exactly when its period is 2^128-1. Non-trivial: the range has a parameter set of full period, or a line or table was checked.";
std::vector<std::string> pbt::assumptions = {"the 32768 shift triples of xorshift-3 and the 262144 patterned ones of xorshift-4; the fixed generators of the other programs"};
typedef std::vector<std::string> Strs;
struct X { int pat = -1, a = 0, b = 0, c = 0; uint32_t s[4] = {1, 1, 1, ~1u};
    static X of3(uint32_t r) { X x; x.a = r & 31; x.b = (r >> 5) & 31; x.c = (r >> 10) & 31; return x; }
    static X of4(uint32_t r) { X x; x.c = r & 31; x.b = (r >> 5) & 31; x.a = (r >> 10) & 31; x.pat = (r >> 15) & 7; return x; }
    uint32_t next() { uint32_t x = s[0], w = s[3];
        if (pat < 0) { x ^= x << a; x ^= x >> b; w ^= w >> c; } // Marsaglia
        else { // Panneton and L'Ecuyer: three shifts, distributed over the two words
            bool two_on_w = pat < 4; if (two_on_w) { if (pat & 2) { w ^= w << a; w ^= w >> b; } else { w ^= w >> a; w ^= w << b; } x ^= pat & 1 ? x >> c : x << c; } else { w ^= pat & 2 ? w << a : w >> a; if (pat & 1) { x ^= x << b; x ^= x >> c; } else { x ^= x >> b; x ^= x << c; } } }
        s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; return s[3] = w ^ x; }
    std::string text() const { std::ostringstream o; if (pat >= 0) o << pat << ","; o << a << "," << b << "," << c; return o.str(); }
};
static const Strs F128 = {"3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721"}; // of 2^128-1
static bool full(X x) { std::vector<uint8_t> z; for (int i = 0; i < 258; i++) z.push_back((uint8_t)((x.next() >> 7) & 1)); Poly p = gf2::berlekamp_massey(z); return p.deg() == 128 && gf2::irreducible(p) && fields::primitive(p, F128); }
static std::vector<int> ks(X x) { equi::Orbit<uint32_t> o(128, 128, [&]() { return x.next(); }); return equi::all_k(o, 32); }
static int delta(const std::vector<int> &k, int n) { int d = 0; for (int v = 1; v <= (int)k.size(); v++) d += n / v - k[(size_t)v - 1]; return d; }
static const Strs &output(const char *prog) { static std::map<std::string, Strs> m; auto i = m.find(prog); if (i != m.end()) return i->second; auto o = progs::run({prog}, strcmp(prog, "mt1") ? 40 : 120); PBT_REQUIRE(o.code == 0, prog << " exits " << o.code << o.err); return m[prog] = lines(o.out); }
static Strs params(const char *prog, const char *header) { Strs l = output(prog); PBT_REQUIRE(!l.empty() && l[0] == header, prog << " has the header " << (l.empty() ? "" : l[0])); l.erase(l.begin()); for (auto &x : l) { size_t p = x.find(':'); PBT_REQUIRE(p != std::string::npos, "the line " << x << " of " << prog << " has no defect"); x = x.substr(p + 1); } return l; }
static void enumerate(pbt::Case &c, const char *prog, const char *header, uint32_t total, X (*of)(uint32_t)) {
    uint32_t len = total >> 8, at = len * (uint32_t)c.below(total / len); c.desc << prog << ": numbers " << at << " to " << at + len - 1; c.ready(); Strs want, l = params(prog, header), got; std::set<std::string> here; for (uint32_t i = len; i-- > 0;) { X x = of(at + i); here.insert(x.text()); if (full(x)) want.push_back(x.text()); } for (auto &x : l) if (here.count(x)) got.push_back(x);
    std::string w, g; for (auto &x : want) w += x + " "; for (auto &x : got) g += x + " "; PBT_REQUIRE(w == g, "printed in this range: '" << g << "', but the full-period parameters are, counting down, '" << w << "'"); if (!want.empty()) c.nontrivial(); c.label(want.empty() ? "none of full period" : "some of full period");
}
static void one(pbt::Case &c, const char *prog, const char *header, X (*of)(uint32_t), uint32_t total) { // a printed line: what it is and where it stands
    Strs p = params(prog, header); const Strs &l = output(prog); PBT_REQUIRE(!p.empty(), prog << " prints no parameters"); size_t i = (size_t)c.below(p.size()); c.desc << prog << " line " << l[i + 1]; c.ready(); c.nontrivial(); long prev = (long)total; X x; bool found = false;
    for (size_t j = 0; j < p.size(); j++) { long n = -1; for (uint32_t r = 0; r < total && n < 0; r += 1) { Strs f = split(p[j]); PBT_REQUIRE((int)f.size() == (total > 32768 ? 4 : 3), "the line " << p[j]); uint32_t v[4]; for (size_t q = 0; q < f.size(); q++) v[q] = (uint32_t)strtoul(f[q].c_str(), nullptr, 10); r = f.size() == 3 ? v[0] | v[1] << 5 | v[2] << 10 : v[3] | v[2] << 5 | v[1] << 10 | v[0] << 15; PBT_REQUIRE(r < total, "the line " << p[j] << " is out of range"); n = (long)r; } PBT_REQUIRE(n < prev, "the lines are not in descending order at " << p[j]); prev = n; if (j == i) { x = of((uint32_t)n); found = true; } }
    PBT_REQUIRE(found && x.text() == p[i], "harness: " << p[i]); PBT_REQUIRE(full(x), "the parameters " << p[i] << " do not have the period 2^128-1"); int d = delta(ks(x), 128); PBT_REQUIRE(l[i + 1] == std::to_string(d) + ":" + p[i], "the line is " << l[i + 1] << ", the defect by ranks is " << d);
}
static const char *H3 = "delta:a, b, c", *H4 = "delta:pat, a, b, c";
PBT_CHECK_LIM(enumerate3, 1500, 6000, 120) { enumerate(c, "xorshift3", H3, 1u << 15, X::of3); }
PBT_CHECK_LIM(enumerate4, 1500, 6000, 120) { enumerate(c, "xorshift4", H4, 1u << 18, X::of4); }
PBT_CHECK_LIM(lines3, 200, 600, 120) { one(c, "xorshift3", H3, X::of3, 1u << 15); }
PBT_CHECK_LIM(lines4, 800, 4000, 120) { one(c, "xorshift4", H4, X::of4, 1u << 18); }
static void table(const char *prog, const std::vector<int> &k, int n, int width) { const Strs &l = output(prog); PBT_REQUIRE(l.size() == k.size() + 1, prog << " prints " << l.size() << " lines"); char b[80]; for (int v = 1; v <= (int)k.size(); v++) { snprintf(b, 80, "k(%2d):%*d  d(%2d):%*d", v, width, k[(size_t)v - 1], v, width, n / v - k[(size_t)v - 1]); PBT_REQUIRE(l[(size_t)v - 1] == b, prog << " prints '" << l[(size_t)v - 1] << "', not '" << b << "'"); } PBT_REQUIRE(l.back() == "delta:" + std::to_string(delta(k, n)), prog << " prints " << l.back() << ", not " << delta(k, n)); }
PBT_CHECK_LIM(tables, 60, 200, 120) {
    switch (c.below(5)) {
    case 0: { c.desc << "xorshift1"; c.ready(); X x; x.a = 5; x.b = 14; x.c = 1; PBT_REQUIRE(full(x), "harness: xorshift1"); Strs w = {"degree = 128", "period is 2^128 -1."}; PBT_REQUIRE(output("xorshift1") == w, "xorshift1 prints " << output("xorshift1").at(0)); break; }
    case 1: { c.desc << "xorshift2"; c.ready(); X x; x.a = 5; x.b = 14; x.c = 1; table("xorshift2", ks(x), 128, 3); break; }
    case 2: { c.desc << "xorshift5"; c.ready(); X x; x.pat = 7; x.a = 20; x.b = 11; x.c = 7; PBT_REQUIRE(full(x), "harness: xorshift5"); table("xorshift5", ks(x), 128, 3); break; }
    case 3: { c.desc << "mt1"; c.ready(); std::vector<int> k = {19937, 9968, 6240, 4984, 3738, 3115, 2493, 2492, 1869, 1869, 1248, 1246, 1246, 1246, 1246, 1246}; k.resize(32, 623); table("mt1", k, 19937, 5); break; } // as published for MT19937
    default: { c.desc << "xorshift128"; c.ready(); X x; x.pat = 7; x.a = 20; x.b = 11; x.c = 7; uint32_t ar[4] = {1, 0, 0, 0}; for (uint32_t i = 1; i < 8; i++) ar[i % 4] = 1812433253u * (ar[(i - 1) % 4] ^ (ar[(i - 1) % 4] >> 30)) + i; for (int i = 0; i < 4; i++) x.s[i] = ar[i]; std::string w; char b[16]; for (int i = 0; i < 40; i++) { snprintf(b, 16, "%8x ", x.next()); w += b; if (i % 4 == 3) w += "\n"; } PBT_REQUIRE(output("xorshift128") == lines(w), "xorshift128 does not print the first 40 outputs for seed 1"); } }
    c.nontrivial(); c.label(c.desc.str());
}
