// the dynamic creator programs with tempering (tinymt32dc, mt2, rmt64dc, MTGP32dc), run as black
// boxes: every printed line is checked against an independent model of the generator
#include "equi.hpp"
#include "dcmodels.hpp"
#include "sfmtmodel.hpp"
#include "progs.hpp"
using progs::lines; using progs::split; using gf2::Poly;
const char *pbt::property_id = "C23";
const char *pbt::property_rule = "A case is one or more runs of a dynamic creator program with generated options (start or seed, count, bound, id, exponent, output file). Every printed line is checked: irreducibility, weight, id and parameters, dimension defect by ranks, parity vector. Non-trivial: at least one parameter line was printed and checked.";
std::vector<std::string> pbt::assumptions = {"exponents 521 to 1279 for the creators of the Mersenne exponent family, 3217 for MTGP32dc", "a seed is always given"};
static std::string hx(uint64_t v) { char b[20]; snprintf(b, 20, "%llx", (unsigned long long)v); return b; }
typedef std::vector<std::string> Strs;
template <class M> Poly minpoly(M m, int deg, int bit = 0) { std::vector<uint8_t> z; for (int i = 0; i < 2 * deg + 2; i++) { m.raw(); z.push_back((uint8_t)((m.s.back() >> bit) & 1)); } return gf2::berlekamp_massey(z); }
// sum of the dimension defects of the output of m, by ranks
template <class M> int delta_of(M m, int dim) { typedef typename M::U U; equi::Orbit<U> o(dim, dim, [&]() { return m.raw(); }); int d = 0; for (int v = 1; v <= gens::W<U>::bits; v++) d += dim / v - o.k(v); return d; }
static long num(const std::string &s, int base) { char *e; errno = 0; if (s.empty() || !isxdigit((unsigned char)s[0])) throw pbt::Failure{"'" + s + "' is no number"}; unsigned long long v = strtoull(s.c_str(), &e, base); if (*e) throw pbt::Failure{"'" + s + "' is no number"}; return (long)v; }
static int columns(const std::string &header, const std::string &want) { PBT_REQUIRE(header == want, "the header is '" << header << "', not '" << want << "'"); return (int)split(want).size(); }
static void reject(pbt::Case &c, const Strs &a, const char *why) { c.label(std::string("refused: ") + why); c.nontrivial(); c.ready(); auto o = progs::run(a, 60); PBT_REQUIRE(o.code != 0, o.cmd << " (" << why << ") exits 0"); for (auto &l : lines(o.out)) PBT_REQUIRE(l.empty() || !(isdigit((unsigned char)l[0]) && l.find(',') != std::string::npos), o.cmd << " (" << why << ") prints " << l); }
// only the lines that carry parameters, found by their exact number of fields
static Strs plain(const std::string &out, const Strs &keep) { Strs r; for (auto &l : lines(out)) if (std::find(keep.begin(), keep.end(), l) != keep.end()) r.push_back(l); return r; }

// ---- tinymt32dc -----------------------------------------------------------
static Strs tiny(const Strs &opt, const std::string &id, bool header = true) {
    Strs a = {"tinymt32dc"}; a.insert(a.end(), opt.begin(), opt.end()); a.push_back(id); auto o = progs::run(a, 120); PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.err); Strs l = lines(o.out);
    if (!l.empty() && header) { columns(l[0], "# characteristic, id, mat1, mat2, tmat, weight, delta"); l.erase(l.begin()); } return l;
}
struct TinyLine { uint32_t m1, m2, tmat; int weight, delta; };
static TinyLine tiny_line(const std::string &l, uint32_t id, bool full = true) {
    Strs f = split(l); PBT_REQUIRE(f.size() == 7 && f[0].size() == 32, "the line " << l << " has not the fields of the header"); dcm::Tiny m; TinyLine r; PBT_REQUIRE((uint32_t)num(f[1], 10) == id, "the id of the line " << l << " is not " << id); m.m1 = r.m1 = (uint32_t)num(f[2], 16); m.m2 = r.m2 = (uint32_t)num(f[3], 16); m.tmat = r.tmat = (uint32_t)num(f[4], 16); r.weight = (int)num(f[5], 10); r.delta = (int)num(f[6], 10);
    m.s = {1, 2, 3, 4}; Poly p = minpoly(m, 127), q; q.w = {(uint64_t)num(f[0].substr(16), 16), (uint64_t)num(f[0].substr(0, 16), 16)}; q.norm(); PBT_REQUIRE(p.deg() == 127 && gf2::irreducible(p), "the recursion of the line " << l << " has not the period 2^127-1"); PBT_REQUIRE(p == q, "the characteristic polynomial in the line " << l << " is not that of its recursion, " << gf2::str(p)); PBT_REQUIRE(r.weight == p.weight(), "the weight in the line " << l << " is " << p.weight());
    if (full) { int d = delta_of(m, 127); PBT_REQUIRE(d == r.delta, "the defect in the line " << l << " is by ranks " << d); } return r;
}
static std::vector<std::pair<uint32_t, uint32_t>> tiny_expect(uint32_t start, uint32_t stop, uint32_t id) { // the good numbers from start down to stop
    std::vector<std::pair<uint32_t, uint32_t>> r; for (uint32_t n = start;; n--) { dcm::Tiny m; dcm::mats(n, id, &m.m1, &m.m2); m.s = {1, 2, 3, 4}; Poly p = minpoly(m, 127); if (p.deg() == 127 && gf2::irreducible(p)) r.push_back({m.m1, m.m2}); if (n == stop) return r; }
}
static std::string tiny_id(pbt::Case &c, uint32_t *id) { *id = c.coin() ? (uint32_t)c.range(0, 70000) : (uint32_t)c.word(); return std::to_string(*id); }
PBT_CHECK_LIM(tinymt_all, 160, 3000, 120) { // -a: exactly the numbers with period 2^127-1 are listed, counting down, with the defect under the bound
    uint32_t id, start = (uint32_t)c.range(0, c.thorough ? 1500 : 400); std::string ids = tiny_id(c, &id); int max = c.coin() ? 100000 : c.range_log(0, 40); bool dflt = c.chance(1, 4); if (dflt) max = 10; Strs o = {c.coin() ? "-a" : "--all", c.coin() ? "-s" : "--start", c.coin() ? std::to_string(start) : "0x" + hx(start)}; if (!dflt) { o.push_back(c.coin() ? "-m" : "--max"); o.push_back(std::to_string(max)); }
    c.desc << "tinymt32dc"; for (auto &s : o) c.desc << " " << s; c.desc << " " << ids; c.ready(); auto e = tiny_expect(start, 0, id); Strs l = tiny(o, ids); std::vector<TinyLine> t; for (auto &s : l) t.push_back(tiny_line(s, id)); size_t k = 0;
    for (auto &x : t) { PBT_REQUIRE(x.delta <= max, "a defect of " << x.delta << " is over the bound: " << c.desc.str()); while (k < e.size() && (e[k].first != x.m1 || e[k].second != x.m2)) k++; PBT_REQUIRE(k < e.size(), "mat1=" << hx(x.m1) << " mat2=" << hx(x.m2) << " is not one of the numbers, in their order: " << c.desc.str()); k++; }
    if (max == 100000) PBT_REQUIRE(t.size() == e.size(), t.size() << " lines, but " << e.size() << " numbers give the period 2^127-1: " << c.desc.str()); else { Strs a = tiny({"-a", "-m", "100000", "-s", std::to_string(start)}, ids), want; for (auto &s : a) if (num(split(s)[6], 10) <= max) want.push_back(s); PBT_REQUIRE(l == want, "the bound does not just select lines: " << c.desc.str()); c.label(want.size() < a.size() ? "the bound left lines out" : "all lines under the bound"); }
    if (!t.empty()) c.nontrivial(); c.label(t.empty() ? "no line" : t.size() == 1 ? "one line" : "several lines");
}
PBT_CHECK_LIM(tinymt_count, 120, 2000, 120) { // -c: so many lines; a smaller count or a lower start prints a part of it
    uint32_t id, start = c.coin() ? 0x7fffffff : 20000 + (uint32_t)c.below(0x7fffffff - 20000); if (c.coin()) start = 20000 + (uint32_t)c.below(100000); std::string ids = tiny_id(c, &id); int n = c.range_log(1, 6), max = c.coin() ? 10 : c.range(0, 3); bool v = c.chance(1, 3), file = c.chance(1, 4); Strs o = {c.coin() ? "-c" : "--count", std::to_string(n), "-m", std::to_string(max)}; if (start != 0x7fffffff || c.coin()) { o.push_back("-s"); o.push_back(std::to_string(start)); } if (max == 10 && c.coin()) { o.erase(o.begin() + 2, o.begin() + 4); } 
    c.desc << "tinymt32dc"; for (auto &s : o) c.desc << " " << s; c.desc << " " << ids << (v ? ", verbose" : "") << (file ? ", to a file" : ""); c.ready(); Strs l = tiny(o, ids); PBT_REQUIRE((int)l.size() == n, l.size() << " lines: " << c.desc.str()); std::vector<TinyLine> t; for (auto &s : l) { t.push_back(tiny_line(s, id, t.size() < 3)); PBT_REQUIRE(t.back().delta <= max, "a defect of " << t.back().delta << " is over the bound: " << c.desc.str()); } c.nontrivial();
    uint32_t at = start, last = at; for (auto &x : t) { uint32_t a, b, k = 0; for (;; at--, k++) { dcm::mats(at, id, &a, &b); if (a == x.m1 && b == x.m2) break; PBT_REQUIRE(k < 200000 && at, "mat1=" << hx(x.m1) << " mat2=" << hx(x.m2) << " is not of a number at or below " << at + k << ": " << c.desc.str()); } last = at; at--; }
    if (start - last < 3000) { auto e = tiny_expect(start, last, id); if (max >= 10 && e.size() != t.size()) { Strs a = tiny({"-m", "100000", "-c", std::to_string(e.size()), "-s", std::to_string(start)}, ids), w; for (auto &s : a) if (num(split(s)[6], 10) <= max) w.push_back(s); PBT_REQUIRE(w == l, "good numbers are left out: " << c.desc.str()); } c.label("complete"); }
    if (n > 1) { Strs o2 = {"-c", std::to_string(c.range(1, n - 1)), "-m", std::to_string(max), "-s", std::to_string(start)}; Strs s = tiny(o2, ids); PBT_REQUIRE(s.size() == (size_t)num(o2[1], 10) && std::equal(s.begin(), s.end(), l.begin()), "with -c " << o2[1] << " other lines are printed: " << c.desc.str()); size_t k = (size_t)c.range(1, n - 1); uint32_t a2 = start, a, b; for (;; a2--) { dcm::mats(a2, id, &a, &b); if (a == t[k - 1].m1 && b == t[k - 1].m2) break; } Strs u = tiny({"-c", std::to_string(n - (int)k), "-m", std::to_string(max), "-s", std::to_string(a2 - 1)}, ids); PBT_REQUIRE(u.size() == (size_t)n - k && std::equal(u.begin(), u.end(), l.begin() + (long)k), "the search from " << a2 - 1 << " does not go on with the same lines: " << c.desc.str()); c.label("prefix and rest"); }
    if (v) { Strs ov = o; ov.push_back("-v"); Strs s = tiny(ov, ids, false); std::string all; for (auto &x : s) all += x + "\n"; PBT_REQUIRE(plain(all, l) == l, "verbose output has not the same lines: " << c.desc.str()); c.label("verbose"); }
    if (file) { Strs of = {"tinymt32dc"}; of.insert(of.end(), o.begin(), o.end()); of.push_back(c.coin() ? "-f@F" : "--file=@F"); of.push_back(ids); auto r = progs::run(of, 120); Strs s = lines(r.file); if (!s.empty()) s.erase(s.begin()); PBT_REQUIRE(r.code == 0 && s == l && r.out.empty(), "the file has " << s.size() << " parameter lines, standard output " << r.out.size() << " bytes: " << c.desc.str()); c.label("output file"); }
}
PBT_CHECK(tinymt_published, 4, 12) { // the parameters published with TinyMT
    int n = c.range(1, 3); c.desc << "tinymt32dc -m 0 -c " << n << " 0"; c.ready(); c.nontrivial(); Strs l = tiny({"-m", "0", "-c", std::to_string(n)}, "0"), e = {"d8524022ed8dff4a8dcc50c798faba43,0,8f7011ee,fc78ff1f,3793fdff,63,0", "8ee476cb10b7c7e20dd10725924e9877,0,877810ef,fc38ff0f,c7fb7fff,63,0", "8331a00cb24d95a8e116e35435103213,0,837c106f,fc18ff07,eeb9bdff,51,0"}; e.resize((size_t)n);
    PBT_REQUIRE(l == e, "the first line is " << (l.empty() ? "" : l[0]));
}
PBT_CHECK(refusals, 240, 1500) {
    switch (c.below(14)) {
    case 9: case 10: case 11: { // no number, for each option and argument that takes one
        struct P { const char *prog; Strs opts; Strs args; }; static const P ps[] = {{"tinymt32dc", {"-s", "-m", "-c"}, {"1"}}, {"mt2", {"-s", "-m", "-c"}, {"521", "1"}}, {"rmt64dc", {"-s", "-c"}, {"521"}}, {"MTGP32dc", {"-c"}, {"3217", "1"}}};
        const P &p = ps[c.below(4)]; std::string bad = progs::no_number(c), pr = p.prog; Strs a = {pr}; size_t k = c.below(p.opts.size() + p.args.size()); Strs args = p.args; bool opt = k < p.opts.size(); if (pr != "tinymt32dc" && !(opt && p.opts[k] == "-s")) { a.push_back("-s"); a.push_back("1"); } if (!(opt && p.opts[k] == "-c")) { a.push_back("-c"); a.push_back(c.coin() ? "0" : "1"); }
        if (opt) { a.push_back(p.opts[k]); a.push_back(bad); } else { if (!bad.empty() && bad[0] == '-') bad = "1x"; if (k - p.opts.size() == 0 && args.size() + (pr[0] == 'r') == 2 && c.coin()) bad = args[0] + "x"; args[k - p.opts.size()] = bad; } for (auto &x : args) a.push_back(x); for (auto &x : a) c.desc << (x.empty() ? "''" : x) << " "; reject(c, a, "no number"); break; }
    case 12: { // ids of MTGP32dc that are negative or over 32 bits; exponents of which the low 32 bits are in the list
        bool ex = c.chance(1, 3); std::string m = "3217", id = "1", x; uint64_t h = (c.below(UINT64_C(1) << 20) + 1) << 32; if (ex) m = std::to_string(h + (uint64_t)c.pick(progs::exponents("MTGP32dc"))); else if (c.coin()) id = std::to_string(h + (uint64_t)c.range_log(0, 1 << 30)); else id = "-" + std::to_string(1 + c.below(c.coin() ? 5 : UINT64_C(1) << 33)); Strs a = {"MTGP32dc", "-s", "1", "-c", c.chance(1, 4) ? "1" : "0"}; if (id[0] == '-') a.push_back("--"); a.push_back(m); a.push_back(id); for (auto &y : a) c.desc << y << " "; reject(c, a, ex ? "exponent over 32 bits" : "id out of 32 bits"); break; }
    case 13: { // start numbers over 32 bits, bounds over the range of int
        int w = c.range(0, 2); std::string v = std::to_string((((c.below(1u << 20) + 1) << 32)) + (uint64_t)c.range_log(0, 1 << 30)); Strs a = w == 0 ? Strs{"tinymt32dc", "-c", "1", "-s", v, "1"} : w == 1 ? Strs{"tinymt32dc", "-c", "1", "-m", v, "1"} : Strs{"mt2", "-s", "1", "-c", "1", "-m", v, "521", "1"}; for (auto &y : a) c.desc << y << " "; reject(c, a, w ? "bound over 32 bits" : "start over 32 bits"); break; }
    case 8: { static const Strs p = {"tinymt32dc", "mt2", "rmt64dc", "MTGP32dc"}; std::string q = c.pick(p); Strs a = {q, "-c", "0"}; if (q[0] != 't') { a.push_back("-s"); a.push_back("1"); a.push_back(q[0] == 'M' ? "3217" : "521"); } if (q[0] != 'r') a.push_back("1"); progs::bad_option(c, a); for (auto &x : a) c.desc << x << " "; reject(c, a, "an option that does not exist or without its value"); break; }
    case 6: case 7: { // a number that no integer type holds, for each option and argument that takes a number
        struct P { const char *prog; Strs opts; Strs args; }; static const P ps[] = {{"tinymt32dc", {"-s", "-m", "-c"}, {"1"}}, {"mt2", {"-s", "-m", "-c"}, {"521", "1"}}, {"rmt64dc", {"-s", "-c"}, {"521"}}, {"MTGP32dc", {"-c"}, {"3217", "1"}}};
        const P &p = ps[c.below(4)]; std::string big = std::to_string(UINT64_C(10000000000000000000) + c.below(UINT64_C(8000000000000000000))) + std::to_string(c.below(1000)); Strs a = {p.prog}; size_t k = c.below(p.opts.size() + p.args.size()); Strs args = p.args; if (k < p.opts.size()) { if (p.opts[k] != "-s" && std::string(p.prog) != "tinymt32dc") { a.push_back("-s"); a.push_back("1"); } a.push_back(p.opts[k]); a.push_back(big); } else { if (std::string(p.prog) != "tinymt32dc") { a.push_back("-s"); a.push_back("1"); } args[k - p.opts.size()] = big; }
        for (auto &x : args) a.push_back(x); for (auto &x : a) c.desc << x << " "; reject(c, a, "a number out of range"); break; }
    case 0: { std::string id = std::to_string((UINT64_C(1) << 32) + c.below(UINT64_C(1) << 40)); c.desc << "tinymt32dc " << id; reject(c, {"tinymt32dc", id}, "id over 32 bits"); break; }
    case 1: { std::string s = std::to_string(UINT64_C(0x80000000) + c.below(0x7fffffff)); c.desc << "tinymt32dc -s " << s << " 1"; reject(c, {"tinymt32dc", "-s", s, "1"}, "start over the largest number"); break; }
    case 2: { static const Strs p = {"tinymt32dc", "mt2", "rmt64dc", "MTGP32dc"}; std::string q = c.pick(p); c.desc << q << " without arguments"; reject(c, {q}, "no arguments"); break; }
    case 3: { static const Strs p = {"mt2", "rmt64dc", "MTGP32dc"}; std::string q = c.pick(p), m = std::to_string(progs::unsupported(c, q)); Strs a = {q, "-s", "1", m, "1"}; if (c.chance(3, 4)) { a.insert(a.begin() + 1, "-c"); a.insert(a.begin() + 2, "0"); } for (auto &x : a) c.desc << x << " "; reject(c, a, "no exponent of the list"); break; }
    case 4: { std::string id = std::to_string(65536 + c.below(1u << 30)); c.desc << "mt2 -s 1 521 " << id; reject(c, {"mt2", "-s", "1", "521", id}, "id over 16 bits"); break; }
    default: { static const Strs p = {"tinymt32dc", "rmt64dc", "MTGP32dc"}; std::string q = c.pick(p); c.desc << q << " -f no/such/directory/x"; reject(c, q[0] == 't' ? Strs{q, "-f", "no/such/directory/x", "1"} : q[0] == 'r' ? Strs{q, "-s", "1", "-f", "no/such/directory/x", "521"} : Strs{q, "-s", "1", "-f", "no/such/directory/x", "3217", "1"}, "the output file cannot be opened"); } }
}
PBT_CHECK(exponents, 60, 200) { // every exponent of the list is accepted; asking for no parameters prints none
    static const Strs p = {"mt2", "rmt64dc", "MTGP32dc"}; std::string q = c.pick(p), m = std::to_string(c.pick(progs::exponents(q))); Strs a = {q, "-s", std::to_string(c.range(0, 99999)), "-c", "0", m, std::to_string(c.range(0, 65535))}; if (q[0] == 'r') a.pop_back(); for (auto &x : a) c.desc << x << " "; c.ready(); c.nontrivial(); c.label("no parameters asked for: " + q);
    auto o = progs::run(a, 60); PBT_REQUIRE(o.code == 0, o.cmd << " is refused: " << o.err.substr(0, 300)); for (auto &l : lines(o.out)) PBT_REQUIRE(l.empty() || !(isdigit((unsigned char)l[0]) && l.find(',') != std::string::npos), o.cmd << " prints " << l);
}
// ---- mt2 --------------------------------------------------------------------
struct Run { Strs l; std::string out; };
static Run creator(pbt::Case &, const Strs &a, int cpu, const std::string &header) {
    auto o = progs::run(a, cpu); PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out.substr(0, 500) << o.err.substr(0, 500)); Run r; r.out = o.out; r.l = lines(o.out); PBT_REQUIRE(!r.l.empty(), o.cmd << " prints nothing"); int n = columns(r.l[0], header); r.l.erase(r.l.begin()); for (auto &l : r.l) PBT_REQUIRE((int)split(l).size() == n, "the line " << l << " has not the fields of the header " << header); return r;
}
static int mt2_line(const std::string &l, int mexp, int id) {
    Strs f = split(l); dcm::Mt32 m; m.mexp = (int)num(f[0], 10); int n = m.mexp / 32 + 1; m.s.resize((size_t)n); m.pos = (int)num(f[2], 10); m.mata = (uint32_t)num(f[3], 16); m.mb = (uint32_t)num(f[4], 16); m.mc = (uint32_t)num(f[5], 16); int d = (int)num(f[6], 10);
    PBT_REQUIRE(m.mexp == mexp && num(f[1], 10) == id && (m.mata & 0xffff) == (uint32_t)id && m.pos >= 1 && m.pos < n, "the line " << l << " is not of exponent " << mexp << " and id " << id); m.seed(1); dcm::Mt32 t = m; Poly p = minpoly(t, mexp); PBT_REQUIRE(p.deg() == mexp && gf2::irreducible(p), "the recursion of the line " << l << " has not the period 2^" << mexp << "-1"); int e = delta_of(m, mexp); PBT_REQUIRE(e == d, "the defect in the line " << l << " is by ranks " << e); return d;
}
// the search for 607 takes a minute for some seeds, seconds for most
PBT_CHECK_LIM(mt2, 60, 600, 240) {
    int mexp = c.thorough && c.chance(1, 40) ? 1279 : c.chance(1, 30) ? 607 : 521, id = c.coin() ? c.range(0, 65535) : c.pick(std::vector<int>{0, 1, 0x7fff, 0x8000, 0xffff}), n = mexp > 521 ? 1 : c.range_log(1, 4); std::string seed = std::to_string((uint32_t)c.word()); Strs a = {"mt2", c.coin() ? "-s" : "--seed", seed, c.coin() ? "-c" : "--count", std::to_string(n), std::to_string(mexp), std::to_string(id)}; if (c.chance(1, 3)) { a[2] = "0x" + hx(strtoull(seed.c_str(), nullptr, 10)); c.label("seed in hexadecimal"); } for (auto &s : a) c.desc << s << " "; c.ready(); std::string H = "mexp, id, pos, mata, maskb, maskc, delta";
    Run r = creator(c, a, mexp > 521 ? 1500 : 200, H); PBT_REQUIRE((int)r.l.size() == n, r.l.size() << " lines"); std::vector<int> d; for (auto &l : r.l) d.push_back(mt2_line(l, mexp, id)); c.nontrivial(); c.label("mexp " + std::to_string(mexp));
    if (mexp == 521) switch (n > 1 ? c.below(4) : 1 + c.below(2)) {
    case 0: { int k = c.range(1, n - 1); a[4] = std::to_string(k); Run s = creator(c, a, 200, H); PBT_REQUIRE((int)s.l.size() == k && std::equal(s.l.begin(), s.l.end(), r.l.begin()), "with -c " << k << " other lines are printed"); c.label("prefix"); break; }
    case 1: case 3: { int b = c.pick(d) + (c.chance(2, 3) ? 0 : c.range(0, 5)), k = 0; Strs want; for (size_t i = 0; i < d.size(); i++) if (d[i] <= b) { want.push_back(r.l[i]); k++; } Strs q = {"mt2", "-s", seed, "-c", std::to_string(k), c.coin() ? "-m" : "--max", std::to_string(b), std::to_string(mexp), std::to_string(id)}; Run s = creator(c, q, 200, H); PBT_REQUIRE(s.l == want, "with -m " << b << " the lines are not those of defect at most " << b); c.label("bound"); break; }
    default: { Strs q = {"mt2", "-v", "-s", seed, "-c", std::to_string(n), std::to_string(mexp), std::to_string(id)}; auto o = progs::run(q, 200); PBT_REQUIRE(o.code == 0 && plain(o.out, r.l) == r.l, "verbose output has not the same lines"); c.label("verbose"); } }
}
// ---- rmt64dc ------------------------------------------------------------------
struct RmtV : dcm::Rmt { // with the linear algebra of the state
    gf2::BV vec() const { return s; } void from(const gf2::BV &v) { s = v; } void step() { raw(); }
    gf2::BV rnd(uint64_t &st) const { gf2::BV v = s; for (auto &x : v) x = pbt::splitmix(st); return v; }
};
static Poly minpoly_T(const RmtV &m0, uint64_t st) {
    Poly l(1); int n = m0.bits(); for (int ok = 0; ok < 30 && l.deg() < n;) { gf2::BV y = sm::apply(m0, l, m0.rnd(st)); if (gf2::zero(y)) { ok++; continue; } ok = 0; RmtV m = m0; m.from(y); gf2::BV h = m0.rnd(st); std::vector<uint8_t> q; for (int i = 0; i < 2 * (n - l.deg()); i++) { q.push_back(gf2::dot(h, m.vec())); m.step(); } Poly g = gf2::berlekamp_massey(q); if (g.deg() > 0) l = gf2::mul(l, g); } return l;
}
static void rmt_line(pbt::Case &c, const std::string &l, int mexp) {
    Strs f = split(l); RmtV m; m.mexp = (int)num(f[0], 10); int n = m.mexp / 64 + 1; m.s.resize((size_t)n); m.pos = (int)num(f[1], 10); m.mata = (uint64_t)num(f[2], 16); m.parity = (uint64_t)num(f[3], 16); m.mb = (uint64_t)num(f[4], 16); m.mc = (uint64_t)num(f[5], 16); int d = (int)num(f[6], 10); PBT_REQUIRE(m.mexp == mexp && m.pos >= 0 && m.pos < n, "the line " << l << " is not of exponent " << mexp); m.seed(1);
    uint64_t st = 12345; Poly chi = minpoly_T(m, st), fac; PBT_REQUIRE(sm::big_factor(chi, mexp, mexp, &fac), "the recursion of the line " << l << " has no period 2^" << mexp << "-1: its characteristic polynomial has no irreducible factor of that degree"); Poly q = gf2::quo(chi, fac); gf2::BV y; for (;;) { y = sm::apply(m, q, m.rnd(st)); if (!gf2::zero(y)) break; }
    RmtV g = m; g.from(y); int e = delta_of(g, mexp); PBT_REQUIRE(e == d, "the defect in the line " << l << " is by ranks " << e);
    gf2::Echelon ec(64); for (int b = 0; b < 64 * n && ec.rank() < 64; b++) { gf2::BV u((size_t)n, 0); gf2::setbit(u, (size_t)b); gf2::BV z = sm::apply(m, fac, u); ec.insert(gf2::BV{z.back()}); } if (ec.rank() >= 64) { c.label("no parity vector exists"); return; } PBT_REQUIRE(m.parity, "the parity vector in the line " << l << " is zero"); for (auto &r : ec.rows) PBT_REQUIRE(!(__builtin_popcountll(r[0] & m.parity) & 1), "the parity vector in the line " << l << " accepts a state without long-period part, parity word " << hx(r[0])); c.label("parity");
}
PBT_CHECK_LIM(rmt64dc, 14, 200, 300) {
    int mexp = c.thorough && c.chance(1, 20) ? 1279 : c.chance(2, 3) ? 521 : 607, n = c.chance(1, 4) ? 2 : 1; std::string seed = c.coin() ? std::to_string(c.word()) : std::to_string(c.range(0, 9999)); Strs a = {"rmt64dc", c.coin() ? "-s" : "--seed", seed, c.coin() ? "-c" : "--count", std::to_string(n), std::to_string(mexp)}; if (c.chance(1, 3)) { a[2] = "0x" + hx(strtoull(seed.c_str(), nullptr, 10)); c.label("seed in hexadecimal"); } for (auto &s : a) c.desc << s << " "; c.ready(); std::string H = "# mexp, pos, mata, parity, maskb, maskc, delta";
    Run r = creator(c, a, mexp > 1000 ? 900 : 160, H); PBT_REQUIRE((int)r.l.size() == n, r.l.size() << " lines"); for (auto &l : r.l) rmt_line(c, l, mexp); c.nontrivial(); c.label("mexp " + std::to_string(mexp));
    if (mexp < 1000 && c.chance(1, 2)) { Strs q = {"rmt64dc", "-s", seed}; bool file = c.coin(); if (!file) q.push_back("-v"); else q.push_back("-f@F"); q.push_back(std::to_string(mexp)); auto o = progs::run(q, 160); Strs one = {r.l[0]}; PBT_REQUIRE(o.code == 0 && plain(file ? o.file : o.out, one) == one, "the same search, " << (file ? "into a file" : "verbose") << ", has not the line " << one[0]); if (file) PBT_REQUIRE(o.out.empty(), "output goes both to the file and to standard output"); c.label(file ? "output file" : "verbose"); }
}
// ---- MTGP32dc -----------------------------------------------------------------
PBT_CHECK_LIM(mtgp32dc, 2, 24, 600) {
    int mexp = 3217, n = c.thorough && c.chance(1, 3) ? 2 : 1; uint32_t id = c.coin() ? (uint32_t)c.range(0, 3000) : (uint32_t)c.word(); if (id > 0xfffffff0u) id = 7; static const Strs sd = {"1", "abc", "a seed", "x9", "mtgp", "zz top"}; std::string seed = c.pick(sd); Strs a = {"MTGP32dc", c.coin() ? "-s" : "--seed", seed, "-c", std::to_string(n), std::to_string(mexp), std::to_string(id)}; bool file = c.chance(1, 3); if (file) a.insert(a.begin() + 1, c.coin() ? "-f@F" : "--output-file=@F"); for (auto &s : a) c.desc << s << " "; c.ready();
    auto o = progs::run(a, 300); PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << o.out); if (file) { PBT_REQUIRE(o.out.empty(), "output goes both to the file and to standard output"); c.label("output file"); } Strs l = lines(file ? o.file : o.out); PBT_REQUIRE((int)l.size() == n + 1, "one header and " << n << " lines are due: " << (file ? o.file : o.out)); columns(l[0], "#sha1, mexp, type, id, pos, sh1, sh2, tbl_0, tbl_1, tbl_2, tbl_3,tmp_0, tmp_1, tmp_2, tmp_3, mask"); c.nontrivial();
    for (int k = 0; k < n; k++) { Strs f = split(l[(size_t)k + 1]); PBT_REQUIRE(f.size() == 18 && f[2] == "uint32_t", "the line " << l[(size_t)k + 1] << " has " << f.size() << " fields"); dcm::Mtgp m; m.mexp = mexp; m.s.resize((size_t)(mexp / 32 + 1)); m.pos = (int)num(f[4], 10); for (int j = 0; j < 4; j++) { m.tbl[j] = (uint32_t)num(f[(size_t)(7 + j)], 16); m.tmp[j] = m.eff[j] = (uint32_t)num(f[(size_t)(11 + j)], 16); }
        const std::string &L = l[(size_t)k + 1]; PBT_REQUIRE(num(f[1], 10) == mexp && (uint32_t)num(f[3], 10) == id + (uint32_t)k && num(f[5], 10) == 13 && num(f[6], 10) == 4 && (uint32_t)num(f[15], 16) == m.mask() && m.pos > 0 && m.pos < (int)m.s.size(), "the line " << L << " is not of exponent " << mexp << " and id " << id + (uint32_t)k);
        m.seed(1); Poly p = minpoly(m, mexp); PBT_REQUIRE(p.deg() == mexp && gf2::irreducible(p), "the recursion of the line " << L << " has not the period 2^" << mexp << "-1"); PBT_REQUIRE(num(f[f.size() - 2], 10) == p.weight(), "the weight in the line " << L << " is " << p.weight()); int e = delta_of(m, mexp); PBT_REQUIRE(num(f[f.size() - 1], 10) == e, "the defect in the line " << L << " is by ranks " << e); }
}
