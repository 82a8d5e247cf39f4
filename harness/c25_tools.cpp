// the tools that describe a given parameter set (calc_equidist, test_period, test_linearity,
// calc_fixpoint, calc_parity, make_old_format, calc_period), run as black boxes on small recursions
#include "simdlines.hpp"
#include "dcmodels.hpp"
#include "progs.hpp"
using progs::lines; using progs::split; using namespace simd;
const char *pbt::property_id = "C25";
const char *pbt::property_rule = "A case is one parameter line of a small SFMT, dSFMT or RMT recursion given to one of the tools with generated options and seed; every number printed is recomputed. Non-trivial: the recursion has a factor of degree mexp which the tool can see, or the line must be refused because there is none.";
std::vector<std::string> pbt::assumptions = {"2 or 3 words of state, exactly one irreducible factor of degree mexp (or none, for refusals)", "bit 0 of the output (of the lung for dSFMT) shows the whole recursion, as for the tools' own projection"};
typedef std::vector<std::string> Strs;
static void rnd_param(pbt::Case &c, Sfmt &m, int n) { m.s.resize((size_t)n); m.pos1 = n > 2 ? c.range(0, n - 2) : c.range(0, 1); m.sl1 = c.range(1, 31); m.sl2 = c.range(1, 7); m.sr1 = c.range(1, 31); m.sr2 = c.range(1, 7); for (int i = 0; i < 4; i++) { m.msk.set(i, (uint32_t)(c.u64() | c.u64())); m.parity.set(i, (uint32_t)c.u64()); } }
static void rnd_param(pbt::Case &c, Dsfmt &m, int n) { m.s.resize((size_t)n); m.pos1 = n > 2 ? c.range(0, n - 2) : c.range(0, 1); m.sl1 = 2 * c.range(0, 25) + 1; for (int i = 0; i < 2; i++) { m.msk[i] = (c.u64() | c.u64()) & M52; m.fix[i] = c.u64(); m.parity[i] = c.u64(); } }
static int lowdeg(const Sfmt &, int n) { return std::max(128 * (n - 1), 64 * n + 1); }
static int lowdeg(const Dsfmt &, int n) { return 128 + 104 * (n - 1); }
static int highdeg(const Sfmt &, int n) { return 128 * n - 1; }
static int highdeg(const Dsfmt &, int n) { return 128 + 104 * n - 1; }
template <class M> struct Line { M m; Poly chi, f, q; M start; bool none = false; std::string text; };
// a parameter line, or (none) one whose recursion has no factor of the degree it claims
template <class M> static bool line(pbt::Case &c, Line<M> &L, bool want_none) {
    int n = c.range(2, 3); rnd_param(c, L.m, n); uint64_t st = c.u64(); L.chi = sm::minpoly_T(L.m, st); int lo = lowdeg(L.m, n), hi = std::min(highdeg(L.m, n), L.m.bits());
    bool big = sm::big_factor(L.chi, lo, hi, &L.f);
    if (want_none) { int d = c.range(lo, hi); for (auto &e : gf2::ddf(L.chi)) if (e.first == d) { c.label("it has a factor of that degree"); return false; } L.m.mexp = d; L.none = true; }
    else {
        if (!big) { c.label("no factor of a suitable degree"); return false; } L.m.mexp = L.f.deg(); if (M::words(L.m.mexp) != n) { c.label("no factor of a suitable degree"); return false; } L.q = gf2::quo(L.chi, L.f); if (gf2::gcd(L.q, L.f).deg() > 0) { c.label("repeated factor"); return false; }
        L.start = L.m; BV y; for (;;) { y = sm::apply(L.m, L.q, sm::rnd_state(L.m, st)); if (!gf2::zero(y)) break; } L.start.from(y); L.start.prev = W(); M t = L.start; bool see = false; for (int i = 0; i < L.m.bits() && !see; i++) { t.step(); see = t.s.back().l & 1; } if (!see || !visible(L.m, L.chi, st)) { c.label("the observed bit does not show the whole recursion"); return false; }
    }
    if (n == 3 && L.m.pos1 == 0) c.label("pos1 = 0"); L.text = simd::text(L.m); c.label(std::to_string(n) + " words"); return true;
}
static std::string dress(pbt::Case &c, std::string t, int more) { switch (c.below(3)) { case 0: t.pop_back(); break; case 1: for (int i = 0; i < more; i++) t += (i ? "," : "") + std::to_string(c.range(0, 999)); } return t; } // with what the creators print after it, or without the last comma
static Strs seed_opt(pbt::Case &c) { if (c.chance(1, 4)) return {}; std::string s = c.coin() ? std::to_string(c.word()) : std::to_string(c.range(0, 20)); return c.coin() ? Strs{"-s", s} : Strs{"--seed=" + s}; }
static progs::Out tool(pbt::Case &c, Strs a, const std::string &t) { a.push_back(t); c.desc.str(""); for (auto &s : a) c.desc << s << " "; c.ready(); return progs::run(a, 200); }
static std::string kd(const Strs &l, size_t at, const std::vector<int> &k, int mexp) { for (size_t v = 1; v <= k.size(); v++) { std::ostringstream w; w << "k(" << v << ") = " << k[v - 1] << "\td(" << v << ") = " << mexp / (int)v - k[v - 1]; if (at + v - 1 >= l.size() || l[at + v - 1] != w.str()) return "instead of '" + w.str() + "' there is '" + (at + v - 1 < l.size() ? l[at + v - 1] : "") + "'"; } return ""; }
static void refused(pbt::Case &c, const progs::Out &o, int mexp) { c.nontrivial(); c.label("no factor of the degree: refused"); PBT_REQUIRE(o.code != 0, o.cmd << " exits 0 although the recursion has no factor of degree " << mexp << ": " << o.out.substr(0, 300)); }
PBT_CHECK_LIM(sfmt_equidist, 1600, 30000, 200) {
    Line<Sfmt> L; if (!line(c, L, c.chance(1, 8))) return; bool v = c.coin(), r = c.coin(); Strs a = {"sfmt_equidist"}, s = seed_opt(c); if (v) a.push_back(c.coin() ? "-v" : "--verbose"); if (r) a.push_back(c.coin() ? "-r" : "--reverse"); a.insert(a.end(), s.begin(), s.end()); auto o = tool(c, a, dress(c, L.text, 3)); int d = L.m.mexp; if (L.none) { refused(c, o, d); return; }
    PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); Strs l = lines(o.out); size_t at = 0; if (r) { PBT_REQUIRE(!l.empty() && l[0] == "Equidistribution from LSB", "with -r the first line is " << (l.empty() ? "missing" : l[0])); at = 1; } c.nontrivial();
    auto k32 = words_k(L.start, 32, d, r), k64 = words_k(L.start, 64, d, r), k128 = block_k(L.start, d, r); std::ostringstream w; w << L.text << defect(k32, d) << "," << defect(k64, d) << "," << defect(k128, d); PBT_REQUIRE(at < l.size() && l[at] == w.str(), "the line is '" << (at < l.size() ? l[at] : "") << "', by ranks it is '" << w.str() << "'"); at++;
    if (v) { const std::vector<int> *k[3] = {&k32, &k64, &k128}; for (int i = 0; i < 3; i++) { std::string h = std::to_string(32 << i) + "bit dimension of equidistribution at v-bit accuracy k(v)" + (r ? " from LSB" : ""); PBT_REQUIRE(at < l.size() && l[at] == h, "the table is headed by '" << (at < l.size() ? l[at] : "") << "'"); std::string e = kd(l, at + 1, *k[i], d); PBT_REQUIRE(e.empty(), "in the table of " << (32 << i) << "-bit words " << e); at += 1 + k[i]->size(); } }
    PBT_REQUIRE(at == l.size(), "there is more output: " << l[at]); c.label(r ? "from LSB" : "from MSB"); c.label(v ? "verbose" : "not verbose");
}
PBT_CHECK_LIM(dsfmt_equidist, 2000, 40000, 200) {
    Line<Dsfmt> L; if (!line(c, L, c.chance(1, 8))) return; bool v = c.coin(); Strs a = {"dsfmt_equidist"}, s = seed_opt(c); if (v) a.push_back(c.coin() ? "-v" : "--verbose"); a.insert(a.end(), s.begin(), s.end()); auto o = tool(c, a, dress(c, L.text, 1)); int d = L.m.mexp; if (L.none) { refused(c, o, d); return; }
    PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); Strs l = lines(o.out); c.nontrivial(); auto k = words_k(L.start, 52, d, false); std::string w = L.text + std::to_string(defect(k, d)); PBT_REQUIRE(!l.empty() && l[0] == w, "the line is '" << (l.empty() ? "" : l[0]) << "', by ranks it is '" << w << "'");
    if (v) { PBT_REQUIRE(l.size() == 54 && l[1] == "52bit dimension of equidistribution at v-bit accuracy k(v)", "the verbose output has " << l.size() << " lines"); std::string e = kd(l, 2, k, d); PBT_REQUIRE(e.empty(), "in the table " << e); } else PBT_REQUIRE(l.size() == 1, "there is more output: " << l[1]); c.label(v ? "verbose" : "not verbose");
}
// every bit of the outputs is seen to move
static bool all_bits(const Sfmt &s) { Sfmt m = s; W o; for (int i = 0; i < 400; i++) { W b = m.raw(); o.l |= b.l; o.h |= b.h; } return !~o.l && !~o.h; }
static bool all_bits(const Dsfmt &s) { Dsfmt m = s; W o; for (int i = 0; i < 400; i++) { W b = m.raw(); o.l |= b.l; o.h |= b.h; } return (o.l & M52) == M52 && (o.h & M52) == M52; }
template <class M> static void period(pbt::Case &c, const char *prog, int starts, int weights) {
    Line<M> L; if (!line(c, L, c.chance(1, 8))) return; if (!L.none && !all_bits(L.start)) { c.label("a bit is constant"); return; } auto o = tool(c, {prog}, dress(c, L.text, 0)); int d = L.m.mexp; if (L.none) { refused(c, o, d); return; } PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); Strs l = lines(o.out); c.nontrivial(); bool sf = starts == 4;
    PBT_REQUIRE((int)l.size() == 2 + sf + starts * weights && l[0] == L.text, "there are " << l.size() << " lines, the first is " << (l.empty() ? "" : l[0])); int mn, mx; PBT_REQUIRE(sscanf(l[1].c_str(), "berore anni min = %d max = %d", &mn, &mx) == 2 && mn >= d && mx >= mn && mx <= L.chi.deg(), "the line " << l[1] << " contradicts the recursion: " << d << " to " << L.chi.deg());
    size_t at = (size_t)(2 + sf); for (int i = 0; i < starts; i++) for (int j = weights; j >= 1; j--) { std::ostringstream w; w << "start_mode = " << i << " weight_mode = " << j << " min = " << d << " max = " << d; PBT_REQUIRE(l[at] == w.str(), "the line is '" << l[at] << "', it should be '" << w.str() << "'"); at++; }
}
PBT_CHECK_LIM(sfmt_period, 1000, 16000, 200) { period<Sfmt>(c, "sfmt_period", 4, 4); }
PBT_CHECK_LIM(dsfmt_period, 800, 12000, 200) { period<Dsfmt>(c, "dsfmt_period", 2, 2); }
PBT_CHECK_LIM(linearity, 100, 1500, 200) { // any parameters, of any size: the recursions are linear
    bool sf = c.coin(); int n = c.range(2, 5); std::string t; if (sf) { Sfmt m; rnd_param(c, m, n); m.mexp = 128 * (n - 1) + c.range(0, 127); t = simd::text(m); } else { Dsfmt m; rnd_param(c, m, n); m.mexp = 128 + 104 * (n - 1) + c.range(0, 103); t = simd::text(m); }
    auto o = tool(c, {sf ? "sfmt_linearity" : "dsfmt_linearity"}, dress(c, t, 0)); Strs l = lines(o.out); c.nontrivial(); c.label(sf ? "SFMT" : "dSFMT"); PBT_REQUIRE(o.code == 0 && l.size() == 3 && l[0] == t && l[2] == "Linearity Test OK" && l[1].find_first_not_of('.') == std::string::npos, "a linear recursion fails: " << o.out);
}
static void same_text(const Dsfmt &m, const std::string &l, int groups, const std::string &tool) { std::string t = simd::text(m, groups); PBT_REQUIRE(l.compare(0, t.size(), t) == 0, tool << " prints the parameters " << l << ", not " << t); }
PBT_CHECK_LIM(fixpoint, 2000, 40000, 200) {
    Line<Dsfmt> L; if (!line(c, L, c.chance(1, 10))) return; bool chk = c.coin(); Strs a = {"dsfmt_fixpoint"}; if (chk) a.push_back("-c"); auto o = tool(c, a, c.coin() ? dress(c, simd::text(L.m, 1), 0) : L.text); Strs l = lines(o.out); int d = L.m.mexp;
    if (L.none) { bool said = false; for (auto &x : l) { PBT_REQUIRE(split(x).size() < 5, "a fix point is printed although the recursion has no factor of degree " << d << ": " << x); said |= x.find("error") != std::string::npos; } PBT_REQUIRE(said, o.cmd << " does not report the missing factor: " << o.out); c.nontrivial(); c.label("no factor of the degree: reported"); return; }
    PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); c.nontrivial(); size_t at = chk ? 3 : 0; PBT_REQUIRE(l.size() == (chk ? 6u : 1u), "the output is " << o.out); BV z = simd::fixpoint(L.m, Component<Dsfmt>(L.m)); Dsfmt m = L.m; m.fix[0] = z[z.size() - 2]; m.fix[1] = z[z.size() - 1]; same_text(m, l[at], 2, "calc_fixpoint");
    if (chk) { char b[64]; std::ostringstream h; h << "mexp = " << d << ", maxdegree = " << m.bits(); PBT_REQUIRE(l[0] == h.str(), "the line " << l[0] << " should be " << h.str()); PBT_REQUIRE(l[1] == "deg lcm poly = " + std::to_string(L.chi.deg()) && l[2] == "deg small poly = " + std::to_string(L.q.deg()), "the degrees are " << L.chi.deg() << " and " << L.q.deg() << ": " << o.out); for (int i = 0; i < 2; i++) { snprintf(b, 64, "fix%d = %016llx", i + 1, (unsigned long long)m.fix[i]); PBT_REQUIRE(l[(size_t)(4 + i)] == b, "the line " << l[(size_t)(4 + i)] << " should be " << b); } c.label("with check"); }
}
PBT_CHECK_LIM(parity, 2000, 40000, 200) {
    Line<Dsfmt> L; if (!line(c, L, c.chance(1, 10))) return; int d = L.m.mexp; std::vector<BV> ex; if (!L.none) { if (!L.chi.get(0)) c.label("singular transition"); ex = excluded(L.m, L.f); if (ex.size() >= 128) { c.label("no parity vector exists"); return; } } bool chk = c.coin(); Strs a = {"dsfmt_parity"}; if (chk) a.push_back("-c");
    auto o = tool(c, a, c.coin() ? dress(c, simd::text(L.m, 2), 0) : L.text); if (L.none) { refused(c, o, d); return; } PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); Strs l = lines(o.out); size_t at = chk ? 1 : 0; PBT_REQUIRE(l.size() > at, "the output is " << o.out); c.nontrivial(); same_text(L.m, l[at], 2, "calc_parity"); Dsfmt p; std::string rest; PBT_REQUIRE(parse(l[at], p, &rest) && rest.empty(), "the line is " << l[at]);
    PBT_REQUIRE(p.parity[0] | p.parity[1], "the parity vector is zero"); for (auto &r : ex) PBT_REQUIRE(!gf2::dot(r, BV{p.parity[0], p.parity[1]}), "the parity vector in " << l[at] << " accepts a state without long-period part"); if (chk) { PBT_REQUIRE(l.size() == 3 && l[2] == "test successed 100 / 100", "the tool's own test does not accept its parity vector: " << o.out); c.label("with test"); }
}
static bool read_poly(const Strs &l, size_t &at, Poly *p) { std::string b; while (at < l.size() && l[at].compare(0, 4, "deg=")) { std::string x = l[at++]; size_t e = x.find("deg="); b += x.substr(0, e); if (e != std::string::npos) { *p = Poly(); for (size_t i = 0; i < b.size(); i++) { if (b[i] != '0' && b[i] != '1') return false; if (b[i] == '1') { Poly one(1), t; t.w.assign(i / 64 + 1, 0); t.w[i / 64] |= UINT64_C(1) << (i % 64); t.norm(); *p = gf2::add(*p, t); } } return p->deg() == (int)strtol(x.c_str() + e + 4, nullptr, 10); } } if (at < l.size()) { *p = Poly(); for (size_t i = 0; i < b.size(); i++) if (b[i] == '1') { Poly t; t.w.assign(i / 64 + 1, 0); t.w[i / 64] |= UINT64_C(1) << (i % 64); t.norm(); *p = gf2::add(*p, t); } return p->deg() == (int)strtol(l[at++].c_str() + 4, nullptr, 10); } return false; }
PBT_CHECK_LIM(old_format, 1500, 20000, 200) {
    Line<Dsfmt> L; if (!line(c, L, false)) return; auto o = tool(c, {"dsfmt_old"}, dress(c, L.text, 1)); PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); Strs l = lines(o.out); c.nontrivial(); const Dsfmt &m = L.m; std::ostringstream w; char b[64]; w << "succ = 1\nmexp = " << m.mexp << ", maxdegree = " << m.bits() << "\npos1 = " << m.pos1 << "\nsl1 = " << m.sl1 << "\n"; const char *nm[] = {"msk", "fix", "pcv"}; const uint64_t *g[] = {m.msk, m.fix, m.parity}; for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) { snprintf(b, 64, "%s%d = %016llx\n", nm[k], i + 1, (unsigned long long)g[k][i]); w << b; }
    PBT_REQUIRE(o.out.compare(0, w.str().size(), w.str()) == 0, "the parameters are printed as\n" << o.out.substr(0, w.str().size()) << "instead of\n" << w.str()); size_t at = 10; Poly p; PBT_REQUIRE(read_poly(l, at, &p) && p == L.f, "the first polynomial is not the irreducible factor of degree " << m.mexp << ": " << o.out); PBT_REQUIRE(read_poly(l, at, &p) && p == L.chi, "the second polynomial is not the minimal polynomial of the recursion, of degree " << L.chi.deg() << ": " << o.out);
}
// ---- RMT
struct RmtV : dcm::Rmt { BV vec() const { return s; } void from(const BV &v) { s = v; } void step() { raw(); } BV rnd(uint64_t &st) const { BV v = s; for (auto &x : v) x = pbt::splitmix(st); return v; } };
static Poly rmt_minpoly(const RmtV &m0, uint64_t st) { Poly l(1); int n = m0.bits(); for (int ok = 0; ok < 30 && l.deg() < n;) { BV y = sm::apply(m0, l, m0.rnd(st)); if (gf2::zero(y)) { ok++; continue; } ok = 0; RmtV m = m0; m.from(y); BV h = m0.rnd(st); std::vector<uint8_t> q; for (int i = 0; i < 2 * (n - l.deg()); i++) { q.push_back(gf2::dot(h, m.vec())); m.step(); } Poly g = gf2::berlekamp_massey(q); if (g.deg() > 0) l = gf2::mul(l, g); } return l; }
static std::string rmt_text(const RmtV &m) { std::ostringstream o; char b[20]; o << m.mexp << "," << m.pos; const uint64_t g[] = {m.mata, m.parity, m.mb, m.mc}; for (uint64_t x : g) { snprintf(b, 20, ",%016llx", (unsigned long long)x); o << b; } return o.str(); }
static void rmt(pbt::Case &c, bool eq) {
    RmtV m; int n = c.range(2, 6); m.s.resize((size_t)n); m.pos = c.range(1, n - 1); m.mata = c.word(); m.mb = c.word(); m.mc = c.word(); m.parity = c.word(); bool low = (m.mc << 27) || (m.mb << 47); uint64_t st = c.u64(); Poly chi = rmt_minpoly(m, st), f; int lo = std::max(64 * (n - 1), 32 * n + 1), hi = 64 * n - 1; bool none = c.chance(1, 8);
    if (none) { int d = c.range(lo, hi); for (auto &e : gf2::ddf(chi)) if (e.first == d) { c.label("it has a factor of that degree"); return; } m.mexp = d; } else { if (!sm::big_factor(chi, lo, hi, &f)) { c.label("no factor of a suitable degree"); return; } m.mexp = f.deg(); if (gf2::gcd(gf2::quo(chi, f), f).deg() > 0) { c.label("repeated factor"); return; } }
    RmtV g = m; if (!none) { BV y; for (;;) { y = sm::apply(m, gf2::quo(chi, f), m.rnd(st)); if (!gf2::zero(y)) break; } g.from(y); RmtV t = g; bool see = false; for (int i = 0; i < 64 * n; i++) see |= t.raw() & 1; if (!see) { c.label("bit 0 does not see the factor"); return; } }
    std::string a = rmt_text(m); m.mb = m.mb >> 17 << 17; m.mc = m.mc >> 37 << 37; std::string t = rmt_text(m); if (low) c.label("a mask has bits without effect"); if (c.coin()) a += "," + std::to_string(c.range(0, 99)); auto o = tool(c, {eq ? "rmt_equidist" : "rmt_period"}, a); if (none) { refused(c, o, m.mexp); return; } PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out << o.err); Strs l = lines(o.out); c.nontrivial(); c.label(std::to_string(n) + " words"); std::string D = std::to_string(m.mexp);
    if (!eq) { PBT_REQUIRE(l.size() == 3 && l[0] == t && l[1] == "deg irreducible = " + D && l[2] == "period >= 2^" + D + "-1", "the output is " << o.out); return; }
    equi::Orbit<uint64_t> ob(m.mexp, m.mexp, [&]() { return g.raw(); }); auto k = equi::all_k(ob, 64); std::string w = t + "," + std::to_string(defect(k, m.mexp)); PBT_REQUIRE(l.size() == 66 && l[0] == w, "the line is '" << (l.empty() ? "" : l[0]) << "', by ranks it is '" << w << "'"); std::string e = kd(l, 2, k, m.mexp); PBT_REQUIRE(l[1] == "veq" && e.empty(), "in the table " << e);
}
PBT_CHECK_LIM(rmt_equidist, 1200, 20000, 200) { rmt(c, true); }
PBT_CHECK_LIM(rmt_period, 600, 10000, 200) { rmt(c, false); }
PBT_CHECK_LIM(refusals, 80, 400, 200) { // no parameter line, or an option the tool does not have
    static const Strs all = {"sfmt_equidist", "dsfmt_equidist", "dsfmt_fixpoint", "dsfmt_parity", "dsfmt_old", "sfmt_period", "dsfmt_period", "sfmt_linearity", "dsfmt_linearity", "rmt_equidist", "rmt_period"};
    size_t k = (size_t)c.below(all.size()); Strs a = {all[k]}; bool opt = k < 5 && c.coin(); c.label(opt ? "an unknown option" : "no parameter line");
    if (opt) { a.push_back(k < 2 && c.coin() ? "--bogus" : c.coin() ? "-z" : "-k"); std::string t; if (all[k][0] == 's') { Sfmt m; rnd_param(c, m, 2); m.mexp = 128 + c.range(0, 127); t = simd::text(m); } else { Dsfmt m; rnd_param(c, m, 2); m.mexp = 232 + c.range(0, 103); t = simd::text(m); } a.push_back(t); }
    else if (k < 5 && c.coin()) a.push_back(k < 2 ? "-v" : k < 4 ? "-c" : "-d");
    for (auto &x : a) c.desc << x << " "; c.ready(); c.nontrivial(); auto o = progs::run(a, 60); PBT_REQUIRE(o.code != 0, o.cmd << " exits 0: " << o.out.substr(0, 300)); for (auto &l : lines(o.out)) PBT_REQUIRE(l.empty() || !isdigit((unsigned char)l[0]), o.cmd << " prints " << l);
}
template <class M> static void bad_seed(pbt::Case &c, const char *prog) { Line<M> L; bool ok = false; for (int k = 0; k < 60 && !ok; k++) ok = line(c, L, false); if (!ok) return; std::string b = progs::no_number(c); Strs a = {prog}; if (b.empty() || c.coin()) { a.push_back("-s"); a.push_back(b); } else a.push_back("--seed=" + b); a.push_back(L.text); for (auto &x : a) c.desc << (x.empty() ? "''" : x) << " "; c.ready(); c.nontrivial(); auto o = progs::run(a, 60); PBT_REQUIRE(o.code != 0, o.cmd << " exits 0: " << o.out.substr(0, 300)); for (auto &l : lines(o.out)) PBT_REQUIRE(l.empty() || !isdigit((unsigned char)l[0]), o.cmd << " prints " << l); }
PBT_CHECK_LIM(bad_seeds, 40, 300, 200) { if (c.coin()) bad_seed<Sfmt>(c, "sfmt_equidist"); else bad_seed<Dsfmt>(c, "dsfmt_equidist"); }
