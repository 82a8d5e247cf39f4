// the dynamic creator programs sfmtdc, sfmtdcfixed and dSFMTdc, run as black boxes
#include "simdlines.hpp"
#include "progs.hpp"
using progs::lines; using progs::split; using namespace simd;
const char *pbt::property_id = "C24";
const char *pbt::property_rule = "A case is one or more runs of sfmtdc, sfmtdcfixed or dSFMTdc with generated options (seed, count, exponent, fixed shift, verbose, output file). Every printed line is checked: a factor of degree mexp, usable parameters, parity vector, fix point, the dimension defects by ranks. Non-trivial: at least one parameter line was printed and checked.";
std::vector<std::string> pbt::assumptions = {"exponents 607 (sfmtdc) and 521 (dSFMTdc), thorough also 1279", "a seed is always given"};
typedef std::vector<std::string> Strs;
static std::string hx(uint64_t v) { char b[20]; snprintf(b, 20, "%llx", (unsigned long long)v); return b; }
static void orthogonal(pbt::Case &c, const std::vector<BV> &rows, uint64_t l, uint64_t h, const std::string &line) { if (rows.size() >= 128) { c.label("no parity vector exists"); return; } PBT_REQUIRE(l | h, "the parity vector in the line " << line << " is zero"); for (auto &r : rows) PBT_REQUIRE(!gf2::dot(r, BV{l, h}), "the parity vector in the line " << line << " accepts a state without long-period part"); c.label("parity"); }
static void sfmt_line(pbt::Case &c, const std::string &l, int mexp, bool fixed) {
    Sfmt m; std::string rest; PBT_REQUIRE(parse(l, m, &rest) && m.mexp == mexp, "the line " << l << " is no parameter set of exponent " << mexp); int n = (int)m.s.size(), d32, d64, d128, len = -1; PBT_REQUIRE(sscanf(rest.c_str(), "%d,%d,%d%n", &d32, &d64, &d128, &len) == 3 && len == (int)rest.size(), "the line " << l << " has not three defects at its end");
    PBT_REQUIRE(m.pos1 >= 1 && m.pos1 <= n - 2 && m.sl1 >= 1 && m.sl1 <= 31 && m.sr1 >= 1 && m.sr1 <= 31 && m.sl2 >= 1 && m.sl2 <= 7 && m.sr2 >= 1 && m.sr2 <= 7, "the recursion cannot use the line " << l); if (fixed) PBT_REQUIRE(m.sl1 == 19 && m.sl2 == 1 && m.sr1 == 7 && m.sr2 == 1, "the shifts are not the fixed ones in the line " << l);
    Component<Sfmt> k(m); PBT_REQUIRE(k.ok, "the recursion of the line " << l << " has no period 2^" << mexp << "-1: no factor of that degree"); if (k.repeated) { c.label("repeated factor"); return; } orthogonal(c, excluded(m, k.f), m.parity.l, m.parity.h, l);
    int e = defect(words_k(k.start, 32, mexp, false), mexp); PBT_REQUIRE(e == d32, "the defect of 32-bit words in the line " << l << " is by ranks " << e); e = defect(words_k(k.start, 64, mexp, false), mexp); PBT_REQUIRE(e == d64, "the defect of 64-bit words in the line " << l << " is by ranks " << e); e = defect(block_k(k.start, mexp, false), mexp); PBT_REQUIRE(e == d128, "the defect of the 128-bit words in the line " << l << " is by ranks " << e);
}
static void dsfmt_line(pbt::Case &c, const std::string &l, int mexp, int fixed) {
    Dsfmt m; std::string rest; PBT_REQUIRE(parse(l, m, &rest) && m.mexp == mexp, "the line " << l << " is no parameter set of exponent " << mexp); int n = (int)m.s.size(), d52, len = -1; PBT_REQUIRE(sscanf(rest.c_str(), "%d%n", &d52, &len) == 1 && len == (int)rest.size(), "the line " << l << " has not one defect at its end"); PBT_REQUIRE(m.pos1 >= 1 && m.pos1 <= n - 2 && m.sl1 >= 1 && m.sl1 <= 51 && !(m.msk[0] & ~M52) && !(m.msk[1] & ~M52), "the recursion cannot use the line " << l); if (fixed) PBT_REQUIRE(m.sl1 == fixed, "sl1 is not the fixed " << fixed << " in the line " << l);
    Component<Dsfmt> k(m); PBT_REQUIRE(k.ok, "the recursion of the line " << l << " has no period 2^" << mexp << "-1: no factor of that degree"); if (k.repeated) { c.label("repeated factor"); return; } auto ex = excluded(m, k.f); orthogonal(c, ex, m.parity[0], m.parity[1], l);
    // where the lung's bit 0 does not show the whole recursion, the fix point may differ by the lung of a
    // state without long-period part: such a state is not seen by the certification
    BV z = fixpoint(m, k), d = {z[z.size() - 2] ^ m.fix[0], z[z.size() - 1] ^ m.fix[1]}; gf2::Echelon e2((size_t)128); for (auto &r : ex) e2.insert(r); c.label(gf2::zero(d) ? "fix point of the component" : "fix point up to the short-period part"); uint64_t st = 7; if (visible(m, k.chi, st)) { c.label("fix point known exactly"); PBT_REQUIRE(gf2::zero(d), "the fix point in the line " << l << " is not that of the long-period component, " << std::hex << z[z.size() - 2] << "," << z[z.size() - 1]); } PBT_REQUIRE(!e2.insert(d), "the fix point in the line " << l << " does not belong to the long-period component, whose fix point is " << std::hex << z[z.size() - 2] << "," << z[z.size() - 1]); int e = defect(words_k(k.start, 52, mexp, false), mexp); PBT_REQUIRE(e == d52, "the defect of 52-bit words in the line " << l << " is by ranks " << e);
}
static void creator(pbt::Case &c, const std::string &prog, int mexp, const Strs &extra, const std::string &header, int cpu, const std::function<void(const std::string &)> &check, bool easy = true) {
    int n = mexp > 700 ? 1 : c.chance(1, 3) ? c.range(2, 3) : 1; std::string seed = c.coin() ? std::to_string((uint32_t)c.word()) : c.coin() ? std::to_string(c.word()) : std::to_string(c.range(0, 9999)); Strs a = {prog, c.coin() ? "-s" : "--seed", seed}; if (c.chance(1, 4)) { a[2] = "0x" + hx(strtoull(seed.c_str(), nullptr, 10)); c.label("seed in hexadecimal"); } if (n > 1 || c.coin()) { a.push_back(c.coin() ? "-c" : "--count"); a.push_back(std::to_string(n)); } a.insert(a.end(), extra.begin(), extra.end()); a.push_back(std::to_string(mexp)); for (auto &s : a) c.desc << s << " "; c.ready();
    auto o = progs::run(a, cpu); PBT_REQUIRE(o.code == 0, o.cmd << " exits " << o.code << ": " << o.out.substr(0, 500) << o.err.substr(0, 300)); Strs l = lines(o.out);
    if (!l.empty() && l.back() == "search failed") { // the search has a limit of candidates and says so; with other seeds it finds one
        PBT_REQUIRE(l.size() >= 3 && (int)l.size() <= n + 2, o.cmd << " prints " << l.size() << " lines: " << o.out); for (size_t i = 2; i + 1 < l.size(); i++) { PBT_REQUIRE(split(l[i]).size() == split(header).size(), "the line " << l[i] << " has not the fields of the header"); check(l[i]); }
        c.label("search failed"); for (int k = 0; easy; k++) { PBT_REQUIRE(k < 12, o.cmd << ": the search fails with this seed and twelve others"); Strs q = {prog, "-s", std::to_string(k)}; q.insert(q.end(), extra.begin(), extra.end()); q.push_back(std::to_string(mexp)); auto r = progs::run(q, cpu); Strs t = lines(r.out); if (t.size() == 3 && split(t[2]).size() == split(header).size()) break; } return;
    }
    PBT_REQUIRE((int)l.size() == n + 2, o.cmd << " prints " << l.size() << " lines: " << o.out); PBT_REQUIRE(l[0] == "seed = " + seed, "the first line is " << l[0]); PBT_REQUIRE(l[1] == header, "the header is " << l[1]); int cols = (int)split(header).size(); l.erase(l.begin(), l.begin() + 2);
    for (auto &s : l) { PBT_REQUIRE((int)split(s).size() == cols, "the line " << s << " has not the fields of the header"); check(s); } c.nontrivial(); c.label("mexp " + std::to_string(mexp));
    if (mexp > 700) return;
    if (n > 1 && c.coin()) { Strs q = {prog, "-s", seed, "-c", std::to_string(c.range(1, n - 1))}; q.insert(q.end(), extra.begin(), extra.end()); q.push_back(std::to_string(mexp)); auto r = progs::run(q, cpu); Strs s = lines(r.out); PBT_REQUIRE(s.size() == 2 + strtoul(q[4].c_str(), nullptr, 10) && std::equal(s.begin() + 2, s.end(), l.begin()), "with -c " << q[4] << " other lines are printed"); c.label("prefix"); }
    else if (c.chance(1, 2)) { bool file = c.coin(); Strs q = {prog, "-s" + seed, file ? c.coin() ? "-f@F" : "--file=@F" : c.coin() ? "-v" : "--verbose"}; q.insert(q.end(), extra.begin(), extra.end()); q.push_back(std::to_string(mexp)); auto r = progs::run(q, cpu); bool has = false; for (auto &s : lines(file ? r.file : r.out)) if (s == l[0]) has = true; PBT_REQUIRE(r.code == 0 && has, "the same search, " << (file ? "into a file" : "verbose") << ", has not the line " << l[0]); if (file) PBT_REQUIRE(r.out.empty(), "output goes both to the file and to standard output: " << r.out); c.label(file ? "output file" : "verbose"); }
}
static int sfmt_mexp(pbt::Case &c) { return c.thorough && c.chance(1, 12) ? 1279 : 607; }
static const char *SH = "# mexp, pos1, sl1, sl2, sr1, sr2, msk1, msk2, msk3, msk4, parity1, parity2, parity3, parity4, delta32, delta64, delta128";
PBT_CHECK_LIM(sfmtdc, 16, 300, 300) { int m = sfmt_mexp(c); creator(c, "sfmtdc", m, {}, SH, m > 700 ? 900 : 160, [&](const std::string &l) { sfmt_line(c, l, m, false); }); }
PBT_CHECK_LIM(sfmtdcfixed, 20, 300, 300) { int m = sfmt_mexp(c); creator(c, "sfmtdcfixed", m, {}, SH, m > 700 ? 900 : 160, [&](const std::string &l) { sfmt_line(c, l, m, true); }); }
// even values of sl1 have no full recursion: the search gives up
PBT_CHECK_LIM(dsfmtdc, 40, 600, 300) {
    int m = c.thorough && c.chance(1, 12) ? 1279 : 521, fx = c.coin() ? 0 : c.chance(1, 6) ? 2 * (c.coin() ? c.range(0, 3) : c.range(15, 25)) + 1 : 2 * c.range(4, 14) + 1; bool easy = !fx || (fx > 8 && fx < 30); Strs x; if (fx) { if (easy && c.chance(1, 3)) { fx = 19; x.push_back(c.coin() ? "-x" : "--fixed"); } else x.push_back((c.coin() ? "-x" : "--fixed=") + std::to_string(fx)); c.label("fixed sl1"); }
    creator(c, "dSFMTdc", m, x, "# mexp, pos1, sl1, msk1, msk2, fix1, fix2, parity1, parity2, delta52", m > 700 ? 900 : 160, [&](const std::string &l) { dsfmt_line(c, l, m, fx); }, easy);
}
PBT_CHECK(exponents, 40, 200) { // every exponent of the list is accepted; asking for no parameters prints none
    static const Strs p = {"sfmtdc", "sfmtdcfixed", "dSFMTdc"}; std::string q = c.pick(p), m = std::to_string(c.pick(progs::exponents(q))); Strs a = {q, "-s", std::to_string(c.range(0, 99999)), "-c", "0", m}; for (auto &x : a) c.desc << x << " "; c.ready(); c.nontrivial(); c.label("no parameters asked for: " + q);
    auto o = progs::run(a, 60); PBT_REQUIRE(o.code == 0, o.cmd << " is refused: " << o.err.substr(0, 300)); for (auto &l : lines(o.out)) PBT_REQUIRE(l.empty() || !(isdigit((unsigned char)l[0]) && l.find(',') != std::string::npos), o.cmd << " prints " << l);
}
PBT_CHECK(refusals, 160, 900) {
    static const Strs p = {"sfmtdc", "sfmtdcfixed", "dSFMTdc"}; std::string q = c.pick(p); Strs a = {q, "-s", "1"}; const char *why = "no arguments"; switch (c.below(8)) { case 0: break;
    case 5: case 6: { std::string bad = progs::no_number(c); why = "no number"; const char *m = q[0] == 'd' ? "521" : "607"; int w = c.range(0, q[0] == 'd' ? 3 : 2); if (w == 0) { a[2] = bad; a.push_back("-c"); a.push_back("0"); a.push_back(m); } else if (w == 1) { a.push_back("-c"); a.push_back(bad); a.push_back(m); } else if (w == 2) { a.push_back("-c"); a.push_back("0"); a.push_back(c.coin() || bad.empty() || bad[0] == '-' ? std::string(m) + "x" : bad); } else { a.push_back("-c"); a.push_back("0"); a.push_back("--fixed=" + bad); a.push_back(m); } break; }
    case 7: { q = "dSFMTdc"; a[0] = q; why = "a fixed shift over 63"; a.push_back("-c"); a.push_back(c.coin() ? "0" : "1"); uint64_t x = c.coin() ? (uint64_t)c.range(64, 200) : c.coin() ? ((c.below(1u << 20) + 1) << 32) + (uint64_t)c.range(0, 63) : (uint64_t)0 - 1 - c.below(100); a.push_back((c.coin() ? "-x" : "--fixed=") + std::to_string(x)); a.push_back("521"); break; }
    case 4: why = "an option that does not exist or without its value"; a.push_back("-c"); a.push_back("0"); a.push_back(q[0] == 'd' ? "521" : "607"); progs::bad_option(c, a); break; case 3: { std::string big = std::to_string(UINT64_C(10000000000000000000) + c.below(UINT64_C(8000000000000000000))) + std::to_string(c.below(1000)); const char *m = q[0] == 'd' ? "521" : "607"; why = "a number out of range"; if (c.chance(1, 3)) { a.push_back(big); } else { if (c.coin()) a[2] = big; else { a.push_back("-c"); a.push_back(big); } a.push_back(m); } break; } case 1: { if (c.chance(3, 4)) { a.push_back("-c"); a.push_back("0"); } a.push_back(std::to_string(progs::unsupported(c, q))); why = "no exponent of the list"; break; } default: a.push_back("-f"); a.push_back("no/such/directory/x"); a.push_back(q[0] == 'd' ? "521" : "607"); why = "the output file cannot be opened"; }
    for (auto &s : a) c.desc << s << " "; c.ready(); c.nontrivial(); c.label(why); auto o = progs::run(a, 60); PBT_REQUIRE(o.code != 0, o.cmd << " (" << why << ") exits 0"); for (auto &l : lines(o.out)) PBT_REQUIRE(l.empty() || !(isdigit((unsigned char)l[0]) && l.find(',') != std::string::npos), o.cmd << " (" << why << ") prints " << l);
}
