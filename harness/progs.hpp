// Running the sample programs as black boxes
#ifndef PROGS_HPP
#define PROGS_HPP
#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace progs {
struct Out { std::string out, err, file, cmd; int code = -1; };
inline std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
inline std::vector<std::string> split(const std::string &s, char d = ',') { std::vector<std::string> r; std::string x; for (char ch : s) if (ch == d) { r.push_back(x); x.clear(); } else x += ch; r.push_back(x); return r; }
// runs args[0] (a program of the build directory) in the scratch directory; @F in an argument is
// the name of a file there, whose contents are returned in Out::file
inline Out run(const std::vector<std::string> &args, int cpu_s) {
    std::string dir = pbt::scratch_dir(), so = dir + "/out", se = dir + "/err", fn = dir + "/file"; unlink(fn.c_str()); Out o; std::vector<std::string> a = args; a[0] = std::string(getenv("PBT_BUILD_DIR") ? getenv("PBT_BUILD_DIR") : ".") + "/" + args[0]; o.cmd = args[0];
    for (size_t i = 1; i < a.size(); i++) { o.cmd += " " + (args[i].find(' ') == std::string::npos && !args[i].empty() ? args[i] : "'" + args[i] + "'"); size_t p = a[i].find("@F"); if (p != std::string::npos) a[i].replace(p, 2, fn); }
    std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    pid_t pid = fork(); if (pid < 0) throw pbt::Discard();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); int d = chdir(dir.c_str()); (void)d; int n = open("/dev/null", O_RDONLY), f = open(so.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(se.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(n, 0); dup2(f, 1); dup2(e, 2); signal(SIGPROF, SIG_DFL);
        struct rlimit r; r.rlim_cur = (rlim_t)cpu_s; r.rlim_max = (rlim_t)cpu_s + 5; setrlimit(RLIMIT_CPU, &r); r.rlim_cur = r.rlim_max = 64u << 20; setrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r); 
#ifdef PROGS_ASAN // the programs are built with AddressSanitizer, which needs address space
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=125:hard_rss_limit_mb=3000", 1);
#else
        r.rlim_cur = r.rlim_max = (rlim_t)3 << 30; setrlimit(RLIMIT_AS, &r); unsetenv("ASAN_OPTIONS");
#endif
        execv(v[0], v.data()); _exit(126);
    }
    int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) throw pbt::Discard();
    o.out = slurp(so); o.err = slurp(se); o.file = slurp(fn);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) throw pbt::Failure{"does not terminate: " + o.cmd + " used more than " + std::to_string(cpu_s) + " s of CPU time; output so far:\n" + o.out.substr(0, 800)};
    if (WIFSIGNALED(st)) throw pbt::Failure{o.cmd + " died on signal " + std::to_string(WTERMSIG(st)) + "\n" + o.err.substr(0, 800)};
    o.code = WEXITSTATUS(st); if (o.code == 125) throw pbt::Failure{o.cmd + ": memory error\n" + o.err.substr(0, 1500)};
    if (o.code == 126) throw pbt::Failure{"harness: cannot run " + a[0]};
    return o;
}
// ---- the exponents a program supports ----------------------------------------
inline const std::vector<int> &exponents(const std::string &prog) {
    static const std::vector<int> a = {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}, s = {607, 1279, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}, d = {521, 1279, 2203, 4253, 11213, 19937, 44497}, m = {3217, 4423, 11213, 23209, 44497, 110503, 216091};
    return prog == "MTGP32dc" ? m : prog == "dSFMTdc" ? d : prog[0] == 's' ? s : a;
}
// a number which is no supported exponent: another Mersenne exponent, a neighbour, a typing error, anything
inline int unsupported(pbt::Case &c, const std::string &prog) {
    static const std::vector<int> mers = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839};
    const std::vector<int> &ok = exponents(prog); long m;
    switch (c.below(5)) {
    case 0: case 1: m = c.pick(mers); break;
    case 2: m = c.pick(ok) + (c.coin() ? 1 : -1) * (long)(c.coin() ? 1 : c.range(2, 40)); break;
    case 3: { std::string t = std::to_string(c.pick(ok)); size_t at = (size_t)c.below(t.size()); t[at] = (char)('0' + c.below(10)); m = atol(t.c_str()); break; }
    default: m = c.range(-5, 250000); }
    while (std::find(ok.begin(), ok.end(), (int)m) != ok.end()) m++;
    return (int)m;
}
// an option the program does not have, or one whose value is missing, put into a good command line
inline void bad_option(pbt::Case &c, std::vector<std::string> &a) {
    static const std::vector<std::string> unknown = {"-z", "-q", "-k", "--nonsense", "--bogus=3", "-Z1"}, bare = {"-c", "-s", "-f", "--count", "--seed", "--file"};
    if (c.coin()) a.push_back(c.pick(bare)); else a.insert(a.begin() + 1 + (long)c.below(2) * (long)(a.size() - 1), c.pick(unknown));
}
// what is no number, neither decimal nor hexadecimal
inline std::string no_number(pbt::Case &c) {
    static const std::vector<std::string> words = {"", "abc", "-", "+", "0x", "x1", "one", ".5", "z", " ", "#1", "--", "'1'"}, tails = {"x", "z", ".0", ",1", " 1", "k", "e", "-", "u", "L", "_", ";"};
    if (c.chance(1, 3)) return c.pick(words);
    return std::to_string(c.coin() ? (unsigned long)c.range(0, 3) : c.coin() ? 521ul : c.below(100000)) + (c.chance(1, 4) ? "g" : c.pick(tails));
}
} // namespace progs
#endif
