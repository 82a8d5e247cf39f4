#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Check> &checks() { static std::vector<Check> v; return v; }
static std::string g_scratch;
std::string scratch_dir() {
    std::string d = g_scratch + "/p" + std::to_string((long)getpid());
    mkdir(d.c_str(), 0700);
    return d;
}
} // namespace pbt
using namespace pbt;

static double now_s() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void on_cpu_limit(int) { static const char m[] = "pbt: CPU time limit for one case\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
static void arm(int s) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, nullptr);
}

struct Outcome { int kind = 0; std::string msg; std::vector<uint64_t> choices; std::string desc; }; // 0 pass 1 fail 2 crash/hang

// run one case in this process
static Outcome run_here(const Check &ck, Case &c) {
    Outcome o;
    try {
        ck.fn(c);
    } catch (const Failure &f) { o.kind = 1; o.msg = f.msg;
    } catch (const Discard &) { c.nontriv = false; c.labels.insert("discarded");
    } catch (const std::exception &e) { o.kind = 1; o.msg = std::string("unexpected exception: ") + e.what();
    } catch (const std::exception *e) { o.kind = 1; o.msg = std::string("unexpected exception (thrown by pointer): ") + e->what();
    } catch (const char *e) { o.kind = 1; o.msg = std::string("unexpected exception: ") + e;
    } catch (...) { o.kind = 1; o.msg = "unexpected exception of unknown type"; }
    o.choices = c.choices(); o.desc = c.desc.str();
    return o;
}

static SharedLog *new_log() {
    void *p = mmap(nullptr, sizeof(SharedLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (SharedLog *)p;
}
static void from_log(Outcome &o, const SharedLog *l) {
    o.choices.assign(l->choices, l->choices + l->n); o.desc.assign(l->desc, l->dn);
}

static void put(std::string &b, const void *p, size_t n) { b.append((const char *)p, n); }
static void put_str(std::string &b, const std::string &s) { uint64_t n = s.size(); put(b, &n, 8); b += s; }
static bool write_all(int fd, const std::string &b) {
    size_t o = 0; while (o < b.size()) { ssize_t r = write(fd, b.data() + o, b.size() - o); if (r <= 0) return false; o += (size_t)r; } return true;
}
static std::string enc(const Outcome &o) {
    std::string b; uint64_t k = (uint64_t)o.kind; put(b, &k, 8); put_str(b, o.msg); put_str(b, o.desc);
    uint64_t n = o.choices.size(); put(b, &n, 8); put(b, o.choices.data(), n * 8); return b;
}
static bool dec(const std::string &b, Outcome &o) {
    size_t p = 0; auto u = [&](uint64_t &x) { if (p + 8 > b.size()) return false; memcpy(&x, b.data() + p, 8); p += 8; return true; };
    auto s = [&](std::string &x) { uint64_t n; if (!u(n) || p + n > b.size()) return false; x = b.substr(p, n); p += n; return true; };
    uint64_t k, n; if (!u(k) || !s(o.msg) || !s(o.desc) || !u(n) || p + n * 8 > b.size()) return false;
    o.kind = (int)k; o.choices.resize(n); if (n) memcpy(o.choices.data(), b.data() + p, n * 8); return true;
}
static std::string tail_of(const std::string &f, size_t lim = 1500) {
    std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str();
    size_t a = s.find("ERROR: AddressSanitizer"); if (a != std::string::npos) return s.substr(a, lim);
    a = s.find("runtime error:"); if (a != std::string::npos) return s.substr(a, lim);
    return s.size() > lim ? s.substr(s.size() - lim) : s;
}
static void redirect(const std::string &err) {
    int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); if (n > 2) close(n);
    int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (e >= 0) { dup2(e, 2); if (e > 2) close(e); }
}

// run one case, given by its choices, in a child process
static Outcome run_isolated(const Check &ck, const std::vector<uint64_t> &choices, bool thorough) {
    int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(3); }
    std::string err = g_scratch + "/iso.err";
    static SharedLog *log = new_log(); log->n = log->dn = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]); redirect(err); signal(SIGPROF, on_cpu_limit); arm(ck.cpu_limit_s);
        Case c(choices, thorough); c.log = log; Outcome o = run_here(ck, c); arm(0);
        write_all(pfd[1], enc(o)); close(pfd[1]);
        std::error_code ec; std::filesystem::remove_all(g_scratch + "/p" + std::to_string((long)getpid()), ec);
        _exit(0);
    }
    close(pfd[1]);
    std::string b; char buf[65536]; double t0 = now_s(); bool killed = false;
    for (;;) {
        struct pollfd p = {pfd[0], POLLIN, 0};
        int r = poll(&p, 1, 1000);
        if (r > 0) { ssize_t k = read(pfd[0], buf, sizeof buf); if (k <= 0) break; b.append(buf, (size_t)k); }
        else if (now_s() - t0 > 20.0 * ck.cpu_limit_s) { kill(pid, SIGKILL); killed = true; break; }
    }
    close(pfd[0]); int st; waitpid(pid, &st, 0);
    Outcome o;
    if (!killed && WIFEXITED(st) && WEXITSTATUS(st) == 0 && dec(b, o)) return o;
    o = Outcome(); o.kind = 2; from_log(o, log);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) o.msg = "does not terminate: a case used more than " + std::to_string(ck.cpu_limit_s) + " s of CPU time";
    else if (killed) o.msg = "does not terminate (blocked)";
    else if (WIFSIGNALED(st)) o.msg = "process died on signal " + std::to_string(WTERMSIG(st)) + "\n" + tail_of(err);
    else o.msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + "\n" + tail_of(err);
    return o;
}

static Outcome shrink(const Check &ck, Outcome best, bool thorough, int &execs) {
    double t0 = now_s(); execs = 0;
    bool slow = best.msg.find("does not terminate") == 0;
    const int max_exec = slow ? (ck.cpu_limit_s > 60 ? 0 : 2) : 500; const double max_s = slow ? 120 : 60;
    auto attempt = [&](const std::vector<uint64_t> &c) {
        if (execs >= max_exec || now_s() - t0 > max_s) return false;
        execs++; Outcome o = run_isolated(ck, c, thorough);
        if (o.kind == 0) return false;
        // simpler = shorter, then lexicographically smaller
        const std::vector<uint64_t> &n = o.choices;
        if (n.size() < best.choices.size() || (n.size() == best.choices.size() && n < best.choices)) { best = o; return true; }
        return false;
    };
    bool progress = true;
    while (progress && execs < max_exec && now_s() - t0 < max_s) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size();) {
                std::vector<uint64_t> c = best.choices;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
                if (attempt(c)) progress = true; else i += len;
                if (execs >= max_exec) break;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.choices.size(); i++) {
            if (!best.choices[i]) continue;
            std::vector<uint64_t> c = best.choices; c[i] = 0; if (attempt(c)) { progress = true; continue; }
            for (int sh = 1; sh < 64 && i < best.choices.size(); sh *= 2) {
                c = best.choices; uint64_t v = c[i] >> sh; if (v == c[i]) break; c[i] = v; if (attempt(c)) { progress = true; }
            }
            if (i < best.choices.size() && best.choices[i]) { c = best.choices; c[i]--; if (attempt(c)) progress = true; }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

struct Slot { std::atomic<long> item; };
struct Shared { std::atomic<long> next; std::atomic<long> limit; Slot slot[64]; };
static SharedLog *g_logs[64];

struct Stats {
    uint64_t evals = 0, discarded = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> labels, per_check;
    std::map<std::string, std::vector<std::string>> samples; // per check
};
static void save_stats(const Stats &s, const std::string &f) {
    std::string b; put(b, &s.evals, 8); put(b, &s.discarded, 8);
    uint64_t n = s.distinct.size(); put(b, &n, 8); for (uint64_t h : s.distinct) put(b, &h, 8);
    for (auto *m : {&s.labels, &s.per_check}) { n = m->size(); put(b, &n, 8); for (auto &kv : *m) { put_str(b, kv.first); put(b, &kv.second, 8); } }
    n = 0; for (auto &kv : s.samples) n += kv.second.size(); put(b, &n, 8);
    for (auto &kv : s.samples) for (auto &x : kv.second) { put_str(b, kv.first); put_str(b, x); }
    std::ofstream o(f, std::ios::binary); o << b;
}
static void load_stats(Stats &s, const std::string &f) {
    std::ifstream i(f, std::ios::binary); if (!i) return; std::stringstream ss; ss << i.rdbuf(); std::string b = ss.str(); size_t p = 0;
    auto u = [&]() { uint64_t x = 0; if (p + 8 <= b.size()) memcpy(&x, b.data() + p, 8); p += 8; return x; };
    auto str = [&]() { uint64_t n = u(); std::string x = p + n <= b.size() ? b.substr(p, n) : ""; p += n; return x; };
    s.evals += u(); s.discarded += u(); uint64_t n = u(); for (uint64_t k = 0; k < n && p < b.size(); k++) s.distinct.insert(u());
    for (auto *m : {&s.labels, &s.per_check}) { n = u(); for (uint64_t k = 0; k < n && p < b.size(); k++) { std::string a = str(); (*m)[a] += u(); } }
    n = u(); for (uint64_t k = 0; k < n && p < b.size(); k++) { std::string a = str(), x = str(); auto &v = s.samples[a]; if (v.size() < 2) v.push_back(x); }
}

static void save_replay(const std::string &path, const Check &ck, const Outcome &o, bool thorough, uint64_t seed) {
    std::ofstream f(path);
    f << "property " << property_id << "\ncheck " << ck.name << "\nseed " << seed << "\nsizes " << (thorough ? "thorough" : "quick") << "\nchoices";
    for (uint64_t x : o.choices) f << " " << x;
    f << "\n--\n" << o.msg << "\n--\ncase:\n" << o.desc << "\n";
}

int main(int argc, char **argv) {
    std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    char tmpl[] = "/tmp/mttpbt.XXXXXX"; char *d = mkdtemp(tmpl); if (!d) { perror("mkdtemp"); return 2; }
    g_scratch = d;
    struct Cleaner { ~Cleaner() { std::error_code ec; if (g_scratch.rfind("/tmp/mttpbt.", 0) == 0) std::filesystem::remove_all(g_scratch, ec); } } cleaner;
    signal(SIGPIPE, SIG_IGN);
    auto ro = [&](int rc) { return rc; };

    if (mode == "replay") {
        std::ifstream f(a["--file"]); if (!f) { std::cerr << "cannot read replay file\n"; return ro(2); }
        std::string line, name; bool th = false; std::vector<uint64_t> ch;
        while (std::getline(f, line) && line != "--") {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "check") is >> name; else if (k == "sizes") { std::string v; is >> v; th = v == "thorough"; }
            else if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
        }
        for (auto &ck : checks()) if (name == ck.name) {
            Outcome o = run_isolated(ck, ch, th);
            if (o.kind) { std::cout << "case:\n" << o.desc << "\n" << o.msg << "\nVIOLATION property=" << property_id << " replay=" << a["--file"] << "\n"; return ro(1); }
            std::cout << "case:\n" << o.desc << "\npasses\n"; return ro(0);
        }
        std::cerr << "no check " << name << "\n"; return ro(2);
    }
    if (mode != "run") { std::cerr << "usage: run|replay\n"; return ro(2); }

    bool thorough = a["--tier"] == "thorough"; uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
    int jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8; if (jobs < 1) jobs = 1; if (jobs > 64) jobs = 64;
    double budget = a.count("--budget") ? atof(a["--budget"].c_str()) : 700; std::string only = a["--only"];
    double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1;
    double t_start = now_s();
    // the items: cases of the checks, interleaved proportionally
    struct Item { int ck; long idx; }; std::vector<Item> items; std::vector<std::pair<double, Item>> tmp;
    for (size_t k = 0; k < checks().size(); k++) {
        if (!only.empty() && only != checks()[k].name) continue;
        long n = thorough ? checks()[k].thorough : checks()[k].quick; if (n > 1) n = std::max<long>(1, (long)((double)n * scale));
        for (long i = 0; i < n; i++) tmp.push_back({((double)i + 0.5) / (double)n, {(int)k, i}});
    }
    std::stable_sort(tmp.begin(), tmp.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &t : tmp) items.push_back(t.second);
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0; sh->limit = (long)items.size(); for (auto &s : sh->slot) s.item = -1;

    auto seed_of = [&](const Item &it) {
        uint64_t s = seed * 0x2545F4914F6CDD1DULL + 1; s ^= hash_str(checks()[(size_t)it.ck].name); uint64_t x = splitmix(s); s ^= (uint64_t)it.idx * 0x9E3779B97F4A7C15ULL; x ^= splitmix(s); return x;
    };
    auto worker = [&](int w, int gen) {
        std::string base = g_scratch + "/w" + std::to_string(w) + "." + std::to_string(gen);
        redirect(base + ".err"); signal(SIGPROF, on_cpu_limit);
        Stats st; bool failed_any = false;
        for (;;) {
            if (now_s() - t_start > budget) break;
            long i = sh->next.fetch_add(1); if (i >= sh->limit.load()) break;
            const Item &it = items[(size_t)i]; const Check &ck = checks()[(size_t)it.ck];
            sh->slot[w].item = i; arm(ck.cpu_limit_s);
            SharedLog *lg = g_logs[w]; lg->n = lg->dn = 0;
            Case c(seed_of(it), thorough); c.log = lg; Outcome o = run_here(ck, c); arm(0);
            sh->slot[w].item = -1;
            st.evals++; st.per_check[ck.name]++; for (auto &l : c.labels) { if (l == "discarded") st.discarded++; st.labels[std::string(ck.name) + ": " + l]++; }
            if (c.nontriv) {
                uint64_t h = hash_str(ck.name); for (uint64_t x : c.choices()) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; }
                st.distinct.insert(h); auto &sv = st.samples[ck.name]; if (sv.size() < 2 && !o.desc.empty()) sv.push_back(o.desc.substr(0, 600));
            }
            if (o.kind) {
                failed_any = true; std::string b; int64_t ii = i; put(b, &ii, 8); b += enc(o);
                std::ofstream f(base + ".fail." + std::to_string(i), std::ios::binary); f << b; f.close();
                long l = sh->limit.load(); while (i < l && !sh->limit.compare_exchange_weak(l, i)) {}
            }
        }
        (void)failed_any; save_stats(st, base + ".stats");
        std::error_code ec; std::filesystem::remove_all(g_scratch + "/p" + std::to_string((long)getpid()), ec);
        _exit(77); // not 0: code under test may call exit(0)
    };
    std::map<pid_t, std::pair<int, int>> kids; fflush(nullptr); std::cout.flush();
    auto spawn = [&](int w, int gen) { pid_t p = fork(); if (p == 0) worker(w, gen); if (p < 0) { perror("fork"); exit(2); } kids[p] = {w, gen}; };
    jobs = std::min<int>(jobs, std::max<int>(1, (int)items.size()));
    for (int w = 0; w < jobs; w++) g_logs[w] = new_log();
    for (int w = 0; w < jobs; w++) spawn(w, 0);
    std::map<long, Outcome> fails;
    std::vector<std::string> bases; double t_fail = 0; long cut_off = 0;
    while (!kids.empty()) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p < 0) { if (errno == EINTR) continue; break; }
        if (p == 0) { // cases after the first failure, and cases far over the time budget, are not waited for
            usleep(10000); double now = now_s(); long l = sh->limit.load(); if (l < (long)items.size() && t_fail == 0) t_fail = now;
            bool late = now - t_start > budget + 120, given = t_fail > 0 && now - t_fail > 60;
            for (auto &k : kids) { long i = sh->slot[k.second.first].item.load(); if (i >= 0 && (late || (t_fail > 0 && (i > l || given)))) { if (late && t_fail == 0) cut_off++; sh->slot[k.second.first].item = -1; kill(k.first, SIGKILL); } }
            continue;
        }
        auto itk = kids.find(p); if (itk == kids.end()) continue;
        int w = itk->second.first, gen = itk->second.second; kids.erase(itk);
        std::string base = g_scratch + "/w" + std::to_string(w) + "." + std::to_string(gen); bases.push_back(base);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;
        long i = sh->slot[w].item.exchange(-1);
        if (i >= 0) {
            Outcome o; o.kind = 2; from_log(o, g_logs[w]);
            o.msg = WIFEXITED(st) && WEXITSTATUS(st) == 97 ? "does not terminate" : "process ended during the case\n" + tail_of(base + ".err");
            fails[i] = o; long l = sh->limit.load(); while (i < l && !sh->limit.compare_exchange_weak(l, i)) {}
        }
        if (gen < 20 && now_s() - t_start < budget && sh->next.load() < sh->limit.load()) spawn(w, gen + 1);
    }
    Stats total;
    for (auto &b : bases) {
        load_stats(total, b + ".stats");
    }
    for (auto &e : std::filesystem::directory_iterator(g_scratch)) {
        std::string n = e.path().filename().string(); size_t q = n.find(".fail."); if (q == std::string::npos) continue;
        std::ifstream f(e.path(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string b = ss.str(); int64_t i; if (b.size() < 8) continue; memcpy(&i, b.data(), 8);
        Outcome o; if (dec(b.substr(8), o)) fails[(long)i] = o;
    }
    int rc = 0; int violations = 0; std::string vio_line;
    int tried = 0;
    for (auto &kv : fails) {
        if (tried++ >= 3) break;
        const Item &it = items[(size_t)kv.first]; const Check &ck = checks()[(size_t)it.ck]; Outcome o = kv.second;
        int rep = 0; Outcome last = o;
        bool hang = o.msg.find("does not terminate") == 0; int reps = hang ? (now_s() - t_start > 200 ? 0 : 1) : 3; // a hang costs its whole time limit
        for (int k = 0; k < reps; k++) { Outcome r = run_isolated(ck, o.choices, thorough); if (r.kind) { rep++; last = r; } }
        if (rep < reps) { std::cout << "note: " << ck.name << " case " << it.idx << " failed once but replays " << rep << "/" << reps << "; not reported: " << o.msg << "\n"; total.labels["unreproduced failure"]++; continue; }
        int ex = 0; Outcome small = shrink(ck, last, thorough, ex);
        bool ok3 = true; for (int k = 0; k < reps && ok3 && ex > 0; k++) ok3 = run_isolated(ck, small.choices, thorough).kind != 0;
        if (!ok3) small = last;
        std::string dir = a["--replays"]; std::filesystem::create_directories(dir);
        std::string path = dir + "/" + ck.name + "-" + std::to_string(seed) + "-" + std::to_string(it.idx) + ".txt";
        save_replay(path, ck, small, thorough, seed);
        std::cout << "check " << ck.name << " case " << it.idx << " (shrunk from " << o.choices.size() << " to " << small.choices.size() << " choices in " << ex << " runs)\ncase:\n" << small.desc << "\n" << small.msg << "\n";
        vio_line = std::string("VIOLATION property=") + property_id + " replay=" + path; violations = 1; rc = 1; break;
    }
    if (cut_off) total.labels["cut off by the time budget"] += cut_off;
    double wall = now_s() - t_start; bool truncated = sh->next.load() < (long)items.size() && fails.empty();
    if (a.count("--evidence")) {
        std::ofstream f(a["--evidence"]);
        f << "{\n \"property\": " << jstr(property_id) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << total.evals << ",\n  \"distinct_nontrivial\": " << total.distinct.size() << ",\n  \"rule\": " << jstr(property_rule) << ",\n  \"samples\": [";
        bool first = true; for (auto &kv : total.samples) for (auto &x : kv.second) { f << (first ? "\n   " : ",\n   ") << jstr(kv.first + ": " + x); first = false; }
        f << "],\n  \"cases_per_check\": {"; first = true; for (auto &kv : total.per_check) { f << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; }
        f << "},\n  \"labels\": {"; first = true; for (auto &kv : total.labels) { f << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; }
        f << "},\n  \"discarded\": " << total.discarded << ",\n  \"planned_cases\": " << items.size() << ",\n  \"truncated_by_time_budget\": " << (truncated ? "true" : "false") << "\n },\n \"assumptions\": [";
        first = true; for (auto &x : assumptions) { f << (first ? "" : ", ") << jstr(x); first = false; }
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    if (getenv("PBT_KNOWN")) { std::istringstream is(getenv("PBT_KNOWN")); std::string l; while (std::getline(is, l)) { size_t t = l.find('\t'); if (t == std::string::npos) continue; bool seen = false; for (auto &kv : total.labels) { size_t q = kv.first.find(": KNOWN " + l.substr(0, t)); if (q != std::string::npos && q + 8 + t == kv.first.size()) seen = true; } if (seen) std::cout << "KNOWN-FINDING: property=" << property_id << " " << l.substr(t + 1) << "\n"; } }
    std::cout << property_id << ": " << total.evals << " cases (" << total.distinct.size() << " distinct non-trivial) in " << (long)wall << " s" << (truncated ? " [time budget reached]" : "") << "\n";
    if (rc) std::cout << vio_line << "\n";
    std::cout.flush();
    return ro(rc);
}
