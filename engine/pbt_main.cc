#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {

double Rng::gauss() {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
}

void Src::note(const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (desc.size() < 1500) { if (!desc.empty()) desc += " "; desc += b; }
}

void fail(const char *tag, const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Failure{tag, b};
}

std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }

static const int CASE_CPU_LIMIT = 20;   // CPU seconds; a normal case takes milliseconds

struct Shared {                           // one per worker, MAP_SHARED
    volatile uint64_t cur;                // index of the running case
    volatile uint64_t done;
    volatile int state;                   // 0 running, 1 finished, 2 failed
    char tag[128]; char msg[2048];
};

static uint64_t case_seed(uint64_t seed, const std::string &name, uint64_t idx) {
    return mix64(seed * 0x9e3779b97f4a7c15ull ^ mix64(idx) ^ hash_bytes(name.data(), name.size()));
}

static void set_cpu_timer(int sec) {
    struct itimerval tv = {}; tv.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &tv, nullptr);
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Outcome { bool ok = true; std::string tag, msg, desc; std::vector<uint64_t> choices; };

// Run one case in a forked child, from choices.
static Outcome run_forked(const Prop &p, const std::vector<uint64_t> &choices, bool quiet) {
    Outcome o;
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
        set_cpu_timer(CASE_CPU_LIMIT);
        Src s; s.replay = true; s.choices = choices;
        std::string out;
        try { p.fn(s); out = "0\n\n"; }
        catch (Failure &f) { out = "1\n" + f.tag + "\n" + f.msg + "\n"; }
        out += "\x01" + s.desc;
        size_t off = 0;
        while (off < out.size()) { ssize_t w = write(fd[1], out.data() + off, out.size() - off); if (w <= 0) break; off += w; }
        _exit(0);
    }
    close(fd[1]);
    std::string in; char buf[4096]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, n);
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    size_t d = in.find('\x01');
    if (d == std::string::npos) {
        o.ok = false;
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            o.tag = sg == SIGPROF ? "hang" : "crash";
            o.msg = "terminated by signal " + std::to_string(sg);
        } else { o.tag = "crash"; o.msg = "aborted (exit status " + std::to_string(WEXITSTATUS(st)) + ", sanitizer report or exit)"; }
        return o;
    }
    o.desc = in.substr(d + 1);
    if (in[0] == '1') {
        o.ok = false; size_t a = in.find('\n'), b = in.find('\n', a + 1);
        o.tag = in.substr(a + 1, b - a - 1); o.msg = in.substr(b + 1, d - b - 2);
    }
    return o;
}

static std::vector<uint64_t> gen_choices(const Prop &p, uint64_t cs) {
    // Record the draws of a generated case without surviving a crash: the draws
    // are streamed to a file by a forked child.
    char path[] = "/tmp/pbtXXXXXX"; int fd = mkstemp(path); unlink(path);
    struct { uint64_t *p; size_t cap; } m; m.cap = 1u << 22;
    if (ftruncate(fd, (m.cap + 1) * 8)) {}
    m.p = (uint64_t *)mmap(nullptr, (m.cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    pid_t pid = fork();
    if (pid == 0) {
        int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1);
        set_cpu_timer(CASE_CPU_LIMIT);
        Src s; s.rng = Rng(cs);
        // draws recorded by a subclassed vector would be intrusive: re-run with a
        // periodic copy instead; the vector is copied at the end or on a crash handler
        static Src *gs; static uint64_t *gp; static size_t gcap; gs = &s; gp = m.p; gcap = m.cap;
        struct H { static void dump(int) { size_t k = std::min(gs->choices.size(), gcap);
            memcpy(gp + 1, gs->choices.data(), k * 8); gp[0] = k; _exit(9); } };
        static struct At { static void ex() { size_t k = std::min(gs->choices.size(), gcap);
            memcpy(gp + 1, gs->choices.data(), k * 8); gp[0] = k; } } at;
        (void)at;
        for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGPROF, SIGTRAP}) signal(sg, H::dump);
        atexit(At::ex);
        extern void pbt_set_death_cb(void (*)()); pbt_set_death_cb(At::ex);
        try { p.fn(s); } catch (Failure &) {}
        At::ex(); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    std::vector<uint64_t> c(m.p + 1, m.p + 1 + m.p[0]);
    munmap(m.p, (m.cap + 1) * 8); close(fd);
    return c;
}

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
void pbt_set_death_cb(void (*f)()) { if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(f); }

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> c, const std::string &tag, double budget_s, int &evals) {
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
    auto bad = [&](const std::vector<uint64_t> &x) { evals++; Outcome o = run_forked(p, x, true); return !o.ok && o.tag == tag; };
    auto stop = [&] { return elapsed() > budget_s || evals > 3000; };
    while (!c.empty() && c.back() == 0) c.pop_back();
    bool progress = true;
    while (progress && !stop()) {
        progress = false;
        // truncate the tail
        for (size_t keep = 0; keep < c.size() && !stop(); keep = keep * 2 + 1) {
            std::vector<uint64_t> x(c.begin(), c.begin() + keep);
            if (bad(x)) { c = x; progress = true; break; }
        }
        // delete chunks
        for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1 && !stop(); len /= 2) {
            for (size_t i = 0; i + len <= c.size() && !stop();) {
                std::vector<uint64_t> x(c); x.erase(x.begin() + i, x.begin() + i + len);
                if (bad(x)) { c = x; progress = true; } else i += len;
            }
            if (len == 1) break;
        }
        // lower values
        for (size_t i = 0; i < c.size() && !stop(); i++) {
            if (!c[i]) continue;
            std::vector<uint64_t> x(c); x[i] = 0;
            if (bad(x)) { c = x; progress = true; continue; }
            uint64_t lo = 0, hi = c[i];
            for (int k = 0; k < 12 && hi - lo > 1 && !stop(); k++) {
                uint64_t mid = lo + (hi - lo) / 2; x = c; x[i] = mid;
                if (bad(x)) { hi = mid; c = x; progress = true; } else lo = mid;
            }
        }
        while (!c.empty() && c.back() == 0) c.pop_back();
    }
    return c;
}

static void worker(const Prop &p, uint64_t seed, uint64_t w, uint64_t nw, uint64_t ncases, Shared *sh,
                   Shared *all, uint64_t nall, const std::string &statpath, uint64_t upto) {
    std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> keys;
    uint64_t n = 0, ntcases = 0; std::vector<std::string> samples;
    for (uint64_t i = w; i < ncases && i <= upto; i += nw) {
        bool stop = false;
        for (uint64_t k = 0; k < nall; k++) if (all && all[k].state == 2 && all[k].cur < i) stop = true;
        if (stop) break;
        sh->cur = i;
        set_cpu_timer(CASE_CPU_LIMIT);
        Src s; s.rng = Rng(case_seed(seed, p.name, i)); s.labels = &labels;
        try { p.fn(s); }
        catch (Failure &f) {
            snprintf(sh->tag, sizeof sh->tag, "%s", f.tag.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
            sh->state = 2; break;
        }
        n++; if (s.nontrivial) { ntcases++; for (auto k : s.nt_keys) keys.insert(k);
            if (samples.size() < 2 && !s.desc.empty()) samples.push_back(s.desc); }
        sh->done = n;
    }
    set_cpu_timer(0);
    std::ofstream f(statpath, std::ios::binary);
    f << n << " " << ntcases << " " << labels.size() << " " << keys.size() << " " << samples.size() << "\n";
    for (auto &l : labels) f << l.second << " " << l.first << "\n";
    for (auto &sm : samples) f << jesc(sm) << "\n";
    for (auto k : keys) f << k << "\n";
    f.close();
    if (sh->state == 0) sh->state = 1;
}

int run_main(int argc, char **argv) {
    std::string tier = "quick", out, replay, only, repdir = ".";
    uint64_t seed = 1; int workers = 8; double scale = 1; double shrink_s = 60; bool list = false; uint64_t one = UINT64_MAX;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx(); else if (a == "--prop") only = nx();
        else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--repdir") repdir = nx();
        else if (a == "--shrink-s") shrink_s = atof(nx().c_str()); else if (a == "--list") list = true;
        else if (a == "--one") one = strtoull(nx().c_str(), 0, 10);
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (list) { for (auto &p : registry()) printf("%s %lu %lu\n", p.name.c_str(), p.quick, p.thorough); return 0; }

    if (!replay.empty()) {
        std::ifstream f(replay); std::string line, name; std::vector<uint64_t> c;
        uint64_t pseed = 0, pw = 0, pn = 0, pidx = 0, ncs = 0; bool prefix = false;
        while (std::getline(f, line)) {
            std::istringstream ss(line); std::string k; ss >> k;
            if (k == "prop") ss >> name;
            else if (k == "choices") { uint64_t v; while (ss >> v) c.push_back(v); }
            else if (k == "prefix") { ss >> pseed >> pw >> pn >> pidx >> ncs; prefix = true; }
        }
        for (auto &p : registry()) if (p.name == name) {
            if (prefix) {
                Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                pid_t pid = fork(); if (!pid) { worker(p, pseed, pw, pn, ncs, sh, nullptr, 0, "/dev/null", pidx); _exit(0); }
                int st; waitpid(pid, &st, 0);
                bool bad = sh->state != 1;
                printf("%s prop=%s %s %s\n", bad ? "REPRODUCED" : "PASSED", name.c_str(), sh->tag, sh->msg); return bad;
            }
            Outcome o = run_forked(p, c, false);
            printf("%s prop=%s tag=%s msg=%s\ncase: %s\n", o.ok ? "PASSED" : "REPRODUCED", name.c_str(), o.tag.c_str(), o.msg.c_str(), o.desc.c_str());
            return !o.ok;
        }
        fprintf(stderr, "no such property '%s' in this binary\n", name.c_str()); return 2;
    }

    std::ostringstream js; js << "{\"props\":["; bool firstp = true; int rc = 0;
    for (auto &p : registry()) {
        if (!only.empty() && p.name != only) continue;
        uint64_t ncases = (uint64_t)((tier == "thorough" ? p.thorough : p.quick) * scale + 0.5);
        if (ncases == 0) continue;
        if (one != UINT64_MAX) {
            auto c = gen_choices(p, case_seed(seed, p.name, one));
            Outcome o = run_forked(p, c, false);
            printf("%s %s %s\n%s\n", o.ok ? "ok" : "FAIL", o.tag.c_str(), o.msg.c_str(), o.desc.c_str()); continue;
        }
        int nw = (int)std::min<uint64_t>(workers, ncases);
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void *)sh, 0, sizeof(Shared) * nw);
        char td[] = "/tmp/pbtstatXXXXXX"; if (!mkdtemp(td)) { perror("mkdtemp"); return 2; }
        std::vector<pid_t> pids(nw);
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < nw; w++) {
            pids[w] = fork();
            if (!pids[w]) {
                // only the first worker's reports are kept (tail shown on failure)
                const char *keep = getenv("PBT_ERR");
                int n = open(keep ? keep : (std::string(td) + "/err" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | (keep ? O_APPEND : O_TRUNC), 0600); dup2(n, 2);
                worker(p, seed, w, nw, ncases, &sh[w], sh, nw, std::string(td) + "/" + std::to_string(w), UINT64_MAX); _exit(0); }
        }
        std::vector<std::string> how(nw);
        for (int w = 0; w < nw; w++) {
            int st; pid_t got = wait(&st); int k = std::find(pids.begin(), pids.end(), got) - pids.begin();
            if (k < nw && sh[k].state == 0) {      // died
                sh[k].state = 2;
                if (WIFSIGNALED(st)) how[k] = WTERMSIG(st) == SIGPROF ? "hang" : "crash"; else how[k] = "crash";
                snprintf(sh[k].tag, sizeof sh[k].tag, "%s", how[k].c_str());
                snprintf(sh[k].msg, sizeof sh[k].msg, "worker died, status 0x%x", st);
            }
        }
        uint64_t evals = 0, ntc = 0; std::map<std::string, uint64_t> labels; std::set<uint64_t> keys; std::vector<std::string> samples;
        for (int w = 0; w < nw; w++) {
            std::string pth = std::string(td) + "/" + std::to_string(w);
            std::ifstream f(pth, std::ios::binary); uint64_t a, b; size_t nl, nk, ns; std::string line;
            if (f && f >> a >> b >> nl >> nk >> ns) {
                std::getline(f, line); evals += a; ntc += b;
                for (size_t i = 0; i < nl; i++) { std::getline(f, line); size_t sp = line.find(' '); labels[line.substr(sp + 1)] += strtoull(line.c_str(), 0, 10); }
                for (size_t i = 0; i < ns; i++) { std::getline(f, line); if (samples.size() < 4) samples.push_back(line); }
                for (size_t i = 0; i < nk; i++) { std::getline(f, line); keys.insert(strtoull(line.c_str(), 0, 10)); }
            } else evals += sh[w].done;
            unlink(pth.c_str());
        }
        int bw = -1; for (int w = 0; w < nw; w++) if (sh[w].state == 2 && (bw < 0 || sh[w].cur < sh[bw].cur)) bw = w;
        std::string failjs = "null", report;
        for (int w = 0; w < nw; w++) {
            std::string ep = std::string(td) + "/err" + std::to_string(w);
            if (w == bw) { std::ifstream f(ep); std::string l; int k = 0; while (k < 12 && std::getline(f, l)) { report += "    " + l + "\n"; k++; } }
            unlink(ep.c_str());
        }
        rmdir(td);
        if (bw >= 0) {
            std::string tag = sh[bw].tag, msg = sh[bw].msg; uint64_t idx = sh[bw].cur;
            auto c = gen_choices(p, case_seed(seed, p.name, idx));
            int conf = 0; Outcome o;
            for (int k = 0; k < 3; k++) { o = run_forked(p, c, true); if (!o.ok) { conf++; tag = o.tag; } }
            std::string path = repdir + "/" + p.name + ".replay"; std::string kind;
            std::ofstream f;
            if (conf == 3) {
                int ev = 0; auto c2 = shrink(p, c, tag, shrink_s, ev);
                o = run_forked(p, c2, true); if (o.ok) { c2 = c; o = run_forked(p, c2, true); }
                kind = "choices"; msg = o.msg; f.open(path);
                f << "prop " << p.name << "\nseed " << seed << " case " << idx << " shrink-evaluations " << ev << "\ntag " << o.tag << "\nmsg " << o.msg << "\ncase " << o.desc << "\nchoices";
                for (auto v : c2) f << " " << v;
                f << "\n";
            } else {
                // not a function of the case alone: replay the whole history of that worker
                kind = "prefix"; f.open(path);
                f << "prop " << p.name << "\ntag " << tag << "\nmsg " << msg << "\nprefix " << seed << " " << bw << " " << nw << " " << idx << " " << ncases << "\n";
                f.close(); conf = 0;
                for (int k = 0; k < 3; k++) {
                    Shared *s2 = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                    pid_t pid = fork(); if (!pid) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); worker(p, seed, bw, nw, ncases, s2, nullptr, 0, "/dev/null", idx); _exit(0); }
                    int st; waitpid(pid, &st, 0); if (s2->state != 1) conf++;
                    munmap(s2, sizeof(Shared));
                }
            }
            f.close();
            std::ostringstream fj;
            fj << "{\"tag\":\"" << jesc(tag) << "\",\"msg\":\"" << jesc(msg) << "\",\"case\":" << idx << ",\"kind\":\"" << kind << "\",\"confirmed\":" << conf
               << ",\"replay\":\"" << jesc(path) << "\",\"desc\":\"" << jesc(o.desc) << "\"}";
            failjs = fj.str(); if (conf == 3) rc = 1;
            if (!report.empty()) printf("%s", report.c_str());
            fprintf(stderr, "FAIL %s case %lu tag=%s confirmed=%d: %s\n  case: %s\n", p.name.c_str(), idx, tag.c_str(), conf, msg.c_str(), o.desc.c_str());
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double wall = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
        if (!firstp) js << ","; firstp = false;
        js << "{\"name\":\"" << p.name << "\",\"rule\":\"" << jesc(p.rule) << "\",\"evaluations\":" << evals << ",\"nontrivial_cases\":" << ntc
           << ",\"distinct_nontrivial\":" << keys.size() << ",\"wall_s\":" << wall << ",\"labels\":{";
        bool fl = true; for (auto &l : labels) { if (!fl) js << ","; fl = false; js << "\"" << jesc(l.first) << "\":" << l.second; }
        js << "},\"samples\":["; bool fs = true; for (auto &sm : samples) { if (!fs) js << ","; fs = false; js << "\"" << sm << "\""; }
        js << "],\"failure\":" << failjs << "}";
        fprintf(stderr, "%-24s %8lu cases, %8zu distinct non-trivial, %.1f s%s\n", p.name.c_str(), evals, keys.size(), wall, bw >= 0 ? "  FAILED" : "");
        munmap(sh, sizeof(Shared) * nw);
    }
    js << "]}";
    if (!out.empty()) { std::ofstream f(out); f << js.str() << "\n"; }
    return rc;
}
}

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
#endif
