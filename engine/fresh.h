// Work done in processes where the library was never called before: lazily
// made tables, caches and hidden registrations show only in the first calls.
#pragma once
#include "session.h"
#include <atomic>
#include <thread>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
namespace fresh {
using namespace cd;
struct Job { Cfg c; bool enc; std::vector<EncStep> e; std::vector<DecStep> d; };
typedef std::vector<std::vector<uint8_t>> Out;
inline Out run_job(const Job &j) {
    Out o; if (j.enc) { Enc x(j.c); for (auto &s : j.e) o.push_back(enc_step(x.h, j.c, s)); }
    else { Dec x(j.c); for (auto &s : j.d) { int r; o.push_back(dec_step(x.h, j.c, s, &r)); o.back().push_back((uint8_t)r); } }
    return o; }
struct W { std::string b; void i(int64_t v) { b.append((char *)&v, 8); } void v(const std::vector<uint8_t> &x) { i(x.size()); b.append((const char *)x.data(), x.size()); }
    void o(const Out &x) { i(x.size()); for (auto &y : x) v(y); } };
struct R { const std::string &b; size_t p = 0; explicit R(const std::string &s) : b(s) {}
    int64_t i() { int64_t v = 0; if (p + 8 <= b.size()) memcpy(&v, b.data() + p, 8); p += 8; return v; }
    std::vector<uint8_t> v() { size_t n = i(); std::vector<uint8_t> x; if (p + n <= b.size()) x.assign(b.begin() + p, b.begin() + p + n); p += n; return x; }
    Out o() { Out x(i()); for (auto &y : x) y = v(); return x; } };
inline void put(W &w, const Job &j) { w.i(j.c.hr); w.i(j.c.dt); w.i(j.c.sr); w.i(j.c.pcm); w.i(j.enc); w.i(j.e.size()); w.i(j.d.size());
    for (auto &x : j.e) { w.i(x.nbytes); w.i(x.f); w.i(x.disable); w.v(x.pcm); } for (auto &x : j.d) { w.i(x.lost); w.i(x.nbytes); w.i(x.f); w.v(x.in); } }
inline Job get(R &r) { Job j; j.c.hr = r.i(); j.c.dt = r.i(); j.c.sr = r.i(); j.c.pcm = r.i(); j.enc = r.i(); j.e.resize(r.i()); j.d.resize(r.i());
    for (auto &x : j.e) { x.nbytes = r.i(); x.f = (Fmt)r.i(); x.disable = r.i(); x.pcm = r.v(); } for (auto &x : j.d) { x.lost = r.i(); x.nbytes = r.i(); x.f = (Fmt)r.i(); x.in = r.v(); } return j; }
inline Job gen(Src &g, int maxf, const Cfg *c0) { Job j; j.c = c0 ? *c0 : gen_cfg(g, 2, 2); j.enc = g.coin(); if (j.enc) j.e = gen_enc_steps(g, j.c, maxf); else j.d = gen_dec_steps(g, j.c, maxf); return j; }
// Calls f in a child, returns what it wrote; a failed check of the child fails here
template <class F> std::string child(const char *what, F f) {
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
    pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
    if (!pid) {
        close(fd[0]); struct rlimit rl = {40, 40}; setrlimit(RLIMIT_CPU, &rl);
        W w; std::string out; try { f(w); out = "0" + w.b; } catch (pbt::Failure &x) { out = "1" + x.tag + ": " + x.msg; }
        for (size_t o = 0; o < out.size();) { ssize_t n = write(fd[1], out.data() + o, out.size() - o); if (n <= 0) break; o += n; }
        _exit(0); }
    close(fd[1]); std::string in; char buf[65536]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, n);
    close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    CHECK(st == 0 && !in.empty(), "died", "%s: the process ended by %s %d", what, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    CHECK(in[0] == '0', "failed", "%s: %s", what, in.c_str() + 1);
    return in.substr(1);
}
inline std::string what(const Job &j) { return std::string(j.enc ? "enc " : "dec ") + j.c.str() + " x" + std::to_string(j.e.size() + j.d.size()); }
}
