// C27: instances used by different threads do not interact.
#include "session.h"
#include <atomic>
#include <thread>
using namespace cd;
struct Job { Cfg c; bool enc; std::vector<EncStep> e; std::vector<DecStep> d; };
typedef std::vector<std::vector<uint8_t>> Out;
static Out run_job(const Job &j) {
    Out o; if (j.enc) { Enc x(j.c); for (auto &s : j.e) o.push_back(enc_step(x.h, j.c, s)); }
    else { Dec x(j.c); for (auto &s : j.d) { int r; o.push_back(dec_step(x.h, j.c, s, &r)); o.back().push_back((uint8_t)r); } }
    return o; }
PROPERTY(threads_do_not_interact, 1300, 60000, "2..6 independent encoders and decoders of any configuration running 1..12 frames each in threads started together, results compared bit for bit with the same sessions run alone, data races reported by ThreadSanitizer in its build; non-trivial = two or more threads with three or more frames in total, keyed by the sessions") {
    int n = 2 + (int)s.draw(5); std::vector<Job> jobs(n); uint64_t key = n; size_t frames = 0; bool same = s.chance(1, 3); Cfg c0 = gen_cfg(s, 2, 2);
    for (auto &j : jobs) { j.c = same ? c0 : gen_cfg(s, 2, 2); j.enc = s.coin(); if (j.enc) j.e = gen_enc_steps(s, j.c, 12); else j.d = gen_dec_steps(s, j.c, 12); frames += j.e.size() + j.d.size(); key = pbt::hkey({(int64_t)key, (int64_t)j.c.key(), j.enc, (int64_t)frames}); s.note(" %s%s x%zu", j.enc ? "enc " : "dec ", j.c.str().c_str(), j.e.size() + j.d.size()); }
    std::vector<Out> want, got(n); for (auto &j : jobs) want.push_back(run_job(j));
    for (int rep = 0; rep < 2; rep++) {
        std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<std::string> err(n);
        for (int i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready.load() < n) std::this_thread::yield(); try { got[i] = run_job(jobs[i]); } catch (pbt::Failure &f) { err[i] = f.msg; } });
        for (auto &t : th) t.join();
        for (int i = 0; i < n; i++) { CHECK(err[i].empty(), "thread", "thread %d: %s", i, err[i].c_str());
            for (size_t k = 0; k < want[i].size(); k++) { int at = first_diff(got[i][k], want[i][k]); CHECK(at < 0, "interaction", "%s %s among %d threads, frame %zu: byte %d is %02x, alone %02x", jobs[i].enc ? "encoder" : "decoder", jobs[i].c.str().c_str(), n, k, at, got[i][k][at], want[i][k][at]); } } }
    s.label(std::to_string(n) + " threads"); if (frames >= 3) s.nt(key);
}
