// C27: the very first calls of a process may come from several threads at once.
#include "fresh.h"
using namespace fresh;
PROPERTY(first_calls_together, 600, 20000, "a process in which the library was never called starts 2..6 threads together, each running its own encoder or decoder for 1..6 frames; results compared bit for bit with those of another process running the sessions one after the other, races reported by ThreadSanitizer in its build; non-trivial = three or more frames in total, keyed by the results") {
    int n = 2 + (int)s.draw(5), maxf = 1 + (int)s.draw(6); bool same = s.chance(2, 3); uint64_t seed = s.seed();
    s.note("%d sessions of seed %llu%s", n, (unsigned long long)seed, same ? ", same configuration" : "");
    std::string a = child("one after the other", [&](W &w) {
        Src g; g.rng = Rng(seed); Cfg c0 = gen_cfg(g, 2, 2);
        for (int i = 0; i < n; i++) put(w, gen(g, maxf, same ? &c0 : nullptr));
        R r(w.b); std::vector<Job> jobs; for (int i = 0; i < n; i++) jobs.push_back(get(r));
        for (auto &j : jobs) w.o(run_job(j)); });
    std::vector<Job> jobs; std::vector<Out> want, got(n); R r(a); for (int i = 0; i < n; i++) jobs.push_back(get(r)); for (int i = 0; i < n; i++) want.push_back(r.o());
    std::string desc; for (auto &j : jobs) desc += " " + what(j); s.note("%s", desc.c_str());
    std::string b = child("together", [&](W &w) {
        std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<std::string> err(n);
        for (int i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready.load() < n) ; try { got[i] = run_job(jobs[i]); } catch (pbt::Failure &f) { err[i] = f.msg; } });
        for (auto &t : th) t.join();
        for (int i = 0; i < n; i++) CHECK(err[i].empty(), "thread", "thread %d: %s", i, err[i].c_str());
        for (int i = 0; i < n; i++) w.o(got[i]); });
    R q(b); uint64_t key = n; size_t frames = 0;
    for (int i = 0; i < n; i++) { Out o = q.o(); frames += o.size(); CHECK(o.size() == want[i].size(), "count", "%zu frames of %zu", o.size(), want[i].size());
        for (size_t k = 0; k < o.size(); k++) { int at = first_diff(o[k], want[i][k]); CHECK(at < 0, "interaction", "%s started among %d threads in a new process, frame %zu: byte %d is %02x, alone %02x", what(jobs[i]).c_str(), n, k, at, o[k][at], want[i][k][at]);
            key = pbt::hash_bytes(o[k].data(), o[k].size(), key); } }
    s.label(std::to_string(n) + " threads"); if (frames >= 3) s.nt(key);
}
PROPERTY(moved_between_threads, 3000, 60000, "an encoder or decoder session of 2..8 frames, each call (setup included) made from another thread, some new, than the call before while another instance works on them in between; results compared bit for bit with those of the session in one thread; non-trivial = three or more frames, keyed by the results") {
    Job j, k; j = gen(s, 8, nullptr); bool same = s.coin(); k = gen(s, 4, same ? &j.c : nullptr); s.note("%s, with %s in between", what(j).c_str(), what(k).c_str());
    Out want = run_job(j), wk = run_job(k), got, gk; Enc e, ek; Dec d, dk; std::string err;
    auto in_thread = [&](auto f) { std::thread t([&] { try { f(); } catch (pbt::Failure &x) { err = x.msg; } }); t.join(); CHECK(err.empty(), "thread", "%s", err.c_str()); };
    auto open = [&](const Job &x, Enc &a, Dec &b) { if (x.enc) a.open(x.c); else b.open(x.c); };
    auto step = [&](const Job &x, Enc &a, Dec &b, size_t i, Out &o) { if (x.enc) o.push_back(enc_step(a.h, x.c, x.e[i])); else { int r; o.push_back(dec_step(b.h, x.c, x.d[i], &r)); o.back().push_back((uint8_t)r); } };
    in_thread([&] { open(j, e, d); }); in_thread([&] { open(k, ek, dk); });
    for (size_t i = 0; i < want.size(); i++) { bool here = s.chance(1, 3); if (here) step(j, e, d, i, got); else in_thread([&] { step(j, e, d, i, got); if (gk.size() < wk.size()) step(k, ek, dk, gk.size(), gk); });
        int at = first_diff(got[i], want[i]); CHECK(at < 0, "moved", "%s, frame %zu in another thread: byte %d is %02x, %02x in one thread", what(j).c_str(), i, at, got[i][at], want[i][at]); }
    for (size_t i = 0; i < gk.size(); i++) CHECK(gk[i] == wk[i], "moved", "%s, frame %zu in another thread differs", what(k).c_str(), i);
    uint64_t key = 1; for (auto &o : got) key = pbt::hash_bytes(o.data(), o.size(), key); s.label(j.enc ? "encoder" : "decoder"); if (got.size() >= 3) s.nt(key);
}
