// C04: what the process did with the library before makes no difference.
#include "fresh.h"
using namespace fresh;
PROPERTY(first_in_process, 6000, 160000, "an encoder or decoder session run in a process where the library was never called, and in one where 1..4 other sessions of any configuration ran before; compared bit for bit; non-trivial = at least two frames, keyed by the results") {
    int n = 1 + (int)s.draw(4), maxf = 1 + (int)s.draw(6); bool same = s.chance(1, 4); uint64_t seed = s.seed();
    s.note("%d sessions of seed %llu before%s", n, (unsigned long long)seed, same ? ", same configuration" : "");
    std::string a = child("used process", [&](W &w) {
        Src g; g.rng = Rng(seed); Cfg c0 = gen_cfg(g, 2, 2);
        std::vector<Job> jobs; for (int i = 0; i <= n; i++) jobs.push_back(gen(g, maxf, same ? &c0 : nullptr));
        for (int i = 0; i < n; i++) run_job(jobs[i]);
        put(w, jobs[n]); w.o(run_job(jobs[n])); });
    R r(a); Job j = get(r); Out want = r.o(); s.note("%s", what(j).c_str());
    std::string b = child("new process", [&](W &w) { w.o(run_job(j)); });
    R q(b); Out o = q.o(); uint64_t key = 1; CHECK(o.size() == want.size(), "count", "%zu frames of %zu", o.size(), want.size());
    for (size_t k = 0; k < o.size(); k++) { int at = first_diff(o[k], want[k]); CHECK(at < 0, "differ", "%s, frame %zu: byte %d is %02x in a new process, %02x in a used one", what(j).c_str(), k, at, o[k][at], want[k][at]);
        key = pbt::hash_bytes(o[k].data(), o[k].size(), key); }
    s.label(j.enc ? "encoder" : "decoder"); if (o.size() > 1) s.nt(key);
}
