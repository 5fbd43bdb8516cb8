// C16: the effect of losses ends once good frames arrive again.
#include "conform.h"
using namespace cd;
PROPERTY(recovers, 40000, 800000, "the same good stream decoded by a decoder that saw it all and by one that suffered losses, corruption, other frames or a late start before a common run of good frames; without postfilter identical from the second good frame, otherwise converging at the filter's rate; non-trivial = histories differ and the stream is audible, keyed by bytes") {
    Cfg c = gen_cfg(s, 2, 2); Dec a(c), b(c); auto m = mode_of(c); FrameGen fg(s, c); FrameGen other(s, c); int pre = 1 + (int)s.draw(8), post = 3 + (int)s.draw(6); if (s.chance(1, 8)) post = 30 + (int)s.draw(120);
    int burst = s.chance(1, 5) ? 4 + (int)s.draw(60) : 0; pre += burst;      // ends on a run of losses: the concealment fades out
    bool late = s.chance(1, 3); int r; uint64_t h = c.key(); s.note("%s pre=%d post=%d late=%d burst=%d", c.str().c_str(), pre, post, late, burst);
    std::vector<std::vector<uint8_t>> lastgood; bool diff = late && pre; double pk = 0; std::vector<float> oa(c.ns()), ob(c.ns());
    auto peak = [&](std::vector<float> &o) { for (float v : o) pk = std::max(pk, (double)std::fabs(v)); };
    for (int i = 0; i < pre; i++) { auto d = fg.encoded(s); lc3_decode(a.h, d.data(), (int)d.size(), LC3_PCM_FORMAT_FLOAT, oa.data(), 1); peak(oa); if (late) continue;
        switch (i >= pre - burst ? 1 : s.weighted({3, 2, 1, 1})) { case 0: break; case 1: lc3_decode(b.h, nullptr, 0, LC3_PCM_FORMAT_FLOAT, ob.data(), 1); diff = true; peak(ob); continue;
            case 2: d = other.encoded(s); diff = true; break; default: for (int k = 0; k < 6; k++) d[s.draw(d.size())] ^= 1u << s.draw(8); diff = true; }
        lc3_decode(b.h, d.data(), (int)d.size(), LC3_PCM_FORMAT_FLOAT, ob.data(), 1); peak(ob); }
    if (!late && s.chance(1, 150)) { int n = 500 + (int)s.draw(std::min(70000, 1500000 / c.ns())); s.note("then %d losses", n); s.label("very long loss"); for (; n; n--) lc3_decode(b.h, nullptr, 0, LC3_PCM_FORMAT_FLOAT, ob.data(), 1); diff = true; }
    bool everact = !c.hr; double t = 0, since = 0, dmax = 0;
    ref::Decoder<float> rd(m, pcm_index(c));      // tells whether the postfilter is in use
    for (int i = 0; i < post; i++) { auto d = fg.encoded(s); auto p = ref::parse(m, d.data(), (int)d.size()); bool act = !c.hr && rd.ltpf_par(&p, (int)d.size()).active; 
        int ra = lc3_decode(a.h, d.data(), (int)d.size(), LC3_PCM_FORMAT_FLOAT, oa.data(), 1), rb = lc3_decode(b.h, d.data(), (int)d.size(), LC3_PCM_FORMAT_FLOAT, ob.data(), 1);
        if (act) everact = true; CHECK(ra == 0 && rb == 0, "answer", "good frame %d answered %d and %d", i, ra, rb); h ^= pbt::hash_bytes(d.data(), d.size(), i); double e = 0; for (int k = 0; k < c.ns(); k++) e = std::max(e, (double)std::fabs(oa[k] - ob[k])); peak(oa); dmax = std::max(dmax, e);
        // the postfilter looks back one pitch lag (less than 20 ms) into its own output
        if (act) since = 0; else since += c.dt / 1e3;
        t += c.dt / 1e3; bool clean = c.hr || since > 22.5 + c.dt / 1e3;
        if (i < 2) continue;
        if (clean || (!everact && !act)) CHECK(e == 0, "same", "%s: good frame %d after the loss still differs by %g without postfilter", c.str().c_str(), i, e);
        double lim = 8 * std::max(pk, .05) * std::pow(.6, std::floor(t / 20.0)) + 1e-6; CHECK(e <= lim, "converge", "%s: good frame %d (%g ms) still differs by %g (limit %g)", c.str().c_str(), i, t, e, lim); }
    s.label(dmax > 0 ? "diverged then recovered" : "never diverged"); if (diff && pk > 1e-3) s.nt(h);
}
