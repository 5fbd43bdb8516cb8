// A library decoder stepped together with the reference decoder.
#pragma once
#include "session.h"
namespace cd {
struct Conform {
    Cfg c; Dec d; ref::Mode m; ref::Decoder<double> rd; ref::Decoder<float> rf; double env = 0, epk = 0, margin = 0; int frame = 0;
    explicit Conform(const Cfg &cfg) : c(cfg), d(cfg), m(mode_of(cfg)), rd(m, pcm_index(cfg)), rf(m, pcm_index(cfg)) {}
    // Returns the verdict; checks it and every sample.  The tolerance is what
    // single precision does to the same computation (env), over a small floor.
    int step(const uint8_t *data, int nbytes, Fmt f, const char *kind, bool pcm = true) {
        Aligned o((size_t)c.ns() * fmt_bytes(f));
        int r = lc3_decode(d.h, data, nbytes, f, o.p, 1), q = rd.decode(data, nbytes); rf.decode(data, nbytes);
        CHECK(r == q, "verdict", "%s frame %d (%s, %d bytes): decoder answers %d, reference %d (%s) [%s]", c.str().c_str(), frame, data ? kind : "lost", nbytes, r, q, q ? (data ? rd.last.why : "lost") : "valid", data ? hex(data, nbytes).c_str() : "");
        double df = 0, e = 0; int at = 0; double lim = f == LC3_PCM_FORMAT_FLOAT ? 1.0 : f == LC3_PCM_FORMAT_S16 ? 32767. / 32768 : 8388607. / 8388608, lsb = f == LC3_PCM_FORMAT_FLOAT ? 0 : f == LC3_PCM_FORMAT_S16 ? .51 / 32768 : .51 / 8388608;
        std::vector<double> got(c.ns());
        for (int k = 0; k < c.ns(); k++) { got[k] = get_sample(f, o.p, k); double y = std::max(-1.0, std::min(lim, rd.pcm[k] / 32768)), dd = std::fabs(y - got[k]);
            if (!(dd <= e)) { e = dd; at = k; } df = std::max(df, std::fabs(rd.pcm[k] - rf.pcm[k]) / 32768); }
        env = std::max(env * .5, df); epk = std::max(epk * .5, std::max(rd.peak, rd.spec_peak) / 32768);
        double tol = 40 * env + 4e-6 * epk + 1e-7 + lsb; margin = e / tol;
        if (pcm) CHECK(e <= tol, "pcm", "%s frame %d (%s, %d bytes, %s): sample %d is %.9g, reference %.9g, tolerance %.3g", c.str().c_str(), frame, data ? kind : "lost", nbytes, fmt_name(f), at, got[at], std::max(-1.0, std::min(lim, rd.pcm[at] / 32768)), tol);
        frame++; return r;
    }
};
}
