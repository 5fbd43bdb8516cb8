// C12: audio survives the round trip, at the documented delay.
//
// The input is a sum of tones, known at every instant, so the ideal output is
// known at every sample of every output rate.  A stream sampled at another rate
// than the one it was encoded from is shifted by half a sample of each rate
// (the transform centres a sample at n + 1/2).
#include "tones.h"
using namespace tn;

static int gen_size(Src &s, const Cfg &c) { return s.chance(1, 2) ? s.range((c.min_bytes() + c.max_bytes()) / 2, c.max_bytes()) : gen_nbytes(s, c); }

PROPERTY(each_signal, 20000, 600000, "at least 4 bits by spectral line, distinct configuration and size") {
    Cfg c = gen_cfg(s, 1, 3); auto m = mode_of(c); int nb = gen_size(s, c); bool ltpf = s.coin(); Fmt f = gen_fmt(s);
    double lv = s.pick(std::vector<double>{.5, .9, .1, .02, .004}); Tones t = gen_tones(s, fmax_of(c), lv);
    double bps = 8. * nb / m.ne(), want = std::min(single_floor(c.hr, m.ne(), bps), fmt_ceiling(f, rms_of(t)) - 3), got = measure(c, c, f, t, nb, ltpf).snr;
    if (getenv("DUMP")) printf("one %d %d %g %g %g %s %d %s %g\n", c.hr, m.ne(), bps, got, want, c.str().c_str(), nb, fmt_name(f), lv);
    s.note("%s, %d bytes, %s at %g: %.1f dB, at least %.1f", c.str().c_str(), nb, fmt_name(f), lv, got, want);
    CHECK(got >= want, "snr", "%s, %d bytes, %s, %zu tones at %g (first %g Hz): %.1f dB, at least %.1f dB expected", c.str().c_str(), nb, fmt_name(f), t.f.size(), lv, t.f[0], got, want);
    if (bps >= 4) s.nt(c.key() * 1000 + nb);
}

PROPERTY(typical_quality, 3000, 60000, "distinct configuration and size") {
    Cfg c = gen_cfg(s, 1, 3); auto m = mode_of(c); int nb = gen_size(s, c); bool ltpf = s.coin(); Fmt f = gen_fmt(s); double lv = f == LC3_PCM_FORMAT_S16 ? .5 : s.pick(std::vector<double>{.5, .9, .1, .02});
    std::vector<double> v; double cl = 1e9; for (int i = 0; i < 15; i++) { Tones t = gen_tones(s, fmax_of(c), lv); cl = std::min(cl, fmt_ceiling(f, rms_of(t))); v.push_back(measure(c, c, f, t, nb, ltpf).snr); }
    std::sort(v.begin(), v.end()); double bps = 8. * nb / m.ne(), want = std::min(typical_floor(c.hr, m.ne(), bps), cl);
    s.note("%s, %d bytes, %s at %g: median %.1f dB, at least %.1f", c.str().c_str(), nb, fmt_name(f), lv, v[7], want);
    if (getenv("DUMP")) printf("med %d %d %g %g %g %s %d %s %g\n", c.hr, m.ne(), bps, v[7], want, c.str().c_str(), nb, fmt_name(f), lv);
    CHECK(v[7] >= want, "median", "%s, %d bytes, %s at %g: median of 15 signals %.1f dB (worst %.1f), at least %.1f dB expected", c.str().c_str(), nb, fmt_name(f), lv, v[7], v[0], want);
    s.nt(c.key() * 1000 + nb);
}
