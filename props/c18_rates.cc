// C18: a PCM rate other than the stream rate resamples, and changes nothing else.
#include "tones.h"
using namespace tn;

static Cfg gen_conv(Src &s) { for (int i = 0; i < 20; i++) { Cfg c = gen_cfg(s, 1, 2); if (c.sr < (c.hr ? 96000 : 48000)) return c; } Cfg c{}; for (auto &k : all_cfgs()) if (!k.hr && k.sr == 16000) c = k; return c; }
static Cfg at_rate(Cfg c, int pcm) { c.pcm = pcm; return c; }
static int gen_size(Src &s, const Cfg &c) { return s.chance(1, 2) ? s.range((c.min_bytes() + c.max_bytes()) / 2, c.max_bytes()) : gen_nbytes(s, c); }
static std::vector<int> above(const Cfg &c) { std::vector<int> v; for (int x : rates(c.hr)) if (x > c.sr) v.push_back(x); return v; }

// The audio comes out at any output rate, from any input rate, at the documented delay
PROPERTY(converted, 20000, 400000, "at least 4 bits by spectral line, distinct configuration, rates and size") {
    Cfg b = gen_conv(s); Cfg c = at_rate(b, s.coin() ? s.pick(above(b)) : b.sr), dc = at_rate(b, c.pcm == b.sr || s.coin() ? s.pick(above(b)) : b.sr);
    auto m = mode_of(c); int nb = gen_size(s, c); bool ltpf = s.coin(); Fmt f = gen_fmt(s); double lv = s.pick(std::vector<double>{.5, .9, .1, .02}); Tones t = gen_tones(s, fmax_of(c), lv);
    double bps = 8. * nb / m.ne(), want = std::min(single_floor(c.hr, m.ne(), bps), fmt_ceiling(f, rms_of(t)) - 3), got = measure(c, dc, f, t, nb, ltpf).snr;
    s.note("%s to %d Hz, %d bytes, %s at %g: %.1f dB, at least %.1f", c.str().c_str(), dc.pcm, nb, fmt_name(f), lv, got, want);
    if (getenv("DUMP")) printf("one %d %d %g %g %g %s %d %s %g\n", c.hr, m.ne(), bps, got, want, c.str().c_str(), nb, fmt_name(f), lv);
    CHECK(got >= want, "snr", "%s to %d Hz, %d bytes, %s, %zu tones at %g (first %g Hz): %.1f dB, at least %.1f dB expected", c.str().c_str(), dc.pcm, nb, fmt_name(f), t.f.size(), lv, t.f[0], got, want);
    if (bps >= 4) s.nt((c.key() * 100000 + dc.pcm) * 1000 + nb);
}

PROPERTY(converted_typical, 2000, 40000, "distinct configuration, rates and size") {
    Cfg b = gen_conv(s); Cfg c = at_rate(b, s.coin() ? s.pick(above(b)) : b.sr), dc = at_rate(b, c.pcm == b.sr || s.coin() ? s.pick(above(b)) : b.sr);
    auto m = mode_of(c); int nb = gen_size(s, c); bool ltpf = s.coin(); double lv = s.pick(std::vector<double>{.5, .9, .1, .02});
    std::vector<double> v; for (int i = 0; i < 15; i++) v.push_back(measure(c, dc, LC3_PCM_FORMAT_FLOAT, gen_tones(s, fmax_of(c), lv), nb, ltpf).snr);
    std::sort(v.begin(), v.end()); double bps = 8. * nb / m.ne(), want = typical_floor(c.hr, m.ne(), bps);
    s.note("%s to %d Hz, %d bytes at %g: median %.1f dB, at least %.1f", c.str().c_str(), dc.pcm, nb, lv, v[7], want);
    if (getenv("DUMP")) printf("med %d %d %g %g %g %s %d %s %g\n", c.hr, m.ne(), bps, v[7], want, c.str().c_str(), nb, "F", lv);
    CHECK(v[7] >= want, "median", "%s to %d Hz, %d bytes at %g: median of 15 signals %.1f dB (worst %.1f), at least %.1f dB expected", c.str().c_str(), dc.pcm, nb, lv, v[7], v[0], want);
    s.nt((c.key() * 100000 + dc.pcm) * 1000 + nb);
}

// What the stream rate cannot carry is dropped, not folded back
PROPERTY(no_alias, 20000, 400000, "distinct configuration and size") {
    Cfg b = gen_conv(s), c = at_rate(b, s.pick(above(b))); int nb = gen_size(s, c);
    Rng r(s.seed()); double lo = .53 * c.sr + (c.dt == 2500 ? 1200 : 600), hi = .49 * c.pcm; if (lo > hi - 200) lo = hi - 200;
    Tones t; int n = 1 + (int)s.draw(4); for (int i = 0; i < n; i++) { t.f.push_back(lo + (hi - lo) * r.unit()); t.a.push_back(.5 / n); t.p.push_back(6.28 * r.unit()); }
    Enc e(c); Dec d(c); lc3_encoder_disable_ltpf(e.h); double in = 0, out = 0; int N = 4 + 60000 / c.dt;
    for (int i = 0; i < N; i++) {
        std::vector<double> x(c.ns()); for (int k = 0; k < c.ns(); k++) x[k] = t.at(((double)i * c.ns() + k) / c.pcm);
        auto p = enc_step(e.h, c, EncStep{nb, LC3_PCM_FORMAT_FLOAT, false, pack(LC3_PCM_FORMAT_FLOAT, x.data(), x.size())}); int q; auto o = dec_step(d.h, c, DecStep{false, nb, LC3_PCM_FORMAT_FLOAT, p}, &q);
        CHECK(!q, "valid", "answered %d", q); if (i < N / 2) continue;
        for (int k = 0; k < c.ns(); k++) { in += x[k] * x[k]; double v = get_sample(LC3_PCM_FORMAT_FLOAT, o.data(), k); out += v * v; }
    }
    double rej = 10 * std::log10(in / std::max(out, 1e-30)); s.note("%s, %d bytes: %zu tones from %g Hz down by %.1f dB", c.str().c_str(), nb, t.f.size(), t.f[0], rej);
    if (getenv("DUMP")) { double f0 = 1e9; for (double f : t.f) f0 = std::min(f0, f); printf("rej %s %g %g %d\n", c.str().c_str(), f0 - c.sr / 2., rej, nb); }
    CHECK(rej >= 50, "alias", "%s, %d bytes: %zu tones from %g Hz, above what the stream carries, come out %.1f dB lower, at least 50 expected", c.str().c_str(), nb, t.f.size(), t.f[0], rej);
    s.nt(c.key() * 1000 + nb);
}

// Losses included: the decoder asked for a higher rate gives the audio of the one at the rate of the stream, and nothing above its band
PROPERTY(lossy, 6000, 120000, "streams of tones with lost or corrupted frames, decoded at the rate of the stream and at a higher one; non-trivial = at least one loss after a good frame, distinct configuration and losses") {
    Cfg b = gen_conv(s), c = at_rate(b, b.sr), dc = at_rate(b, s.pick(above(b))); int nb = gen_size(s, c), N = 4 + 80000 / c.dt, lost = 0;
    Tones t = gen_tones(s, fmax_of(c), s.pick(std::vector<double>{.5, .1, .9})); uint64_t key = (c.key() * 100000 + dc.pcm) * 1000 + nb; double rate = s.pick(std::vector<double>{.1, .3, .6});
    Rng r(s.seed()); Enc e(c); lc3_encoder_disable_ltpf(e.h); Dec d(c), u(dc); std::vector<double> x, y; bool good = false;
    for (int i = 0; i < N; i++) {
        std::vector<double> in(c.ns()); for (int k = 0; k < c.ns(); k++) in[k] = t.at(((double)i * c.ns() + k) / c.pcm);
        auto p = enc_step(e.h, c, EncStep{nb, LC3_PCM_FORMAT_FLOAT, false, pack(LC3_PCM_FORMAT_FLOAT, in.data(), in.size())}); int kind = r.unit() < rate ? 1 + (int)(r.unit() * 2) : 0;
        if (kind == 2) for (auto &v : p) v = 0xff;       // no valid frame
        int a, q; auto o = dec_step(d.h, c, DecStep{kind == 1, nb, LC3_PCM_FORMAT_FLOAT, p}, &a), w = dec_step(u.h, dc, DecStep{kind == 1, nb, LC3_PCM_FORMAT_FLOAT, p}, &q);
        CHECK(a == q, "answer", "%s at %d Hz: frame %d answered %d and %d", c.str().c_str(), dc.pcm, i, a, q); lost += a && good; good |= !a; key = key * 31 + a;
        for (int k = 0; k < c.ns(); k++) x.push_back(get_sample(LC3_PCM_FORMAT_FLOAT, o.data(), k));
        for (int k = 0; k < dc.ns(); k++) y.push_back(get_sample(LC3_PCM_FORMAT_FLOAT, w.data(), k));
    }
    auto amp = [](const std::vector<double> &v, double f, int sr) { double re = 0, im = 0, ph = 6.283185307179586 * f / sr; int n = v.size(); for (int k = 0; k < n; k++) { double wd = .5 - .5 * std::cos(6.283185307179586 * (k + .5) / n), z = wd * v[k]; re += z * std::cos(ph * k); im += z * std::sin(ph * k); } return (re * re + im * im) / ((double)n * n); };
    double ex = 0, ey = 0; for (double v : x) ex += v * v; for (double v : y) ey += v * v; ex /= x.size(); ey /= y.size();
    double hi = 0, lo = .53 * c.sr + (c.dt == 2500 ? 1200 : 600), top = .49 * dc.pcm; if (lo > top - 200) lo = top - 200; for (int i = 0; i < 12; i++) hi = std::max(hi, amp(y, lo + (top - lo) * r.unit(), dc.pcm));
    double dl = 10 * std::log10((ey + 1e-12) / (ex + 1e-12)), rel = 10 * std::log10((hi + 1e-20) / (ex + 1e-12));
    s.note("%s at %d Hz, %d bytes, %d lost of %d: level %+.2f dB, above the band %.1f dB", c.str().c_str(), dc.pcm, nb, lost, N, dl, rel);
    if (getenv("DUMP")) printf("lossy %s %g %g %d %d\n", dc.str().c_str(), dl, rel, lost, nb);
    CHECK(std::fabs(dl) <= .5, "level", "%s at %d Hz, %d bytes, %d losses: the level differs by %+.2f dB", c.str().c_str(), dc.pcm, nb, lost, dl);
    CHECK(rel <= -34, "above", "%s at %d Hz, %d bytes, %d losses: %.1f dB above the band of the stream", c.str().c_str(), dc.pcm, nb, lost, rel);
    if (lost) s.nt(key);
}
