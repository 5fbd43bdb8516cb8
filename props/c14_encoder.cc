// C14, C28..C31: every decision of the encoder, against the reference model.
#include "encconf.h"
using namespace cd;

// signals aimed at one decision
static void aim(Src &s, const Cfg &c, int what, double *x, size_t n, SigDesc *sd) {
    double sr = c.pcm, lv = std::pow(2., -s.unit() * 8); Rng r(s.seed()); char b[100] = "";
    if (what == EncConform::PITCH) {   // harmonic tones, the pitch slides, jumps, fades into noise, stops
        size_t at = 0; double f0 = 55 + s.unit() * 390, ph = 0; int nh = 1 + (int)s.draw(20);
        while (at < n) { size_t len = std::max<size_t>(1, (size_t)(sr * .03 * s.unit() * (1 + s.draw(4)))); double slope = s.chance(1, 3) ? (s.unit() - .5) * .02 : 0, nz = s.chance(1, 3) ? s.unit() : s.unit() * .05; bool mute = s.chance(1, 10); if (s.chance(1, 4)) f0 = 55 + s.unit() * 390; if (s.chance(1, 8)) f0 *= s.coin() ? 2 : .5;
            for (size_t i = at; i < std::min(n, at + len); i++) { ph += f0 / sr; double v = 0; for (int h = 1; h <= nh && h * f0 < sr / 2; h++) v += std::sin(2 * M_PI * h * ph) / h; x[i] = mute ? 0 : lv * (.4 * v * (1 - nz) + nz * (2 * r.unit() - 1)); f0 *= 1 + slope / 100; f0 = std::max(40., std::min(500., f0)); }
            at += len; }
        snprintf(b, sizeof b, "harmonics@%.3g", lv);
    } else if (what == EncConform::BW) {   // content below a cutoff, a floor above, tones near the limits
        double fc = (s.coin() ? std::array<double, 5>{4000, 8000, 12000, 16000, 24000}[s.draw(5)] : s.unit() * sr / 2) * (1 + (s.unit() - .5) * .1), fl = std::pow(10., -1 - s.unit() * 4); fc = std::min(fc, sr / 2); int nt = 40; std::vector<double> f, a, p; for (int k = 0; k < nt; k++) f.push_back(fc * r.unit()), a.push_back(1. / nt * 2), p.push_back(6.28 * r.unit());
        if (s.chance(1, 3)) { f.push_back(sr / 2 * (1 - .05 * r.unit())); a.push_back(std::pow(10., -s.unit() * 3)); p.push_back(0); }
        size_t cut = s.coin() ? n : s.draw(n) + 1; for (size_t i = 0; i < n; i++) { double v = 0; for (size_t k = 0; k < f.size(); k++) if (i < cut || k % 2) v += a[k] * std::sin(2 * M_PI * f[k] / sr * i + p[k]); x[i] = lv * (v + fl * (2 * r.unit() - 1)); }
        snprintf(b, sizeof b, "cutoff %.0f floor %.2g@%.3g", fc, fl, lv);
    } else {   // transients over a coloured floor
        double fl = std::pow(10., -s.unit() * 5), al = s.unit() * .98, z = 0, env = 0, dec = std::exp(-1 / (sr * .0005 * (1 + s.draw(20)))); double rate = 1 + s.draw(4), f = s.unit() * .5; int kind = (int)s.draw(3);
        for (size_t i = 0; i < n; i++) { if (r.unit() < rate / (sr * .01)) env = .3 + .7 * r.unit(); double ex = kind == 0 ? 2 * r.unit() - 1 : kind == 1 ? std::sin(2 * M_PI * f * i) : (env > .3 ? 1 : .0); z = al * z + (1 - al) * (ex * env); x[i] = lv * (z / (1 - al * .9) * .5 + fl * (2 * r.unit() - 1)); env *= dec; }
        snprintf(b, sizeof b, "transients %d al %.2f floor %.2g@%.3g", kind, al, fl, lv); }
    for (size_t i = 0; i < n; i++) x[i] = std::max(-1., std::min(1., x[i])); sd->d += b; }

static uint64_t run(Src &s, const Cfg &c, unsigned what, int maxf, int *sure, bool disable = true) {
    SigDesc sd; auto v = gen_enc_steps(s, c, maxf, &sd, -1, disable); int nf = (int)v.size();
    if (what != EncConform::SPEC && s.chance(1, 2)) { sd = SigDesc(); std::vector<double> x((size_t)c.ns() * nf); aim(s, c, what, x.data(), x.size(), &sd); for (int i = 0; i < nf; i++) v[i].pcm = pack(v[i].f, x.data() + (size_t)i * c.ns(), c.ns()); }
    if (s.chance(1, 10)) for (auto &e : v) e.nbytes = std::min(e.nbytes, c.min_bytes() + (int)s.draw(4));
    s.note("%s %s %s", c.str().c_str(), sd.d.c_str(), desc(v).c_str());
    EncConform e(c, what); uint64_t key = pbt::hkey({(int64_t)c.key(), (int64_t)sd.kinds}); for (auto &x : v) { e.step(x); key = pbt::hkey({(int64_t)key, e.out[0], e.out[e.out.size() / 2], (int64_t)e.out.size()}); }
    *sure = e.sure; return key; }
#define RULE "encoder histories in all configurations, sample formats and frame sizes, sizes changing within the history; "
PROPERTY(spectrum, 120000, 2000000, RULE "global gain, quantised values, truncation, LSB mode, refinement bits and noise level of each frame against the reference model; non-trivial = at least one frame with a single admissible gain, keyed by configuration, signal kinds and bytes") {
    int n = 0; Cfg c = gen_cfg(s, 3, 3); uint64_t k = run(s, c, EncConform::SPEC, 8, &n); if (n) s.nt(k); }
PROPERTY(ties, 10000, 400000, "first frames whose level is tuned so that one coefficient sits on the limit between two quantised values, 40 levels around it in steps of single precision; compared with the model like in `spectrum`; non-trivial = such a level was found, keyed by bytes") {
    Cfg c = gen_cfg(s, 0, 4); int nb = gen_nbytes(s, c), ns = c.ns(); SigDesc sd; auto x = gen_signal(s, c.pcm, ns, &sd); for (auto &v : x) v *= .5; double g = 1; int pick = (int)s.draw(1 << 20); s.note("%s %s %d bytes", c.str().c_str(), sd.d.c_str(), nb);
    auto go = [&](double k, EncConform &e) { std::vector<double> z(x); for (auto &v : z) v *= k; e.step(EncStep{nb, LC3_PCM_FORMAT_FLOAT, false, pack(LC3_PCM_FORMAT_FLOAT, z.data(), ns)}); };
    EncConform e(c, EncConform::SPEC); go(1, e); double gi = 1 / e.r.gain(e.f.g_idx - e.m.gain_off(nb)), off = e.r.qoff(); std::vector<int> can; std::vector<double> y; for (int i = 0; i < e.f.nq; i++) { double v = std::fabs(e.r.X[i]) * gi, t = std::floor(v + off) - off; y.push_back(v); if (v > 0 && t > 0 && v - t < .02 * v && e.r.eps[i] * gi < 1e-3) can.push_back(i); if (v > 0 && t + 1 - v < .02 * v && e.r.eps[i] * gi < 1e-3) can.push_back(i); }
    if (can.empty()) return; int i = can[pick % can.size()]; double t = std::round(y[i] + off) - off; g = t / y[i];
    for (int k = 0; k < 40; k++) { EncConform z(c, EncConform::SPEC); go(g * (1 + (k - 20) * 3e-8), z); if (k == 20) s.nt(pbt::hash_bytes(z.out.data(), z.out.size(), i)); } }
PROPERTY(bandwidth, 120000, 2000000, RULE "bandwidth index of each frame against the model of the detector; non-trivial = at least one frame with a single admissible value, keyed by configuration, signal kinds and bytes") {
    int n = 0; Cfg c = gen_cfg(s, 3, 0); uint64_t k = run(s, c, EncConform::BW, 6, &n); if (n) s.nt(k); }
PROPERTY(pitch, 60000, 800000, RULE "pitch presence, lag and filter activation of each frame against an integer exact model of the pitch analysis; non-trivial = at least one frame whose prediction is unique, keyed by configuration, signal kinds and bytes") {
    int n = 0; Cfg c = gen_cfg(s, 3, 1); uint64_t k = run(s, c, EncConform::PITCH, 24, &n); if (n) s.nt(k); }
PROPERTY(shaping, 100000, 1000000, RULE "noise shaping codebooks, shape, gain and pulses of each frame against the exhaustive reference search; non-trivial = at least one frame with the nominal prediction, keyed by configuration, signal kinds and bytes") {
    int n = 0; Cfg c = gen_cfg(s, 3, 2); uint64_t k = run(s, c, EncConform::SNS, 8, &n); if (n) s.nt(k); }
PROPERTY(tns, 120000, 1000000, RULE "temporal noise shaping filters of each frame (on or off, order, coefficients) against the reference model; non-trivial = at least one filter decision that is certain, keyed by configuration, signal kinds and bytes") {
    int n = 0; Cfg c = gen_cfg(s, 3, 2); uint64_t k = run(s, c, EncConform::TNS, 6, &n); if (n) s.nt(k); }
// the same over histories of some seconds
static void run_long(Src &s, unsigned what, int err) { int n = 0; Cfg c = gen_cfg(s, 3, err); uint64_t k = run(s, c, what, 400, &n, s.chance(1, 20)); if (n > 20) s.nt(k); }
#define LONG "as the property of the same name over histories of up to 400 frames; non-trivial = more than 20 frames that decide, keyed likewise"
PROPERTY(spectrum_long, 600, 20000, LONG) { run_long(s, EncConform::SPEC, 3); }
PROPERTY(pitch_long, 400, 10000, LONG) { run_long(s, EncConform::PITCH, 1); }
PROPERTY(shaping_long, 400, 10000, LONG) { run_long(s, EncConform::SNS, 2); }
