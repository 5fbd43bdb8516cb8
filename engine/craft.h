// Frames assembled field by field through the reference writer: valid by
// construction, with field values an encoder may never choose.
#pragma once
#include "codec.h"
#include "ref.h"
namespace cd {
inline ref::Mode mode_of(const Cfg &c) { return ref::Mode{c.dti(), ref::rate_index(c.hr, c.sr)}; }
inline int pcm_index(const Cfg &c) { return ref::rate_index(c.hr, c.pcm); }

inline ref::Frame gen_fields(Src &s, const ref::Mode &m, int nbytes) {
    ref::Frame f; f.nbytes = nbytes; Rng r(s.seed());
    f.bw = m.bw_bits() && s.chance(1, 3) ? (int)s.draw(m.sr + 1) : m.sr;
    f.nfilters = m.nfilters(f.bw); int ne = m.ne();
    f.lsb = m.lsb_allowed(nbytes) && s.chance(1, 4);
    switch (s.weighted({5, 2, 1, 1})) { case 0: f.g_idx = std::min(255, std::max(0, m.gain_off(nbytes) + s.range(-40, 60))); break; case 1: f.g_idx = (int)s.draw(256); break; case 2: f.g_idx = 0; break; default: f.g_idx = 255; }
    for (int k = 0; k < f.nfilters; k++) if (s.coin()) { int mo = m.dt <= 1 ? 4 : 8; f.order[k] = s.chance(1, 3) ? mo : 1 + (int)s.draw(mo); int ext = s.weighted({4, 1, 1});
        for (int i = 0; i < f.order[k]; i++) f.rc[k][i] = ext == 0 ? (int)r.below(9) - 4 : ext == 1 ? (int)r.below(17) - 8 : (r.next() & 1 ? 8 : -8); if (!f.rc[k][f.order[k] - 1]) f.rc[k][f.order[k] - 1] = 1; }
    f.pitch = !ref::is_hr(m.sr) ? s.chance(3, 4) : s.chance(1, 4); f.active = f.pitch && s.chance(3, 4); f.pitch_index = f.pitch ? (int)(s.chance(1, 4) ? s.pick(std::vector<int>{0, 1, 379, 380, 381, 439, 440, 511, 3, 127}) : s.draw(512)) : 0;
    f.lfcb = (int)r.below(32); f.hfcb = (int)r.below(32); f.shape = (int)s.draw(4); int ng[] = {2, 4, 4, 8}; f.gain = (int)r.below(ng[f.shape]); f.ls_a = r.next() & 1;
    f.idx_a = (int)r.below(f.shape < 2 ? (uint64_t)ref::SIZE_A0 : f.shape == 2 ? (uint64_t)ref::SIZE_A2 : (uint64_t)ref::SIZE_A3 / 2); if (s.chance(1, 8)) f.idx_a = s.coin() ? 0 : (f.shape < 2 ? ref::SIZE_A0 : f.shape == 2 ? ref::SIZE_A2 : ref::SIZE_A3 / 2) - 1;
    if (f.shape == 0) { f.idx_b = (int)r.below(6); f.ls_b = r.next() & 1; }
    f.nf = (int)s.draw(8);
    f.nq = s.chance(1, 3) ? ne : 2 + 2 * (int)s.draw(ne / 2); f.q.assign(ne, 0);
    double sc = std::exp2((double)s.range(-3, 9)); bool huge = s.chance(1, 8); int hshift = huge ? (int)s.draw(m.max_shift() + 1) : 0;
    for (int i = 0; i < f.nq; i++) { double u = r.unit(), v = -std::log(1 - u * .9999) * sc * (f.nq > 40 ? std::exp(-2.0 * i / f.nq) : 1); f.q[i] = (int)std::min(v, 4.0 * (1 << 14) - 1); if (r.next() & 1) f.q[i] = -f.q[i]; }
    if (huge) { int i = (int)r.below(f.nq); long top = (4L << hshift) - 1; f.q[i] = (int)(r.next() & 1 ? top : -(long)(1L << hshift)); }
    if (!f.q[f.nq - 1] && !f.q[f.nq - 2]) f.q[f.nq - 1] = 1;
    return f;
}
// `tries` shrinking steps to fit the spectrum in the bit budget
inline std::vector<uint8_t> craft_frame(Src &s, const ref::Mode &m, int nbytes) {
    ref::Frame f = gen_fields(s, m, nbytes); Rng r(s.seed()); int ones = (int)s.draw(3); bool fits = false; std::vector<uint8_t> d;
    for (int t = 0; t < 14; t++) {
        d = ref::write(m, f, [&] { return ones == 1 ? 1 : ones == 2 ? 0 : (int)(r.next() & 1); }, &fits);
        if (fits) break;
        if (t % 2 && f.nq > 4) { f.nq = std::max(2, f.nq / 4 * 2); for (size_t i = f.nq; i < f.q.size(); i++) f.q[i] = 0; if (!f.q[f.nq - 1] && !f.q[f.nq - 2]) f.q[f.nq - 1] = 1; }
        else for (auto &q : f.q) q /= (t > 8 ? 64 : 4);
        if (!f.q[f.nq - 1] && !f.q[f.nq - 2]) f.q[f.nq - 1] = 1;
    }
    return d;
}
}
