// C17: silence in, silence out.
#include "conform.h"
using namespace cd;
PROPERTY(silence, 40000, 800000, "frames of digital silence after 0..6 frames of arbitrary audio: encoded frames are valid and decode to exact zero from the fourth one on (immediately when fresh) unless the stream keeps its postfilter active, whose ringing must fade; non-trivial = audio before the silence, keyed by configuration, sizes and audio") {
    Cfg c = gen_cfg(s, 2, 3); auto st = gen_enc_steps(s, c, 6); bool fresh = s.chance(1, 4); if (fresh) st.clear(); Enc e(c); Cfg dc = c; if (s.coin()) dc.pcm = c.sr; Dec d(dc); uint64_t h = c.key(); double pk = 0;
    for (auto &x : st) { auto p = enc_step(e.h, c, x); int r; auto o = dec_step(d.h, dc, DecStep{false, (int)p.size(), LC3_PCM_FORMAT_FLOAT, p}, &r); h ^= pbt::hash_bytes(p.data(), p.size(), 1); for (int k = 0; k < dc.ns(); k++) pk = std::max(pk, std::fabs(get_sample(LC3_PCM_FORMAT_FLOAT, o.data(), k))); }
    int n = 3 + (int)s.draw(8), nb = gen_nbytes(s, c); s.note("%s audio=%zu silence=%d nbytes=%d", c.str().c_str(), st.size(), n, nb);
    auto m = mode_of(c); double since = fresh ? 1e9 : 0, t = 0;
    for (int i = 0; i < n; i++) { if (s.chance(1, 4)) nb = gen_nbytes(s, c); Fmt fi = gen_fmt(s), fo = gen_fmt(s); EncStep x{nb, fi, false, std::vector<uint8_t>((size_t)c.ns() * fmt_bytes(fi), 0)}; auto p = enc_step(e.h, c, x, (int)s.draw(256)); int r; auto o = dec_step(d.h, dc, DecStep{false, nb, fo, p}, &r, 0x33);
        CHECK(r == 0, "valid", "silent frame %d of %d bytes is not decodable", i, nb);
        auto P = ref::parse(m, p.data(), nb); t += c.dt / 1e3; if (P.active && !c.hr) { if (!fresh) since = 0; s.label("postfilter active in silence"); } else since += c.dt / 1e3;
        for (int j = 0; j < (int)P.q.size(); j++) if (fresh || i >= 2) CHECK(P.q[j] == 0, "coded", "silent frame %d codes %d at coefficient %d", i, P.q[j], j);
        if (i >= 3) for (int k = 0; k < dc.ns(); k++) { double v = std::fabs(get_sample(fo, o.data(), k)), lim = 8 * std::max(pk, .05) * std::pow(.6, std::floor(t / 20)) + 1e-6; CHECK(v <= lim, "ringing", "%s: %g ms into silence the output is still %g", c.str().c_str(), t, v); }
        if (fresh || (i >= 3 && since > 2.01 * c.dt / 1e3)) for (int k = 0; k < dc.ns(); k++) CHECK(get_sample(fo, o.data(), k) == 0, "zero", "%s: silent frame %d (%d bytes) decodes to %g at sample %d", c.str().c_str(), i, nb, get_sample(fo, o.data(), k), k); }
    if (!fresh && pk > 1e-3) s.nt(h);
}
