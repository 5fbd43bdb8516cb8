// C07: the four PCM formats carry the same audio.
#include "session.h"
using namespace cd;

PROPERTY(formats_encode, 48000, 960000, "a 16-bit signal given in all four formats (and a 24-bit one in its two packings) must give identical frames; non-trivial = not silence, keyed by frames") {
    Cfg c = gen_cfg(s); int nf = 1 + (int)s.draw(4); SigDesc sd; auto sig = gen_signal(s, c.pcm, (size_t)c.ns() * nf, &sd); bool b24 = s.chance(1, 3);
    bool mix = s.coin();
    s.note("%s sig=%s %s", c.str().c_str(), sd.d.c_str(), b24 ? "24-bit" : "16-bit");
    for (auto &x : sig) { if (b24) x = std::min(8388607.0, std::max(-8388608.0, std::floor(x * 8388608 + .5))) / 8388608; else x = std::min(32767.0, std::max(-32768.0, std::floor(x * 32768 + .5))) / 32768; }
    std::vector<Fmt> fs = b24 ? std::vector<Fmt>{LC3_PCM_FORMAT_S24, LC3_PCM_FORMAT_S24_3LE} : std::vector<Fmt>{LC3_PCM_FORMAT_S16, LC3_PCM_FORMAT_S24, LC3_PCM_FORMAT_S24_3LE, LC3_PCM_FORMAT_FLOAT};
    std::vector<std::unique_ptr<Enc>> e; for (size_t i = 0; i <= fs.size(); i++) e.emplace_back(new Enc(c));
    uint64_t h = c.key(); int nb = gen_nbytes(s, c); bool loud = false; for (double x : sig) if (x) loud = true;
    for (int k = 0; k < nf; k++) {
        std::vector<uint8_t> ref; if (s.chance(1, 4)) nb = gen_nbytes(s, c);
        for (size_t i = 0; i <= fs.size(); i++) {   // the last instance changes format from frame to frame
            if (i == fs.size() && !mix) continue;
            Fmt f = i < fs.size() ? fs[i] : fs[s.draw(fs.size())];
            EncStep st; st.f = f; st.nbytes = nb; st.disable = false; st.pcm = pack(f, &sig[(size_t)k * c.ns()], c.ns());
            auto p = enc_step(e[i]->h, c, st); if (!i) { ref = p; continue; }
            int d = first_diff(p, ref); CHECK(d < 0, "format", "frame %d: byte %d of %d differs between %s and %s input of the same samples", k, d, nb, fmt_name(fs[0]), fmt_name(f));
        }
        h ^= pbt::hash_bytes(ref.data(), ref.size(), k);
    }
    if (loud) s.nt(h);
}

PROPERTY(formats_decode, 96000, 1920000, "one decoder history delivered in the four formats: integers must be the rounded and saturated float samples (24-bit packings identical), and the format of one frame must not influence another; non-trivial = at least one valid frame that is not silent") {
    Cfg c = gen_cfg(s); auto st = gen_dec_steps(s, c, 6);
    s.note("%s %s", c.str().c_str(), desc(st).c_str());
    Dec d[5]; for (auto &x : d) x.open(c);
    uint64_t h = c.key(); bool ok = false; int sat = 0; size_t ns = c.ns();
    for (size_t k = 0; k < st.size(); k++) {
        std::vector<uint8_t> o[5]; int r[5];
        for (int f = 0; f < 4; f++) { DecStep x = st[k]; x.f = (Fmt)f; o[f] = dec_step(d[f].h, c, x, &r[f]); }
        o[4] = dec_step(d[4].h, c, st[k], &r[4]);
        for (int f = 1; f < 5; f++) CHECK(r[f] == r[0], "format", "frame %zu: results differ between formats (%d, %d)", k, r[0], r[f]);
        CHECK(o[4] == o[st[k].f], "format", "frame %zu: %s output depends on the format of earlier frames", k, fmt_name(st[k].f));
        bool quiet = true;
        for (size_t n = 0; n < ns; n++) {
            float x; memcpy(&x, &o[3][n * 4], 4); int16_t a; memcpy(&a, &o[0][n * 2], 2); int32_t b; memcpy(&b, &o[1][n * 4], 4);
            int32_t p = (int32_t)((uint32_t)o[2][n * 3] << 8 | (uint32_t)o[2][n * 3 + 1] << 16 | (uint32_t)o[2][n * 3 + 2] << 24) >> 8;
            CHECK(x >= -1.f && x <= 1.f, "float-range", "frame %zu sample %zu: float output %g outside [-1,1]", k, n, (double)x);
            CHECK(b >= -8388608 && b <= 8388607, "s24-range", "frame %zu sample %zu: S24 output %d is not a sign extended 24-bit value", k, n, b);
            CHECK(b == p, "s24-packing", "frame %zu sample %zu: S24 %d and packed S24 %d differ", k, n, b, p);
            double e16 = std::min(32767.0, std::max(-32768.0, (double)x * 32768)), e24 = std::min(8388607.0, std::max(-8388608.0, (double)x * 8388608));
            CHECK(std::fabs(a - e16) <= .5 + 2e-3 + std::fabs(e16) * 2.4e-7, "s16-value", "frame %zu sample %zu: S16 %d for float sample %.9g (%.4f)", k, n, a, (double)x, e16);
            CHECK(std::fabs(b - e24) <= .5 + 2e-3 + std::fabs(e24) * 1.2e-7, "s24-value", "frame %zu sample %zu: S24 %d for float sample %.9g (%.4f)", k, n, b, (double)x, e24);
            if (x) quiet = false; if (x == 1.f || x == -1.f) sat++;
        }
        if (!r[0] && !quiet) ok = true;
        h ^= pbt::hash_bytes(o[3].data(), o[3].size(), k);
    }
    if (sat) s.label("saturating");
    if (ok) s.nt(h);
}
