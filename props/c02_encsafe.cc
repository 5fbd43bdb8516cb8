// C02: encoding any PCM is memory-safe and free of undefined behaviour (ASan +
// UBSan over exactly-sized heap buffers) and accepts every documented size.
#include "codec.h"
using namespace cd;

PROPERTY(encoder_safe, 96000, 2000000, "a case is one encoder history of 1..6 frames over any configuration, PCM format, stride and size; non-trivial when the PCM is not silence and the history has two or more frames, counted by distinct (configuration, output bytes)") {
    Cfg c = gen_cfg(s, 3, 3);
    Enc e(c);
    int nf = 1 + (int)s.draw(6); Fmt f = gen_fmt(s);
    s.note("%s fmt=%s n=%d", c.str().c_str(), fmt_name(f), nf);
    int nbytes = gen_nbytes(s, c); uint64_t h = c.key(); bool loud = false;
    SigDesc sd; std::vector<double> sig = gen_signal(s, c.pcm, (size_t)c.ns() * nf, &sd);
    s.note("sig=%s", sd.d.c_str());
    for (int i = 0; i < nf; i++) {
        if (s.chance(1, 4)) f = gen_fmt(s);
        if (s.chance(1, 4)) nbytes = gen_nbytes(s, c);
        if (s.chance(1, 12)) lc3_encoder_disable_ltpf(e.h);
        int stride = s.chance(1, 3) ? 1 + (int)s.draw(8) : 1, ns = c.ns();
        size_t cnt = (size_t)(ns - 1) * stride + 1;
        std::unique_ptr<uint8_t[]> in(new uint8_t[cnt * fmt_bytes(f)]);
        Rng r(s.seed());
        for (auto k = 0u; k < cnt * fmt_bytes(f); k++) in[k] = (uint8_t)r.next();
        int kind = s.weighted({6, 2, 2});      // generated signal, raw bit patterns, extremes
        for (int k = 0; k < ns; k++) {
            double x = sig[(size_t)i * ns + k];
            if (kind == 1) {
                if (f == LC3_PCM_FORMAT_FLOAT) { uint32_t b = (uint32_t)r.next(); float v; memcpy(&v, &b, 4); if (!(std::fabs(v) <= 1.f)) v = (float)r.sym(); memcpy(&in[(size_t)k * stride * 4], &v, 4); continue; }
                x = r.sym();
            } else if (kind == 2) x = (r.next() & 1) ? 1.0 : -1.0;
            put_sample(f, in.get(), (size_t)k * stride, x); if (x) loud = true;
        }
#ifdef CD_MSAN
        for (size_t k = 0; k < cnt; k++) if (k % stride) unwritten(&in[k * fmt_bytes(f)], fmt_bytes(f));
#endif
        std::unique_ptr<uint8_t[]> out(new uint8_t[nbytes]); unwritten(out.get(), nbytes);
        int ret = lc3_encode(e.h, f, in.get(), stride, nbytes, out.get());
        CHECK(ret == 0, "retval", "frame %d: %d bytes refused", i, nbytes);
        CHECK(written(out.get(), nbytes), "uninitialised", "frame %d: the %d bytes depend on memory that nobody wrote", i, nbytes);
        s.label(kind == 0 ? "signal" : kind == 1 ? "raw" : "extremes");
        h ^= pbt::hash_bytes(out.get(), nbytes, i);
    }
    if (loud && nf > 1) s.nt(h);
}
