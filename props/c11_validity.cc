// C11: every frame the encoder writes is a valid frame for the decoder.
#include "session.h"
using namespace cd;
PROPERTY(encoded_is_decodable, 120000, 3000000, "one encoder history (any signal, sizes changing from frame to frame, pitch filter optionally disabled); every frame must be decoded without concealment by decoders at any PCM rate; non-trivial = not silence, keyed by frames") {
    Cfg c = gen_cfg(s, 2, 3); SigDesc sd; auto st = gen_enc_steps(s, c, 8, &sd); Enc e(c); uint64_t h = c.key();
    Cfg dc = c; dc.pcm = c.sr; Dec d1(dc); auto &r = rates(c.hr); std::vector<int> up; for (int x : r) if (x >= c.sr) up.push_back(x); dc.pcm = s.pick(up); Dec d2(dc);
    s.note("%s sig=%s %s", c.str().c_str(), sd.d.c_str(), desc(st).c_str());
    int skip = s.chance(1, 4) ? (int)s.draw(3) : 0;    // joining late is fine as well
    for (size_t i = 0; i < st.size(); i++) {
        auto p = enc_step(e.h, c, st[i], (int)s.draw(256)); std::vector<float> o(dc.ns() + c.nsc());
        h ^= pbt::hash_bytes(p.data(), p.size(), i); if ((int)i < skip) continue;
        int a = lc3_decode(d1.h, p.data(), (int)p.size(), LC3_PCM_FORMAT_FLOAT, o.data(), 1), b = lc3_decode(d2.h, p.data(), (int)p.size(), LC3_PCM_FORMAT_FLOAT, o.data(), 1);
        CHECK(a == 0, "invalid", "frame %zu (%zu bytes): the decoder answers %d to an encoded frame (%s)", i, p.size(), a, hex(p.data(), p.size()).c_str());
        CHECK(b == 0, "invalid", "frame %zu (%zu bytes): the %d Hz decoder answers %d to an encoded frame", i, p.size(), dc.pcm, b);
    }
    if (sd.kinds != 1) s.nt(h);
}

PROPERTY(smallest_frames, 60000, 2000000, "histories at the smallest frame sizes, of periodic and transient signals whose side parameters take the most room; every frame must be decoded without concealment, and by a decoder that joins there; non-trivial = not silence, keyed by frames") {
    Cfg c = gen_cfg(s, 3, 1); if (s.chance(2, 3)) { c.hr = false; c.dt = s.chance(3, 4) ? 10000 : 7500; c.sr = c.pcm = s.chance(3, 4) ? 48000 : 32000; }
    int nf = 2 + (int)s.draw(8), n = c.min_bytes() + (s.chance(1, 4) ? (int)s.draw(4) : 0); double f0 = 60 + s.unit() * 400, lv = std::pow(2., -s.unit() * 6), duty = .02 + s.unit() * .5, drift = (s.unit() - .5) * .01; Rng r(s.seed()); double nz = s.coin() ? 0 : s.unit() * .1; int shape = (int)s.draw(3); double ph = r.unit();
    s.note("%s %d frames of %d bytes, %.1f Hz shape %d duty %.2f@%.3g noise %.2g", c.str().c_str(), nf, n, f0, shape, duty, lv, nz); uint64_t h = c.key(); Enc e(c); Dec d(c); std::vector<float> o(c.ns());
    for (int k = 0; k < nf; k++) { std::vector<double> x(c.ns()); for (auto &v : x) { ph += f0 / c.pcm; f0 *= 1 + drift / 1000; double t = ph - std::floor(ph); v = shape == 0 ? (t < duty ? 1 : -1) : shape == 1 ? (t < duty * .1 ? 1 : 0) : 2 * t - 1; v = std::max(-1., std::min(1., lv * v + nz * lv * r.sym())); }
        EncStep st{n, LC3_PCM_FORMAT_S16, false, pack(LC3_PCM_FORMAT_S16, x.data(), c.ns())}; auto p = enc_step(e.h, c, st); h ^= pbt::hash_bytes(p.data(), p.size(), k); Dec j(c);
        int a = lc3_decode(d.h, p.data(), n, LC3_PCM_FORMAT_FLOAT, o.data(), 1), b = lc3_decode(j.h, p.data(), n, LC3_PCM_FORMAT_FLOAT, o.data(), 1);
        CHECK(a == 0 && b == 0, "invalid", "frame %d: the decoders answer %d and %d to an encoded frame (%s)", k, a, b, hex(p.data(), p.size()).c_str()); }
    s.nt(h); }

// Rare events of the arithmetic coder (carries, runs of ones, ends on a byte boundary) take many frames
PROPERTY(long_runs, 12000, 400000, "300 frames of noise of varying level at short frames and small sizes; every frame must be decoded without concealment; non-trivial by the frames") {
    Cfg c = gen_cfg(s, 3, 1); c.hr = s.chance(1, 6); c.dt = s.pick(std::vector<int>{2500, 2500, 5000}); c.sr = c.pcm = c.hr ? 48000 : s.pick(std::vector<int>{8000, 8000, 16000, 24000});
    Rng r(s.seed()); int span = 1 + (int)s.draw(60), hi = std::min(c.max_bytes(), c.min_bytes() + span); double ex = s.unit() * 4.5; uint64_t h = c.key();
    s.note("%s 300 frames of %d to %d bytes, levels down to 10^-%.2g", c.str().c_str(), c.min_bytes(), hi, ex); Enc e(c); Dec d(c); std::vector<float> x(c.ns()), o(c.ns()); std::vector<uint8_t> f(c.max_bytes());
    for (int i = 0; i < 300; i++) {
        double a = std::pow(10, -ex * r.unit()); for (auto &v : x) v = (float)(a * r.sym()); int n = c.min_bytes() + (int)(r.unit() * (hi - c.min_bytes() + .999));
        lc3_encode(e.h, LC3_PCM_FORMAT_FLOAT, x.data(), 1, n, f.data()); h ^= pbt::hash_bytes(f.data(), n, i);
        int q = lc3_decode(d.h, f.data(), n, LC3_PCM_FORMAT_FLOAT, o.data(), 1);
        CHECK(q == 0, "invalid", "frame %d: the decoder answers %d to an encoded frame (%s)", i, q, hex(f.data(), n).c_str());
    }
    s.nt(h);
}
