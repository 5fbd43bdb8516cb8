// Bitstream generators: encoded, mutated, random, lost frames.
#pragma once
#include "codec.h"
#include "craft.h"
namespace cd {
struct FrameGen {
    Cfg c, ec; std::unique_ptr<Enc> enc; std::vector<double> sig; size_t at = 0; int nbytes;
    struct F { bool lost = false; const char *kind = ""; std::vector<uint8_t> data; };
    FrameGen(Src &s, const Cfg &cfg) : c(cfg), ec(cfg) { ec.pcm = ec.sr; nbytes = gen_nbytes(s, c); }
    std::vector<uint8_t> encoded(Src &s) {
        if (!enc) { enc.reset(new Enc(ec)); sig = gen_signal(s, ec.pcm, (size_t)ec.ns() * 4); }
        std::vector<uint8_t> out(nbytes);
        if (at + ec.ns() > sig.size()) at = 0;
        std::vector<uint8_t> in = pack(LC3_PCM_FORMAT_FLOAT, sig.data() + at, ec.ns()); at += ec.ns();
        // float storage must be aligned
        std::vector<float> a(ec.ns()); memcpy(a.data(), in.data(), in.size());
        int r = lc3_encode(enc->h, LC3_PCM_FORMAT_FLOAT, a.data(), 1, nbytes, out.data());
        if (r) pbt::fail("encode", "encoder refused %d bytes for %s", nbytes, c.str().c_str());
        return out;
    }
    F next(Src &s) {
        F f;
        if (s.chance(1, 5)) nbytes = gen_nbytes(s, c);
        switch (s.weighted({6, 5, 5, 2, 2, 1, 5})) {
        case 0: f.kind = "encoded"; f.data = encoded(s); break;
        case 1: { f.kind = "mutated"; f.data = encoded(s); int k = 1 + (int)s.draw(4);
            for (int i = 0; i < k; i++) { size_t b = s.draw(f.data.size() * 8);
                if (s.chance(1, 3)) b = s.coin() ? b % 64 : f.data.size() * 8 - 1 - b % 64;
                f.data[b / 8] ^= 1u << (b % 8); } break; }
        case 2: { f.kind = "random"; int lo = 20, n = s.range(lo, c.max_bytes()); Rng r(s.seed()); f.data.resize(n);
            for (auto &b : f.data) b = (uint8_t)r.next();
            // bias: sparse, dense or ends forced to plausible headers
            int m = (int)s.draw(4); if (m == 1) for (auto &b : f.data) b &= (uint8_t)r.next() & (uint8_t)r.next();
            if (m == 2) for (auto &b : f.data) b |= (uint8_t)r.next() | (uint8_t)r.next();
            if (m == 3) for (size_t i = 0; i < f.data.size(); i++) if (i < f.data.size() - 12) f.data[i] = 0;
            break; }
        case 3: { f.kind = "resized"; f.data = encoded(s); int n = s.range(20, c.max_bytes()); size_t o = f.data.size(); f.data.resize(n);
            Rng r(s.seed()); for (size_t i = o; i < f.data.size(); i++) f.data[i] = (uint8_t)r.next();
            if (s.coin() && o < f.data.size()) std::reverse(f.data.begin(), f.data.end()); break; }
        case 4: f.kind = "lost"; f.lost = true; break;
        case 6: { f.kind = "crafted"; int n = s.chance(1, 2) ? nbytes : s.range(20, c.max_bytes()); f.data = craft_frame(s, mode_of(c), n);
            if (s.chance(1, 6)) f.data[s.draw(f.data.size())] ^= 1u << s.draw(8); break; }
        default: { f.kind = "constant"; f.data.assign(s.range(20, c.max_bytes()), (uint8_t)s.draw(256)); break; }
        }
        return f;
    }
};
}
