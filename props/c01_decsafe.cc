// C01: no byte string, loss pattern, format or stride makes the decoder step
// outside its buffers or execute undefined behaviour (judged by ASan + UBSan
// over exactly-sized heap buffers), and each call answers 0 or 1.
#include "codec.h"
#include "frames.h"
using namespace cd;

PROPERTY(decoder_safe, 180000, 3600000, "a case is one decoder history (1..8 frames; random, crafted, mutated, truncated or lost); non-trivial when at least one frame was parsed as valid (returned 0) and one history feature (loss, corruption, size change, format change) occurred") {
    Cfg c = gen_cfg(s, 3, 3);
    Dec d(c);
    FrameGen fg(s, c);
    int nf = 1 + (int)s.draw(8), ok = 0, bad = 0;
    Fmt f = gen_fmt(s);
    s.note("%s fmt=%s n=%d", c.str().c_str(), fmt_name(f), nf);
    uint64_t h = c.key();
    for (int i = 0; i < nf; i++) {
        if (s.chance(1, 4)) f = gen_fmt(s);
        int stride = s.chance(1, 3) ? 1 + (int)s.draw(8) : 1;
        FrameGen::F fr = fg.next(s);
        size_t cnt = (size_t)(c.ns() - 1) * stride + 1;
        std::unique_ptr<uint8_t[]> out(new uint8_t[cnt * fmt_bytes(f)]); unwritten(out.get(), cnt * fmt_bytes(f));
        std::unique_ptr<uint8_t[]> in(fr.lost ? nullptr : new uint8_t[fr.data.size()]);
        if (in) memcpy(in.get(), fr.data.data(), fr.data.size());
        int r = lc3_decode(d.h, in.get(), fr.lost ? (int)s.draw(401) : (int)fr.data.size(), f, out.get(), stride);
        CHECK(r == 0 || r == 1, "retval", "frame %d (%s, %zu bytes): lc3_decode returned %d", i, fr.kind, fr.data.size(), r);
        CHECK(!fr.lost || r == 1, "retval", "frame %d: lost frame returned %d", i, r);
        for (int k = 0; k < c.ns(); k++) CHECK(written(&out[(size_t)k * stride * fmt_bytes(f)], fmt_bytes(f)), "uninitialised", "frame %d (%s): sample %d depends on memory that nobody wrote", i, fr.kind, k);
        (r ? bad : ok)++;
        s.label(std::string(fr.kind) + (r ? ":concealed" : ":decoded"));
        s.note("[%s %zu->%d]", fr.kind, fr.data.size(), r);
        if (!r) h ^= pbt::hash_bytes(fr.data.data(), fr.data.size());
    }
    if (ok && (bad || nf > 1)) s.nt(h);
}
