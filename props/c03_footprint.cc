// C03: what each call reads and writes.
#include "session.h"
using namespace cd;

PROPERTY(encode_footprint, 120000, 2000000, "one encoder history; each frame goes to a guarded, arbitrarily prefilled and unaligned buffer; input is compared before/after, then overwritten, and the bytes must equal those of a control run with other prefill; non-trivial = not silence, keyed by output bytes") {
    Cfg c = gen_cfg(s); SigDesc sd; auto st = gen_enc_steps(s, c, 5, &sd);
    s.note("%s sig=%s %s", c.str().c_str(), sd.d.c_str(), desc(st).c_str());
    Enc a(c), b(c); uint64_t h = c.key();
    for (size_t i = 0; i < st.size(); i++) {
        auto ctl = enc_step(b.h, c, st[i], (int)s.draw(256));
        const int G = 64; int off = (int)s.draw(8), fill = (int)s.draw(256), stride = s.chance(1, 40) ? (int)s.range(6, 600) : 1 + (int)s.draw(4), sz = fmt_bytes(st[i].f);
        std::vector<uint8_t> out(st[i].nbytes + 2 * G + 8); Rng r(s.seed()); for (auto &x : out) x = s.replay ? (uint8_t)r.next() : (uint8_t)r.next();
        std::vector<uint8_t> before = out;
        size_t cnt = (size_t)(c.ns() - 1) * stride + 1; Aligned in(cnt * sz, fill);
        for (int k = 0; k < c.ns(); k++) memcpy(in.p + (size_t)k * stride * sz, &st[i].pcm[(size_t)k * sz], sz);
        std::vector<uint8_t> ib(in.p, in.p + cnt * sz);
        if (st[i].disable) lc3_encoder_disable_ltpf(a.h);
        int ret = lc3_encode(a.h, st[i].f, in.p, stride, st[i].nbytes, out.data() + G + off);
        CHECK(ret == 0, "retval", "frame %zu: encode returned %d", i, ret);
        CHECK(!memcmp(ib.data(), in.p, ib.size()), "input-modified", "frame %zu: the input PCM was modified", i);
        for (size_t k = 0; k < out.size(); k++) if (k < (size_t)(G + off) || k >= (size_t)(G + off + st[i].nbytes))
            CHECK(out[k] == before[k], "overrun", "frame %zu: byte %ld relative to the %d byte output buffer was written", i, (long)k - G - off, st[i].nbytes);
        for (int k = 0; k < st[i].nbytes; k++) CHECK(out[G + off + k] == ctl[k], "underwrite", "frame %zu (%d bytes): output byte %d depends on the previous content of the buffer (%02x or %02x, prefill %02x)", i, st[i].nbytes, k, out[G + off + k], ctl[k], before[G + off + k]);
        memset(in.p, 0x5a, cnt * sz); std::fill(out.begin(), out.end(), 0x33);   // caller reuses its buffers
        h ^= pbt::hash_bytes(ctl.data(), ctl.size(), i);
    }
    if (sd.kinds != 1) s.nt(h);
}

PROPERTY(decode_footprint, 160000, 3000000, "one decoder history (valid, corrupted, lost); each frame is written with a stride into a guarded prefilled buffer; non-trivial = at least one valid frame") {
    Cfg c = gen_cfg(s); auto st = gen_dec_steps(s, c, 6);
    s.note("%s %s", c.str().c_str(), desc(st).c_str());
    Dec a(c), b(c); uint64_t h = c.key(); bool ok = false;
    for (size_t i = 0; i < st.size(); i++) {
        int rb; auto ctl = dec_step(b.h, c, st[i], &rb, (int)s.draw(256));
        const int G = 64; int stride = s.chance(1, 40) ? (int)s.range(6, 600) : 1 + (int)s.draw(5), sz = fmt_bytes(st[i].f), off = (int)s.draw(8);
        size_t cnt = (size_t)(c.ns() - 1) * stride + 1; Aligned out((cnt + 2 * G) * sz); Rng r(s.seed());
        for (size_t k = 0; k < (cnt + 2 * G) * sz; k++) out.p[k] = (uint8_t)r.next();
        std::vector<uint8_t> before(out.p, out.p + (cnt + 2 * G) * sz);
        std::vector<uint8_t> in(st[i].in.size() + 8, 0x77); if (!st[i].lost) memcpy(in.data() + off, st[i].in.data(), st[i].in.size());
        std::vector<uint8_t> ib = in;
        int ret = lc3_decode(a.h, st[i].lost ? nullptr : in.data() + off, st[i].nbytes, st[i].f, out.p + (size_t)G * sz, stride);
        CHECK(ret == rb, "retval", "frame %zu: returned %d, control %d", i, ret, rb);
        CHECK(in == ib, "input-modified", "frame %zu: the input frame was modified", i);
        for (size_t k = 0; k < cnt + 2 * G; k++) {
            bool mine = k >= (size_t)G && k < G + cnt && (k - G) % stride == 0;
            if (mine) { size_t n = (k - G) / stride; CHECK(!memcmp(out.p + k * sz, &ctl[n * sz], sz), "sample", "frame %zu: sample %zu (stride %d) differs from the contiguous control", i, n, stride); }
            else CHECK(!memcmp(out.p + k * sz, &before[k * sz], sz), "overrun", "frame %zu: slot %ld outside the samples (stride %d, %d samples, %s) was written", i, (long)k - G, stride, c.ns(), fmt_name(st[i].f));
        }
        memset(out.p, 0x5a, (cnt + 2 * G) * sz); std::fill(in.begin(), in.end(), 0x33);
        if (!ret) ok = true;
        h ^= pbt::hash_bytes(ctl.data(), ctl.size(), i);
    }
    if (ok) s.nt(h);
}
