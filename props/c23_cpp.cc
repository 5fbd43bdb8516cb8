// C23: the C++ classes are the C interface applied to every channel.
#include "session.h"
#include <lc3_cpp.h>
using namespace cd;

static int split(int block, int nch, int ch) { return block / nch + (ch < block % nch); }
static lc3::PcmFormat cpp_fmt(Fmt f) { return f == LC3_PCM_FORMAT_S16 ? lc3::PcmFormat::kS16 : f == LC3_PCM_FORMAT_S24 ? lc3::PcmFormat::kS24 : f == LC3_PCM_FORMAT_S24_3LE ? lc3::PcmFormat::kS24In3Le : lc3::PcmFormat::kF32; }

static void check_queries(Src &s, lc3::Encoder &e, lc3::Decoder &d, const Cfg &c, int nch) {
    int br = s.chance(1, 6) ? (int)s.draw(2) * 2147483647 : (int)s.draw(700000), nb = (int)s.draw(700);
    CHECK(e.GetFrameSamples() == c.ns() && d.GetFrameSamples() == c.ns(), "samples", "%s: frame samples %d / %d, expected %d", c.str().c_str(), e.GetFrameSamples(), d.GetFrameSamples(), c.ns());
    int b = lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, nch, br);
    CHECK(e.GetFrameBytes(br) == b && d.GetFrameBytes(br) == b, "bytes", "%s: %d channels at %d bit/s: %d / %d bytes, C interface %d", c.str().c_str(), nch, br, e.GetFrameBytes(br), d.GetFrameBytes(br), b);
    int r = lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, nb);
    CHECK(e.ResolveBitrate(nb) == r && d.ResolveBitrate(nb) == r, "bitrate", "%s: %d bytes: %d / %d bit/s, C interface %d", c.str().c_str(), nb, e.ResolveBitrate(nb), d.ResolveBitrate(nb), r);
    CHECK(e.GetDelaySamples() == c.delay() && d.GetDelaySamples() == c.delay(), "delay", "%s: delay %d / %d, expected %d", c.str().c_str(), e.GetDelaySamples(), d.GetDelaySamples(), c.delay());
}
PROPERTY(classes_equal_c, 12000, 400000, "histories of 1..8 blocks of 1..20 channels through lc3::Encoder and lc3::Decoder, every overload and format, losses, Reset and DisableLTPF included, compared with C contexts fed channel by channel; non-trivial = two or more blocks or channels coded, keyed by configuration, channels and bytes") {
    Cfg c = gen_cfg(s, 2, 2); int nch = 1 + (s.coin() ? (int)s.draw(3) : (int)s.draw(s.chance(1, 8) ? 20 : 8)), nf = 1 + (int)s.draw(8); bool pcm0 = c.pcm == c.sr && s.coin();
    lc3::Encoder e(c.dt, c.sr, pcm0 ? 0 : c.pcm, nch, c.hr); lc3::Decoder d(c.dt, c.sr, pcm0 ? 0 : c.pcm, nch, c.hr);
    check_queries(s, e, d, c, nch);
    std::vector<Enc> ce(nch); std::vector<Dec> cdv(nch); for (auto &x : ce) x.open(c, 0x5a); for (auto &x : cdv) x.open(c, 0x5a);
    std::vector<std::vector<double>> sig; for (int k = 0; k < nch; k++) sig.push_back(gen_signal(s, c.pcm, (size_t)c.ns() * nf));
    uint64_t key = pbt::hkey({(int64_t)c.key(), nch, nf}); s.note("%s %dch %d blocks", c.str().c_str(), nch, nf);
    for (int i = 0; i < nf; i++) {
        if (i && s.chance(1, 10)) { e.Reset(); for (auto &x : ce) x.open(c, 0x11); s.label("encoder reset"); }
        if (i && s.chance(1, 10)) { d.Reset(); for (auto &x : cdv) x.open(c, 0x11); s.label("decoder reset"); }
        if (s.chance(1, 12)) { e.DisableLTPF(); for (auto &x : ce) lc3_encoder_disable_ltpf(x.h); s.label("ltpf disabled"); }
        Fmt f = gen_fmt(s); bool over = f != LC3_PCM_FORMAT_S24_3LE && s.coin(); int lo = c.min_bytes(), hi = c.max_bytes();
        int block = s.chance(1, 2) ? nch * gen_nbytes(s, c) : s.range(nch * lo, nch * hi); block = std::min(block, nch * hi);
        bool bad = s.chance(1, 15); if (bad) block = s.coin() ? (int)s.draw(nch * lo) : nch * hi + 1 + (int)s.draw(50);
        size_t fb = fmt_bytes(f); Aligned in(c.ns() * nch * fb);
        for (int t = 0; t < c.ns(); t++) for (int k = 0; k < nch; k++) put_sample(f, in.p, (size_t)t * nch + k, sig[k][(size_t)i * c.ns() + t]);
        int cap = std::max(block, 1); std::vector<uint8_t> a(cap, 0xee), b(cap, 0xee); int ra, rb = 0; uint8_t *p = b.data();
        for (int k = 0; k < nch; k++) { int n = split(block, nch, k); rb |= lc3_encode(ce[k].h, f, in.p + k * fb, nch, n, p); p += n; }
        if (!over) ra = e.Encode(cpp_fmt(f), in.p, block, a.data());
        else if (f == LC3_PCM_FORMAT_S16) ra = e.Encode((const int16_t *)in.p, block, a.data());
        else if (f == LC3_PCM_FORMAT_S24) ra = e.Encode((const int32_t *)in.p, block, a.data());
        else ra = e.Encode((const float *)in.p, block, a.data());
        CHECK(ra == rb, "encret", "%s %dch block %d (%d bytes, %s%s): Encode returns %d, C interface %d", c.str().c_str(), nch, i, block, fmt_name(f), over ? " overload" : "", ra, rb);
        int at = first_diff(a, b); CHECK(at < 0, "encbytes", "%s %dch block %d (%d bytes, %s%s): byte %d is %02x, C interface %02x", c.str().c_str(), nch, i, block, fmt_name(f), over ? " overload" : "", at, a[at], b[at]);
        if (bad) { s.label("block size refused"); }
        key ^= pbt::hash_bytes(a.data(), a.size(), i);
        // decoding: the block, a damaged copy of it, or nothing
        int loss = s.weighted({6, 2, 1, 1}); const uint8_t *data = a.data(); Fmt g = gen_fmt(s); bool over2 = g != LC3_PCM_FORMAT_S24_3LE && s.coin(); size_t gb = fmt_bytes(g);
        if (loss == 1) { for (int k = 1 + (int)s.draw(6); k; k--) a[s.draw(a.size())] ^= 1 << s.draw(8); }
        if (loss >= 2) { data = nullptr; if (loss == 3) block = 0; }
        size_t tot = c.ns() * nch * gb; Aligned oa(tot + 16, 0x77), ob(tot + 16, 0x77); rb = 0; const uint8_t *q = data;
        for (int k = 0; k < nch; k++) { int n = split(block, nch, k); rb |= lc3_decode(cdv[k].h, data ? q : nullptr, n, g, ob.p + k * gb, nch); if (data) q += n; }
        if (!over2) ra = d.Decode(data, block, cpp_fmt(g), oa.p);
        else if (g == LC3_PCM_FORMAT_S16) ra = d.Decode(data, block, (int16_t *)oa.p);
        else if (g == LC3_PCM_FORMAT_S24) ra = d.Decode(data, block, (int32_t *)oa.p);
        else ra = d.Decode(data, block, (float *)oa.p);
        CHECK(ra == rb, "decret", "%s %dch block %d (%d bytes, %s, %s%s): Decode returns %d, C interface %d", c.str().c_str(), nch, i, block, data ? "received" : "lost", fmt_name(g), over2 ? " overload" : "", ra, rb);
        for (size_t k = 0; k < tot + 16; k++) CHECK(oa.p[k] == ob.p[k], "decpcm", "%s %dch block %d (%d bytes, %s, %s%s): output byte %zu of %zu is %02x, C interface %02x", c.str().c_str(), nch, i, block, data ? "received" : "lost", fmt_name(g), over2 ? " overload" : "", k, tot, oa.p[k], ob.p[k]);
        s.label(std::string(over ? "encode overload " : "encode format ") + fmt_name(f)); s.label(std::string(over2 ? "decode overload " : "decode format ") + fmt_name(g)); if (ra == 1) s.label("concealed");
    }
    if (nch * nf > 1) s.nt(key);
}
PROPERTY(classes_refuse, 4000, 100000, "constructions with at least one parameter outside the supported set: every call answers -1 and leaves the buffers alone; non-trivial = all, keyed by the parameters") {
    static const int dts[] = {2500, 5000, 7500, 10000, 0, -1, 1250, 10001, 20000, 2499}, rts[] = {8000, 16000, 24000, 32000, 48000, 96000, 44100, 0, -8000, 192000, 11025};
    bool hr = s.coin(); int dt = dts[s.draw(10)], sr = rts[s.draw(11)], pcm = s.coin() ? 0 : rts[s.draw(11)], nch = 1 + (int)s.draw(4);
    auto okr = [&](int r) { for (int x : rates(hr)) if (x == r) return true; return false; }; auto okd = [&] { for (int x : durations(hr)) if (x == dt) return true; return false; };
    int ep = pcm > 0 ? pcm : sr;   // as the setup functions read it
    bool valid = okd() && okr(sr) && okr(ep) && ep >= sr;
    lc3::Encoder e(dt, sr, pcm, nch, hr); lc3::Decoder d(dt, sr, pcm, nch, hr); s.note("hr %d dt %d sr %d pcm %d nch %d", hr, dt, sr, pcm, nch);
    std::vector<float> x(960 * 4 + 8, 0.25f); std::vector<uint8_t> o(700 * 4, 0xee); int block = nch * (!hr ? 100 : dt == 2500 ? 200 : 300);
    int r = e.Encode(x.data(), block, o.data()); CHECK((r == 0) == valid && (r == 0 || r == -1), "refuse", "encoder hr %d dt %d sr %d pcm %d: Encode returns %d, configuration is %s", hr, dt, sr, pcm, r, valid ? "valid" : "invalid");
    if (!valid) for (auto v : o) CHECK(v == 0xee, "touched", "refused Encode wrote to the output");
    int r2 = d.Decode(o.data(), block, x.data()); CHECK((r2 >= 0) == valid, "refuse", "decoder hr %d dt %d sr %d pcm %d: Decode returns %d, configuration is %s", hr, dt, sr, pcm, r2, valid ? "valid" : "invalid");
    if (!valid) for (auto v : x) CHECK(v == 0.25f, "touched", "refused Decode wrote to the output");
    s.label(valid ? "valid" : "invalid"); if (!valid) s.nt(pbt::hkey({hr, dt, sr, pcm, nch}));
}
