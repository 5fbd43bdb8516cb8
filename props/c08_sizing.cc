// C08: the sizing functions, against the documented tables and formulas.
#include "codec.h"
#include <climits>
using namespace cd;

static bool okdt(bool hr, int dt) { for (int d : durations(hr)) if (d == dt) return true; return false; }
static bool oksr(bool hr, int sr) { for (int d : rates(hr)) if (d == sr) return true; return false; }

static int pick_int(Src &s) {
    switch (s.draw(6)) {
    case 0: { static const int v[] = {0, -1, 1, INT_MAX, INT_MIN, INT_MAX - 1, 8000, 16000, 24000, 32000, 48000, 96000, 44100, 2500, 5000, 7500, 10000, 192000, 12000, 11025, 22050, 64000, 88200}; return v[s.draw(sizeof v / sizeof *v)]; }
    case 1: return (int)(uint32_t)s.seed();
    case 2: return s.range(0, 2000);
    default: { static const int v[] = {8000, 16000, 24000, 32000, 48000, 96000, 2500, 5000, 7500, 10000}; return v[s.draw(10)] + (s.chance(1, 4) ? s.range(-2, 2) : 0); }
    }
}
static int pick_rate(Src &s, const Cfg &c, int nch) {
    switch (s.draw(5)) {
    case 0: { static const int v[] = {0, 1, 16000, 320000, 672000, 8 * 672000, 8 * 672000 + 1, INT_MAX, INT_MAX - 1, -1, INT_MIN, 2 * 320000}; return v[s.draw(12)]; }
    case 1: return (int)(s.seed() & 0x7fffffff);
    case 2: { // right around the rate of a whole number of bytes
        int n = s.range(0, nch * 700); int64_t b = ((int64_t)n * 8000000) / c.dt + s.range(-2, 2); return (int)std::max<int64_t>(0, b); }
    default: return s.range(0, nch * 700000);
    }
}

PROPERTY(sizing_valid, 3000000, 60000000, "one query on a valid configuration with a generated bit rate, channel count and size, compared with the documented tables and formulas; non-trivial = answer strictly inside its limits, keyed by the query") {
    Cfg c; c.hr = s.chance(3, 8); c.dt = s.pick(durations(c.hr)); c.sr = c.pcm = s.pick(rates(c.hr));
    int nch = 1 + (int)s.draw(8), br = pick_rate(s, c, nch); int64_t lo = c.min_bytes(), hi = c.max_bytes();
    s.note("%s nch=%d bitrate=%d", c.str().c_str(), nch, br);
    // limits, floor of the bit budget
    int64_t raw = (int64_t)std::max(br, 0) * c.dt / 8000000;
    int64_t one = br < 0 ? -1 : std::min(hi, std::max(lo, raw)), blk = br < 0 ? -1 : std::min(nch * hi, std::max(nch * lo, raw));
    int g1 = lc3_hr_frame_bytes(c.hr, c.dt, c.sr, br), gb = lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, nch, br);
    CHECK(g1 == one, "frame-bytes", "frame size for %d bps is %d, documented %ld", br, g1, (long)one);
    CHECK(gb == blk, "block-bytes", "block size of %d channels for %d bps is %d, documented %ld", nch, br, gb, (long)blk);
    if (!c.hr) {
        CHECK(lc3_frame_bytes(c.dt, br) == one, "frame-bytes", "lc3_frame_bytes(%d, %d) = %d, documented %ld", c.dt, br, lc3_frame_bytes(c.dt, br), (long)one);
        CHECK(lc3_frame_block_bytes(c.dt, nch, br) == blk, "block-bytes", "lc3_frame_block_bytes = %d, documented %ld", lc3_frame_block_bytes(c.dt, nch, br), (long)blk);
    }
    int bad = s.coin() ? s.range(-3, 0) : 9 + (int)s.draw(10);
    CHECK(lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, bad, std::max(br, 0)) == -1, "block-bytes", "%d channels accepted", bad);
    // bit rate of a size: ceiling, and inverse of the size
    int nb = s.chance(1, 8) ? (int)(s.seed() & 0x7fffffff) : s.range(0, (int)(nch * hi + 10));
    int64_t eb = std::min<int64_t>(INT_MAX, ((int64_t)nb * 8000000 + c.dt - 1) / c.dt); int rb = lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, nb);
    CHECK(rb == eb, "resolve", "bit rate of %d bytes is %d, documented %ld", nb, rb, (long)eb);
    if (!c.hr) CHECK(lc3_resolve_bitrate(c.dt, nb) == eb, "resolve", "lc3_resolve_bitrate(%d, %d) = %d, documented %ld", c.dt, nb, lc3_resolve_bitrate(c.dt, nb), (long)eb);
    CHECK(lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, -1 - nb) == -1, "resolve", "negative size accepted");
    if (nb >= nch * lo && nb <= nch * hi)
        CHECK(lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, nch, rb) == nb, "inverse", "%d bytes -> %d bps -> %d bytes", nb, rb, lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, nch, rb));
    int64_t ns = (int64_t)c.dt * c.sr / 1000000, dl = (int64_t)c.sr * (c.dt == 7500 ? 4000 : 2500) / 1000000;
    CHECK(lc3_hr_frame_samples(c.hr, c.dt, c.sr) == ns, "samples", "%d samples per frame, expected %ld", lc3_hr_frame_samples(c.hr, c.dt, c.sr), (long)ns);
    CHECK(lc3_hr_delay_samples(c.hr, c.dt, c.sr) == dl, "delay", "delay %d samples, expected %ld", lc3_hr_delay_samples(c.hr, c.dt, c.sr), (long)dl);
    unsigned es = lc3_hr_encoder_size(c.hr, c.dt, c.sr), ds = lc3_hr_decoder_size(c.hr, c.dt, c.sr);
    CHECK(es <= static_size(true, c.dt, c.sr) && ds <= static_size(false, c.dt, c.sr), "static-mem", "memory types customized for %s too small: %zu for %u, %zu for %u", c.str().c_str(), static_size(true, c.dt, c.sr), es, static_size(false, c.dt, c.sr), ds);
    CHECK(es > 0 && ds > 0, "context", "context sizes %u %u", es, ds);
    if (!c.hr) {
        CHECK(lc3_frame_samples(c.dt, c.sr) == ns && lc3_delay_samples(c.dt, c.sr) == dl && lc3_encoder_size(c.dt, c.sr) == es && lc3_decoder_size(c.dt, c.sr) == ds, "twins", "plain and hr=false functions disagree for %s", c.str().c_str());
        CHECK(es <= sizeof(lc3_encoder_mem_48k_t) && ds <= sizeof(lc3_decoder_mem_48k_t), "static-mem", "static 48k memory too small for %s", c.str().c_str());
        if (c.sr <= 16000) CHECK(es <= sizeof(lc3_encoder_mem_16k_t) && ds <= sizeof(lc3_decoder_mem_16k_t), "static-mem", "static 16k memory too small for %s", c.str().c_str());
    }
    if ((one > lo && one < hi) || (blk > nch * lo && blk < nch * hi)) s.nt(pbt::hkey({(int64_t)c.key(), nch, br}));
}

PROPERTY(sizing_monotonic, 1000000, 20000000, "two bit rates (or sizes) in order on one valid configuration; non-trivial = the two answers differ") {
    Cfg c; c.hr = s.chance(3, 8); c.dt = s.pick(durations(c.hr)); c.sr = s.pick(rates(c.hr)); int nch = 1 + (int)s.draw(8);
    int a = std::abs(pick_rate(s, c, nch) & 0x7fffffff), b = std::abs(pick_rate(s, c, nch) & 0x7fffffff); if (a > b) std::swap(a, b);
    int x = lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, nch, a), y = lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, nch, b);
    CHECK(x <= y, "monotonic", "%s: %d bps -> %d bytes but %d bps -> %d bytes", c.str().c_str(), a, x, b, y);
    int p = lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, a), q = lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, b);
    CHECK(p <= q, "monotonic", "%s: %d bytes -> %d bps but %d bytes -> %d bps", c.str().c_str(), a, p, b, q);
    if (x != y) s.nt(pbt::hkey({(int64_t)c.key(), nch, a, b}));
}

PROPERTY(sizing_any, 2000000, 40000000, "arbitrary (duration, rate, mode) triples: documented combinations are accepted, all others are answered -1 or 0; non-trivial = refused triple") {
    bool hr = s.coin(); int dt = pick_int(s), sr = pick_int(s), br = std::abs(pick_int(s) & 0x7fffffff); bool ok = okdt(hr, dt) && oksr(hr, sr);
    s.note("hr=%d dt=%d sr=%d", hr, dt, sr);
    int a[5] = {lc3_hr_frame_samples(hr, dt, sr), lc3_hr_frame_bytes(hr, dt, sr, br), lc3_hr_frame_block_bytes(hr, dt, sr, 2, br), lc3_hr_resolve_bitrate(hr, dt, sr, br), lc3_hr_delay_samples(hr, dt, sr)};
    unsigned e = lc3_hr_encoder_size(hr, dt, sr), d = lc3_hr_decoder_size(hr, dt, sr);
    for (int i = 0; i < 5; i++) CHECK(ok ? a[i] >= 0 : a[i] == -1, "validity", "query %d on (hr=%d, %d us, %d Hz) returned %d", i, hr, dt, sr, a[i]);
    CHECK(ok ? e > 0 && d > 0 : e == 0 && d == 0, "validity", "context sizes %u %u for (hr=%d, %d us, %d Hz)", e, d, hr, dt, sr);
    if (!hr) {
        bool okd = okdt(false, dt);
        CHECK(okd ? lc3_frame_bytes(dt, br) > 0 : lc3_frame_bytes(dt, br) == -1, "validity", "lc3_frame_bytes(%d,%d)=%d", dt, br, lc3_frame_bytes(dt, br));
        CHECK(okd ? lc3_frame_block_bytes(dt, 3, br) > 0 : lc3_frame_block_bytes(dt, 3, br) == -1, "validity", "lc3_frame_block_bytes");
        CHECK(okd ? lc3_resolve_bitrate(dt, br) >= 0 : lc3_resolve_bitrate(dt, br) == -1, "validity", "lc3_resolve_bitrate");
        CHECK(lc3_frame_samples(dt, sr) == a[0] && lc3_delay_samples(dt, sr) == a[4] && lc3_encoder_size(dt, sr) == e && lc3_decoder_size(dt, sr) == d, "twins", "plain and hr=false functions disagree for %d us %d Hz", dt, sr);
        CHECK(LC3_CHECK_DT_US(dt) == okd && LC3_CHECK_SR_HZ(sr) == oksr(false, sr), "macros", "header macros disagree for %d %d", dt, sr);
    }
    CHECK(LC3_HR_CHECK_SR_HZ(hr, sr) == oksr(hr, sr), "macros", "LC3_HR_CHECK_SR_HZ(%d, %d)", hr, sr);
    if (!ok) s.nt(pbt::hkey({hr, dt, sr}));
}
