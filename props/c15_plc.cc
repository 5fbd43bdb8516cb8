// C15: concealment of lost and corrupted frames.
#include "conform.h"
using namespace cd;
// Bytes the reference parser rejects
static std::vector<uint8_t> corrupted(Src &s, const ref::Mode &m, const std::vector<uint8_t> &good) {
    for (int t = 0; t < 12; t++) { auto b = good; Rng r(s.seed());
        if (b.empty() || t > 5) { b.resize(20 + r.below(40)); for (auto &x : b) x = (uint8_t)r.next(); if (t > 9) { std::fill(b.begin(), b.end(), 0xff); } }
        else { int k = 1 + (int)r.below(10); for (int i = 0; i < k; i++) b[b.size() - 1 - r.below(std::min<size_t>(b.size(), t < 3 ? 9 : b.size()))] ^= 1u << r.below(8); }
        if (!ref::parse(m, b.data(), (int)b.size()).ok) return b; }
    return {}; }

PROPERTY(concealment_conforms, 60000, 1500000, "a decoder history of good frames and bursts of lost or corrupted frames, every sample compared with the reference concealment; non-trivial = a burst of two or more after a good frame, keyed by configuration and history") {
    Cfg c = gen_cfg(s, 3, 2); Conform k(c); FrameGen fg(s, c); uint64_t h = c.key(); int n = 2 + (int)s.draw(4); bool any = false, good = false; Fmt f = s.chance(2, 3) ? LC3_PCM_FORMAT_FLOAT : gen_fmt(s);
    for (int i = 0; i < n; i++) { int g = 1 + (int)s.draw(3), b = s.weighted({3, 2, 1}) == 0 ? 1 + (int)s.draw(3) : 1 + (int)s.draw(14);
        for (int j = 0; j < g; j++) { auto d = s.chance(1, 3) ? craft_frame(s, k.m, fg.nbytes) : fg.encoded(s); if (!k.step(d.data(), (int)d.size(), f, "good")) good = true; h ^= pbt::hash_bytes(d.data(), d.size(), i * 50 + j); }
        if (i == 0 && s.chance(1, 8)) {}
        for (int j = 0; j < b; j++) { if (s.coin()) { auto d = corrupted(s, k.m, fg.encoded(s)); if (d.empty()) d.assign(20, 0xff); int r = k.step(d.data(), (int)d.size(), f, "corrupted"); (void)r; s.label("corrupted"); }
            else { k.step(nullptr, s.coin() ? 0 : (int)s.draw(700), f, "lost"); s.label("lost"); } h = pbt::hkey({h, (uint64_t)b, (uint64_t)j}); }
        if (b > 1 && good) any = true; }
    s.note("%s %d bursts", c.str().c_str(), n); if (any) s.nt(h);
}
PROPERTY(lost_equals_corrupted, 60000, 1500000, "two decoders with the same history, one told of each loss and one given corrupted bytes instead; outputs and answers must be identical, bit for bit, during and after; non-trivial = at least one corrupted frame after a good one, keyed by bytes") {
    Cfg c = gen_cfg(s, 3, 2); Dec a(c), b(c); FrameGen fg(s, c); auto m = mode_of(c); int n = 3 + (int)s.draw(14); uint64_t h = c.key(); bool good = false, bad = false; s.note("%s %d frames", c.str().c_str(), n); Fmt f = gen_fmt(s);
    for (int i = 0; i < n; i++) { bool lose = s.chance(1, 2); std::vector<uint8_t> d = s.chance(1, 3) ? craft_frame(s, m, fg.nbytes) : fg.encoded(s); if (!ref::parse(m, d.data(), (int)d.size()).ok) d = fg.encoded(s); auto x = d; if (lose) { x = corrupted(s, m, d); if (x.empty()) lose = false, x = d; }
        int ra, rb; auto oa = dec_step(a.h, c, DecStep{lose, lose ? (int)s.draw(500) : (int)d.size(), f, d}, &ra), ob = dec_step(b.h, c, DecStep{false, (int)x.size(), f, x}, &rb);
        CHECK(ra == lose && rb == lose, "answer", "frame %d: answers %d (told) and %d (bytes), expected %d [%s]", i, ra, rb, lose, hex(x.data(), x.size()).c_str());
        CHECK(oa == ob, "audio", "frame %d (%s): concealing a told loss and corrupted bytes [%s] differs at byte %d", i, lose ? "lost" : "good", hex(x.data(), x.size()).c_str(), first_diff(oa, ob));
        if (lose && good) bad = true; if (!lose) good = true; h ^= pbt::hash_bytes(x.data(), x.size(), i); }
    if (bad) s.nt(h);
}
PROPERTY(fades_out, 3000, 40000, "a good history then 10..1000 losses (a few cases up to 70000); the concealed audio never grows from one group of frames to the next, falls along the documented attenuation and ends in exact or inaudible silence, in every format; non-trivial = audible before the losses, keyed by configuration and level") {
    Cfg c = gen_cfg(s, 2, 2); Dec d(c); FrameGen fg(s, c); int n = s.chance(1, 3) ? 500 + (int)s.draw(500) : 10 + (int)s.draw(150), g = 1 + (int)s.draw(4); if (s.chance(1, 12)) n = 1000 + (int)s.draw(std::min(70000, 2000000 / c.ns())); Fmt f = gen_fmt(s); auto m = mode_of(c); double lev = 0; int r; uint64_t h = 0;
    for (int i = 0; i < g; i++) { auto x = s.chance(1, 3) ? craft_frame(s, m, fg.nbytes) : fg.encoded(s); auto o = dec_step(d.h, c, DecStep{false, (int)x.size(), f, x}, &r); h ^= pbt::hash_bytes(x.data(), x.size(), i); }
    std::vector<double> e; double pk0 = 0;
    for (int i = 0; i < n; i++) { auto o = dec_step(d.h, c, DecStep{true, 0, f, {}}, &r); CHECK(r == 1, "answer", "loss %d answered %d", i, r); double pk = 0, en = 0; for (int k = 0; k < c.ns(); k++) { double v = get_sample(f, o.data(), k); CHECK(std::isfinite(v), "finite", "loss %d sample %d is not finite", i, k); pk = std::max(pk, std::fabs(v)); en += v * v; }
        e.push_back(std::sqrt(en / c.ns())); if (i < 4) { pk0 = std::max(pk0, pk); lev = std::max(lev, e.back()); }
        // after k losses the spectrum is attenuated by .9^(4) .85^(k-7)
        if (i >= 12 && i >= 8) { double att = std::pow(.9, 4) * std::pow(.85, i - 8 - 1); double lim = 60 * std::max(pk0, 1e-3) * att + 1.2 / 32768; if (pk0 < .99) CHECK(pk <= lim, "fade", "%s: loss %d peaks at %g, %g at most expected (peak %g in the first losses)", c.str().c_str(), i, pk, lim, pk0); }
        if (i > 450) CHECK(pk <= 1e-7, "silence", "%s: loss %d still peaks at %g (%s)", c.str().c_str(), i, pk, fmt_name(f)); }
    s.note("%s %s g=%d n=%d level %g", c.str().c_str(), fmt_name(f), g, n, lev); s.label(n > 450 ? "to the end" : "partial"); if (lev > 1e-3) s.nt(pbt::hkey({h, (uint64_t)n}));
}
PROPERTY(idle_silence, 6000, 100000, "a decoder that never received a good frame: every concealed frame is exact silence; non-trivial = more than one frame, keyed by configuration and count") {
    Cfg c = gen_cfg(s, 3, 2); Dec d(c, -1 + 0xa6, s.seed()); int n = 1 + (int)s.draw(12); Fmt f = gen_fmt(s); int r; auto m = mode_of(c); s.note("%s %d", c.str().c_str(), n);
    for (int i = 0; i < n; i++) { std::vector<uint8_t> x; if (s.coin()) x = corrupted(s, m, {}); auto o = dec_step(d.h, c, DecStep{x.empty(), (int)x.size(), f, x}, &r, 0x55); CHECK(r == 1, "answer", "frame %d answered %d", i, r); for (size_t k = 0; k < (size_t)c.ns(); k++) CHECK(get_sample(f, o.data(), k) == 0, "silence", "frame %d sample %zu is %g before any good frame", i, k, get_sample(f, o.data(), k)); }
    if (n > 1) s.nt(pbt::hkey({c.key(), (uint64_t)n, (uint64_t)f}));
}
