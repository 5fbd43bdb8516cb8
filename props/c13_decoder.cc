// C13: decoded audio is what the specification says for the received bytes.
#include "conform.h"
using namespace cd;

static void history(Src &s, Cfg c, int maxf) {
    Conform k(c); FrameGen fg(s, c); int nf = 1 + (int)s.draw(maxf); uint64_t h = c.key(); bool good = false; Fmt f = s.chance(2, 3) ? LC3_PCM_FORMAT_FLOAT : gen_fmt(s);
    s.note("%s %s %d frames", c.str().c_str(), fmt_name(f), nf);
    for (int i = 0; i < nf; i++) { auto fr = fg.next(s); s.note(" %s:%zu", fr.kind, fr.data.size());
        int r = k.step(fr.lost ? nullptr : fr.data.data(), (int)fr.data.size(), f, fr.kind); h ^= pbt::hash_bytes(fr.data.data(), fr.data.size(), i);
        if (!r) { good = true; auto &F = k.rd.last; s.label(fr.kind); if (k.rd.prev.active) s.label("postfilter active"); if (F.order[0] || F.order[1]) s.label("tns"); if (F.lsb) s.label("lsb mode"); if (F.bw < k.m.sr) s.label("reduced bandwidth"); if (F.escapes > 2) s.label("escapes"); s.label(F.shape == 0 ? "shape0" : F.shape == 1 ? "shape1" : F.shape == 2 ? "shape2" : "shape3"); }
        s.label(k.margin > .1 ? "error above a tenth of the tolerance" : "error below a tenth of the tolerance"); }
    if (good) s.nt(h);
}
PROPERTY(decoder_conforms, 200000, 6000000, "one decoder history of 1..8 encoded, crafted, mutated, random and lost frames over any configuration, PCM rate and format, every sample compared with the reference decoder; non-trivial = at least one frame decoded, keyed by configuration and bytes") { history(s, gen_cfg(s, 3, 2), 8); }
PROPERTY(decoder_long, 2500, 60000, "as decoder_conforms with 60..150 frames, so that the history ring wraps many times; keyed likewise") { Cfg c = gen_cfg(s, 3, 1); history(s, c, 150); }
// Every configuration, pitch index and postfilter gain, one after the other.
PROPERTY(postfilter_sweep, 4000, 100000, "crafted frames with an active postfilter over all 512 pitch indices, changing or kept from frame to frame; non-trivial = postfilter active in two consecutive frames") {
    Cfg c = gen_cfg(s, 4, 0); Conform k(c); int n = 4 + (int)s.draw(12), nb = gen_nbytes(s, c), lim = (320 + 80 * (3 + k.m.sr)) * (c.dti() + 1) / 32; if (nb > lim && s.chance(3, 4)) nb = std::max(20, (int)s.range(20, std::max(20, std::min(lim, c.max_bytes()))));
    uint64_t h = c.key(); int pi = (int)s.draw(512); bool was = false, two = false; s.note("%s %d frames of %d", c.str().c_str(), n, nb);
    for (int i = 0; i < n; i++) { bool fits = false; ref::Frame f; std::vector<uint8_t> d; Rng r(s.seed()); bool act = s.chance(7, 8); if (s.chance(1, 2)) pi = (int)s.draw(512);
        for (int t = 0; t < 30 && !fits; t++) { f = gen_fields(s, k.m, nb); f.order[0] = f.order[1] = 0; f.g_idx = std::min(255, std::max(0, k.m.gain_off(nb) + 20)); f.nq = std::min(f.nq, 10 + (int)s.draw(nb / 2)) & ~1; for (size_t j = 0; j < f.q.size(); j++) f.q[j] = (int)j < f.nq ? f.q[j] % 8 : 0; if (!f.q[f.nq - 1]) f.q[f.nq - 1] = 1;
            f.pitch = true; f.active = act; f.pitch_index = pi; d = ref::write(k.m, f, [&] { return (int)(r.next() & 1); }, &fits); }
        if (!fits) return;
        k.step(d.data(), nb, LC3_PCM_FORMAT_FLOAT, "crafted"); if (was && k.rd.prev.active) two = true; was = k.rd.prev.active; h = pbt::hkey({h, (uint64_t)pi, (uint64_t)nb, act}); }
    s.label(two ? "active" : "inactive"); if (two) s.nt(h);
}
