// C05: setting up a context again gives a fresh instance, whatever it did before.
#include "session.h"
using namespace cd;

PROPERTY(setup_is_fresh, 64000, 1280000, "a context used for a generated history under one configuration is set up again (same or other configuration fitting the memory) and must equal a brand new one; non-trivial = history before and after have content") {
    Cfg c1 = gen_cfg(s), c2 = s.chance(1, 2) ? c1 : gen_cfg(s); bool en = s.coin(); uint64_t h = pbt::hkey({(int64_t)c1.key(), (int64_t)c2.key(), en});
    s.note("%s %s then %s", en ? "enc" : "dec", c1.str().c_str(), c2.str().c_str());
    Mem m;
    if (en) {
        m.alloc(std::max(lc3_hr_encoder_size(c1.hr, c1.dt, c1.pcm), lc3_hr_encoder_size(c2.hr, c2.dt, c2.pcm)));
        auto a = lc3_hr_setup_encoder(c1.hr, c1.dt, c1.sr, c1.pcm, m.p.get()); CHECK(a, "setup", "refused");
        for (auto &st : gen_enc_steps(s, c1, 5)) enc_step(a, c1, st);
        if (s.chance(1, 3)) lc3_encoder_disable_ltpf(a);
        unwritten(m.p.get(), m.n); a = lc3_hr_setup_encoder(c2.hr, c2.dt, c2.sr, c2.pcm, m.p.get()); CHECK(a, "setup", "refused");
        Enc b(c2); auto st = gen_enc_steps(s, c2, 4); int k = 0;
        for (auto &x : st) { auto p = enc_step(a, c2, x), q = enc_step(b.h, c2, x); int d = first_diff(p, q);
            CHECK(d < 0, "stale", "frame %d after setup: byte %d differs from a fresh encoder", k, d); k++; h ^= pbt::hash_bytes(p.data(), p.size(), k); }
    } else {
        m.alloc(std::max(lc3_hr_decoder_size(c1.hr, c1.dt, c1.pcm), lc3_hr_decoder_size(c2.hr, c2.dt, c2.pcm)));
        auto a = lc3_hr_setup_decoder(c1.hr, c1.dt, c1.sr, c1.pcm, m.p.get()); CHECK(a, "setup", "refused");
        for (auto &st : gen_dec_steps(s, c1, 6)) { int r; dec_step(a, c1, st, &r); }
        unwritten(m.p.get(), m.n); a = lc3_hr_setup_decoder(c2.hr, c2.dt, c2.sr, c2.pcm, m.p.get()); CHECK(a, "setup", "refused");
        Dec b(c2); auto st = gen_dec_steps(s, c2, 6); int k = 0;
        for (auto &x : st) { int r1, r2; auto p = dec_step(a, c2, x, &r1), q = dec_step(b.h, c2, x, &r2); int d = first_diff(p, q);
            CHECK(d < 0 && r1 == r2, "stale", "frame %d after setup: byte %d / result %d differs from a fresh decoder (%d)", k, d, r1, r2); k++; h ^= pbt::hash_bytes(p.data(), p.size(), k); }
    }
    s.nt(h);
}
