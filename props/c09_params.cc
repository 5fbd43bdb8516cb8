// C09: wrong parameters are refused and have no effect.
#include "session.h"
using namespace cd;
static bool okdt(bool hr, int dt) { for (int d : durations(hr)) if (d == dt) return true; return false; }
static bool oksr(bool hr, int sr) { for (int d : rates(hr)) if (d == sr) return true; return false; }
static int any_sr(Src &s) { static const int v[] = {8000, 16000, 24000, 32000, 48000, 96000, 0, -1, 44100, 12000, 192000, 7999, 48001, 22050}; return v[s.weighted({4, 4, 4, 4, 4, 4, 2, 1, 1, 1, 1, 1, 1, 1})]; }
static int any_dt(Src &s) { static const int v[] = {10000, 7500, 5000, 2500, 0, -1, 1250, 20000, 9999, 7501, 10, 75}; return v[s.weighted({4, 4, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1})]; }

PROPERTY(setup_params, 200000, 4000000, "arbitrary setup parameters: documented combinations give a handle at the given address, the others NULL and untouched memory; non-trivial = refused, keyed by the parameters") {
    bool hr = s.coin(); int dt = any_dt(s), sr = any_sr(s), pcm = s.chance(1, 3) ? 0 : any_sr(s); bool null = s.chance(1, 12), plain = !hr && s.coin(), en = s.coin();
    s.note("%s hr=%d dt=%d sr=%d pcm=%d%s", en ? "encoder" : "decoder", hr, dt, sr, pcm, null ? " NULL" : "");
    int eff = pcm <= 0 ? sr : pcm; bool ok = okdt(hr, dt) && oksr(hr, sr) && oksr(hr, eff) && eff >= sr && !null;
    const size_t N = 20000, G = 32; Aligned m(N + 2 * G); Rng r(s.seed()); for (size_t i = 0; i < N + 2 * G; i++) m.p[i] = (uint8_t)r.next();
    std::vector<uint8_t> b(m.p, m.p + N + 2 * G); void *mem = null ? nullptr : m.p + G, *hd;
    hd = en ? (plain ? (void *)lc3_setup_encoder(dt, sr, pcm, mem) : (void *)lc3_hr_setup_encoder(hr, dt, sr, pcm, mem))
            : (plain ? (void *)lc3_setup_decoder(dt, sr, pcm, mem) : (void *)lc3_hr_setup_decoder(hr, dt, sr, pcm, mem));
    CHECK(hd == (ok ? mem : nullptr), "setup", "returned %p for memory %p", hd, mem);
    size_t n = !ok ? 0 : en ? lc3_hr_encoder_size(hr, dt, eff) : lc3_hr_decoder_size(hr, dt, eff);
    for (size_t i = 0; i < N + 2 * G; i++) if (i < G || i >= G + n) CHECK(m.p[i] == b[i], "setup-write", "byte %ld written (context of %zu bytes)", (long)i - (long)G, n);
    if (!ok) s.nt(pbt::hkey({hr, dt, sr, pcm, null, en}));
}

PROPERTY(encode_refusals, 60000, 1000000, "an encoder history with refused calls (sizes outside the documented limits, NULL handle) inserted must go on as if they had not been made; non-trivial = at least one refusal followed by a frame") {
    Cfg c = gen_cfg(s, 2, 4); auto st = gen_enc_steps(s, c, 4); Enc a(c), b(c); uint64_t h = c.key(); int ref = 0; bool after = false;
    s.note("%s %s", c.str().c_str(), desc(st).c_str());
    for (size_t i = 0; i < st.size(); i++) {
        int n = (int)s.draw(3);
        while (n--) {
            int lo = c.min_bytes(), hi = c.max_bytes(); int nb; switch (s.draw(5)) { case 0: nb = lo - 1; break; case 1: nb = hi + 1; break; case 2: nb = s.range(-5, lo - 1); break; case 3: nb = s.range(hi + 1, 2000); break; default: nb = s.coin() ? 2147483647 : -2147483647 - 1; }
            bool nul = s.chance(1, 6); if (nul) nb = gen_nbytes(s, c);
            std::vector<uint8_t> out(2100, 0x6b); Aligned in(st[i].pcm.size()); Rng r(s.seed()); for (size_t k = 0; k < st[i].pcm.size(); k++) in.p[k] = (uint8_t)(r.next() & 0x3f);
            int ret = lc3_encode(nul ? nullptr : a.h, st[i].f, in.p, 1, nb, out.data());
            CHECK(ret == -1, "accepted", "encode(%s, %d bytes) returned %d for %s (limits %d..%d)", nul ? "NULL" : "handle", nb, ret, c.str().c_str(), lo, hi);
            for (auto x : out) CHECK(x == 0x6b, "wrote", "refused encode of %d bytes wrote the output", nb);
            ref++; s.note("[refused %d]", nb);
        }
        auto p = enc_step(a.h, c, st[i]), q = enc_step(b.h, c, st[i]); int d = first_diff(p, q);
        CHECK(d < 0, "effect", "frame %zu after %d refused calls: byte %d differs from the history without them", i, ref, d); if (ref) after = true;
        h ^= pbt::hash_bytes(p.data(), p.size(), i);
    }
    if (after) s.nt(h);
}

PROPERTY(decode_refusals, 60000, 1000000, "a decoder history with refused calls (sizes outside 20..maximum, NULL handle) inserted must go on as if they had not been made; non-trivial = at least one refusal followed by a frame") {
    Cfg c = gen_cfg(s, 2, 4); auto st = gen_dec_steps(s, c, 5); Dec a(c), b(c); uint64_t h = c.key(); int ref = 0; bool after = false;
    s.note("%s %s", c.str().c_str(), desc(st).c_str());
    for (size_t i = 0; i < st.size(); i++) {
        int n = (int)s.draw(3);
        while (n--) {
            int hi = c.max_bytes(); int nb; switch (s.draw(5)) { case 0: nb = 19; break; case 1: nb = hi + 1; break; case 2: nb = s.range(-5, 19); break; case 3: nb = s.range(hi + 1, 2000); break; default: nb = s.coin() ? 2147483647 : -2147483647 - 1; }
            bool nul = s.chance(1, 6); if (nul) nb = gen_nbytes(s, c);
            std::vector<uint8_t> in(2100); Rng r(s.seed()); for (auto &x : in) x = (uint8_t)r.next();
            size_t sz = (size_t)c.ns() * fmt_bytes(st[i].f); Aligned out(sz, 0x6b);
            int ret = lc3_decode(nul ? nullptr : a.h, nul && s.coin() ? nullptr : in.data(), nb, st[i].f, out.p, 1);
            CHECK(ret == -1, "accepted", "decode(%s, %d bytes) returned %d for %s (limits 20..%d)", nul ? "NULL" : "handle", nb, ret, c.str().c_str(), hi);
            for (size_t k = 0; k < sz; k++) CHECK(out.p[k] == 0x6b, "wrote", "refused decode of %d bytes wrote the output", nb);
            ref++; s.note("[refused %d]", nb);
        }
        int r1, r2; auto p = dec_step(a.h, c, st[i], &r1), q = dec_step(b.h, c, st[i], &r2); int d = first_diff(p, q);
        CHECK(d < 0 && r1 == r2, "effect", "frame %zu after %d refused calls: byte %d differs from the history without them", i, ref, d); if (ref) after = true;
        h ^= pbt::hash_bytes(p.data(), p.size(), i);
    }
    if (after) s.nt(h);
}
