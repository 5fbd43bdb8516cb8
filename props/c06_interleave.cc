// C06: the stride selects samples and nothing else.
#include "session.h"
using namespace cd;

PROPERTY(interleave_encode, 48000, 960000, "1..8 channels encoded from one interleaved buffer vs each channel alone; non-trivial = 2+ channels") {
    Cfg c = gen_cfg(s); int nch = 1 + (int)s.draw(8), nf = 1 + (int)s.draw(3); Fmt f = gen_fmt(s); int sz = fmt_bytes(f);
    s.note("%s nch=%d %s", c.str().c_str(), nch, fmt_name(f));
    std::vector<std::unique_ptr<Enc>> a, b; std::vector<std::vector<double>> sig; std::vector<int> nb; uint64_t h = c.key();
    for (int i = 0; i < nch; i++) { a.emplace_back(new Enc(c)); b.emplace_back(new Enc(c)); sig.push_back(gen_signal(s, c.pcm, (size_t)c.ns() * nf)); nb.push_back(gen_nbytes(s, c)); }
    for (int k = 0; k < nf; k++) {
        Aligned in((size_t)c.ns() * nch * sz);
        for (int i = 0; i < nch; i++) for (int n = 0; n < c.ns(); n++) put_sample(f, in.p, (size_t)n * nch + i, sig[i][(size_t)k * c.ns() + n]);
        for (int i = 0; i < nch; i++) {
            EncStep st; st.f = f; st.nbytes = nb[i]; st.disable = false; st.pcm = pack(f, &sig[i][(size_t)k * c.ns()], c.ns());
            auto q = enc_step(b[i]->h, c, st); std::vector<uint8_t> p(nb[i]);
            int r = lc3_encode(a[i]->h, f, in.p + (size_t)i * sz, nch, nb[i], p.data()); CHECK(!r, "retval", "encode returned %d", r);
            int d = first_diff(p, q); CHECK(d < 0, "stride", "channel %d of %d frame %d: byte %d differs from the channel encoded alone", i, nch, k, d);
            h ^= pbt::hash_bytes(p.data(), p.size(), i);
        }
    }
    if (nch > 1) s.nt(h);
}
PROPERTY(interleave_decode, 64000, 1280000, "1..8 channels decoded into one interleaved buffer vs each alone, with losses and corruption; non-trivial = 2+ channels") {
    Cfg c = gen_cfg(s); int nch = 1 + (int)s.draw(8); Fmt f = gen_fmt(s); int sz = fmt_bytes(f);
    s.note("%s nch=%d %s", c.str().c_str(), nch, fmt_name(f)); uint64_t h = c.key();
    std::vector<std::unique_ptr<Dec>> a, b; std::vector<std::vector<DecStep>> st; size_t nf = 4;
    for (int i = 0; i < nch; i++) { a.emplace_back(new Dec(c)); b.emplace_back(new Dec(c)); st.push_back(gen_dec_steps(s, c, 4, f)); nf = std::min(nf, st[i].size()); }
    for (size_t k = 0; k < nf; k++) {
        Aligned out((size_t)c.ns() * nch * sz, 0x11); std::vector<std::vector<uint8_t>> q(nch); 
        for (int i = 0; i < nch; i++) { int r1; q[i] = dec_step(b[i]->h, c, st[i][k], &r1);
            int r = lc3_decode(a[i]->h, st[i][k].lost ? nullptr : st[i][k].in.data(), st[i][k].nbytes, f, out.p + (size_t)i * sz, nch);
            CHECK(r == r1, "stride", "channel %d frame %zu: result %d vs %d", i, k, r, r1); }
        for (int i = 0; i < nch; i++) { for (int n = 0; n < c.ns(); n++)
            CHECK(!memcmp(out.p + ((size_t)n * nch + i) * sz, &q[i][(size_t)n * sz], sz), "stride", "channel %d of %d frame %zu: sample %d differs from the channel decoded alone", i, nch, k, n);
            h ^= pbt::hash_bytes(q[i].data(), q[i].size(), i); }
    }
    if (nch > 1) s.nt(h);
}
PROPERTY(wide_strides, 3000, 60000, "one channel among up to 140000 (stride), encoded and decoded, vs the channel alone; the rest of the buffer is left as it was; non-trivial = all, keyed by stride and bytes") {
    Cfg c = gen_cfg(s); Fmt f = gen_fmt(s); int sz = fmt_bytes(f), stride = (int)s.range(9, s.chance(1, 2) ? 400 : std::min(140000, 12000000 / c.ns())), nf = 2;
    s.note("%s stride=%d %s", c.str().c_str(), stride, fmt_name(f)); uint64_t h = c.key() ^ stride;
    Enc a(c), b(c); Dec da(c), db(c); auto sig = gen_signal(s, c.pcm, (size_t)c.ns() * nf); int nb = gen_nbytes(s, c);
    size_t cnt = (size_t)(c.ns() - 1) * stride + 1; Aligned io(cnt * sz, 0x2b);
    for (int k = 0; k < nf; k++) {
        EncStep st; st.f = f; st.nbytes = nb; st.disable = false; st.pcm = pack(f, &sig[(size_t)k * c.ns()], c.ns());
        auto q = enc_step(b.h, c, st); std::vector<uint8_t> p(nb);
        for (int n = 0; n < c.ns(); n++) memcpy(io.p + (size_t)n * stride * sz, &st.pcm[(size_t)n * sz], sz);
        int r = lc3_encode(a.h, f, io.p, stride, nb, p.data()); CHECK(!r, "retval", "encode returned %d", r);
        int d = first_diff(p, q); CHECK(d < 0, "stride", "frame %d: byte %d differs from the channel encoded alone", k, d);
        DecStep ds; ds.f = f; ds.nbytes = nb; ds.lost = false; ds.in = p; int r1; auto y = dec_step(db.h, c, ds, &r1);
        r = lc3_decode(da.h, p.data(), nb, f, io.p, stride); CHECK(r == r1, "retval", "frame %d: %d instead of %d", k, r, r1);
        for (int n = 0; n < c.ns(); n++) CHECK(!memcmp(io.p + (size_t)n * stride * sz, &y[(size_t)n * sz], sz), "stride", "frame %d: sample %d differs from the channel decoded alone", k, n);
        for (int n = 0; n + 1 < c.ns(); n++) { uint8_t *g = io.p + (size_t)n * stride * sz; for (int j : { sz, sz + 1, sz + 2, sz + 3, stride * sz / 2, stride * sz - 4, stride * sz - 1 }) CHECK(g[j] == 0x2b, "overrun", "frame %d: a byte between samples %d and %d was written", k, n, n + 1); }
        h ^= pbt::hash_bytes(p.data(), p.size(), k);
    }
    s.nt(h);
}
