// C04: results are a function of configuration, parameters and history alone.
#include "session.h"
using namespace cd;

static std::vector<char> place(size_t n, int fill, uint64_t seed, int off, void **p) {
    std::vector<char> v(n + 64); Rng r(seed); for (auto &x : v) x = fill < 0 ? (char)r.next() : (char)fill;
    uintptr_t a = ((uintptr_t)v.data() + 7) & ~(uintptr_t)7; *p = (void *)(a + 8 * off); return v; }

PROPERTY(placement_independent, 80000, 1600000, "one encoder or decoder history run twice with different context placement and prior content, different stack content and different buffer content; non-trivial = at least two frames, keyed by the outputs") {
    Cfg c = gen_cfg(s); bool en = s.coin(); uint64_t h = c.key();
    void *pa, *pb; int o1 = (int)s.draw(4), o2 = (int)s.draw(4);
    int paint1 = (int)s.draw(256), paint2 = (int)s.draw(256); uint64_t sd1 = s.seed();
    if (en) {
        SigDesc sd; auto st = gen_enc_steps(s, c, 5, &sd); s.note("encode %s sig=%s %s", c.str().c_str(), sd.d.c_str(), desc(st).c_str());
        size_t n = lc3_hr_encoder_size(c.hr, c.dt, c.pcm);
        auto va = place(n, -1, sd1, o1, &pa), vb = place(n, (int)s.draw(256), 0, o2, &pb); unwritten(pa, n); unwritten(pb, n);
        auto a = lc3_hr_setup_encoder(c.hr, c.dt, c.sr, c.pcm, pa), b = lc3_hr_setup_encoder(c.hr, c.dt, c.sr, c.pcm == c.sr ? 0 : c.pcm, pb);
        CHECK(a && b, "setup", "setup refused %s", c.str().c_str());
        for (size_t i = 0; i < st.size(); i++) {
            paint_stack(paint1); auto x = enc_step(a, c, st[i], paint1); paint_stack(paint2); auto y = enc_step(b, c, st[i], paint2);
            int d = first_diff(x, y); CHECK(d < 0, "differ", "frame %zu: encoded byte %d of %zu differs between two identical histories", i, d, x.size());
            h ^= pbt::hash_bytes(x.data(), x.size(), i);
        }
        if (st.size() > 1) s.nt(h);
    } else {
        auto st = gen_dec_steps(s, c, 8); s.note("decode %s %s", c.str().c_str(), desc(st).c_str());
        size_t n = lc3_hr_decoder_size(c.hr, c.dt, c.pcm);
        auto va = place(n, -1, sd1, o1, &pa), vb = place(n, (int)s.draw(256), 0, o2, &pb); unwritten(pa, n); unwritten(pb, n);
        auto a = lc3_hr_setup_decoder(c.hr, c.dt, c.sr, c.pcm, pa), b = lc3_hr_setup_decoder(c.hr, c.dt, c.sr, c.pcm == c.sr ? 0 : c.pcm, pb);
        CHECK(a && b, "setup", "setup refused %s", c.str().c_str());
        for (size_t i = 0; i < st.size(); i++) {
            int r1, r2; paint_stack(paint1); auto x = dec_step(a, c, st[i], &r1, paint1); paint_stack(paint2); auto y = dec_step(b, c, st[i], &r2, paint2);
            CHECK(r1 == r2, "differ", "frame %zu: results %d and %d of two identical histories", i, r1, r2);
            int d = first_diff(x, y); CHECK(d < 0, "differ", "frame %zu (ret %d): decoded byte %d differs between two identical histories", i, r1, d);
            h ^= pbt::hash_bytes(x.data(), x.size(), i);
        }
        if (st.size() > 1) s.nt(h);
    }
}

PROPERTY(instances_isolated, 48000, 960000, "2..5 encoder/decoder instances of different configurations driven in a generated interleaving; each must behave as when run alone; non-trivial = instances really alternate") {
    struct Inst { Cfg c; bool en; std::vector<EncStep> es; std::vector<DecStep> ds; Enc e; Dec d; size_t at = 0; std::vector<std::vector<uint8_t>> ref; std::vector<int> rr; };
    int n = 2 + (int)s.draw(4); std::vector<std::unique_ptr<Inst>> v; uint64_t h = 0;
    for (int i = 0; i < n; i++) { auto p = std::make_unique<Inst>(); p->c = gen_cfg(s); p->en = s.coin();
        if (p->en) p->es = gen_enc_steps(s, p->c, 4); else p->ds = gen_dec_steps(s, p->c, 4);
        s.note("%s:%s", p->en ? "enc" : "dec", p->c.str().c_str()); v.push_back(std::move(p)); }
    for (auto &p : v) {
        if (p->en) { Enc e(p->c); for (auto &st : p->es) { p->ref.push_back(enc_step(e.h, p->c, st)); p->rr.push_back(0); } }
        else { Dec d(p->c); for (auto &st : p->ds) { int r; p->ref.push_back(dec_step(d.h, p->c, st, &r)); p->rr.push_back(r); } }
    }
    int alt = 0, last = -1; bool late = s.coin();
    if (!late) for (auto &p : v) { if (p->en) p->e.open(p->c); else p->d.open(p->c); }
    for (;;) {
        std::vector<int> live; for (int i = 0; i < n; i++) if (v[i]->at < v[i]->ref.size()) live.push_back(i);
        if (live.empty()) break;
        int k = live[s.draw(live.size())]; auto &p = *v[k]; if (k != last) alt++; last = k;
        if (late && p.at == 0) { if (p.en) p.e.open(p.c); else p.d.open(p.c); }
        int r = 0; auto o = p.en ? enc_step(p.e.h, p.c, p.es[p.at]) : dec_step(p.d.h, p.c, p.ds[p.at], &r);
        int d = first_diff(o, p.ref[p.at]);
        CHECK(d < 0 && r == p.rr[p.at], "crosstalk", "instance %d (%s %s) frame %zu: result differs from the same instance run alone (byte %d, ret %d/%d)", k, p.en ? "encoder" : "decoder", p.c.str().c_str(), p.at, d, r, p.rr[p.at]);
        h ^= pbt::hash_bytes(o.data(), o.size(), k); p.at++;
    }
    if (alt > n) s.nt(h);
}
