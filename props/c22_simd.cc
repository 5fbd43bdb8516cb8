// C22: the NEON and ARM code computes what the portable code computes.
// Four shared objects compiled alike: scalar, arm (all of the ARM code), neonp (NEON in the pitch analysis
// only), neon (all of the NEON code).  The pitch analysis is integer arithmetic, so `arm` and `neonp` owe the
// very same frames; the transforms are floating point, so `neon` owes the same samples up to rounding.
#include "session.h"
#include <dlfcn.h>
using namespace cd;
struct Lib {
    const char *name;
    unsigned (*encoder_size)(bool, int, int), (*decoder_size)(bool, int, int);
    lc3_encoder_t (*setup_encoder)(bool, int, int, int, void *);
    lc3_decoder_t (*setup_decoder)(bool, int, int, int, void *);
    int (*encode)(lc3_encoder_t, lc3_pcm_format, const void *, int, int, void *);
    int (*decode)(lc3_decoder_t, const void *, int, lc3_pcm_format, void *, int);
    void (*disable)(lc3_encoder_t);
};
static Lib libs[4] = {{"scalar"}, {"arm"}, {"neonp"}, {"neon"}};
static Lib &SCALAR = libs[0], &ARM = libs[1], &NEONP = libs[2], &NEON = libs[3];
static void load() {
    static bool done = false; if (done) return;
    done = true; const char *d = getenv("C22_LIBS");
    for (auto &l : libs) {
        std::string p = std::string(d ? d : ".") + "/liblc3-" + l.name + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
#define SYM(f, n) *(void **)&l.f = dlsym(h, n); if (!l.f) { fprintf(stderr, "missing %s\n", n); exit(3); }
        SYM(encoder_size, "lc3_hr_encoder_size") SYM(decoder_size, "lc3_hr_decoder_size") SYM(setup_encoder, "lc3_hr_setup_encoder")
        SYM(setup_decoder, "lc3_hr_setup_decoder") SYM(encode, "lc3_encode") SYM(decode, "lc3_decode") SYM(disable, "lc3_encoder_disable_ltpf")
    }
}
typedef std::vector<std::vector<uint8_t>> Frames;
static Frames encode(Lib &l, const Cfg &c, const std::vector<EncStep> &st, int off, bool noltpf = false) {
    Aligned m(l.encoder_size(c.hr, c.dt, c.pcm), 0x5a); auto x = l.setup_encoder(c.hr, c.dt, c.sr, c.pcm, m.p);
    CHECK(x, "setup", "%s: setup of %s refused", l.name, c.str().c_str());
    Frames out; if (noltpf) l.disable(x);
    for (auto &e : st) {
        int a = e.f == LC3_PCM_FORMAT_S24_3LE ? off % 4 : e.f == LC3_PCM_FORMAT_S16 ? off % 4 & ~1 : 0;   // samples aligned to themselves only
        Aligned p(e.pcm.size() + 8); memcpy(p.p + a, e.pcm.data(), e.pcm.size());
        std::vector<uint8_t> u(e.nbytes, 1); if (e.disable) l.disable(x);
        int r = l.encode(x, e.f, p.p + a, 1, e.nbytes, u.data());
        CHECK(r == 0, "retval", "%s: encode returned %d", l.name, r);
        out.push_back(u);
    }
    return out;
}

PROPERTY(analysis, 25000, 800000, "one encoder history (pitched, moving, loud, odd signals; any size, format and configuration) through the scalar, ARM and NEON pitch analysis: the same bytes; non-trivial = the scalar encoder signals a pitch in some frame, keyed by configuration and bytes") {
    load(); Cfg c = gen_cfg(s, 2, 2); SigDesc sd; auto st = gen_enc_steps(s, c, 10, &sd, -1, false); int off = (int)s.draw(4);
    s.note("%s sig=%s %s", c.str().c_str(), sd.d.c_str(), desc(st).c_str());
    Frames f = encode(SCALAR, c, st, off), q = encode(SCALAR, c, st, off, true);
    for (Lib *l : {&ARM, &NEONP}) {
        Frames g = encode(*l, c, st, off);
        for (size_t k = 0; k < f.size(); k++) { int d = first_diff(f[k], g[k]); CHECK(d < 0, "bytes", "%s code: frame %zu of %zu bytes differs from the portable code's at byte %d", l->name, k, f[k].size(), d); }
    }
    if (f != q) { uint64_t key = c.key(); for (auto &x : f) key = pbt::hash_bytes(x.data(), x.size(), key); s.nt(key); s.label(c.str()); }
}

PROPERTY(transform, 25000, 800000, "one decoder history (coded, crafted, damaged and lost frames) through the scalar, ARM and NEON code: ARM gives the same samples, NEON the same up to 1e-4 of the loudest sample so far as long as nothing clips; non-trivial = some decoded frame is not silent, keyed by configuration and samples") {
    load(); Cfg c = gen_cfg(s, 2, 2); auto ds = gen_dec_steps(s, c, 8, LC3_PCM_FORMAT_FLOAT); s.note("%s %s", c.str().c_str(), desc(ds).c_str());
    int n = c.ns(), nf = (int)ds.size(); std::vector<std::vector<float>> y[3]; std::vector<int> ret[3]; Lib *ls[3] = {&SCALAR, &ARM, &NEON};
    for (int j = 0; j < 3; j++) {
        Aligned m(ls[j]->decoder_size(c.hr, c.dt, c.pcm), 0x5a); auto x = ls[j]->setup_decoder(c.hr, c.dt, c.sr, c.pcm, m.p);
        CHECK(x, "setup", "%s: setup of %s refused", ls[j]->name, c.str().c_str());
        for (auto &e : ds) { std::vector<float> v(n, 7); ret[j].push_back(ls[j]->decode(x, e.lost ? nullptr : e.in.data(), e.nbytes, e.f, v.data(), 1)); y[j].push_back(v); }
    }
    std::vector<double> peak(nf, 0); double all = 0;
    for (int k = 0; k < nf; k++) for (int i = 0; i < n; i++) peak[k] = std::max(peak[k], (double)fabsf(y[0][k][i])), all = std::max(all, peak[k]);
    for (int k = 0; k < nf; k++) {
        CHECK(ret[0][k] == ret[1][k] && ret[0][k] == ret[2][k], "retval", "frame %d: scalar %d, ARM %d, NEON %d", k, ret[0][k], ret[1][k], ret[2][k]);
        CHECK(!memcmp(y[0][k].data(), y[1][k].data(), n * sizeof(float)), "samples", "ARM code: samples of frame %d differ from the portable code's", k);
        if (k == nf - 1 || !std::isfinite(all)) continue;
        double top = 1e-7; for (int j = 0; j <= k + 1; j++) top = std::max(top, peak[j]);
        if (top >= 0.99) { s.label("clipped"); break; }   // true loudness unknown; judged by decoder_conforms on the NEON build
        s.label("compared");
        for (int i = 0; i < n; i++) {
            double d = fabs((double)y[0][k][i] - y[2][k][i]);
            CHECK(d <= 1e-4 * top, "samples", "NEON code: sample %d of frame %d is %g, portable %g (loudest %g)", i, k, y[2][k][i], y[0][k][i], top);
        }
    }
    if (all > 1e-6) { uint64_t key = c.key(); for (auto &v : y[0]) key = pbt::hash_bytes(v.data(), n * 4, key); s.nt(key); s.label(c.str()); }
}
