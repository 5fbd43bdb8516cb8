// C21: builds without some features do the same as the full build on what they keep.
// The four builds are shared objects compiled alike (no fast-math, so that equal code gives equal bits).
#include "session.h"
#include <dlfcn.h>
using namespace cd;
struct Lib {
    const char *name; bool plus, hr; void *h = nullptr;
    int (*frame_samples)(bool, int, int); int (*frame_block_bytes)(bool, int, int, int, int); int (*resolve_bitrate)(bool, int, int, int); int (*delay_samples)(bool, int, int);
    unsigned (*encoder_size)(bool, int, int), (*decoder_size)(bool, int, int); lc3_encoder_t (*setup_encoder)(bool, int, int, int, void *); lc3_decoder_t (*setup_decoder)(bool, int, int, int, void *);
    int (*encode)(lc3_encoder_t, lc3_pcm_format, const void *, int, int, void *); int (*decode)(lc3_decoder_t, const void *, int, lc3_pcm_format, void *, int); void (*disable)(lc3_encoder_t);
    int (*plain_samples)(int, int); lc3_encoder_t (*plain_encoder)(int, int, int, void *);
    bool has(const Cfg &c) const { return (!c.hr || hr) && (plus || c.dt == 10000 || (c.dt == 7500 && !c.hr)); } };
static Lib libs[4] = {{"full", true, true}, {"noplus", false, false}, {"nohr", true, false}, {"hronly", false, true}};
static void load() {
    static bool done = false; if (done) return; done = true; const char *d = getenv("C21_LIBS");
    for (auto &l : libs) { std::string p = std::string(d ? d : ".") + "/liblc3-" + l.name + ".so"; l.h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND); if (!l.h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
#define SYM(f, n) *(void **)&l.f = dlsym(l.h, n); if (!l.f) { fprintf(stderr, "missing %s\n", n); exit(3); }
        SYM(frame_samples, "lc3_hr_frame_samples") SYM(frame_block_bytes, "lc3_hr_frame_block_bytes") SYM(resolve_bitrate, "lc3_hr_resolve_bitrate") SYM(delay_samples, "lc3_hr_delay_samples") SYM(encoder_size, "lc3_hr_encoder_size") SYM(decoder_size, "lc3_hr_decoder_size") SYM(setup_encoder, "lc3_hr_setup_encoder") SYM(setup_decoder, "lc3_hr_setup_decoder") SYM(encode, "lc3_encode") SYM(decode, "lc3_decode") SYM(disable, "lc3_encoder_disable_ltpf") SYM(plain_samples, "lc3_frame_samples") SYM(plain_encoder, "lc3_setup_encoder") } }

static void refused(Lib &l, const Cfg &c) {
    // without high-resolution support, that mode is the standard one: only 96 kHz is foreign to it
    bool dt_gone = !l.plus && c.dt <= 5000, hr_gone = c.hr && !l.hr; if (hr_gone && !dt_gone && c.sr != 96000) return; if (!dt_gone && !hr_gone) return;
    std::vector<uint64_t> m(40000); const char *w = c.str().c_str(); (void)w;
    if (dt_gone || c.sr == 96000) CHECK(l.frame_samples(c.hr, c.dt, c.sr) == -1, "refusal", "%s build: frame samples of %s are %d", l.name, c.str().c_str(), l.frame_samples(c.hr, c.dt, c.sr));
    CHECK(l.encoder_size(c.hr, c.dt, c.sr) == 0 && l.decoder_size(c.hr, c.dt, c.sr) == 0, "refusal", "%s build gives sizes for %s", l.name, c.str().c_str());
    CHECK(l.frame_block_bytes(c.hr, c.dt, c.sr, 1, 64000) == -1 && l.delay_samples(c.hr, c.dt, c.sr) == -1 && l.resolve_bitrate(c.hr, c.dt, c.sr, 100) == -1, "refusal", "%s build sizes %s", l.name, c.str().c_str());
    CHECK(!l.setup_encoder(c.hr, c.dt, c.sr, 0, m.data()) && !l.setup_decoder(c.hr, c.dt, c.sr, 0, m.data()), "refusal", "%s build sets %s up", l.name, c.str().c_str()); }

PROPERTY(reduced, 60000, 2000000, "one configuration, one reduced build: when the configuration is kept, sizing queries, an encoder history and a decoder history (losses and corruptions included) give the same numbers and bytes as the full build; otherwise everything is refused; non-trivial = kept, keyed by configuration, build and bytes") {
    load(); Cfg c = gen_cfg(s, 3, 3); Lib &a = libs[0], &b = libs[1 + s.draw(3)];
    for (int t = 0; t < 3 && !b.has(c) && !s.chance(1, 6); t++) { c = gen_cfg(s, 3, b.hr ? 4 : 0); if (!b.plus) c.dt = c.hr || s.coin() ? 10000 : 7500; }
    if (!b.has(c)) { s.note("%s build: %s refused", b.name, c.str().c_str()); refused(b, c); return; }
    int nch = 1 + (int)s.draw(4), br = (int)s.draw(600000), by = (int)s.draw(800);
    for (int sr : {c.sr, c.pcm}) { CHECK(a.frame_samples(c.hr, c.dt, sr) == b.frame_samples(c.hr, c.dt, sr) && a.delay_samples(c.hr, c.dt, sr) == b.delay_samples(c.hr, c.dt, sr), "sizing", "%s build: samples of %s", b.name, c.str().c_str());
        CHECK(a.frame_block_bytes(c.hr, c.dt, sr, nch, br) == b.frame_block_bytes(c.hr, c.dt, sr, nch, br) && a.resolve_bitrate(c.hr, c.dt, sr, by) == b.resolve_bitrate(c.hr, c.dt, sr, by), "sizing", "%s build: bytes or bitrate of %s (%d channels, %d bps, %d bytes)", b.name, c.str().c_str(), nch, br, by); }
    if (!c.hr) CHECK(b.plain_samples(c.dt, c.sr) == a.plain_samples(c.dt, c.sr), "sizing", "%s build: frame samples of %s", b.name, c.str().c_str());
    SigDesc sd; auto st = gen_enc_steps(s, c, 6, &sd); auto ds = gen_dec_steps(s, c, 6); s.note("%s build, %s sig=%s %s / %s", b.name, c.str().c_str(), sd.d.c_str(), desc(st).c_str(), desc(ds).c_str());
    unsigned ea = a.encoder_size(c.hr, c.dt, c.pcm), eb = b.encoder_size(c.hr, c.dt, c.pcm), da = a.decoder_size(c.hr, c.dt, c.pcm), db = b.decoder_size(c.hr, c.dt, c.pcm); CHECK(ea && eb && da && db, "sizing", "%s build: context size of %s is 0", b.name, c.str().c_str());
    Aligned ma(ea), mb(eb, 0x5a), na(da), nb(db, 0x5a); auto xa = a.setup_encoder(c.hr, c.dt, c.sr, c.pcm, ma.p), xb = b.setup_encoder(c.hr, c.dt, c.sr, c.pcm, mb.p); auto ya = a.setup_decoder(c.hr, c.dt, c.sr, c.pcm, na.p), yb = b.setup_decoder(c.hr, c.dt, c.sr, c.pcm, nb.p); CHECK(xa && xb && ya && yb, "setup", "%s build: setup of %s refused", b.name, c.str().c_str());
    uint64_t key = c.key() + (&b - libs); int k = 0;
    for (auto &e : st) { std::vector<uint8_t> u(e.nbytes, 1), v(e.nbytes, 2); if (e.disable) a.disable(xa), b.disable(xb); Aligned p(e.pcm.size()); memcpy(p.p, e.pcm.data(), e.pcm.size()); int r = a.encode(xa, e.f, p.p, 1, e.nbytes, u.data()), t = b.encode(xb, e.f, p.p, 1, e.nbytes, v.data());
        CHECK(r == t, "retval", "%s build: frame %d of %d bytes: %d, full build %d", b.name, k, e.nbytes, t, r); int d = first_diff(u, v); CHECK(d < 0, "bytes", "%s build: frame %d (%d bytes) differs at byte %d", b.name, k, e.nbytes, d); key = pbt::hash_bytes(u.data(), u.size(), key); k++; }
    k = 0; for (auto &e : ds) { size_t n = (size_t)c.ns() * fmt_bytes(e.f); Aligned u(n), v(n); int r = a.decode(ya, e.lost ? nullptr : e.in.data(), e.nbytes, e.f, u.p, 1), t = b.decode(yb, e.lost ? nullptr : e.in.data(), e.nbytes, e.f, v.p, 1);
        CHECK(r == t, "retval", "%s build: decoding frame %d: %d, full build %d", b.name, k, t, r); CHECK(!memcmp(u.p, v.p, n), "samples", "%s build: samples of frame %d differ", b.name, k); k++; }
    s.nt(key); }
