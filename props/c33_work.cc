// C33: the work of a call and the stack it uses are bounded by the configuration, whatever the input and the past.
#include "codec.h"
#include "frames.h"
#include <ucontext.h>
#include <sys/mman.h>
using namespace cd;
static uint64_t blocks;
extern "C" void __sanitizer_cov_trace_pc(void) { blocks++; }

// ---- runs a call on a painted stack and tells how much of it was used
static const size_t STACK = 1 << 18; static uint8_t *stk; static ucontext_t here, there; static std::function<void()> *todo;
static void enter() { (*todo)(); }
static size_t on_stack(std::function<void()> f, size_t look) {
    if (!stk) { stk = (uint8_t *)mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(stk, 4096, PROT_NONE); stk += 4096; }
    memset(stk + STACK - look, 0x5c, look); todo = &f; getcontext(&there); there.uc_stack.ss_sp = stk; there.uc_stack.ss_size = STACK; there.uc_link = &here; makecontext(&there, enter, 0); swapcontext(&here, &there);
    size_t i = STACK - look; while (i < STACK && stk[i] == 0x5c) i++;
    return STACK - i;
}
struct Use { uint64_t work = 0; size_t stack = 0; };
static void use(Use &u, std::function<void()> f) {
#ifdef STACK_USE
    u.stack = std::max(u.stack, on_stack(f, STACK));
#else
    blocks = 0; f(); u.work = std::max(u.work, blocks);
#endif
}
// Envelopes of what the pinned commit does (at most 85000 blocks and 7 KB of stack), three times over for
// the work and twice over for the stack: the limit says "bounded", not "as fast as".
static void judge(const Cfg &c, const Use &u, bool enc, const char *what) {
    int ns = std::max(c.ns(), (int)((int64_t)c.ns() * c.sr / c.pcm)); uint64_t lim = 3 * (enc ? 8000 + 1400ull * c.dt / 1000 + 66ull * ns : 5000 + 85ull * ns); size_t slim = enc ? 16384 : 12288;
    CHECK(u.work <= lim, "work", "%s: %s ran %llu basic blocks in a call (limit %llu)", c.str().c_str(), what, (unsigned long long)u.work, (unsigned long long)lim);
    CHECK(u.stack <= slim, "stack", "%s: %s used %zu bytes of stack (limit %zu)", c.str().c_str(), what, u.stack, slim);
}
PROPERTY(encoder_work, 24000, 480000, "one encoder history of 1..4 frames over any configuration, content and size, each call measured; non-trivial = not silent, keyed by the frames") {
    Cfg c = gen_cfg(s, 3, 3); Enc e(c); int nf = 1 + (int)s.draw(4); Fmt f = gen_fmt(s); int nbytes = gen_nbytes(s, c), ns = c.ns(); uint64_t h = c.key(); bool loud = false;
    SigDesc sd; std::vector<double> sig = gen_signal(s, c.pcm, (size_t)ns * nf, &sd); s.note("%s %s n=%d %s", c.str().c_str(), fmt_name(f), nf, sd.d.c_str()); Use u;
    for (int i = 0; i < nf; i++) {
        if (s.chance(1, 3)) nbytes = gen_nbytes(s, c);
        if (s.chance(1, 12)) lc3_encoder_disable_ltpf(e.h);
        std::vector<uint8_t> in((size_t)ns * fmt_bytes(f)), out(nbytes); Rng r(s.seed()); int kind = s.weighted({6, 2, 2});
        for (int k = 0; k < ns; k++) { double x = kind == 0 ? sig[(size_t)i * ns + k] : kind == 1 ? r.sym() : (r.next() & 1) ? 1. : -1.; put_sample(f, in.data(), k, x); if (x) loud = true; }
        use(u, [&] { lc3_encode(e.h, f, in.data(), 1, nbytes, out.data()); }); h ^= pbt::hash_bytes(out.data(), nbytes, i); }
    judge(c, u, true, "the encoder"); if (loud) s.nt(h);
}
PROPERTY(decoder_work, 24000, 480000, "one decoder history of 1..6 frames (encoded, crafted, damaged, lost), each call measured; non-trivial = a frame was valid, keyed by the frames") {
    Cfg c = gen_cfg(s, 3, 3); Dec d(c); FrameGen fg(s, c); int nf = 1 + (int)s.draw(6), ok = 0; Fmt f = gen_fmt(s); uint64_t h = c.key(); Use u; s.note("%s %s n=%d", c.str().c_str(), fmt_name(f), nf);
    for (int i = 0; i < nf; i++) { FrameGen::F fr = fg.next(s); std::vector<uint8_t> out((size_t)c.ns() * fmt_bytes(f)); int r = 0;
        use(u, [&] { r = lc3_decode(d.h, fr.lost ? nullptr : fr.data.data(), (int)fr.data.size(), f, out.data(), 1); }); if (!r) ok++, h ^= pbt::hash_bytes(fr.data.data(), fr.data.size(), i); s.note("[%s %zu->%d]", fr.kind, fr.data.size(), r); }
    judge(c, u, false, "the decoder"); if (ok) s.nt(h);
}
#ifndef STACK_USE
// A stationary history: what a call costs does not grow with age.
PROPERTY(aging, 160, 3200, "one instance through 1000..6000 periods of the same frame, or lost frames: the work of the last calls is that of the first ones once settled; non-trivial = all, keyed by the case") {
    Cfg c = gen_cfg(s, 2, 2); bool enc = s.chance(1, 2); int n = 1000 + (int)s.draw(5000), kind = (int)s.draw(3), ns = c.ns(); Enc e(c); Dec d(c); FrameGen fg(s, c); if (n * ns > 800000) n = std::max(400, 800000 / ns);
    int nbytes = gen_nbytes(s, c); std::vector<double> sig = gen_signal(s, c.pcm, ns); std::vector<float> in(ns), out(ns); for (int i = 0; i < ns; i++) in[i] = enc && kind ? (float)sig[i] : 0.f; std::vector<uint8_t> o(nbytes), fr;
    if (!enc) { int pre = 1 + (int)s.draw(5); for (int i = 0; i < pre; i++) { fr = fg.encoded(s); lc3_decode(d.h, fr.data(), (int)fr.size(), LC3_PCM_FORMAT_FLOAT, out.data(), 1); } }
    s.note("%s %s %s, %d frames", c.str().c_str(), enc ? "encoder" : "decoder", enc ? kind ? "same frame" : "silence" : kind ? "losses" : "same frame", n); uint64_t early = 0, late = 0;
    for (int i = 0; i < n; i++) { blocks = 0;
        if (enc) lc3_encode(e.h, LC3_PCM_FORMAT_FLOAT, in.data(), 1, nbytes, o.data()); else lc3_decode(d.h, kind ? nullptr : fr.data(), (int)fr.size(), LC3_PCM_FORMAT_FLOAT, out.data(), 1);
        uint64_t w = blocks; if (i >= 20 && i < 120) early = std::max(early, w); if (i >= n - 100) late = std::max(late, w); }
    CHECK(late <= early + early / 10 + 100, "aging", "%s: the last calls of %d ran %llu basic blocks, the first ones %llu", c.str().c_str(), n, (unsigned long long)late, (unsigned long long)early);
    s.nt(c.key() ^ n * 31 ^ kind ^ (enc ? 1ull << 40 : 0) ^ ((uint64_t)nbytes << 20));
}
#endif
