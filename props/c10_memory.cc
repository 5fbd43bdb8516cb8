// C10: the caller's memory is all the memory the codec uses.
#include "session.h"
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace cd;

// Interpose the allocator: the library's calls come through these symbols too.
static thread_local bool g_armed = false; static unsigned long g_allocs = 0;
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { if (g_armed) g_allocs++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (g_armed) g_allocs++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (g_armed) g_allocs++; return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { if (g_armed) g_allocs++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (g_armed) g_allocs++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (g_armed) g_allocs++; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void free(void *p) { if (g_armed) g_allocs++; __libc_free(p); }
}
struct Armed { Armed() { g_allocs = 0; g_armed = true; } ~Armed() { g_armed = false; } };

PROPERTY(caller_memory, 60000, 1000000, "an encoder and a decoder in guarded memory of exactly the announced size (or a static memory type, ready or customized), pointer-aligned, driven through a generated history; guards must survive and no allocator call may happen; non-trivial = history with a valid decode") {
    Cfg c = gen_cfg(s, 3, 3); bool stat = !c.hr && s.chance(1, 4), own = !stat && s.chance(1, 3);
    s.note("%s%s", c.str().c_str(), stat ? " static-type" : own ? " customized static type" : "");
    size_t ne = lc3_hr_encoder_size(c.hr, c.dt, c.pcm), nd = lc3_hr_decoder_size(c.hr, c.dt, c.pcm);
    if (stat) { ne = c.pcm <= 16000 ? sizeof(lc3_encoder_mem_16k_t) : sizeof(lc3_encoder_mem_48k_t); nd = c.pcm <= 16000 ? sizeof(lc3_decoder_mem_16k_t) : sizeof(lc3_decoder_mem_48k_t); }
    if (own) { ne = static_size(true, c.dt, c.pcm); nd = static_size(false, c.dt, c.pcm); }
    const size_t G = 256; std::vector<uint64_t> ma((ne + 2 * G) / 8 + 4), mb((nd + 2 * G) / 8 + 4); Rng r(s.seed()); for (auto &x : ma) x = r.next(); for (auto &x : mb) x = r.next();
    int o = (int)s.draw(2); uint8_t *pa = (uint8_t *)(ma.data() + o) + G, *pb = (uint8_t *)(mb.data() + o) + G;
    std::vector<uint64_t> ca = ma, cb = mb; uint64_t h = c.key(); bool ok = false;
    auto es = gen_enc_steps(s, c, 4); auto ds = gen_dec_steps(s, c, 4);
    lc3_encoder_t e; lc3_decoder_t d;
    { Armed arm; e = lc3_hr_setup_encoder(c.hr, c.dt, c.sr, c.pcm, pa); d = lc3_hr_setup_decoder(c.hr, c.dt, c.sr, c.pcm, pb); }
    CHECK(g_allocs == 0, "allocates", "setup used the heap (%lu calls)", g_allocs);
    CHECK((void *)e == pa && (void *)d == pb, "handle", "the handle is not at the address of the memory");
    auto guards = [&](const char *w, size_t i) {
        auto chk = [&](std::vector<uint64_t> &m, std::vector<uint64_t> &k, uint8_t *p, size_t n, const char *what) {
            uint8_t *b = (uint8_t *)m.data(), *q = (uint8_t *)k.data(); size_t tot = m.size() * 8, at = p - b;
            for (size_t j = 0; j < tot; j++) if (j < at || j >= at + n) CHECK(b[j] == q[j], "guard", "%s frame %zu: byte %ld around the %zu byte %s context was written", w, i, (long)j - (long)at, n, what); };
        chk(ma, ca, pa, ne, "encoder"); chk(mb, cb, pb, nd, "decoder"); };
    guards("setup", 0);
    for (size_t i = 0; i < es.size(); i++) {
        Aligned in(es[i].pcm.size()); memcpy(in.p, es[i].pcm.data(), es[i].pcm.size()); std::vector<uint8_t> out(es[i].nbytes); int ret;
        { Armed arm; if (es[i].disable) lc3_encoder_disable_ltpf(e); ret = lc3_encode(e, es[i].f, in.p, 1, es[i].nbytes, out.data()); }
        CHECK(ret == 0, "retval", "encode %d", ret); CHECK(g_allocs == 0, "allocates", "encode used the heap (%lu calls)", g_allocs); guards("encode", i);
        DecStep x; x.lost = false; x.in = out; x.nbytes = (int)out.size(); x.f = es[i].f; if (i < ds.size() && s.coin()) ds.insert(ds.begin() + i, x); else ds.push_back(x);
    }
    for (size_t i = 0; i < ds.size(); i++) {
        Aligned out((size_t)c.ns() * fmt_bytes(ds[i].f)); int ret;
        { Armed arm; ret = lc3_decode(d, ds[i].lost ? nullptr : ds[i].in.data(), ds[i].nbytes, ds[i].f, out.p, 1); }
        CHECK(g_allocs == 0, "allocates", "decode used the heap (%lu calls)", g_allocs); guards("decode", i); if (!ret) ok = true;
        h ^= pbt::hash_bytes(out.p, (size_t)c.ns() * fmt_bytes(ds[i].f), i);
    }
    if (ok) s.nt(h);
}

// Contexts ending right at an unmapped page: reads past the end fault too.
PROPERTY(context_page_end, 30000, 500000, "encoder or decoder context ending (or starting) at an inaccessible page, driven through a generated history; non-trivial = two or more frames") {
    Cfg c = gen_cfg(s, 3, 3); bool en = s.coin(), atend = s.chance(3, 4); size_t n = en ? lc3_hr_encoder_size(c.hr, c.dt, c.pcm) : lc3_hr_decoder_size(c.hr, c.dt, c.pcm);
    s.note("%s %s", en ? "enc" : "dec", c.str().c_str());
    size_t pg = 4096, k = (n + pg - 1) / pg; uint8_t *m = (uint8_t *)mmap(nullptr, (k + 2) * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return;
    struct Un { uint8_t *m; size_t l; ~Un() { munmap(m, l); } } un{m, (k + 2) * pg};
    mprotect(m + pg, k * pg, PROT_READ | PROT_WRITE);
    // end of the context rounded up to the pointer alignment
    uint8_t *p = atend ? m + pg + k * pg - ((n + 7) & ~(size_t)7) : m + pg; uint64_t h = c.key(); size_t cnt;
    if (en) { auto st = gen_enc_steps(s, c, 5); cnt = st.size(); auto e = lc3_hr_setup_encoder(c.hr, c.dt, c.sr, c.pcm, p); CHECK(e, "setup", "refused"); for (auto &x : st) { auto o = enc_step(e, c, x); h ^= pbt::hash_bytes(o.data(), o.size()); } }
    else { auto st = gen_dec_steps(s, c, 6); cnt = st.size(); auto d = lc3_hr_setup_decoder(c.hr, c.dt, c.sr, c.pcm, p); CHECK(d, "setup", "refused"); for (auto &x : st) { int r; auto o = dec_step(d, c, x, &r); h ^= pbt::hash_bytes(o.data(), o.size()); } }
    if (cnt > 1) s.nt(h);
}
