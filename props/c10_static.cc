// C10: the library has no memory of its own, from the first call of a process on.
#include "fresh.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <malloc.h>
using namespace fresh;
static thread_local bool g_armed = false; static unsigned long g_allocs = 0;
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
void *malloc(size_t n) { if (g_armed) g_allocs++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (g_armed) g_allocs++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (g_armed) g_allocs++; return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { if (g_armed) g_allocs++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (g_armed) g_allocs++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (g_armed) g_allocs++; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void free(void *p) { if (g_armed) g_allocs++; __libc_free(p); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { if (g_armed) g_allocs++; return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
}
// The writable data of the library: segments of its shared object, without what the dynamic linker fills in, and its thread local block.
struct Area { uint8_t *p; size_t n; };
static std::vector<Area> g_areas;
static int scan(struct dl_phdr_info *i, size_t, void *) {
    if (!strstr(i->dlpi_name, "liblc3")) return 0;
    uintptr_t skip[2][2] = {{0, 0}, {0, 0}}; size_t nrel = 0; uintptr_t got = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k];
        if (h.p_type == PT_GNU_RELRO) skip[0][0] = i->dlpi_addr + h.p_vaddr, skip[0][1] = skip[0][0] + h.p_memsz;
        if (h.p_type == PT_DYNAMIC) for (auto *d = (ElfW(Dyn) *)(i->dlpi_addr + h.p_vaddr); d->d_tag; d++) { if (d->d_tag == DT_PLTGOT) got = d->d_un.d_ptr; if (d->d_tag == DT_PLTRELSZ) nrel = d->d_un.d_val / sizeof(ElfW(Rela)); } }
    if (got) { if (got < i->dlpi_addr) got += i->dlpi_addr; skip[1][0] = got; skip[1][1] = got + 8 * (nrel + 3); }
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k];
        if (h.p_type == PT_TLS && i->dlpi_tls_data) g_areas.push_back({(uint8_t *)i->dlpi_tls_data, h.p_memsz});
        if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz;
        for (; a < e; a++) { bool in = false; for (auto &s : skip) in |= a >= s[0] && a < s[1]; if (in) continue; if (g_areas.empty() || (uintptr_t)g_areas.back().p + g_areas.back().n != a) g_areas.push_back({(uint8_t *)a, 1}); else g_areas.back().n++; } }
    return 0; }
static std::vector<uint8_t> snapshot() { std::vector<uint8_t> v; for (auto &a : g_areas) v.insert(v.end(), a.p, a.p + a.n); return v; }
struct Armed { Armed() { g_allocs = 0; g_armed = true; } ~Armed() { g_armed = false; } };
PROPERTY(no_memory_of_its_own, 8000, 200000, "1..3 encoder and decoder sessions, the first of a process where the library was never called: no allocator call (nor mapping), and the writable data of the shared object and its thread local data are left as loaded; non-trivial = two or more frames, keyed by the results") {
    int n = 1 + (int)s.draw(3), maxf = 1 + (int)s.draw(5); uint64_t seed = s.seed(); s.note("%d sessions of seed %llu", n, (unsigned long long)seed);
    std::string a = child("generation", [&](W &w) { Src g; g.rng = Rng(seed); for (int i = 0; i < n; i++) put(w, gen(g, maxf, nullptr)); });
    R r(a); std::vector<Job> jobs; for (int i = 0; i < n; i++) jobs.push_back(get(r)); std::string d; for (auto &j : jobs) d += " " + what(j); s.note("%s", d.c_str());
    std::string b = child("sessions", [&](W &w) {
        dl_iterate_phdr(scan, nullptr); std::vector<uint8_t> was = snapshot(); uint64_t h = 1; size_t frames = 0;
        auto check = [&](const Job &j, const char *call) {
            CHECK(g_allocs == 0, "allocates", "%s: %s used the allocator (%lu calls)", what(j).c_str(), call, g_allocs);
            std::vector<uint8_t> now = snapshot(); CHECK(now.size() == was.size(), "areas", "writable data changed size");
            for (size_t k = 0; k < now.size(); k++) CHECK(now[k] == was[k], "own-data", "%s: %s changed byte %zu of %zu of the library's own data", what(j).c_str(), call, k, now.size()); };
        for (auto &j : jobs) { size_t sz; const Cfg &c = j.c; void *hd;
            { Armed arm; sz = j.enc ? lc3_hr_encoder_size(c.hr, c.dt, c.pcm) : lc3_hr_decoder_size(c.hr, c.dt, c.pcm); lc3_hr_frame_samples(c.hr, c.dt, c.pcm); lc3_hr_delay_samples(c.hr, c.dt, c.pcm); lc3_hr_frame_bytes(c.hr, c.dt, c.sr, 96000); lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, 100); }
            check(j, "a sizing query"); std::vector<uint64_t> m(sz / 8 + 2, 0xa5a5a5a5a5a5a5a5ull);
            { Armed arm; hd = j.enc ? (void *)lc3_hr_setup_encoder(c.hr, c.dt, c.sr, c.pcm, m.data()) : (void *)lc3_hr_setup_decoder(c.hr, c.dt, c.sr, c.pcm, m.data()); }
            CHECK(hd, "setup", "setup refused"); check(j, "setup");
            for (auto &x : j.e) { Aligned in(x.pcm.size()); memcpy(in.p, x.pcm.data(), x.pcm.size()); std::vector<uint8_t> o(x.nbytes); { Armed arm; if (x.disable) lc3_encoder_disable_ltpf((lc3_encoder_t)hd); lc3_encode((lc3_encoder_t)hd, x.f, in.p, 1, x.nbytes, o.data()); } check(j, "encoding"); h = pbt::hash_bytes(o.data(), o.size(), h); frames++; }
            for (auto &x : j.d) { size_t ob = (size_t)c.ns() * fmt_bytes(x.f); Aligned o(ob); { Armed arm; lc3_decode((lc3_decoder_t)hd, x.lost ? nullptr : x.in.data(), x.nbytes, x.f, o.p, 1); } check(j, "decoding"); h = pbt::hash_bytes(o.p, ob, h); frames++; } }
        w.i(h); w.i(frames); w.i(was.size()); });
    R q(b); uint64_t h = q.i(); int64_t frames = q.i(), size = q.i(); s.label(size > 64 ? "writable data" : "next to no writable data"); if (frames > 1) s.nt(h);
}
