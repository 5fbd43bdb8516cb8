// The C interface of liblc3, carried out by its WebAssembly build in a node process (wasm/server.js).
// A context is kept in the memory the caller gave, exactly as large as the WebAssembly build wants it.
#include <lc3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <string>
#include <sys/prctl.h>
#include <signal.h>
#include <tuple>
#include <unistd.h>
#include <dlfcn.h>
static int to = -1, from = -1; static pid_t owner;
static void die(const char *w) { fprintf(stderr, "wasm: %s\n", w); fflush(stderr); abort(); }
static void start() {
    if (owner == getpid()) return;
    if (to >= 0) close(to), close(from);
    int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) die("pipe");
    fcntl(a[1], F_SETPIPE_SZ, 1 << 18); fcntl(b[1], F_SETPIPE_SZ, 1 << 18); signal(SIGPIPE, SIG_IGN);
    Dl_info i; dladdr((void *)&start, &i); std::string dir(i.dli_fname); dir = dir.substr(0, dir.rfind('/'));
    std::string lib = dir + "/liblc3.wasm";
    pid_t p = fork(); if (p < 0) die("fork");
    if (!p) { dup2(a[0], 0); dup2(b[1], 1); prctl(PR_SET_PDEATHSIG, SIGKILL); execlp("node", "node", "--single-threaded", WASM_SERVER, lib.c_str(), (char *)0); _exit(127); }
    close(a[0]); close(b[1]); to = a[1]; from = b[0]; owner = getpid();
}
static void put(const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(to, c, n); if (k <= 0) die("the library trapped or node ended"); c += k; n -= k; } }
static void get(void *p, size_t n) { char *c = (char *)p; while (n) { pollfd w{from, POLLIN, 0}; if (poll(&w, 1, 60000) == 0) die("no answer within a minute"); ssize_t k = read(from, c, n); if (k <= 0) die("the library trapped or node ended"); c += k; n -= k; } }
struct Span { void *p; int n; };      // n < 0: null pointer
static int32_t call(int op, int a0, int a1, int a2, int a3, Span ctx = {0, -1}, Span in = {0, -1}, Span out = {0, -1}) {
    start();
    int32_t h[16] = {op, a0, a1, a2, a3, ctx.n, in.n, out.n, (int)((uintptr_t)ctx.p & 7), (int)((uintptr_t)in.p & 7), (int)((uintptr_t)out.p & 7)}, r[4];
    std::string m((char *)h, sizeof h); for (Span *s : {&ctx, &in, &out}) if (s->n > 0) m.append((char *)s->p, s->n);
    put(m.data(), m.size()); get(r, sizeof r);
    if (ctx.n > 0) get(ctx.p, ctx.n);
    if (in.n > 0) { std::string b(in.n, 0); get(&b[0], in.n); if (memcmp(b.data(), in.p, in.n)) die("the input was modified"); }
    if (out.n > 0) get(out.p, out.n);
    if (r[1]) die(r[1] == 1 ? "written before a buffer" : "written after a buffer");
    return r[0];
}
static int32_t query(int op, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0) {
    static std::map<std::tuple<int, int, int, int, int>, int> m; auto k = std::make_tuple(op, a0, a1, a2, a3); auto i = m.find(k); if (i != m.end()) return i->second;
    int r = call(op, a0, a1, a2, a3); if (m.size() > 100000) m.clear(); m[k] = r; return r;
}
struct Conf { bool hr; int dt, sr; unsigned size; };
static std::map<void *, Conf> conf;
static void *setup(int op, bool enc, bool hr, int dt, int sr, int pcm, void *mem) {
    unsigned n = query(enc ? 10 : 12, hr, dt, pcm > 0 ? pcm : sr); Span c{mem, mem ? (int)n : -1};
    int r = call(op, hr, dt, sr, pcm, c); if (r == 2) die("the handle is not the address of the memory given");
    if (r == 1 && !n) die("setup with no memory");
    if (r == 1) conf[mem] = Conf{hr, dt, pcm > 0 ? pcm : sr, n};
    return r ? mem : nullptr;
}
static int bytes(enum lc3_pcm_format f) { return f == LC3_PCM_FORMAT_S16 ? 2 : f == LC3_PCM_FORMAT_S24_3LE ? 3 : 4; }
static Conf *of(void *h) { if (!h) return nullptr; auto i = conf.find(h); if (i == conf.end()) die("unknown handle"); return &i->second; }
extern "C" {
int lc3_hr_frame_samples(bool hr, int dt, int sr) { return query(0, hr, dt, sr); }
int lc3_frame_samples(int dt, int sr) { return query(1, dt, sr); }
int lc3_hr_frame_bytes(bool hr, int dt, int sr, int br) { return query(2, hr, dt, sr, br); }
int lc3_frame_bytes(int dt, int br) { return query(3, dt, br); }
int lc3_hr_frame_block_bytes(bool hr, int dt, int sr, int n, int br) { start(); int32_t h[16] = {4, hr, dt, sr, n, br}, r[4]; put(h, sizeof h); get(r, sizeof r); return r[0]; }
int lc3_frame_block_bytes(int dt, int n, int br) { return query(5, dt, n, br); }
int lc3_hr_resolve_bitrate(bool hr, int dt, int sr, int nb) { return query(6, hr, dt, sr, nb); }
int lc3_resolve_bitrate(int dt, int nb) { return query(7, dt, nb); }
int lc3_hr_delay_samples(bool hr, int dt, int sr) { return query(8, hr, dt, sr); }
int lc3_delay_samples(int dt, int sr) { return query(9, dt, sr); }
unsigned lc3_hr_encoder_size(bool hr, int dt, int sr) { return query(10, hr, dt, sr); }
unsigned lc3_encoder_size(int dt, int sr) { return query(11, dt, sr); }
unsigned lc3_hr_decoder_size(bool hr, int dt, int sr) { return query(12, hr, dt, sr); }
unsigned lc3_decoder_size(int dt, int sr) { return query(13, dt, sr); }
lc3_encoder_t lc3_hr_setup_encoder(bool hr, int dt, int sr, int pcm, void *m) { return (lc3_encoder_t)setup(20, true, hr, dt, sr, pcm, m); }
lc3_encoder_t lc3_setup_encoder(int dt, int sr, int pcm, void *m) { return (lc3_encoder_t)setup(21, true, false, dt, sr, pcm, m); }
lc3_decoder_t lc3_hr_setup_decoder(bool hr, int dt, int sr, int pcm, void *m) { return (lc3_decoder_t)setup(22, false, hr, dt, sr, pcm, m); }
lc3_decoder_t lc3_setup_decoder(int dt, int sr, int pcm, void *m) { return (lc3_decoder_t)setup(23, false, false, dt, sr, pcm, m); }
void lc3_encoder_disable_ltpf(lc3_encoder_t h) { Conf *c = of(h); call(24, 0, 0, 0, 0, Span{h, c ? (int)c->size : -1}); }
int lc3_encode(lc3_encoder_t h, enum lc3_pcm_format f, const void *pcm, int stride, int nb, void *out) {
    Conf *c = of(h); bool ok = c && nb >= 20 && nb <= 625; int ns = c ? query(0, c->hr, c->dt, c->sr) : 0;
    return call(25, f, stride, nb, 0, Span{h, c ? (int)c->size : -1}, Span{(void *)pcm, pcm && c ? ((ns - 1) * stride + 1) * bytes(f) : -1}, Span{out, !out ? -1 : ok ? nb : 0}); }
int lc3_decode(lc3_decoder_t h, const void *in, int nb, enum lc3_pcm_format f, void *pcm, int stride) {
    Conf *c = of(h); bool ok = c && nb >= 20 && nb <= 625; int ns = c ? query(0, c->hr, c->dt, c->sr) : 0;
    return call(26, f, stride, nb, 0, Span{h, c ? (int)c->size : -1}, Span{(void *)in, !in ? -1 : ok ? nb : 0}, Span{pcm, pcm && c ? ((ns - 1) * stride + 1) * bytes(f) : -1}); }
}
