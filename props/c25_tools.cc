// C25: elc3 and dlc3 carry a wave file through an LC3 file and back.
#include "session.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace cd;
typedef std::vector<uint8_t> Bytes;

static std::string scratch() { static std::string d; if (d.empty()) { const char *e = getenv("C25_SCRATCH"); d = std::string(e ? e : "/tmp") + "/w" + std::to_string(getpid()); } return d; }
static std::string tool(const char *n) { const char *e = getenv("C25_BIN"); return std::string(e ? e : "/repo/_build/make/bin") + "/" + n; }
static void save(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f) abort(); fwrite(b.data(), 1, b.size(), f); fclose(f); }
static bool load(const std::string &p, Bytes &b) { b.clear(); FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; uint8_t t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return true; }
struct Ran { int code; std::string err; };
static long g_room = -1;   // bytes a written file may have
// Run a tool; files by name or through redirected standard streams.
static Ran run(const char *name, std::vector<std::string> args, const std::string &in, const std::string &out, int redirect) {
    if (redirect < 2) args.push_back(in);
    if (redirect < 1) args.push_back(out);
    std::string ep = scratch() + ".err"; pid_t p = fork();
    if (!p) {
        int e = open(ep.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2);
        int i = redirect == 2 ? open(in.c_str(), O_RDONLY) : open("/dev/null", O_RDONLY); dup2(i, 0);
        if (g_room >= 0) { struct rlimit rl = {(rlim_t)g_room, (rlim_t)g_room}; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN); }
        int o = redirect >= 1 ? open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600) : open("/dev/null", O_WRONLY); dup2(o, 1);
        std::string t = tool(name); std::vector<char *> v{(char *)t.c_str()}; for (auto &a : args) v.push_back((char *)a.c_str()); v.push_back(nullptr);
        setenv("LD_LIBRARY_PATH", tool(".").c_str(), 1); alarm(60); execv(t.c_str(), v.data()); _exit(126);
    }
    int st = 0; waitpid(p, &st, 0); Bytes eb; load(ep, eb); unlink(ep.c_str());
    Ran r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); r.err.assign(eb.begin(), eb.end()); for (auto &ch : r.err) if (ch == '\r' || ch == '\n') ch = ' ';
    if (r.code == 126) abort(); return r;
}
static void u16(Bytes &b, unsigned v) { b.push_back(v); b.push_back(v >> 8); }
static void u32(Bytes &b, uint32_t v) { u16(b, v & 0xffff); u16(b, v >> 16); }
static void tag(Bytes &b, const char *t) { b.insert(b.end(), t, t + 4); }

struct Wav { int rate = 48000, ch = 1, bits = 16, sbytes = 2, n = 0, fmtsize = 16, before = 0, after = 0; bool odd = false; };
static Bytes wav_file(const Wav &w, const Bytes &pcm, Rng &r) {
    Bytes b; tag(b, "RIFF"); u32(b, 0); tag(b, "WAVE"); tag(b, "fmt "); u32(b, w.fmtsize);
    u16(b, w.fmtsize == 40 ? 0xfffe : 1); u16(b, w.ch); u32(b, w.rate); u32(b, w.rate * w.ch * w.sbytes); u16(b, w.ch * w.sbytes); u16(b, w.bits);
    if (w.fmtsize >= 18) u16(b, w.fmtsize - 18);
    if (w.fmtsize == 40) { u16(b, w.bits); u32(b, w.ch == 1 ? 4 : 3); static const uint8_t guid[] = {1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71}; b.insert(b.end(), guid, guid + 16); }
    auto extra = [&](int k) { for (; k > 0; k--) { int n = (int)r.below(40); if (!w.odd) n &= ~1; tag(b, r.next() & 1 ? "LIST" : "fact"); u32(b, n); for (int i = 0; i < n; i++) b.push_back(r.next()); if (n & 1) b.push_back(0); } };
    extra(w.before); tag(b, "data"); u32(b, (uint32_t)pcm.size()); b.insert(b.end(), pcm.begin(), pcm.end()); if (pcm.size() & 1) b.push_back(0); extra(w.after);
    uint32_t sz = (uint32_t)b.size() - 8; for (int i = 0; i < 4; i++) b[4 + i] = sz >> (8 * i);
    return b;
}
static std::string ms(int dt) { char t[16]; snprintf(t, sizeof t, "%g", dt / 1000.0); return t; }
static int at_diff(const Bytes &a, const Bytes &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (int)i; return a.size() == b.size() ? -1 : (int)n; }
static Bytes lc3_header(const Cfg &c, int br, int ch, uint32_t n) { Bytes b; u16(b, 0xcc1c); u16(b, c.hr ? 20 : 18); u16(b, c.sr / 100); u16(b, br / 100); u16(b, ch); u16(b, c.dt / 10); u16(b, 0); u16(b, n & 0xffff); u16(b, n >> 16); if (c.hr) u16(b, 1); return b; }
static int blk(int block, int ch, int k) { return block / ch + (k < block % ch); }

static Cfg tool_cfg(Src &s) { Cfg c = gen_cfg(s, 3, 2); return c; }
// The stream the library makes of these samples (interleaved, container of f)
static Bytes encode_all(const Cfg &c, int ch, Fmt f, const Bytes &pcm, int n, int block) {
    std::vector<Enc> e(ch); for (auto &x : e) x.open(c); size_t fb = fmt_bytes(f) * ch; Bytes out;
    for (int i = 0; (int64_t)i * c.ns() < n + c.delay(); i++) { Aligned in(fb * c.ns()); int have = std::max(0, std::min(c.ns(), n - i * c.ns())); if (have) memcpy(in.p, pcm.data() + fb * i * c.ns(), fb * have);
        u16(out, block); size_t at = out.size(); out.resize(at + block);
        for (int k = 0; k < ch; k++) { int nb = blk(block, ch, k); int r = lc3_encode(e[k].h, f, in.p + k * fmt_bytes(f), ch, nb, out.data() + at); CHECK(r == 0, "encode", "library refuses %d bytes", nb); at += nb; } }
    return out; }

PROPERTY(elc3_encodes, 2500, 60000, "wave files of 0..6 frames (every header form: 16, 18 or 40 byte format, chunks before and after the samples, 16 bits, 24 bits in 3 or 4 bytes, 1 or 2 channels) encoded by elc3 with any options, by name or standard streams; the file must be the documented header and exactly what the library produces; non-trivial = file written, keyed by options and content") {
    Cfg c = tool_cfg(s); Wav w; w.rate = c.pcm; w.ch = 1 + (int)s.draw(2); int fm = (int)s.draw(3); w.bits = fm ? 24 : 16; w.sbytes = fm == 0 ? 2 : fm == 1 ? 3 : 4; Fmt f = fm == 0 ? LC3_PCM_FORMAT_S16 : fm == 1 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S24;
    w.n = s.weighted({4, 2, 1}) == 0 ? (int)s.draw(c.ns() * 6) : s.coin() ? (int)s.draw(6) * c.ns() + (int)s.draw(3) : (int)s.draw(c.ns()); w.fmtsize = std::vector<int>{16, 18, 40}[s.draw(3)]; w.before = (int)s.draw(3); w.after = (int)s.draw(3); w.odd = s.coin();
    std::vector<std::vector<double>> sig; for (int k = 0; k < w.ch; k++) sig.push_back(gen_signal(s, c.pcm, std::max(1, w.n)));
    Bytes pcm((size_t)w.n * w.ch * w.sbytes); for (int i = 0; i < w.n; i++) for (int k = 0; k < w.ch; k++) put_sample(f, pcm.data(), (size_t)i * w.ch + k, sig[k][i]);
    int br; switch (s.weighted({4, 2, 1})) { case 0: br = 8000 + (int)s.draw(320000) * w.ch; break; case 1: br = 1 + (int)s.draw(1000000); break; default: br = s.coin() ? 1 : 2000000000; }
    int redirect = (int)s.draw(3); Rng r(s.seed()); std::string in = scratch() + ".wav", out = scratch() + ".lc3"; save(in, wav_file(w, pcm, r)); unlink(out.c_str());
    std::vector<std::string> a{"-b", std::to_string(br)}; if (c.dt != 10000 || s.coin()) { a.push_back("-m"); a.push_back(ms(c.dt)); } if (c.pcm != c.sr || s.chance(1, 3)) { a.push_back("-r"); a.push_back(std::to_string(c.sr)); } if (c.hr) a.push_back("-H");
    std::string cmd = "elc3"; for (auto &x : a) cmd += " " + x; s.note("%s: %d x %d samples of %d bits in %d, format chunk %d, %d+%d other chunks%s, streams %d", cmd.c_str(), w.ch, w.n, w.bits, w.sbytes, w.fmtsize, w.before, w.after, w.odd ? " (odd)" : "", redirect);
    Ran rn = run("elc3", a, in, out, redirect); Bytes got; bool have = load(out, got); unlink(in.c_str()); unlink(out.c_str());
    CHECK(rn.code == 0 && have, "elc3", "%s on a %d-channel %d Hz %d-bit file (format chunk of %d bytes, %d chunks before the samples%s) ends with %d: %.200s", cmd.c_str(), w.ch, w.rate, w.bits, w.fmtsize, w.before, w.odd ? ", odd sizes" : "", rn.code, rn.err.c_str());
    int block = lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, w.ch, br), rbr = lc3_hr_resolve_bitrate(c.hr, c.dt, c.sr, block);
    Bytes want = lc3_header(c, rbr, w.ch, (uint32_t)((int64_t)w.n * c.sr / c.pcm)), body = encode_all(c, w.ch, f, pcm, w.n, block); want.insert(want.end(), body.begin(), body.end());
    int at = at_diff(got, want); CHECK(at < 0, "stream", "%s: %zu bytes written, %zu expected, first difference at %d (%s), %d x %d samples", cmd.c_str(), got.size(), want.size(), at, at < 18 ? "header" : "frames", w.ch, w.n);
    s.label("format chunk " + std::to_string(w.fmtsize)); s.label(fmt_name(f)); if (c.pcm != c.sr) s.label("resampled"); if (c.hr) s.label("high resolution"); if (w.after) s.label("chunks after the samples"); if (redirect) s.label("standard streams");
    s.nt(pbt::hash_bytes(got.data(), got.size(), c.key()));
}
PROPERTY(dlc3_decodes, 2500, 60000, "LC3 files made by the library (also damaged, with blocks of an impossible size, truncated, and with longer headers) decoded by dlc3 to 16 or 24 bits at any output rate; the wave file must hold exactly the announced number of samples, delay removed, as the library decodes them; non-trivial = at least one sample, keyed by content") {
    Cfg c = tool_cfg(s); int ch = 1 + (int)s.draw(2), lo = ch * c.min_bytes(), hi = ch * c.max_bytes(), block = s.coin() ? ch * gen_nbytes(s, c) : s.range(lo, hi);
    Cfg ec = c; ec.pcm = c.sr; int n = s.coin() ? (int)s.draw(c.nsc() * 6) : (int)s.draw(c.nsc()); 
    std::vector<double> sig = gen_signal(s, c.sr, (size_t)std::max(1, n) * ch); Bytes pcm = pack(LC3_PCM_FORMAT_S16, sig.data(), (size_t)n * ch), body = encode_all(ec, ch, LC3_PCM_FORMAT_S16, pcm, n, block);
    int nblk = (int)(body.size() / (block + 2)); std::vector<Bytes> blocks; for (int i = 0; i < nblk; i++) blocks.push_back(Bytes(body.begin() + (size_t)i * (block + 2) + 2, body.begin() + (size_t)(i + 1) * (block + 2)));
    Bytes file = lc3_header(c, 64000, ch, n); bool ext = s.chance(1, 4); if (ext) { int k = 2 * (int)s.draw(4); if (!c.hr) { u16(file, 0); } for (int i = 0; i < k; i++) file.push_back((uint8_t)s.draw(256)); int hs = (int)file.size(); file[2] = hs; file[3] = hs >> 8; }
    bool dmg = false, small = false, cut = false; int kept = nblk;
    for (auto &b : blocks) { if (s.chance(1, 8)) { dmg = true; for (int k = 1 + (int)s.draw(8); k; k--) b[s.draw(b.size())] ^= 1 << s.draw(8); } if (s.chance(1, 16)) { small = true; b.resize(1 + s.draw(lo - 1)); } if (s.chance(1, 16)) { int z = s.range(lo, hi); b.resize(z, 0x55); dmg = true; } }
    if (s.chance(1, 5) && nblk > 1) { kept = (int)s.draw(nblk); cut = true; }
    for (int i = 0; i < kept; i++) { u16(file, (unsigned)blocks[i].size()); file.insert(file.end(), blocks[i].begin(), blocks[i].end()); }
    if (cut && s.coin()) { u16(file, (unsigned)block); file.insert(file.end(), (size_t)s.draw(block), 0x11); }
    int bits = s.coin() ? 24 : 16; bool rsel = c.pcm != c.sr || s.chance(1, 4); std::vector<std::string> a; if (bits == 24 || s.coin()) { a.push_back("-b"); a.push_back(std::to_string(bits)); } if (rsel) { a.push_back("-r"); a.push_back(std::to_string(c.pcm)); }
    int redirect = (int)s.draw(3); std::string in = scratch() + ".lc3", out = scratch() + ".wav"; save(in, file); unlink(out.c_str());
    std::string cmd = "dlc3"; for (auto &x : a) cmd += " " + x; s.note("%s of %s: %dch, %d samples, blocks of %d bytes%s%s%s%s", cmd.c_str(), c.str().c_str(), ch, n, block, dmg ? ", damaged" : "", small ? ", undersized blocks" : "", cut ? ", cut" : "", ext ? ", long header" : "");
    Ran rn = run("dlc3", a, in, out, redirect); Bytes got; bool have = load(out, got); unlink(in.c_str()); unlink(out.c_str());
    CHECK(rn.code == 0 && have, "dlc3", "%s on a %s file of %d channels and %d samples ends with %d: %.200s", cmd.c_str(), c.str().c_str(), ch, n, rn.code, rn.err.c_str());
    // expectation
    Fmt f = bits == 24 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S16; int sb = bits / 8; int64_t pn = (int64_t)n * c.pcm / c.sr; Bytes all; std::vector<Dec> d(ch); for (auto &x : d) x.open(c);
    for (int i = 0; (int64_t)i * c.ns() < pn + c.delay(); i++) { Aligned o((size_t)c.ns() * ch * sb);
        if (i < kept) { int at = 0; for (int k = 0; k < ch; k++) { int nb = blk((int)blocks[i].size(), ch, k); if (lc3_decode(d[k].h, blocks[i].data() + at, nb, f, o.p + k * sb, ch) < 0) lc3_decode(d[k].h, nullptr, 0, f, o.p + k * sb, ch); at += nb; } }
        all.insert(all.end(), o.p, o.p + (size_t)c.ns() * ch * sb); }
    Bytes want; tag(want, "RIFF"); u32(want, (uint32_t)(36 + pn * ch * sb)); tag(want, "WAVE"); tag(want, "fmt "); u32(want, 16); u16(want, 1); u16(want, ch); u32(want, c.pcm); u32(want, c.pcm * ch * sb); u16(want, ch * sb); u16(want, bits); tag(want, "data"); u32(want, (uint32_t)(pn * ch * sb));
    size_t off = (size_t)c.delay() * ch * sb; want.insert(want.end(), all.begin() + off, all.begin() + off + pn * ch * sb);
    CHECK(got.size() == want.size(), "length", "%s of %s: %zu bytes written for %lld samples of %d channels, %zu expected", cmd.c_str(), c.str().c_str(), got.size(), (long long)pn, ch, want.size());
    int at = at_diff(got, want); CHECK(at < 0, "pcm", "%s of %s: byte %d (%s) is %02x, expected %02x%s%s%s", cmd.c_str(), c.str().c_str(), at, at < 44 ? "header" : ("sample " + std::to_string((at - 44) / (ch * sb))).c_str(), got[at], want[at], dmg ? ", damaged" : "", small ? ", undersized blocks" : "", cut ? ", cut" : "");
    s.label(bits == 24 ? "24 bits" : "16 bits"); if (c.pcm != c.sr) s.label("resampled"); if (dmg) s.label("damaged"); if (small) s.label("undersized blocks"); if (cut) s.label("truncated"); if (n && n + c.delay() < c.nsc()) s.label("shorter than a frame"); if (c.hr) s.label("high resolution");
    if (pn) s.nt(pbt::hash_bytes(got.data(), got.size(), c.key()));
}
PROPERTY(long_streams, 6, 160, "streams longer than 2^16 and 2^24 samples (8 kHz, one channel, mostly silence, sound at the ends): elc3 writes the count of samples and the frames that the library makes, dlc3 writes as many samples, also of a file cut early; non-trivial = all, keyed by the length and direction") {
    Cfg c; c.dt = s.coin() ? 10000 : 7500; c.sr = c.pcm = 8000; c.hr = false; static const int base[] = {1 << 24, 1 << 24, 3 << 23, 1 << 16, 3 << 16, 255 << 16}; int n = base[s.draw(6)] + s.range(-300, 300); bool dec = s.coin(); int block = 20; s.note("%s of %d samples, %s", dec ? "dlc3" : "elc3", n, c.str().c_str());
    Rng r(s.seed()); std::string in = scratch() + ".in", out = scratch() + ".out"; unlink(out.c_str()); Bytes got, want; Ran rn;
    if (!dec) { Bytes pcm((size_t)n * 2); for (int i = 0; i < 400; i++) pcm[i] = r.next(), pcm[pcm.size() - 1 - i] = r.next(); Wav w; w.rate = 8000; w.n = n; save(in, wav_file(w, pcm, r)); int br = lc3_resolve_bitrate(c.dt, block);
        rn = run("elc3", {"-b", std::to_string(br), "-m", ms(c.dt)}, in, out, 0); CHECK(rn.code == 0 && load(out, got), "elc3", "elc3 on %d samples ends with %d: %.200s", n, rn.code, rn.err.c_str()); want = lc3_header(c, br, 1, n); Bytes b = encode_all(c, 1, LC3_PCM_FORMAT_S16, pcm, n, block); want.insert(want.end(), b.begin(), b.end()); }
    else { Enc e; e.open(c); int kept = 40; Bytes file = lc3_header(c, 16000, 1, n), body; for (int i = 0; i < kept; i++) { Aligned x((size_t)c.ns() * 2); for (int k = 0; k < 2 * c.ns(); k++) x.p[k] = r.next() >> (k & 1 ? 3 : 0); u16(body, block); size_t at = body.size(); body.resize(at + block); lc3_encode(e.h, LC3_PCM_FORMAT_S16, x.p, 1, block, body.data() + at); }
        Bytes f = file; f.insert(f.end(), body.begin(), body.end()); save(in, f); rn = run("dlc3", {}, in, out, 0); CHECK(rn.code == 0 && load(out, got), "dlc3", "dlc3 on %d samples ends with %d: %.200s", n, rn.code, rn.err.c_str());
        Dec d; d.open(c); Bytes all; for (int i = 0; (int64_t)i * c.ns() < (int64_t)n + c.delay(); i++) { Aligned o((size_t)c.ns() * 2); if (i < kept) lc3_decode(d.h, body.data() + i * (block + 2) + 2, block, LC3_PCM_FORMAT_S16, o.p, 1); all.insert(all.end(), o.p, o.p + (size_t)c.ns() * 2); }
        tag(want, "RIFF"); u32(want, 36 + n * 2u); tag(want, "WAVE"); tag(want, "fmt "); u32(want, 16); u16(want, 1); u16(want, 1); u32(want, 8000); u32(want, 16000); u16(want, 2); u16(want, 16); tag(want, "data"); u32(want, n * 2u); size_t off = (size_t)c.delay() * 2; want.insert(want.end(), all.begin() + off, all.begin() + off + (size_t)n * 2); }
    unlink(in.c_str()); unlink(out.c_str()); int at = at_diff(got, want); CHECK(at < 0, dec ? "pcm" : "stream", "%s of %d samples: %zu bytes written, %zu expected, first difference at %d", dec ? "dlc3" : "elc3", n, got.size(), want.size(), at);
    s.label(n > (1 << 24) ? "over 2^24 samples" : "under 2^24 samples"); s.label(dec ? "decoding" : "encoding"); s.nt(pbt::hkey({n, dec, c.dt}));
}
PROPERTY(tools_refuse, 1500, 20000, "files and options that no stream can be made of: the tool ends with an error status, it never crashes; non-trivial = all, keyed by the variation") {
    int k = (int)s.draw(13); Cfg c = gen_cfg(s, 0, 1); Wav w; w.rate = c.pcm; w.ch = 1 + (int)s.draw(2); w.n = (int)s.draw(500); Rng r(s.seed()); std::string br = "64000", m = ms(c.dt); std::vector<std::string> more; bool dec = false; int cut = -1; int pos = -1;
    switch (k) {
    case 0: br = std::to_string(-(int)s.draw(2000)); break; case 1: m = std::vector<std::string>{"0", "3", "20", "-10", "9.9", "x"}[s.draw(6)]; break;
    case 2: w.rate = std::vector<int>{44100, 22050, 11025, 12000, 192000, 1}[s.draw(6)]; break; case 3: w.bits = std::vector<int>{8, 32, 12}[s.draw(3)]; w.sbytes = (w.bits + 7) / 8; break;
    case 4: w.ch = 3 + (int)s.draw(6); break; case 5: more = {"-r", std::to_string(c.pcm + 8000)}; break; case 6: more = {"-r", "44100"}; break; case 7: cut = (int)s.draw(44); break;
    case 8: pos = (int)s.draw(16); if (pos >= 4) pos += 4; if (pos >= 16) pos = 12 + pos % 4; break; case 9: more = {"-z"}; break; case 10: dec = true; pos = (int)s.draw(2); break; case 11: dec = true; pos = 4; break; default: dec = true; cut = (int)s.draw(18); }
    std::string in = scratch() + ".in", out = scratch() + ".out"; Bytes b; Ran rn;
    if (dec) { Cfg q = c; b = lc3_header(q, 64000, w.ch, w.n); if (k == 11) { if (s.coin()) { b[8] = 3 + (uint8_t)s.draw(250); } else if (s.coin()) { b[4] = 1 + b[4]; } else { b[10] ^= 1 + (uint8_t)s.draw(255); if (b[10] == 1000 % 256 || b[10] == 750 % 256 || b[10] == 500 % 256 || b[10] == 250 % 256) b[11] = 9; } } else if (pos >= 0) b[pos] ^= 1 + (uint8_t)s.draw(255); b.insert(b.end(), 600, 0x33); if (cut >= 0) b.resize(cut); save(in, b); rn = run("dlc3", {}, in, out, (int)s.draw(3)); }
    else { Bytes pcm((size_t)w.n * w.ch * w.sbytes, 7); b = wav_file(w, pcm, r); if (cut >= 0) b.resize(cut); if (pos >= 0) b[pos] ^= 1 + (uint8_t)s.draw(255); save(in, b); std::vector<std::string> a{"-b", br, "-m", m}; if (c.hr) a.push_back("-H"); a.insert(a.end(), more.begin(), more.end()); rn = run("elc3", a, in, out, (int)s.draw(3)); }
    unlink(in.c_str()); unlink(out.c_str()); s.note("variation %d", k); s.label("variation " + std::to_string(k));
    CHECK(rn.code > 0 && rn.code != 99, "refuse", "%s, variation %d (%s): status %d (%.120s)", dec ? "dlc3" : "elc3", k, c.str().c_str(), rn.code, rn.err.c_str());
    s.nt(pbt::hkey({k, (int64_t)pbt::hash_bytes(b.data(), b.size()), (int64_t)c.key()}));
}
// Damaged files: any bytes of valid ones changed, removed or inserted; the announced count of samples is kept within reason.
PROPERTY(tools_hostile, 1500, 30000, "wave and LC3 files of 0..6 frames with bytes changed, removed or inserted anywhere: the tool ends by itself with some status, it never crashes (nor steps outside its buffers, in the sanitizer build), and a success leaves a file; non-trivial = all, keyed by the file") {
    bool dec = s.coin(); Cfg c = tool_cfg(s); int ch = 1 + (int)s.draw(2); Bytes b; Rng r(s.seed()); std::vector<std::string> a;
    if (dec) { Cfg ec = c; ec.pcm = c.sr; int n = (int)s.draw(c.nsc() * 6), block = ch * gen_nbytes(s, c); std::vector<double> sig = gen_signal(s, c.sr, (size_t)std::max(1, n) * ch); Bytes pcm = pack(LC3_PCM_FORMAT_S16, sig.data(), (size_t)n * ch), body = encode_all(ec, ch, LC3_PCM_FORMAT_S16, pcm, n, block);
        b = lc3_header(c, 64000, ch, n);
        if (s.chance(1, 3)) { int big = s.coin() ? std::vector<int>{626, 625 * ch, 625 * ch + 1, 1251, 1500, 1875, 2500, 65535}[s.draw(8)] : 625 + (int)s.draw(3000); u16(b, big); for (int i = s.chance(1, 4) ? (int)s.draw(big) : big; i > 0; i--) b.push_back((uint8_t)r.next()); s.label("oversized block"); }
        b.insert(b.end(), body.begin(), body.end()); if (s.coin()) { a = {"-b", s.coin() ? "24" : "16"}; } if (c.pcm != c.sr) { a.push_back("-r"); a.push_back(std::to_string(c.pcm)); } }
    else { Wav w; w.rate = c.pcm; w.ch = ch; int fm = (int)s.draw(3); w.bits = fm ? 24 : 16; w.sbytes = fm == 0 ? 2 : fm == 1 ? 3 : 4; w.n = (int)s.draw(c.ns() * 6); w.fmtsize = std::vector<int>{16, 18, 40}[s.draw(3)]; w.before = (int)s.draw(3); w.after = (int)s.draw(3);
        Bytes pcm((size_t)w.n * ch * w.sbytes); for (auto &x : pcm) x = (uint8_t)r.next(); b = wav_file(w, pcm, r); a = {"-b", std::to_string(1000 + s.draw(400000)), "-m", ms(c.dt)}; if (c.pcm != c.sr) { a.push_back("-r"); a.push_back(std::to_string(c.sr)); } if (c.hr) a.push_back("-H"); }
    int nd = 1 + (int)s.draw(4); for (int k = 0; k < nd && b.size() > 1; k++) { size_t at = s.chance(2, 3) ? s.draw(std::min<size_t>(b.size(), 60)) : s.draw(b.size());
        switch (s.weighted({3, 2, 2, 1, 1, 1})) { case 0: b[at] = (uint8_t)s.draw(256); break; case 1: b[at] ^= 1 << s.draw(8); break; case 2: b[at] = s.coin() ? 0 : 255; break; case 3: b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + 1 + s.draw(4))); break; case 4: b.insert(b.begin() + at, (size_t)(1 + s.draw(4)), (uint8_t)s.draw(256)); break; default: b.resize(at); } }
    if (dec) { if (b.size() > 16) b[16] &= 1; if (b.size() > 17) b[17] = 0; }
    else for (size_t i = 0; i + 8 <= b.size(); i++) if (!memcmp(&b[i], "data", 4)) b[i + 6] &= 7, b[i + 7] = 0;
    std::string in = scratch() + ".in", out = scratch() + ".out"; save(in, b); unlink(out.c_str()); int redirect = (int)s.draw(3); Ran rn = run(dec ? "dlc3" : "elc3", a, in, out, redirect); Bytes got; bool have = load(out, got); unlink(in.c_str()); unlink(out.c_str());
    s.note("%s, %s, %d channels, %zu bytes, %d places damaged", dec ? "dlc3" : "elc3", c.str().c_str(), ch, b.size(), nd); s.label(std::string(dec ? "dlc3" : "elc3") + (rn.code ? ": refused" : ": accepted"));
    CHECK(rn.code >= 0 && rn.code != 99 && (rn.code || have), "crash", "%s on a damaged file of %zu bytes (%s): status %d (%.1500s)", dec ? "dlc3" : "elc3", b.size(), c.str().c_str(), rn.code, rn.err.c_str());
    s.nt(pbt::hash_bytes(b.data(), b.size(), c.key() ^ dec));
}
// Faults: the output has no room left at some point.
PROPERTY(tools_no_room, 1200, 20000, "files of 1..12 frames converted by elc3 or dlc3 to a file that takes only the first bytes of the result (from none to all but one), or to a full device: the tool ends with an error status; with room for all, it ends well; non-trivial = room for less than the result, keyed by the conversion and the room") {
    bool dec = s.coin(); Cfg c = tool_cfg(s); int ch = 1 + (int)s.draw(2); Rng r(s.seed()); Bytes b; std::vector<std::string> a; size_t size; int redirect = (int)s.draw(3);
    if (dec) { Cfg ec = c; ec.pcm = c.sr; int n = 1 + (int)s.draw(c.nsc() * 12), block = ch * gen_nbytes(s, c); Bytes pcm((size_t)n * ch * 2); for (auto &x : pcm) x = (uint8_t)r.next(); b = lc3_header(c, 64000, ch, n); Bytes body = encode_all(ec, ch, LC3_PCM_FORMAT_S16, pcm, n, block); b.insert(b.end(), body.begin(), body.end());
        int bits = s.coin() ? 24 : 16; a = {"-b", std::to_string(bits)}; if (c.pcm != c.sr) { a.push_back("-r"); a.push_back(std::to_string(c.pcm)); } size = 44 + (size_t)((int64_t)n * c.pcm / c.sr) * ch * (bits / 8); }
    else { Wav w; w.rate = c.pcm; w.ch = ch; w.n = 1 + (int)s.draw(c.ns() * 12); Bytes pcm((size_t)w.n * ch * 2); for (auto &x : pcm) x = (uint8_t)r.next(); b = wav_file(w, pcm, r); int br = 1000 + (int)s.draw(400000); a = {"-b", std::to_string(br), "-m", ms(c.dt)}; if (c.pcm != c.sr) { a.push_back("-r"); a.push_back(std::to_string(c.sr)); } if (c.hr) a.push_back("-H");
        size = (c.hr ? 20 : 18) + (size_t)((w.n + c.delay() + c.ns() - 1) / c.ns()) * (2 + lc3_hr_frame_block_bytes(c.hr, c.dt, c.sr, ch, br)); }
    int k = s.weighted({6, 2, 2}); size_t room = k == 0 ? s.draw(size) : k == 1 ? size - 1 - s.draw(std::min<size_t>(size, 5)) : size; bool full = k < 2 && s.chance(1, 6);
    std::string in = scratch() + ".in", out = full ? "/dev/full" : scratch() + ".out"; save(in, b); if (!full) unlink(out.c_str());
    struct Room { ~Room() { g_room = -1; } } restore; if (k < 2 && !full) g_room = (long)room; Ran rn = run(dec ? "dlc3" : "elc3", a, in, out, redirect); g_room = -1;
    Bytes got; if (!full) { load(out, got); unlink(out.c_str()); } unlink(in.c_str());
    std::string cmd = dec ? "dlc3" : "elc3"; for (auto &x : a) cmd += " " + x; s.note("%s: result of %zu bytes, room for %zu%s, streams %d", cmd.c_str(), size, room, full ? " (full device)" : "", redirect);
    if (k == 2) CHECK(rn.code == 0 && got.size() == size, "size", "%s: status %d, %zu bytes written of %zu (%.200s)", cmd.c_str(), rn.code, got.size(), size, rn.err.c_str());
    else { CHECK(rn.code > 0 && rn.code != 99, "no-room", "%s: status %d though the %zu bytes of the result could not be written (%s)", cmd.c_str(), rn.code, size, full ? "full device" : ("room for " + std::to_string(room)).c_str()); s.nt(pbt::hkey({dec, (int64_t)room, (int64_t)c.key(), redirect, full})); }
    s.label(k == 2 ? "room for all" : full ? "full device" : "too little room"); s.label(dec ? "dlc3" : "elc3");
}
