// An encoder/decoder session as data, so that it can be run several ways.
#pragma once
#include "codec.h"
#include "frames.h"
namespace cd {

// Scribble over the stack region the next call is going to use.
__attribute__((noinline)) inline void paint_stack(int v) {
    volatile char a[96 * 1024]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char)v; (void)a[17]; }

struct EncStep { int nbytes; Fmt f; bool disable; std::vector<uint8_t> pcm; };   // pcm: contiguous samples
struct DecStep { bool lost; int nbytes; Fmt f; std::vector<uint8_t> in; };

inline std::vector<EncStep> gen_enc_steps(Src &s, const Cfg &c, int maxf, SigDesc *sd = nullptr, int onefmt = -1, bool allow_disable = true) {
    int nf = 1 + (int)s.draw(maxf); Fmt f = onefmt >= 0 ? (Fmt)onefmt : gen_fmt(s); int nb = gen_nbytes(s, c);
    std::vector<double> sig = gen_signal(s, c.pcm, (size_t)c.ns() * nf, sd);
    std::vector<EncStep> v;
    bool vary = s.chance(1, 2);
    for (int i = 0; i < nf; i++) {
        if (vary && onefmt < 0 && s.chance(1, 4)) f = gen_fmt(s);
        if (vary && s.chance(1, 4)) nb = gen_nbytes(s, c);
        EncStep e; e.nbytes = nb; e.f = f; e.disable = allow_disable && vary && s.chance(1, 12);
        e.pcm = pack(f, sig.data() + (size_t)i * c.ns(), c.ns()); v.push_back(e);
    }
    return v;
}
inline std::vector<DecStep> gen_dec_steps(Src &s, const Cfg &c, int maxf, int onefmt = -1) {
    FrameGen fg(s, c); int nf = 1 + (int)s.draw(maxf); Fmt f = onefmt >= 0 ? (Fmt)onefmt : gen_fmt(s);
    std::vector<DecStep> v;
    for (int i = 0; i < nf; i++) {
        if (onefmt < 0 && s.chance(1, 5)) f = gen_fmt(s);
        auto fr = fg.next(s); DecStep d; d.lost = fr.lost; d.in = fr.data; d.nbytes = fr.lost ? (s.coin() ? 0 : fg.nbytes) : (int)fr.data.size(); d.f = f; v.push_back(d);
    }
    return v;
}
// aligned copy of sample bytes
struct Aligned { std::vector<uint64_t> w; uint8_t *p; explicit Aligned(size_t n, int fill = 0) : w(n / 8 + 2) { p = (uint8_t *)w.data(); memset(p, fill, n); } };
inline std::vector<uint8_t> enc_step(lc3_encoder_t h, const Cfg &c, const EncStep &e, int fill = 0) {
    Aligned a(e.pcm.size()); memcpy(a.p, e.pcm.data(), e.pcm.size());
    if (e.disable) lc3_encoder_disable_ltpf(h);
    std::vector<uint8_t> out(e.nbytes, (uint8_t)fill);
    int r = lc3_encode(h, e.f, a.p, 1, e.nbytes, out.data());
    CHECK(r == 0, "retval", "encode of %d bytes returned %d", e.nbytes, r);
    CHECK(written(out.data(), out.size()), "uninitialised", "the %d bytes of a frame depend on memory that nobody wrote", e.nbytes);
    return out;
}
inline std::vector<uint8_t> dec_step(lc3_decoder_t h, const Cfg &c, const DecStep &d, int *ret, int fill = 0) {
    size_t n = (size_t)c.ns() * fmt_bytes(d.f); Aligned a(n, fill);
    *ret = lc3_decode(h, d.lost ? nullptr : d.in.data(), d.nbytes, d.f, a.p, 1);
    CHECK(*ret == 0 || *ret == 1, "retval", "decode of %d bytes returned %d", d.nbytes, *ret);
    CHECK(written(a.p, n), "uninitialised", "the samples of a frame depend on memory that nobody wrote");
    return std::vector<uint8_t>(a.p, a.p + n);
}
inline std::string desc(const std::vector<EncStep> &v) { std::string o = std::to_string(v.size()) + " frames:"; for (auto &e : v) { o += " " + std::to_string(e.nbytes) + "B/" + fmt_name(e.f) + (e.disable ? "/noltpf" : ""); if (o.size() > 160) break; } return o; }
inline std::string desc(const std::vector<DecStep> &v) { std::string o = std::to_string(v.size()) + " frames:"; for (auto &e : v) { o += e.lost ? std::string(" lost") : " " + std::to_string(e.nbytes) + "B"; o += std::string("/") + fmt_name(e.f); if (o.size() > 160) break; } return o; }
inline int first_diff(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { if (a.size() != b.size()) return 0; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return (int)i; return -1; }
}
