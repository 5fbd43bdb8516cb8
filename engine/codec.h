// Shared vocabulary of the liblc3 checks: configurations, frame sizes, PCM
// formats and signal generators.  Everything here is derived from the public
// header's documentation, not from the library's own computations.
#pragma once
#include "pbt.h"
#include <cmath>
#include <memory>
#include <algorithm>
#include <string>
#include <vector>
#include <lc3.h>

namespace cd {
using pbt::Src; using pbt::Rng;

struct Cfg {
    bool hr = false; int dt = 10000, sr = 48000, pcm = 48000;   // pcm: PCM side sample rate
    int ns() const { return (int)((int64_t)dt * pcm / 1000000); }
    int nsc() const { return (int)((int64_t)dt * sr / 1000000); }  // coded
    int dti() const { return dt / 2500 - 1; }
    int doc_min() const {     // as documented in the header
        if (!hr) return 20;
        bool s96 = sr == 96000;
        return dt == 10000 ? (s96 ? 187 : 156) : dt == 5000 ? (s96 ? 109 : 93) : (s96 ? 62 : 54); }
    // The library deliberately accepts down to half of the documented
    // high-resolution minimum; either reading is admitted.
    int min_bytes() const {
        if (!hr) return 20;
        return lc3_hr_frame_bytes(hr, dt, sr, 0) == doc_min() ? doc_min() : doc_min() / 2; }
    int max_bytes() const { return !hr ? 400 : dt == 10000 ? 625 : dt == 5000 ? 375 : 210; }
    // Documented look-ahead: 2.5 ms of delay, 4 ms for 7.5 ms frames
    int delay() const { return (int)((int64_t)pcm * (dt == 7500 ? 4000 : 2500) / 1000000); }
    int nch_key() const { return 0; }
    uint64_t key() const { return pbt::hkey({hr, dt, sr, pcm}); }
    std::string str() const { char b[80]; snprintf(b, sizeof b, "%s%gms/%dk%s", hr ? "hr:" : "", dt / 1000.0, sr / 1000,
        pcm != sr ? ("/pcm" + std::to_string(pcm / 1000) + "k").c_str() : ""); return b; }
};

#ifndef CD_PLUS
#define CD_PLUS 1
#endif
#ifndef CD_PLUS_HR
#define CD_PLUS_HR 1
#endif

inline const std::vector<int> &rates(bool hr) {
    static const std::vector<int> a{8000, 16000, 24000, 32000, 48000}, b{48000, 96000}; return hr ? b : a; }
inline const std::vector<int> &durations(bool hr) {
    static const std::vector<int> a{10000, 7500, 5000, 2500}, b{10000, 5000, 2500}; return hr ? b : a; }

// Any valid configuration.  resample: how often (out of 8) the PCM rate differs.
inline Cfg gen_cfg(Src &s, int resample = 2, int hrw = 2) {
    Cfg c; c.hr = s.chance(hrw, 8);
    c.dt = s.pick(durations(c.hr)); int i = (int)s.draw(rates(c.hr).size());
    c.sr = rates(c.hr)[i]; c.pcm = c.sr;
    if (resample && s.chance(resample, 8)) { auto &r = rates(c.hr); c.pcm = r[i + s.draw(r.size() - i)]; }
    return c;
}
inline std::vector<Cfg> all_cfgs(bool resample = true) {
    std::vector<Cfg> v;
    for (bool hr : {false, true}) for (int dt : durations(hr)) for (int sr : rates(hr)) for (int p : rates(hr))
        if (p == sr || (resample && p > sr)) { Cfg c; c.hr = hr; c.dt = dt; c.sr = sr; c.pcm = p; v.push_back(c); }
    return v;
}
inline int gen_nbytes(Src &s, const Cfg &c) {
    int lo = c.min_bytes(), hi = c.max_bytes();
    switch (s.weighted({3, 3, 1, 1, 2})) {
    case 0: return s.range(lo, hi);
    case 1: return s.range(lo, std::min(hi, lo + 60));
    case 2: return lo; case 3: return hi;
    default: { // typical bit rates
        static const int br[] = {16000, 24000, 27734, 32000, 48000, 64000, 80000, 96000, 114000, 115000, 124800, 160000, 192000, 248000, 320000, 500000};
        int n = (int)((int64_t)br[s.draw(16)] * c.dt / 8000000); return std::min(hi, std::max(lo, n)); }
    }
}

// ---- handles over exactly-sized memory
struct Mem { std::unique_ptr<char[]> p; size_t n = 0;
    void alloc(size_t k, int fill = -1, uint64_t seed = 0) { n = k; p.reset(new char[k ? k : 1]);
        if (fill >= 0) memset(p.get(), fill, k); else { Rng r(seed); for (size_t i = 0; i < k; i++) p[i] = (char)r.next(); } } };

// ---- under MemorySanitizer: memory that nobody wrote, and the check that it was
#if defined(__clang__)
#if __has_feature(memory_sanitizer)
#define CD_MSAN 1
#endif
#endif
#ifdef CD_MSAN
extern "C" { void __msan_poison(const volatile void *, size_t); void __msan_unpoison(const volatile void *, size_t); intptr_t __msan_test_shadow(const volatile void *, size_t); }
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static int msan_hooks = __sanitizer_install_malloc_and_free_hooks([](const volatile void *p, size_t n) { __msan_unpoison(p, n); }, [](const volatile void *) {});
inline void unwritten(void *p, size_t n) { __msan_poison(p, n); }
inline bool written(const void *p, size_t n) { bool r = __msan_test_shadow(p, n) < 0; __msan_unpoison(p, n); return r; }
#else
inline void unwritten(void *, size_t) {}
inline bool written(const void *, size_t) { return true; }
#endif

// Size of the static memory types that the header's macros make
template <class E, class D> inline size_t type_size(bool enc) { return enc ? sizeof(E) : sizeof(D); }
inline size_t static_size(bool enc, int dt, int sr) {
#define CD_T(d, r) { typedef LC3_ENCODER_MEM_T(d, r) E; typedef LC3_DECODER_MEM_T(d, r) D; if (dt == d && sr == r) return type_size<E, D>(enc); }
#define CD_TD(d) CD_T(d, 8000) CD_T(d, 16000) CD_T(d, 24000) CD_T(d, 32000) CD_T(d, 48000) CD_T(d, 96000)
    CD_TD(2500) CD_TD(5000) CD_TD(7500) CD_TD(10000)
#undef CD_TD
#undef CD_T
    return 0; }

struct Enc {
    Mem m; lc3_encoder_t h = nullptr;
    Enc() {}
    explicit Enc(const Cfg &c, int fill = 0xa5, uint64_t seed = 0) { open(c, fill, seed); }
    void open(const Cfg &c, int fill = 0xa5, uint64_t seed = 0) {
        m.alloc(lc3_hr_encoder_size(c.hr, c.dt, c.pcm), fill, seed); unwritten(m.p.get(), m.n);
        h = lc3_hr_setup_encoder(c.hr, c.dt, c.sr, c.pcm == c.sr ? 0 : c.pcm, m.p.get());
        if (!h) pbt::fail("setup", "encoder setup refused a valid configuration %s", c.str().c_str()); }
};
struct Dec {
    Mem m; lc3_decoder_t h = nullptr;
    Dec() {}
    explicit Dec(const Cfg &c, int fill = 0xa5, uint64_t seed = 0) { open(c, fill, seed); }
    void open(const Cfg &c, int fill = 0xa5, uint64_t seed = 0) {
        m.alloc(lc3_hr_decoder_size(c.hr, c.dt, c.pcm), fill, seed); unwritten(m.p.get(), m.n);
        h = lc3_hr_setup_decoder(c.hr, c.dt, c.sr, c.pcm == c.sr ? 0 : c.pcm, m.p.get());
        if (!h) pbt::fail("setup", "decoder setup refused a valid configuration %s", c.str().c_str()); }
};

// ---- PCM formats
typedef enum lc3_pcm_format Fmt;
inline int fmt_bytes(Fmt f) { return f == LC3_PCM_FORMAT_S16 ? 2 : f == LC3_PCM_FORMAT_S24_3LE ? 3 : 4; }
inline const char *fmt_name(Fmt f) { static const char *n[] = {"S16", "S24", "S24_3LE", "FLOAT"}; return n[f]; }
inline Fmt gen_fmt(Src &s) { return (Fmt)s.draw(4); }
inline int64_t iround(double x) { return (int64_t)std::floor(x + 0.5); }
// write one sample x in [-1,1] at slot i of buffer p
inline void put_sample(Fmt f, void *p, size_t i, double x) {
    uint8_t *b = (uint8_t *)p + i * fmt_bytes(f);
    switch (f) {
    case LC3_PCM_FORMAT_S16: { int64_t v = std::min<int64_t>(32767, std::max<int64_t>(-32768, iround(x * 32768))); int16_t w = (int16_t)v; memcpy(b, &w, 2); break; }
    case LC3_PCM_FORMAT_S24: { int64_t v = std::min<int64_t>(8388607, std::max<int64_t>(-8388608, iround(x * 8388608))); int32_t w = (int32_t)v; memcpy(b, &w, 4); break; }
    case LC3_PCM_FORMAT_S24_3LE: { int64_t v = std::min<int64_t>(8388607, std::max<int64_t>(-8388608, iround(x * 8388608))); b[0] = v; b[1] = v >> 8; b[2] = v >> 16; break; }
    default: { float w = (float)x; memcpy(b, &w, 4); } }
}
inline double get_sample(Fmt f, const void *p, size_t i) {
    const uint8_t *b = (const uint8_t *)p + i * fmt_bytes(f);
    switch (f) {
    case LC3_PCM_FORMAT_S16: { int16_t w; memcpy(&w, b, 2); return w / 32768.0; }
    case LC3_PCM_FORMAT_S24: { int32_t w; memcpy(&w, b, 4); return w / 8388608.0; }
    case LC3_PCM_FORMAT_S24_3LE: { int32_t w = (int32_t)((uint32_t)b[0] << 8 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 24) >> 8; return w / 8388608.0; }
    default: { float w; memcpy(&w, b, 4); return w; } }
}
inline std::vector<uint8_t> pack(Fmt f, const double *x, size_t n) {
    std::vector<uint8_t> v(n * fmt_bytes(f)); for (size_t i = 0; i < n; i++) put_sample(f, v.data(), i, x[i]); return v; }

// ---- signals: n samples in [-1,1] at rate sr
inline const char *sig_name(int k) { static const char *n[] = {"silence", "noise", "tone", "tones", "pitched", "speech", "chirp", "impulses", "square", "attack", "dc", "bandlimited", "lsb", "bursts", "clipped", "drift"}; return n[k]; }
enum { SIG_KINDS = 16 };
inline void add_sig(Rng &r, int kind, double level, int sr, double *x, size_t n) {
    auto tone = [&](double f, double a) { double ph = 6.2831853 * r.unit(), w = 6.283185307179586 * f / sr; for (size_t i = 0; i < n; i++) x[i] += a * std::sin(w * i + ph); };
    double ny = sr / 2.0;
    switch (kind) {
    case 0: break;
    case 1: for (size_t i = 0; i < n; i++) x[i] += level * r.sym(); break;
    case 2: tone(r.unit() < .3 ? 50 + 900 * r.unit() : ny * r.unit(), level); break;
    case 3: { int k = 2 + (int)r.below(6); for (int j = 0; j < k; j++) tone(ny * std::pow(r.unit(), 2), level / k); break; }
    case 4: { double f0 = 40 + 480 * std::pow(r.unit(), 1.5), roll = 0.3 + r.unit(); int nh = (int)std::min(60.0, ny * (.2 + .8 * r.unit()) / f0); if (nh < 1) nh = 1;
        double tot = 0; for (int h = 1; h <= nh; h++) tot += std::pow(h, -roll); double nz = std::pow(10, -1 - 3 * r.unit());
        for (int h = 1; h <= nh; h++) tone(f0 * h, level * std::pow(h, -roll) / tot * 1.5);
        for (size_t i = 0; i < n; i++) x[i] += level * nz * r.sym(); break; }
    case 5: { // pulse train through two resonators, slowly varying pitch and amplitude
        double f0 = 80 + 220 * r.unit(), ph = 0, y1 = 0, y2 = 0, z1 = 0, z2 = 0;
        double fa = std::min(.8 * ny, 300 + 500 * r.unit()), fb = std::min(.9 * ny, 1000 + 1500 * r.unit()), ra = std::exp(-3.14159 * 90 / sr), rb = std::exp(-3.14159 * 140 / sr);
        double ca = 2 * ra * std::cos(6.2831853 * fa / sr), cb = 2 * rb * std::cos(6.2831853 * fb / sr), vib = 1 + 6 * r.unit(), am = 1 + 4 * r.unit(), mx = 1e-9;
        std::vector<double> t(n);
        for (size_t i = 0; i < n; i++) { double f = f0 * (1 + .08 * std::sin(6.28 * vib * i / sr)); ph += f / sr; double e = .02 * r.sym(); if (ph >= 1) { ph -= 1; e += 1; }
            double y = e + ca * y1 - ra * ra * y2; y2 = y1; y1 = y; double z = y + cb * z1 - rb * rb * z2; z2 = z1; z1 = z;
            t[i] = (y + .3 * z) * (.55 + .45 * std::sin(6.28 * am * i / sr)); mx = std::max(mx, std::fabs(t[i])); }
        for (size_t i = 0; i < n; i++) x[i] += level * t[i] / mx; break; }
    case 6: { double f0 = 20, f1 = ny * (.3 + .7 * r.unit()), ph = 0; for (size_t i = 0; i < n; i++) { double f = f0 + (f1 - f0) * i / n; ph += 6.283185307 * f / sr; x[i] += level * std::sin(ph); } break; }
    case 7: { int k = 1 + (int)r.below(8); for (int j = 0; j < k && n; j++) x[r.below(n)] += (r.next() & 1 ? level : -level); break; }
    case 8: { int per = 2 + (int)r.below(400); for (size_t i = 0; i < n; i++) x[i] += (i / per) & 1 ? level : -level; break; }
    case 9: { size_t k = n ? r.below(n) : 0; double d = std::pow(10, -2 - 2 * r.unit()); double dec = std::exp(-1.0 / (sr * (.002 + .05 * r.unit())));
        double e = level; for (size_t i = 0; i < n; i++) { if (i < k) x[i] += level * d * r.sym() * .1; else { x[i] += e * r.sym(); e *= dec; } } break; }
    case 10: for (size_t i = 0; i < n; i++) x[i] += level; break;
    case 11: { double fc = ny * (.05 + .6 * r.unit()); int k = 40; for (int j = 0; j < k; j++) tone(fc * r.unit(), level / std::sqrt(k) * .8); break; }
    case 12: { double a = 1.0 / 32768 * (r.unit() < .5 ? 1 : .02); for (size_t i = 0; i < n; i++) x[i] += a * std::floor(3 * r.unit() - 1); break; }
    case 13: { size_t i = 0; bool on = r.next() & 1; while (i < n) { size_t l = 1 + r.below(sr / 50 + 1); for (size_t j = i; j < std::min(n, i + l); j++) if (on) x[j] += level * r.sym(); i += l; on = !on; } break; }
    case 14: { double a = level * (1.5 + 6 * r.unit()), f = 60 + (ny * .5) * std::pow(r.unit(), 3), w = 6.283185307 * f / sr; for (size_t i = 0; i < n; i++) x[i] += std::max(-1.0, std::min(1.0, a * std::sin(w * i))); break; }
    case 15: { double v = 0; for (size_t i = 0; i < n; i++) { v = .999 * v + .05 * r.sym(); x[i] += level * v; } break; }
    }
    for (size_t i = 0; i < n; i++) x[i] = std::max(-1.0, std::min(1.0, x[i]));
}
struct SigDesc { std::string d; uint64_t kinds = 0; };
inline double gen_level(Src &s) {
    static const double l[] = {.5, .25, 1.0, .1, .01, 1e-3, 1e-4, .9, .03, 1.0 / 32768};
    return l[s.weighted({4, 2, 3, 2, 2, 1, 1, 2, 2, 1})]; }
// One or more consecutive segments of generated signal
inline std::vector<double> gen_signal(Src &s, int sr, size_t n, SigDesc *d = nullptr) {
    std::vector<double> x(n, 0.0); int seg = 1 + s.weighted({5, 2, 1}); size_t at = 0;
    for (int k = 0; k < seg && at < n; k++) {
        size_t len = k == seg - 1 ? n - at : std::min<size_t>(n - at, 1 + s.draw(n));
        int kind = s.weighted({1, 5, 3, 3, 6, 5, 2, 2, 2, 3, 1, 3, 1, 2, 2, 1}); double lv = gen_level(s); Rng r(s.seed());
        add_sig(r, kind, lv, sr, x.data() + at, len);
        if (s.chance(1, 4)) add_sig(r, 1, lv * .01, sr, x.data() + at, len);
        if (d) { char b[64]; snprintf(b, sizeof b, "%s@%.3g", sig_name(kind), lv); d->d += (k ? "+" : "") + std::string(b); d->kinds |= 1u << kind; }
        at += len;
    }
    return x;
}
inline double rms(const double *x, size_t n) { double e = 0; for (size_t i = 0; i < n; i++) e += x[i] * x[i]; return n ? std::sqrt(e / n) : 0; }

inline std::string hex(const uint8_t *p, size_t n, size_t mx = 24) { std::string o; char b[4]; for (size_t i = 0; i < n && i < mx; i++) { snprintf(b, 4, "%02x", p[i]); o += b; } if (n > mx) o += ".."; return o; }
}
