// Reference model of the LC3 / LC3plus frame format and decoder, written from
// the specification (fields, arithmetic coder, noise shaping, MDCT, long term
// postfilter, concealment) in double precision; a float instantiation of the
// same model measures how far rounding alone may move the result.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <map>
#include <algorithm>
#include <vector>
#include <string>

namespace ref {
#include "tables.inc"

enum { R8, R16, R24, R32, R48, R48H, R96H };
inline int rate_index(bool hr, int hz) { return hr ? (hz == 48000 ? R48H : R96H) : hz == 8000 ? R8 : hz == 16000 ? R16 : hz == 24000 ? R24 : hz == 32000 ? R32 : R48; }
inline int rate_hz(int sr) { static const int r[] = {8000, 16000, 24000, 32000, 48000, 48000, 96000}; return r[sr]; }
inline bool is_hr(int sr) { return sr >= R48H; }
struct Mode { int dt, sr;       // dt: 0..3 = 2.5, 5, 7.5, 10 ms
    int ns() const { return NS[dt][sr]; }
    const int *bands() const { return BANDS[dt * 7 + sr]; }
    int nb() const { return BANDS_LEN[dt * 7 + sr] - 1; }
    int ne() const { return bands()[nb()]; }
    int ne_bw(int bw) const { Mode m{dt, std::min<int>(bw, R48)}; return m.ne(); }   // limit of a bandwidth
    int srx() const { return is_hr(sr) ? 4 + (sr - R48H) : sr; }
    int bw_bits() const { return is_hr(sr) ? 0 : sr == R8 ? 0 : sr == R16 ? 1 : sr <= R32 ? 2 : 3; }
    int nq_bits() const { int n = ne() / 2, b = 0; while ((1 << b) < n) b++; return std::max(b, 4); }
    int gain_off(int nbytes) const { int o = std::min(nbytes * 8 / (10 * (1 + srx())), 115) + 105 + 5 * (1 + srx()); return std::min(o, sr == R96H ? 181 : 255); }
    bool high_rate(int nbytes) const { return sr != R96H && nbytes > 20 * (1 + srx()); }
    bool lsb_allowed(int nbytes) const { return sr != R96H && nbytes >= 20 * (3 + srx()); }
    int nfilters(int bw) const { return 1 + (dt >= 1 && bw >= R32); }
    bool lpcw(int nbytes) const { return nbytes * 8 < 120 * (1 + dt); }
    int max_shift() const { return is_hr(sr) ? 22 : 14; }
    void tns_range(int bw, int f, int *a, int *b) const { int n = nfilters(bw), e = ne_bw(bw) >> (n - 1); *a = f ? e : 3 * (1 + dt); *b = e * (f + 1); }
    int nf_width() const { return 1 + (dt >= 2) + (dt >= 3); }
};

// ---------------------------------------------------------------- bit reader
struct Reader {
    const uint8_t *d; int n; long nb = 0; int bp = 0; uint32_t low = 0, range = 0xffffff; bool err = false;
    Reader(const uint8_t *p, int len) : d(p), n(len) { for (int i = 0; i < 3; i++) low = low << 8 | next(); }
    int next() { return bp < n ? d[bp++] : 0; }
    int bit() { long k = nb++; if (k >= 8L * n) return 0; return d[n - 1 - k / 8] >> (k % 8) & 1; }
    unsigned bits(int c) { unsigned v = 0; for (int i = 0; i < c; i++) v |= (unsigned)bit() << i; return v; }
    int sym(const int *cum, const int *freq, int cnt) {
        uint32_t r = range >> 10; if (low >= r << 10) err = true;
        int v = cnt - 1; while (v > 0 && low < r * (uint32_t)cum[v]) v--;
        low -= r * cum[v]; range = r * freq[v]; if (!range) { err = true; range = 0xffffff; }
        while (range < 0x10000) { range <<= 8; low = ((low << 8) | next()) & 0xffffff; }
        return v; }
    long left() const { int lg = 31 - __builtin_clz(range); return 8L * n - nb - (8L * (bp - 3) + 25 - lg); }
};

// --------------------------------------------------------------- bit writer
struct Writer {
    std::vector<uint8_t> d; long nb = 0; uint32_t low = 0, range = 0xffffff; int cache = -1, carry = 0, cc = 0; std::vector<uint8_t> fw; 
    explicit Writer(int n) : d(n, 0) {}
    void bit(int v) { long k = nb++; if (k < 8L * (long)d.size() && v) d[d.size() - 1 - k / 8] |= 1u << (k % 8); }
    void bits(unsigned v, int c) { for (int i = 0; i < c; i++) bit(v >> i & 1); }
    void shift() { if (low < 0xff0000 || carry) { if (cache >= 0) fw.push_back(cache + carry); for (; cc > 0; cc--) fw.push_back(0xff + carry); cache = low >> 16; carry = 0; } else cc++; low = low << 8 & 0xffffff; }
    void sym(const int *cum, const int *freq, int v) { uint32_t r = range >> 10; low += r * cum[v]; if (low >> 24) carry = 1; low &= 0xffffff; range = r * freq[v]; while (range < 0x10000) { range <<= 8; shift(); } }
    long left() const { int lg = 31 - __builtin_clz(range); return 8L * (long)d.size() - nb - (8L * ((long)fw.size() + (cache >= 0) + cc) + 25 - lg); }
    // enough bytes of the interval to make any continuation decode alike
    void finish() { uint64_t lo = low, hi = (uint64_t)low + range; int k = 24; uint64_t v = lo; 
        for (k = 1; k <= 24; k++) { uint64_t m = (1u << (24 - k)) - 1; v = (lo + m) & ~m; if (v + m < hi) break; }
        if (v >> 24) { carry = 1; } low = v & 0xffffff; int bitsleft = k;
        std::vector<uint8_t> keep; for (int i = 0; i < 3; i++) shift();
        if (cache >= 0) fw.push_back(cache + carry); for (; cc > 0; cc--) fw.push_back(0xff + carry);
        (void)bitsleft; (void)keep;
        // the tail bytes are only significant for k bits: merge the rest with the backward bits
        long total = 8L * ((long)fw.size() - 3) + k;
        for (long i = 0; i < total && i < 8L * (long)d.size(); i++) { int b = fw[i / 8] >> (7 - i % 8) & 1; uint8_t m = 0x80 >> (i % 8); d[i / 8] = (d[i / 8] & ~m) | (b ? m : 0); } }
};

// ------------------------------------------------------------------- frames
struct Frame {
    bool ok = false; const char *why = ""; bool odd = false;   // odd: coding no encoder may choose
    int nbytes = 0, bw = 0, nq = 0, g_idx = 0, nf = 0; bool lsb = false;
    int nfilters = 1, order[2] = {0, 0}, rc[2][8] = {{0}};
    bool pitch = false, active = false; int pitch_index = 0;
    int lfcb = 0, hfcb = 0, shape = 0, gain = 0, idx_a = 0, idx_b = 0; bool ls_a = false, ls_b = false;
    std::vector<int> q;            // arithmetic coded integers
    std::vector<double> x;         // with the residual or LSB refinement
    int seed = 0; long left = 0;   // bits left for the refinement
    int nrefine = 0, escapes = 0, lastnz = 0; long side_bits = 0;
};
enum { SIZE_A0 = 2390004, SIZE_A2 = 15158272, SIZE_A3 = 1549824 };

struct SpecCtx { int state = 0; 
    static int table(const Mode &m, int nbytes, int i, int state, int lev) { return AC_SPEC_LOOKUP[state + (m.high_rate(nbytes) ? 512 : 0) + (i > m.ne() / 2 ? 256 : 0) + 1024 * std::min(lev, 3)]; }
    void next(int lev, int a, int b) { lev = std::min(lev, 3); state = (state & 15) * 16 + (lev <= 1 ? 1 + (a + b) * (lev + 1) : 12 + lev); } };

inline Frame parse(const Mode &m, const uint8_t *d, int nbytes) {
    Frame f; f.nbytes = nbytes; Reader r(d, nbytes); int ne = m.ne();
    auto bad = [&](const char *w) { f.ok = false; f.why = w; return f; };
    f.bw = m.sr; if (m.bw_bits()) f.bw = (int)r.bits(m.bw_bits());
    if (f.bw > m.sr) return bad("bandwidth");
    f.nq = 2 * ((int)r.bits(m.nq_bits()) + 1); f.lsb = r.bit(); f.g_idx = (int)r.bits(8);
    if (f.nq > ne) return bad("lastnz");
    f.nfilters = m.nfilters(f.bw); int w = m.lpcw(nbytes);
    for (int k = 0; k < f.nfilters; k++) { if (!r.bit()) continue;
        f.order[k] = 1 + r.sym(TNS_ORDER_CUMFREQ[w], TNS_ORDER_FREQ[w], 8);
        if (m.dt <= 1 && f.order[k] > 4) return bad("tns order");
        for (int i = 0; i < f.order[k]; i++) f.rc[k][i] = r.sym(TNS_COEF_CUMFREQ[i], TNS_COEF_FREQ[i], 17) - 8; }
    f.pitch = r.bit();
    f.lfcb = (int)r.bits(5); f.hfcb = (int)r.bits(5);
    if (!r.bit()) { f.gain = (int)r.bits(1); f.ls_a = r.bit(); int mux = (int)r.bits(25); if (mux >= 14 * SIZE_A0) return bad("sns"); f.idx_a = mux % SIZE_A0; mux /= SIZE_A0;
        if (mux < 2) { f.shape = 1; f.gain = f.gain * 2 + mux; } else { f.shape = 0; f.idx_b = (mux - 2) / 2; f.ls_b = (mux - 2) % 2; }
    } else { f.gain = (int)r.bits(2); f.ls_a = r.bit(); int mux = (int)r.bits(24); if (mux >= SIZE_A2 + SIZE_A3) return bad("sns");
        if (mux < SIZE_A2) { f.shape = 2; f.idx_a = mux; } else { f.shape = 3; mux -= SIZE_A2; f.idx_a = mux / 2; f.gain = f.gain * 2 + mux % 2; } }
    if (f.pitch) { f.active = r.bit(); f.pitch_index = (int)r.bits(9); }
    f.nf = (int)r.bits(3); f.side_bits = r.nb;
    f.q.assign(ne, 0); f.x.assign(ne, 0.0); SpecCtx c; long seed = 0; std::vector<char> lev(ne, 0);
    for (int i = 0; i < f.nq; i += 2) {
        int k = 0, s; long u = 0, v = 0;
        for (;; k++) { int t = SpecCtx::table(m, nbytes, i, c.state, k); s = r.sym(AC_SPEC_CUMFREQ[t], AC_SPEC_FREQ[t], 17);
            if (s < 16) break;
            if (k >= m.max_shift()) return bad("escape");
            if (!f.lsb || k > 0) { u |= (long)r.bit() << k; v |= (long)r.bit() << k; } }
        int a = s & 3, b = s >> 2; u |= (long)a << k; v |= (long)b << k;
        if (k > 0 && a < 2 && b < 2) f.odd = true;
        lev[i] = k; f.escapes += k;
        seed = (seed + (u & 0x7fff) * i + (v & 0x7fff) * (i + 1)) & 0xffff;
        f.q[i] = (int)(u && r.bit() ? -u : u); f.q[i + 1] = (int)(v && r.bit() ? -v : v);
        if (u | v) f.lastnz = i + 2;
        c.next(k, a, b); }
    if (f.lsb && !m.lsb_allowed(nbytes)) f.odd = true;
    if (f.nq > 2 && f.lastnz != f.nq) f.odd = true;
    f.left = std::max(r.left(), 0L); long n = f.left;
    for (int i = 0; i < ne; i++) f.x[i] = f.q[i];
    if (f.lsb) {
        for (int i = 0; i < f.nq && n > 0; i += 2) { if (std::max(std::abs(f.q[i]), std::abs(f.q[i + 1])) < 4) continue;
            for (int j = i; j < i + 2 && n > 0; j++) { n--; f.nrefine++; if (!r.bit()) continue;
                if (f.q[j]) { f.x[j] += f.q[j] < 0 ? -1 : 1; seed += j; } else if (n > 0) { n--; f.x[j] = r.bit() ? -1 : 1; seed += j; } } }
        seed &= 0xffff;
    } else {
        double lo = is_hr(m.sr) ? .25 : 3. / 16, hi = is_hr(m.sr) ? .25 : 5. / 16;
        for (int it = 0; it < (is_hr(m.sr) ? 20 : 1) && n > 0; it++, lo /= 2, hi /= 2)
            for (int i = 0; i < f.nq && n > 0; i++) if (f.q[i]) { n--; f.nrefine++;
                int b = r.bit(); bool neg = f.q[i] < 0; if (b) f.x[i] += neg ? lo : hi; else f.x[i] -= neg ? hi : lo; }
    }
    f.seed = (int)seed;
    if (r.left() < 0) return bad("overrun"); if (r.err) return bad("arithmetic code");
    f.ok = true; return f;
}

// Write a frame from its fields (sides, q, nf); refinement bits from `fill`.
template<class B> std::vector<uint8_t> write(const Mode &m, const Frame &f, B fill, bool *fits) {
    Writer w(f.nbytes); int lw = m.lpcw(f.nbytes);
    if (m.bw_bits()) w.bits(f.bw, m.bw_bits());
    w.bits(std::max(f.nq / 2, 1) - 1, m.nq_bits()); w.bit(f.lsb); w.bits(f.g_idx, 8);
    for (int k = 0; k < m.nfilters(f.bw); k++) { w.bit(f.order[k] > 0); if (!f.order[k]) continue;
        w.sym(TNS_ORDER_CUMFREQ[lw], TNS_ORDER_FREQ[lw], f.order[k] - 1);
        for (int i = 0; i < f.order[k]; i++) w.sym(TNS_COEF_CUMFREQ[i], TNS_COEF_FREQ[i], f.rc[k][i] + 8); }
    w.bit(f.pitch); w.bits(f.lfcb, 5); w.bits(f.hfcb, 5); w.bit(f.shape >> 1);
    if (f.shape < 2) { w.bits(f.gain >> (f.shape & 1), 1); w.bit(f.ls_a); long hi = f.shape ? f.gain & 1 : 2 * (f.idx_b + 1) + f.ls_b; w.bits((unsigned)(hi * SIZE_A0 + f.idx_a), 25); }
    else { w.bits(f.gain >> (f.shape & 1), 2); w.bit(f.ls_a); w.bits(f.shape == 2 ? f.idx_a : SIZE_A2 + 2 * f.idx_a + (f.gain & 1), 24); }
    if (f.pitch) { w.bit(f.active); w.bits(f.pitch_index, 9); }
    w.bits(f.nf, 3); SpecCtx c;
    for (int i = 0; i < f.nq; i += 2) { long u = std::labs(f.q[i]), v = std::labs(f.q[i + 1]); int k = 0; long mm = (u | v) >> 2;
        for (; mm; mm >>= 1, k++) { int t = SpecCtx::table(m, f.nbytes, i, c.state, k); if (!f.lsb || k > 0) { w.sym(AC_SPEC_CUMFREQ[t], AC_SPEC_FREQ[t], 16); w.bit(u >> k & 1); w.bit(v >> k & 1); } else w.sym(AC_SPEC_CUMFREQ[t], AC_SPEC_FREQ[t], 16); }
        int t = SpecCtx::table(m, f.nbytes, i, c.state, k), a = (int)(u >> k), b = (int)(v >> k); w.sym(AC_SPEC_CUMFREQ[t], AC_SPEC_FREQ[t], a + 4 * b);
        // in LSB mode the lowest bit of an escaped pair is not part of the value
        long uu = f.lsb && k ? u & ~1L : u, vv = f.lsb && k ? v & ~1L : v;
        if (uu) w.bit(f.q[i] < 0); if (vv) w.bit(f.q[i + 1] < 0);
        c.next(k, a, b); }
    long left = w.left(); *fits = left >= 0;
    for (long i = 0; i < left; i++) w.bit(fill());
    w.finish(); return w.d;
}

// --------------------------------------------------------------- transforms
typedef std::complex<double> cpx;
struct Fft { int n; std::vector<cpx> tw; explicit Fft(int n_) : n(n_), tw(n_) { for (int i = 0; i < n; i++) tw[i] = std::polar(1.0, -2 * M_PI * i / n); }
    void rec(const cpx *x, int st, cpx *y, int len) const { if (len == 1) { y[0] = x[0]; return; }
        int p = len % 4 == 0 ? 2 : len % 2 == 0 ? 2 : len % 3 == 0 ? 3 : len % 5 == 0 ? 5 : len; int mm = len / p; std::vector<cpx> t(len);
        for (int r = 0; r < p; r++) rec(x + r * st, st * p, t.data() + r * mm, mm);
        int step = n / len; for (int k = 0; k < len; k++) { cpx s = 0; for (int r = 0; r < p; r++) s += t[r * mm + k % mm] * tw[(long)r * k * step % n]; y[k] = s; } }
};
// DCT-IV scaled by sqrt(2/N)
inline void dct4(const double *x, double *y, int N) {
    static std::map<int, Fft> ffts; auto it = ffts.find(N / 2); if (it == ffts.end()) it = ffts.emplace(N / 2, Fft(N / 2)).first;
    int h = N / 2; std::vector<cpx> z(h), Z(h);
    for (int n = 0; n < h; n++) z[n] = cpx(x[2 * n], x[N - 1 - 2 * n]) * std::polar(1.0, -M_PI * (4 * n + 1) / (4.0 * N));
    it->second.rec(z.data(), 1, Z.data(), h); double s = std::sqrt(2.0 / N);
    for (int k = 0; k < h; k++) { cpx v = Z[k] * std::polar(1.0, -M_PI * k / N); y[2 * k] = s * v.real(); y[N - 1 - 2 * k] = -s * v.imag(); }
}
struct Mdct { Mode m; int ns, nd; const double *w; std::vector<double> t;
    explicit Mdct(Mode mm) : m(mm), ns(mm.ns()), nd(ND[mm.dt][mm.sr]), w(WIN[mm.dt * 7 + mm.sr]), t(2 * ns, 0.0) {}
    void forward(const double *x, double *y) { int N = ns; for (int i = 0; i < N; i++) t[nd + i] = x[i];
        std::vector<double> a(2 * N), u(N); for (int i = 0; i < 2 * N; i++) a[i] = t[i] * w[i];
        for (int i = 0; i < nd; i++) t[i] = x[ns - nd + i]; for (int i = nd + ns; i < 2 * N; i++) t[i] = 0;
        for (int n = 0; n < N / 2; n++) { u[n] = -a[3 * N / 2 - 1 - n] - a[3 * N / 2 + n]; u[N / 2 + n] = a[n] - a[N - 1 - n]; }
        dct4(u.data(), y, N); }
    void inverse(const double *X, double *y) { int N = ns; std::vector<double> v(N), o(2 * N); dct4(X, v.data(), N);
        for (int n = 0; n < N / 2; n++) { o[n] = v[N / 2 + n]; o[2 * N - 1 - n] = -v[N / 2 - 1 - n]; }
        for (int n = N / 2; n < 3 * N / 2; n++) o[n] = -v[3 * N / 2 - 1 - n];
        for (int i = 0; i < 2 * N; i++) o[i] *= w[2 * N - 1 - i];
        for (int i = 0; i < nd; i++) y[i] = o[ns - nd + i] + t[2 * ns - nd + i];
        for (int i = nd; i < ns; i++) y[i] = o[ns - nd + i];
        t = o; }
};

// ---------------------------------------------------------------------- SNS
inline void deenum(long idx, bool ls, int np, int *c, int n) {
    int i = n - 1; for (; i >= 0 && idx; i--) { int ci = 0; while (idx < MPVQ[i][np - ci]) ci++; idx -= MPVQ[i][np - ci]; *c++ = ls ? -ci : ci; np -= ci; if (ci) { ls = idx & 1; idx >>= 1; } }
    if (i >= 0) { *c++ = ls ? -np : np; i--; } for (; i >= 0; i--) *c++ = 0; }
inline void pulses(const Frame &f, int *c) { static const int np[] = {10, 10, 8, 6}; memset(c, 0, 16 * sizeof *c); deenum(f.idx_a, f.ls_a, np[f.shape], c, f.shape < 2 ? 10 : 16); if (f.shape == 0) deenum(f.idx_b, f.ls_b, 1, c + 10, 6); }
inline void scale_factors(const Frame &f, double *scf) {
    int c[16]; pulses(f, c); double e = 0; for (int i = 0; i < 16; i++) e += c[i] * c[i]; e = std::sqrt(e);
    double g = VQG[f.shape][f.gain];
    for (int n = 0; n < 16; n++) { double s = c[0] / e / 4; for (int k = 1; k < 16; k++) s += c[k] / e * std::sqrt(2. / 16) * std::cos(M_PI * (2 * n + 1) * k / 32);
        scf[n] = (n < 8 ? LFCB[f.lfcb][n] : HFCB[f.hfcb][n - 8]) + g * s; } }
// one exponent per band
inline std::vector<double> band_scf(const Mode &m, const double *q) {
    double s[64]; s[0] = s[1] = q[0]; for (int i = 0; i < 15; i++) for (int k = 0; k < 4; k++) s[2 + 4 * i + k] = q[i] + (2 * k + 1) / 8. * (q[i + 1] - q[i]);
    s[62] = q[15] + (q[15] - q[14]) / 8; s[63] = q[15] + 3 * (q[15] - q[14]) / 8;
    int nb = m.nb(); std::vector<double> o; int i = 0;
    int n4 = nb < 32 ? 32 % nb : 0, n2 = nb < 32 ? nb - n4 : 64 - nb;
    for (int k = 0; k < n4; k++, i += 4) o.push_back((s[i] + s[i + 1] + s[i + 2] + s[i + 3]) / 4);
    for (int k = 0; k < n2; k++, i += 2) o.push_back((s[i] + s[i + 1]) / 2);
    for (; i < 64; i++) o.push_back(s[i]);
    return o; }

// ------------------------------------------------------------------ decoder
inline double rcq(int q) { double v = std::floor(std::sin(M_PI * std::abs(q) / 17) * 32768 + .5) / 32768; return q < 0 ? -v : v; }
struct LtpfPar { bool active = false; int pint = 0, pfr = 0; std::vector<double> num, den; };

template<class R> struct Decoder {
    Mode m, mp; Mdct md; std::vector<R> xg; int seed = 24607, count = 1; double alpha = 1;
    std::vector<R> hx, hy; LtpfPar prev; double peak = 0;     // LTPF histories (input, output)
    std::vector<double> pcm; double spec_peak = 0; Frame last; bool concealed = false;
    Decoder(Mode a, int srpcm) : m(a), mp{a.dt, srpcm}, md(mp), xg(a.ne(), R(0)) { hx.assign(64, R(0)); hy.assign(4096, R(0)); pcm.resize(mp.ns()); }
    static void ltpf_numden(int sr, const double *&n, int &ln, const double *&d, int &ld, int g, int fr) {
        switch (sr) { case R8: n = LTPF_N_8K[g]; ln = 3; d = LTPF_D_8K[fr]; ld = 5; break; case R16: n = LTPF_N_16K[g]; ln = 3; d = LTPF_D_16K[fr]; ld = 5; break;
            case R24: n = LTPF_N_24K[g]; ln = 5; d = LTPF_D_24K[fr]; ld = 7; break; case R32: n = LTPF_N_32K[g]; ln = 7; d = LTPF_D_32K[fr]; ld = 9; break;
            default: n = LTPF_N_48K[g]; ln = 11; d = LTPF_D_48K[fr]; ld = 13; } }
    LtpfPar ltpf_par(const Frame *f, int nbytes) { LtpfPar p; if (!f || !f->pitch) return p;
        int pi = f->pitch_index, q4 = pi >= 440 ? (pi - 283) * 4 : pi >= 380 ? (pi / 2 - 63) * 4 + (pi & 1) * 2 : 128 + pi;
        int p4 = (int)std::floor(q4 * (rate_hz(mp.sr) / 12800.0) + .5); p.pint = p4 / 4; p.pfr = p4 % 4;
        long nbits = nbytes * 8L * 4 / (1 + m.dt); if (m.dt == 0) nbits = (6 * nbits + 5) / 10; if (m.dt == 1) nbits -= 160;
        int g = (int)std::max<long>(nbits / 80, 3 + mp.sr) - (3 + mp.sr); p.active = f->active && g < 4; if (!p.active) return p;
        double gain = .4 - .05 * g; const double *n, *d; int ln, ld; ltpf_numden(mp.sr, n, ln, d, ld, g, p.pfr);
        for (int i = 0; i < ln; i++) p.num.push_back(.85 * gain * n[i]); for (int i = 0; i < ld; i++) p.den.push_back(gain * d[i]); return p; }
    // y[k] = x[k] - w * (num*x - den*y delayed); x, y point at absolute sample k with history
    static R filt(const LtpfPar &p, const R *x, const R *y) { R u = 0; for (size_t i = 0; i < p.num.size(); i++) u += R(p.num[i]) * x[-(int)i];
        int d0 = p.pint - ((int)p.den.size() - 1) / 2; for (size_t i = 0; i < p.den.size(); i++) u -= R(p.den[i]) * y[-d0 - (int)i]; return u; }
    void ltpf(const Frame *f, int nbytes, std::vector<double> &io) {
        int ns = mp.ns(), nt = ns / (1 + m.dt), H = (int)hy.size(), HX = (int)hx.size(); LtpfPar cur = ltpf_par(f, nbytes);
        std::vector<R> X(HX + ns), Y(H + ns), C; std::copy(hx.begin(), hx.end(), X.begin()); std::copy(hy.begin(), hy.end(), Y.begin());
        for (int i = 0; i < ns; i++) { X[HX + i] = (R)io[i]; Y[H + i] = 0; }
        C.assign(H + ns, R(0)); std::copy(hy.begin(), hy.end(), C.begin());
        for (int k = 0; k < ns; k++) { const R *x = &X[HX + k]; R *y = &Y[H + k]; R w = R((double)k / nt), v = *x;
            if (k >= nt) { if (cur.active) v = *x - filt(cur, x, y); }
            else if (cur.active && !prev.active) v = *x - w * filt(cur, x, y);
            else if (!cur.active && prev.active) v = *x - (1 - w) * filt(prev, x, y);
            else if (cur.active && prev.active) {
                if (cur.pint == prev.pint && cur.pfr == prev.pfr) v = *x - filt(cur, x, y);
                else { R *c = &C[H + k]; *c = *x - (1 - w) * filt(prev, x, c); v = *c; } }
            *y = v; }
        if (cur.active && prev.active && !(cur.pint == prev.pint && cur.pfr == prev.pfr)) {
            // second pass: fade in the new filter over the faded out signal
            for (int k = 0; k < nt; k++) { const R *c = &C[H + k]; R *y = &Y[H + k]; *y = *c - R((double)k / nt) * filt(cur, c, y); }
            for (int k = nt; k < ns; k++) { const R *x = &X[HX + k]; R *y = &Y[H + k]; *y = *x - filt(cur, x, y); } }
        for (int i = 0; i < ns; i++) io[i] = (double)Y[H + i];
        hx.assign(X.end() - HX, X.end()); hy.assign(Y.end() - H, Y.end()); prev = cur; }

    // data == null or invalid: concealment.  Returns 0 / 1; output in pcm (full scale 32768)
    int decode(const uint8_t *data, int nbytes) {
        Frame f; if (data) f = parse(m, data, nbytes); bool ok = data && f.ok; int ne = m.ne();
        std::vector<double> X(mp.ns(), 0.0);
        if (ok) {
            count = 1; alpha = 1; std::vector<R> x(ne); R g = (R)std::pow(10.0, (f.g_idx - m.gain_off(nbytes)) / 28.0);
            for (int i = 0; i < ne; i++) x[i] = (R)f.x[i] * g;
            if (f.nq > 2 || f.x[0] || f.x[1] || f.g_idx > 0 || f.nf < 7) {
                int stop = m.ne_bw(f.bw), w = m.nf_width(), z = 0, sd = f.seed; R lv = g * (R)(8 - f.nf) / 16;
                for (int i = 6 * (1 + m.dt) - w; i < stop + w; i++) { bool zero = i >= std::min(f.nq, stop) || f.x[i] == 0; z = zero ? z + 1 : 0;
                    if (z > 2 * w) { sd = (13849 + sd * 31821) & 0xffff; x[i - w] = sd & 0x8000 ? -lv : lv; } } }
            // TNS
            R s[8] = {0};
            for (int k = 0; k < f.nfilters; k++) { if (!f.order[k]) continue; int a, b; m.tns_range(f.bw, k, &a, &b); R rc[8] = {0}; for (int i = 0; i < f.order[k]; i++) rc[i] = (R)rcq(f.rc[k][i]);
                int o = f.order[k];
                for (int i = a; i < b; i++) { R t = x[i] - rc[o - 1] * s[o - 1]; for (int j = o - 2; j >= 0; j--) { t -= rc[j] * s[j]; s[j + 1] = rc[j] * t + s[j]; } s[0] = t; x[i] = t; }
                for (int j = o; j < 8; j++) s[j] = 0; }
            // SNS
            double scf[16]; scale_factors(f, scf); auto bs = band_scf(m, scf); const int *lim = m.bands();
            for (int b = 0; b < m.nb(); b++) { R gb = (R)std::exp2(bs[b]); for (int i = lim[b]; i < lim[b + 1]; i++) xg[i] = x[i] * gb; }
            for (int i = 0; i < ne; i++) X[i] = (double)xg[i];
        } else {
            alpha *= count < 4 ? 1.0 : count < 8 ? .9 : .85;
            for (int i = 0; i < ne; i++) { seed = (16831 + seed * 12821) & 0xffff; X[i] = (double)(R)(alpha * (double)(seed & 0x8000 ? -xg[i] : xg[i])); }
            count++;
        }
        double sc = std::sqrt((double)mp.ns() / m.ns()); spec_peak = 0; for (auto &v : X) { v *= sc; spec_peak = std::max(spec_peak, std::fabs(v)); }
        md.inverse(X.data(), pcm.data());
        peak = 0; for (double v : pcm) peak = std::max(peak, std::fabs(v));
        if (!is_hr(m.sr)) ltpf(ok ? &f : nullptr, nbytes, pcm);
        last = f; concealed = !ok; return !ok; }
};
}
