// Reference model of the decisions of an LC3 / LC3plus encoder, written from the
// specification.  Frames cannot be predicted bit by bit (single precision moves
// near ties), so every step gives the set of admissible decisions, with the margins
// single precision needs, and continues from the decision found in the frame.
#pragma once
#include "ref.h"

namespace ref {

// ------------------------------------------------- pitch analysis (integers)
struct Pitch {
    int dt, hz; bool hr; long total = 0; int64_t s1 = 0, s2 = 0; std::vector<int16_t> in, x12, x64; int h[24][240];
    struct Iv { double lo = 0, hi = 0; int gt(double t) const { return lo > t ? 1 : hi <= t ? 0 : 2; } };     // 2: undecidable
    struct Hyp { int tc = 0; bool active = false; int pitch = 0; Iv nc0, nc1; bool present = false; int index = 0; std::string why; };
    std::vector<Hyp> hyp{Hyp()}; int r, w;
    Pitch(int d, int rate, bool hires) : dt(d), hz(rate), hr(hires), in(480, 0), x12(512, 0), x64(256, 0) {
        r = 192000 / hz; w = 240 / r; double sc = 32768.0 * r / (hz == 8000 ? 2 : 1);
        for (int ph = 0; ph < r; ph++) for (int k = 0; k < w; k++) { int i = r - 1 - ph + r * k; h[ph][k] = i < 239 ? (int)std::floor(LTPF_H12K8[i] * sc + .5) : 0; } }
    static double dot(const int16_t *a, const int16_t *b, int n) { int64_t v = 0; for (int i = 0; i < n; i++) v += a[i] * b[i]; return (double)(float)(int32_t)((v + 32) >> 6); }
    static void interp(const int16_t *x, int n, int d, int16_t *y) { static const int H[4][4] = {{6877, 19121, 6877, 0}, {3506, 18025, 11000, 220}, {1300, 15048, 15048, 1300}, {220, 11000, 18025, 3506}};
        for (int i = 0; i < n; i++) { int s = 0; for (int k = 0; k < 4; k++) s += x[i + 1 - k] * H[d][k]; y[i] = (int16_t)std::max(-32767, std::min(32767, s >> 15)); } }
    static double corr_at(const double *r, int d, double *mag) { double y = 0; *mag = 0; for (int m = -4; m <= 4; m++) { int n = 4 * m - d; if (n < -15 || n > 15) continue; y += r[m] * LTPF_H4[15 + n]; *mag += std::fabs(r[m] * LTPF_H4[15 + n]); } return y; }
    static double raw(const int16_t *a, const int16_t *b, int n) { int64_t v = 0; for (int i = 0; i < n; i++) v += a[i] * b[i]; return (double)v; }
    // normalised correlation of a and b; with an energy that rounds to zero, it is either null or the exact one
    static Iv norm(const int16_t *a, const int16_t *b, int n) { Iv v; double d = std::sqrt(dot(a, a, n) * dot(b, b, n));
        if (!(d > 0)) { double x = raw(a, a, n) * raw(b, b, n), q = x > 0 ? raw(a, b, n) / std::sqrt(x) : 0; v.lo = std::min(0., q) - 1e-5; v.hi = std::max(0., q) + 1e-5; return v; }
        double q = dot(a, b, n) / d; v.lo = q - 4e-7 - 4e-7 * std::fabs(q); v.hi = q + 4e-7 + 4e-7 * std::fabs(q); return v; }
    // feed one frame of samples; extends the hypotheses
    void step(const int16_t *x, int ns) {
        in.insert(in.end(), x, x + ns); const int16_t *xn = in.data() + in.size() - ns; int n = 32 * (1 + dt), n0 = n;
        for (int i = 0; i < n; i++) { int pos = 15 * i, ph = pos % r; const int16_t *p = xn + pos / r - (w - 1); int32_t u = 0; for (int k = 0; k < w; k++) u += p[k] * h[ph][k];
            const int64_t a1 = -2110217691, a2 = 1037111617, b1 = -2110535566, b2 = 1055267782; int64_t y = (s1 + u * b2) >> 30; s1 = s2 + u * b1 - y * a1; s2 = u * b2 - y * a2;
            x12.push_back((int16_t)std::max<int64_t>(-32767, std::min<int64_t>(32767, (y + 32768) >> 16))); }
        in.erase(in.begin(), in.end() - 480);
        const int16_t *a = x12.data() + x12.size() - n - (dt == 2 ? 44 : 24);
        for (int j = 0; j < n / 2; j++) { const int16_t *c = a - 1 + 2 * j; x64.push_back((int16_t)((c[0] * 18477 + (c[-1] + c[1]) * 15424 + (c[-2] + c[2]) * 8105) >> 16)); }
        const int16_t *b = x64.data() + x64.size() - n / 2; if (dt == 0) { a -= n; b -= n / 2; n *= 2; }
        std::vector<Hyp> out; double R[98], mx = -1e300; int n6 = n / 2;
        for (int k = 0; k < 98; k++) { R[k] = dot(b, b - 17 - k, n6); mx = std::max(mx, R[k] * (1 - k * .5 / 97)); }
        std::vector<int> t1; for (int k = 0; k < 98; k++) { double v = R[k] * (1 - k * .5 / 97); if (mx == 0 ? v == 0 : v >= mx - 2e-5 * std::fabs(mx)) { t1.push_back(k); if (mx == 0) break; } }
        std::map<std::array<int, 2>, std::vector<Hyp>> memo;
        for (auto &p : hyp) {
            int k0 = std::max(0, p.tc - 4), k1 = std::min(97, p.tc + 4), t2 = k0; for (int k = k0; k <= k1; k++) if (R[k] > R[t2]) t2 = k;
            for (int t : t1) {
                Iv c1, c2; if (R[t] > 0) c1 = norm(b, b - 17 - t, n6); if (R[t2] > 0) c2 = norm(b, b - 17 - t2, n6);
                bool s1 = c2.lo <= .85 * c1.hi + 1e-7, s2 = c2.hi >= .85 * c1.lo - 1e-7 && !(c2.hi == 0 && c1.lo >= 0);   // select t1 / t2
                if (t == t2) s2 = false, s1 = true;
                for (int sel = 0; sel < 2; sel++) { if (sel ? !s2 : !s1) continue; int tc = sel ? t2 : t; Iv c = sel ? c2 : c1; if (t == t2) { c.lo = std::min(c1.lo, c2.lo); c.hi = std::max(c1.hi, c2.hi); }
                    int pr = c.gt(.6); if (c.lo < .6 + 1e-6 && c.hi > .6 - 1e-6) pr = 2;
                    if (pr != 1) { Hyp q; q.tc = tc; q.present = false; next(p, q, Iv(), out); }
                    if (pr) refine(p, a, n, tc, out); } } }
        hyp.swap(out); dedupe(); total += n0;
        x12.erase(x12.begin(), x12.end() - 512); x64.erase(x64.begin(), x64.end() - 256);
    }
    void refine(const Hyp &p, const int16_t *x, int n, int tc, std::vector<Hyp> &out) {
        int r0 = std::max(32, 2 * (tc + 17) - 4), r1 = std::min(228, 2 * (tc + 17) + 4); double R[32]; for (int k = r0 - 4; k <= r1 + 4; k++) R[k - r0 + 4] = dot(x, x - k, n);
        int e = r0; for (int k = r0; k <= r1; k++) if (R[k - r0 + 4] > R[e - r0 + 4]) e = k;
        struct F { int f; double v, m; }; std::vector<F> fs; double best = -1e300, bm = 0;
        for (int f = -3; f <= 3; f++) { if (e >= 157 && f) continue; if (e >= 127 && (f & 1)) continue; if (e <= 32 && f < 0) continue; F q{f, 0, 0}; q.v = corr_at(R + e - r0 + 4, f, &q.m); fs.push_back(q); if (q.v > best) best = q.v, bm = q.m; }
        bool zero = true; for (auto &q : fs) if (q.m) zero = false;
        for (auto &q : fs) { if (zero ? q.f != 0 : q.v < best - 1e-6 * (q.m + bm)) continue; int f = q.f, ee = e; if (f < 0) ee--, f += 4;
            Hyp o; o.tc = tc; o.present = true; o.pitch = 4 * ee + f; o.index = ee < 127 ? 4 * ee + f - 128 : ee < 157 ? 2 * ee + (f >> 1) + 126 : ee + 283;
            int16_t u[128], v[128]; interp(x, n, 0, u); interp(x - ee, n, f, v); Iv nc = norm(u, v, n); next(p, o, nc, out); } }
    void next(const Hyp &p, Hyp o, Iv nc, std::vector<Hyp> &out) {
        auto gt = [](const Iv &v, double t) { return v.lo > t + 2e-7 ? 1 : v.hi < t - 2e-7 ? 0 : 2; };
        auto And = [](int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2; }; auto Or = [](int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; };
        int act = 0;
        if (o.present && !hr) {
            if (p.active) { int d = std::abs(o.pitch - p.pitch); Iv df{nc.lo - p.nc0.hi, nc.hi - p.nc0.lo}; act = Or(gt(nc, .9), And(gt(nc, .84), And(d < 8, gt(df, -.1)))); }
            else act = And(dt == 3 ? 1 : gt(p.nc1, .94), And(gt(p.nc0, .94), gt(nc, .94))); }
        o.nc1 = p.nc0; o.nc0 = nc; char b[160]; snprintf(b, sizeof b, "%s lag %d index %d nc %.6f (before: %s lag %d nc %.6f %.6f)", o.present ? "pitch" : "no pitch", o.pitch, o.index, (nc.lo + nc.hi) / 2, p.active ? "active" : "inactive", p.pitch, (p.nc0.lo + p.nc0.hi) / 2, (p.nc1.lo + p.nc1.hi) / 2); o.why = b;
        if (act != 1) { o.active = false; out.push_back(o); } if (act) { o.active = true; out.push_back(o); } }
    void dedupe() { std::vector<Hyp> o; for (auto &a : hyp) { bool f = false; for (auto &b : o) f |= a.tc == b.tc && a.present == b.present && a.active == b.active && a.pitch == b.pitch && a.nc0.lo == b.nc0.lo && a.nc0.hi == b.nc0.hi && a.nc1.lo == b.nc1.lo; if (!f && o.size() < 64) o.push_back(a); } hyp.swap(o); }
    // keep the hypotheses a frame agrees with; nn: active bit forced off (0, 1, 2 = undecidable)
    bool match(const Frame &f, int nn, std::string *why) {
        std::vector<Hyp> o; why->clear();
        for (auto &a : hyp) { bool ok = a.present == f.pitch && (!a.present || a.index == f.pitch_index) && (!a.present || f.active == a.active || (nn && !f.active)) && (!(nn == 1 && f.active)); if (ok) o.push_back(a); if (why->size() < 400) *why += "[" + a.why + (a.active ? " active" : "") + "]"; }
        if (o.empty()) return false; hyp.swap(o); return true; }
};

// --------------------------------------------------------- attack detection
struct Attack { int en = 0, an = 0, pos = 0; int16_t hist[6] = {0};
    bool step(const Mode &m, int hz, bool hr, int nbytes, const int16_t *x, int ns) {
        bool on = m.dt >= 2 && !hr && (hz == 32000 || hz == 48000) && (m.dt == 3 ? nbytes >= (hz == 32000 ? 81 : 100) : nbytes >= (hz == 32000 ? 61 : 75) && nbytes <= 149), att = false;
        if (on) { std::vector<int16_t> v(hist, hist + 6); v.insert(v.end(), x, x + ns); int d = hz == 32000 ? 2 : 3, sh = d == 2 ? 1 : 2, blk = m.dt == 3 ? 4 : 3, p = 0; auto dec = [&](int j) { int s = 0; for (int k = 0; k < d; k++) s += v[6 + j * d + k]; return (int16_t)(s >> sh); };
            for (int b = 0; b < blk; b++) { int e = 0; for (int j = 40 * b; j < 40 * b + 40; j++) { int16_t f = (int16_t)((3 * dec(j) - 4 * dec(j - 1) + dec(j - 2)) >> 3); e += (f * f) >> 5; }
                int a = std::max(an >> 2, en); if ((e >> 3) > a + (a >> 4)) p = b + 1; en = e; an = a; }
            att = p > 0 || pos >= 1 + (blk >> 1); pos = p; }
        for (int i = 0; i < 6; i++) hist[i] = x[ns - 6 + i];
        return att; } };

// ----------------------------------------------------------------- spectrum
struct Range { double lo, hi; };
inline int cmp(double v, double tol, double lim) { return v > lim + tol ? 1 : v < lim - tol ? 0 : 2; }

struct Encoder {
    Mode m, mp; bool hr; Mdct md; Pitch pitch; Attack attack; bool bypass = false;
    double off_lo = 0, off_hi = 0, sp_lo = 0, sp_hi = 0;
    // last frame, for the checks and their messages
    std::vector<double> X, eps; std::vector<double> e, etol; int nn = 0; bool att = false; int ne;
    Encoder(Mode a, int srpcm) : m(a), mp{a.dt, srpcm}, hr(is_hr(a.sr)), md(mp), pitch(a.dt, rate_hz(srpcm), is_hr(a.sr)), ne(a.ne()) {}

    // transform of one frame, then band energies
    void load(const double *xs, const int16_t *xt, int nbytes) {
        int N = mp.ns(); att = attack.step(m, rate_hz(mp.sr), hr, nbytes, xt, N); if (!bypass) pitch.step(xt, N);
        std::vector<double> Y(N); md.forward(xs, Y.data()); double sc = std::sqrt((double)m.ns() / N), n2 = 0, pk = 0; for (double v : Y) n2 += v * v, pk = std::max(pk, std::fabs(v)); double base = (1.5e-6 * std::sqrt(n2 / N) + 1.5e-7 * pk) * sc + 1e-9;
        X.assign(ne, 0); eps.assign(ne, 0); for (int i = 0; i < ne; i++) { X[i] = i < N ? Y[i] * sc : 0; eps[i] = n2 ? base + 3e-7 * std::fabs(X[i]) : 0; }
        const int *lim = m.bands(); int nb = m.nb(); static const int top[] = {2, 3, 4, 2}; double hi = 0, lo = 0, th = 0, tl = 0; e.assign(nb, 0); etol.assign(nb, 0);
        for (int b = 0; b < nb; b++) { double s = 0, t = 0; for (int i = lim[b]; i < lim[b + 1]; i++) { s += X[i] * X[i]; t += 2 * std::fabs(X[i]) * eps[i] + eps[i] * eps[i]; } int n = lim[b + 1] - lim[b]; e[b] = s / n; etol[b] = t / n + 1e-6 * e[b]; (b >= nb - top[m.dt] ? hi : lo) += e[b]; (b >= nb - top[m.dt] ? th : tl) += etol[b]; }
        nn = cmp(hi - 30 * lo, th + 30 * tl, 0); if (n2 == 0) nn = 0; }

    // ---- bandwidth: set of admissible values (bit mask)
    unsigned bandwidths() const {
        if (hr || m.sr == R8) return 1u << m.sr;
        static const int reg[4][4][4][2] = {
            {{{24, 34}}, {{24, 32}, {35, 39}}, {{24, 31}, {33, 38}, {39, 42}}, {{22, 29}, {31, 35}, {37, 40}, {41, 43}}},
            {{{39, 49}}, {{35, 44}, {47, 51}}, {{34, 42}, {44, 49}, {50, 53}}, {{32, 40}, {42, 46}, {48, 51}, {52, 54}}},
            {{{51, 63}}, {{45, 55}, {58, 63}}, {{42, 51}, {53, 58}, {60, 63}}, {{40, 48}, {51, 55}, {57, 60}, {61, 63}}},
            {{{53, 63}}, {{47, 56}, {59, 63}}, {{44, 52}, {54, 59}, {60, 63}}, {{41, 49}, {51, 55}, {57, 60}, {61, 63}}}};
        static const int L[4][4] = {{4, 4, 3, 1}, {4, 4, 3, 1}, {4, 4, 3, 2}, {4, 4, 3, 1}}; const int (*r)[2] = reg[m.dt][m.sr - 1]; unsigned cand = 1, out = 0;   // cand: possible bw0
        for (int b = 0; b < m.sr; b++) { double s = 0, t = 0; for (int i = r[b][0]; i <= r[b][1]; i++) s += e[i], t += etol[i]; double thr = (b == 0 ? 20.0 : 10.0) * (r[b][1] - r[b][0] + 1); int c = cmp(s, t + 1e-6 * thr, thr); if (c == 1) cand = 1u << (b + 1); else if (c == 2) cand |= 1u << (b + 1); }
        for (int b = 0; b <= m.sr; b++) { if (!(cand >> b & 1)) continue; if (b == m.sr) { out |= 1u << b; continue; }
            int hold = 0, i0 = r[b][0], l = L[m.dt][b]; static const double tc[] = {31.6227766, 199.5262315, 100, 100};
            for (int i = i0 - l + 1; i <= i0 + 1; i++) { int c = cmp(e[i - l] - tc[b] * e[i], etol[i - l] + tc[b] * etol[i], 0); if (e[i - l] == 0 && e[i] == 0) c = 0; if (c == 1) hold = 1; else if (c == 2 && !hold) hold = 2; }
            if (hold != 0) out |= 1u << b; if (hold != 1) out |= 1u << m.sr; }
        return out; }

    // ---- spectral noise shaping
    static constexpr double SCF_TOL = 5e-4;
    void target_scf(int nbytes, const std::vector<double> &e, double *scf) const {
        int nb = m.nb(), n4 = nb < 32 ? 32 % nb : 0, n2 = nb < 32 ? nb - n4 : 64 - nb; std::vector<double> v; int b = 0;
        for (int k = 0; k < n4; k++, b++) for (int j = 0; j < 4; j++) v.push_back(e[b]); for (int k = 0; k < n2; k++, b++) for (int j = 0; j < 2; j++) v.push_back(e[b]); for (; b < nb; b++) v.push_back(e[b]);
        static const int tilt[] = {14, 18, 22, 26, 30, 30, 34}; double s[64], sum = 0;
        for (int i = 0; i < 64; i++) { s[i] = (.25 * v[std::max(0, i - 1)] + .5 * v[i] + .25 * v[std::min(63, i + 1)]) * std::pow(10.0, i * tilt[m.sr] / 630.0); sum += s[i]; }
        double fl = std::max(sum * 1e-4 / 64, std::exp2(-32.0)); for (double &x : s) x = std::log2(std::max(x, fl)) / 2;
        static const double w[] = {1 / 12., 2 / 12., 3 / 12., 3 / 12., 2 / 12., 1 / 12.}; double mean = 0;
        for (int k = 0; k < 16; k++) { scf[k] = 0; for (int j = 0; j < 6; j++) scf[k] += w[j] * s[std::max(0, std::min(63, 4 * k - 1 + j))]; mean += scf[k] / 16; }
        double cf = hr ? .6 : .85; if (hr && 8 * nbytes > (m.dt < 3 ? 1150 * (1 + m.dt) : 4400)) cf *= m.dt < 3 ? .25 : .35;
        for (int k = 0; k < 16; k++) scf[k] = cf * (scf[k] - mean);
        if (att) { double t[16], mn = 0; for (int k = 0; k < 16; k++) { double a = 0; int c = 0; for (int j = std::max(0, k - 2); j <= std::min(15, k + 2); j++) a += scf[j], c++; t[k] = a / c; mn += t[k] / 16; } for (int k = 0; k < 16; k++) scf[k] = (m.dt == 2 ? .3 : .5) * (t[k] - mn); } }
    // admissible codebook entry: excess over the best distance that no rounding explains
    static double codebook_excess(const double *scf, const double *tol, const double (*cb)[8], int chosen) {
        auto d = [&](int c) { double s = 0; for (int i = 0; i < 8; i++) s += (scf[i] - cb[c][i]) * (scf[i] - cb[c][i]); return s; }; double worst = -1e300, dc = d(chosen);
        for (int c = 0; c < 32; c++) { double g = 0; for (int i = 0; i < 8; i++) g += tol[i] * std::fabs(cb[c][i] - cb[chosen][i]); worst = std::max(worst, dc - d(c) - 2 * g - 1e-6); } return worst; }
    struct Vq { int shape = 0, gain = 0, c[16] = {0}; double mse = 0; };
    static Vq vq(const double *r) {
        double x[16], a[16], sum = 0; int c[4][16] = {{0}}; for (int k = 0; k < 16; k++) { x[k] = 0; for (int n = 0; n < 16; n++) x[k] += r[n] * std::sqrt((k ? 2. : 1.) / 16) * std::cos(M_PI * (2 * n + 1) * k / 32); a[k] = std::fabs(x[k]); sum += a[k]; }
        auto add = [&](int *y, int b, int n, int cnt) { for (; cnt > 0; cnt--) { double co = 0, en = 0; for (int i = 0; i < 16; i++) if (i >= b && i < b + n) co += y[i] * a[i], en += y[i] * y[i]; int best = b; for (int i = b + 1; i < b + n; i++) if ((co + a[i]) * (co + a[i]) * (en + 2 * y[best] + 1) > (co + a[best]) * (co + a[best]) * (en + 2 * y[i] + 1)) best = i; y[best]++; } };
        int np = 0; for (int i = 0; i < 16; i++) { c[3][i] = (int)std::floor(a[i] * 5 / std::max(sum, 1e-31)); np += c[3][i]; }
        add(c[3], 0, 16, 6 - np); memcpy(c[2], c[3], sizeof c[2]); add(c[2], 0, 16, 2); memcpy(c[1], c[2], sizeof c[1]); np = 0; for (int i = 0; i < 16; i++) { if (i >= 10) c[1][i] = 0; np += c[1][i]; }
        add(c[1], 0, 10, 10 - np); memcpy(c[0], c[1], sizeof c[0]); add(c[0], 10, 6, 1);
        Vq o; o.mse = 1e300; for (int s = 0; s < 4; s++) { double n = 0; for (int i = 0; i < 16; i++) n += c[s][i] * c[s][i]; n = std::sqrt(n); double bm = 1e300; int bg = 0;
            for (int g = 0; g < VQG_LEN[s]; g++) { double e = 0; for (int i = 0; i < 16; i++) { double d = a[i] - VQG[s][g] * c[s][i] / n; e += d * d; } if (e < bm) bm = e, bg = g; }
            if (bm < o.mse) { o.mse = bm; o.shape = s; o.gain = bg; for (int i = 0; i < 16; i++) o.c[i] = x[i] < 0 ? -c[s][i] : c[s][i]; } }
        return o; }
    static bool same(const Vq &v, const Frame &f, const int *c) { return v.shape == f.shape && v.gain == f.gain && !memcmp(v.c, c, sizeof v.c); }
    // shape the spectrum with the factors of the frame
    void shape(const Frame &f) { double scf[16]; scale_factors(f, scf); auto bs = band_scf(m, scf); const int *lim = m.bands(); for (int b = 0; b < m.nb(); b++) { double g = std::exp2(-bs[b]); for (int i = lim[b]; i < lim[b + 1]; i++) { X[i] *= g; eps[i] = eps[i] * g + 6e-7 * std::fabs(X[i]); } } }

    // ---- temporal noise shaping
    int max_order() const { return m.dt <= 1 ? 4 : 8; }
    struct Lpc { bool null = false; double gain = 1, rc[8] = {0}, rcw[8] = {0}; };
    template<class R> Lpc lpc(const R *x, int bw, int f) const {
        static const int sub[4][5][8] = {
            {{3, 10, 20}, {3, 20, 40}, {3, 30, 60}, {3, 40, 80}, {3, 51, 100}}, {{6, 23, 40}, {6, 43, 80}, {6, 63, 120}, {6, 43, 80, 120, 160}, {6, 53, 100, 150, 200}},
            {{9, 26, 43, 60}, {9, 46, 83, 120}, {9, 66, 123, 180}, {9, 46, 82, 120, 159, 200, 240}, {9, 56, 103, 150, 200, 250, 300}},
            {{12, 34, 57, 80}, {12, 61, 110, 160}, {12, 88, 164, 240}, {12, 61, 110, 160, 213, 266, 320}, {12, 74, 137, 200, 266, 333, 400}}};
        int ns = 2 + (m.dt >= 2), P = max_order(); const int *s = sub[m.dt][std::min<int>(bw, R48)] + f * ns; Lpc o; R r[9]; r[0] = (R)ns; bool zero = false;
        static const double lag[] = {1, .998028026, .992135406, .982391584, .968910791, .951849807, .931404933, .90780823, .881323137};
        for (int k = 1; k <= P; k++) r[k] = 0;
        for (int j = 0; j < ns; j++) { R e = 0; for (int i = s[j]; i < s[j + 1]; i++) e += x[i] * x[i]; if (e == 0) { zero = true; break; } for (int k = 1; k <= P; k++) { R c = 0; for (int i = s[j]; i < s[j + 1] - k; i++) c += x[i] * x[i + k]; r[k] += c / e; } }
        for (int k = 1; k <= P; k++) r[k] = zero ? 0 : r[k] * (R)lag[k]; o.null = zero;
        R a[9] = {1}, err = r[0]; for (int k = 1; k <= P; k++) { R c = -r[k]; for (int i = 1; i < k; i++) c -= a[i] * r[k - i]; c /= err; R t[9]; for (int i = 1; i < k; i++) t[i] = a[i] + c * a[k - i]; for (int i = 1; i < k; i++) a[i] = t[i]; a[k] = c; err *= 1 - c * c; }
        o.gain = (double)(r[0] / err); 
        auto refl = [&](const R *q, double *rc) { R b[9], t[9]; for (int i = 1; i <= P; i++) b[i] = q[i]; for (int k = P; k >= 1; k--) { rc[k - 1] = (double)b[k]; R ee = 1 - b[k] * b[k]; for (int i = 1; i < k; i++) t[i] = (b[i] - b[k] * b[k - i]) / ee; for (int i = 1; i < k; i++) b[i] = t[i]; } };
        refl(a, o.rc); R gm = (R)(1 - .15 * (2 - o.gain) / .5), g = 1, aw[9]; for (int i = 1; i <= P; i++) aw[i] = a[i] * (g *= gm); refl(aw, o.rcw); return o; }
    static int quant_rc(double v) { double a = std::fabs(v); int q = 0; for (int i = 0; i < 8; i++) if (a >= std::floor(std::sin((i + .5) * M_PI / 17) * 32768 + .5) / 32768) q = i + 1; return v < 0 ? -q : q; }
    struct Tns { bool sure_off = false, maybe_off = false, ill = false; Range rc[8], gain; int order_lo = 0; };
    // spread of the coefficients under the errors of single precision
    template<class Rnd> Tns tns(int bw, int f, int nbytes, Rnd rnd) const {
        Tns o; int P = max_order(); std::vector<Lpc> v; v.push_back(lpc<double>(X.data(), bw, f)); std::vector<float> xf(X.begin(), X.end()); v.push_back(lpc<float>(xf.data(), bw, f)); int nullc = 0;
        for (int k = 0; k < 6; k++) { std::vector<double> y(X); for (int i = 0; i < ne; i++) y[i] += eps[i] * rnd(); v.push_back(lpc<double>(y.data(), bw, f)); for (auto &q : y) q = (double)(float)q; std::vector<float> yf(y.begin(), y.end()); if (k < 2) v.push_back(lpc<float>(yf.data(), bw, f)); }
        for (auto &q : v) nullc += q.null; if (nullc && nullc < (int)v.size()) o.ill = true;
        auto rng = [&](auto get) { double c = get(v[0]), d = 0; for (auto &q : v) { double t = get(q); if (!std::isfinite(t)) d = 1e9; d = std::max(d, std::fabs(t - c)); } return Range{c - 5 * d - 2e-5 * std::max(1.0, std::fabs(c)), c + 5 * d + 2e-5 * std::max(1.0, std::fabs(c))}; };
        o.gain = rng([](const Lpc &l) { return l.gain; }); o.sure_off = o.gain.hi <= 1.5; o.maybe_off = o.gain.lo <= 1.5; bool w = m.lpcw(nbytes), w1 = w && o.gain.lo < 2, w0 = !w || o.gain.hi >= 2;
        for (int i = 0; i < P; i++) { Range a = rng([&](const Lpc &l) { return l.rc[i]; }), b = rng([&](const Lpc &l) { return l.rcw[i]; }); o.rc[i] = w0 && w1 ? Range{std::min(a.lo, b.lo), std::max(a.hi, b.hi)} : w1 ? b : a; if (o.rc[i].hi - o.rc[i].lo > .05) o.ill = true; }
        return o; }
    void tns_filter(const Frame &f) {
        double s[8] = {0}; std::vector<double> y(X), ey(eps);
        for (int k = 0; k < f.nfilters; k++) { int n = f.order[k]; if (!n) continue; int a, b; m.tns_range(f.bw, k, &a, &b); double rc[8]; for (int i = 0; i < n; i++) rc[i] = rcq(f.rc[k][i]);
            double h[9] = {1}, t[9]; for (int j = 0; j < n; j++) { for (int i = 0; i <= j + 1; i++) t[i] = (i <= j ? std::fabs(h[i]) : 0) + std::fabs(rc[j]) * (i > 0 ? std::fabs(h[j + 1 - i]) : 0); for (int i = 0; i <= j + 1; i++) h[i] = t[i]; }
            for (int i = a; i < b; i++) { double x0 = X[i], s1 = x0; for (int j = 0; j < n; j++) { double s0 = s[j]; s[j] = s1; s1 = rc[j] * x0 + s0; x0 += rc[j] * s0; } y[i] = x0; double ee = 0; for (int j = 0; j <= n && i - j >= 0; j++) ee += h[j] * (eps[i - j] + 1e-7 * std::fabs(X[i - j])); ey[i] = ee; } }
        X.swap(y); eps.swap(ey); }

    // ---- global gain
    static double gain(int g) { return std::pow(10.0, g / 28.0); }
    struct Gain { int g = 0, gmin = 0; bool reset = false; };
    // admissible results of the estimation for a number of bits between lo and hi
    std::vector<Gain> estimate(int nbytes, int nlo, int nhi) const {
        int n4 = ne / 4, off = m.gain_off(nbytes); double xm = 0, xe = 0; for (int i = 0; i < ne; i++) if (std::fabs(X[i]) > xm) xm = std::fabs(X[i]), xe = eps[i]; for (int i = 0; i < ne; i++) xe = std::max(xe, eps[i] - (xm - std::fabs(X[i])));
        std::vector<double> nf{0};
        if (hr) { static const int rc[4][2] = {{-6, -6}, {0, 0}, {0, 0}, {2, 5}}; int rb = std::max(6, std::min(23, 8 * nbytes * 4 / (125 * (1 + m.dt)) + rc[m.dt][m.sr - R48H])); double m0 = 1e-5, m1 = 1e-5, t0 = 0, t1 = 0; for (int i = 0; i < ne / 4 * 4; i++) m0 += std::fabs(X[i]), m1 += std::fabs(X[i]) * i, t0 += eps[i], t1 += eps[i] * i;
            double q = 1.6 * m0 / ((1 + m.dt) * m1), lo = 1.6 * std::max(0.0, m0 - t0) / ((1 + m.dt) * (m1 + t1)) * (1 - 1e-5), hi = 1.6 * (m0 + t0) / ((1 + m.dt) * std::max(1e-30, m1 - t1)) * (1 + 1e-5); (void)q; nf.clear();
            int a = (int)std::min(8.0, std::floor(lo + .5)), b = (int)std::min(8.0, std::floor(hi + .5)); for (int k = a; k <= b; k++) nf.push_back(xm * std::exp2(-rb) * std::exp2(-(8.0 - k))); }
        std::vector<double> el(n4), eh(n4); static const double T = .002;
        auto db = [](double v) { return 10 * std::log10(std::max(v, 1e-10)); };
        for (int i = 0; i < n4; i++) { double s = 0, t = 0; for (int k = 4 * i; k < 4 * i + 4; k++) s += X[k] * X[k], t += 2 * std::fabs(X[k]) * eps[k] + eps[k] * eps[k]; el[i] = db(s - t + nf[0]) - T; eh[i] = db(s + t + nf.back()) + T; }
        auto cost = [&](const std::vector<double> &ee, int g) { double gn = g * 20. / 28, v = 0; int j = n4 - 1; while (j >= 0 && ee[j] < gn) j--; for (; j >= 0; j--) { double d = ee[j] - gn; v += d < 0 ? 2.7 : d < 43 ? d + 7 : 2 * d - 36; } return v; };
        std::vector<int> gs{255 - off}, gm{255 - off};
        for (int i = 128; i; i >>= 1) { std::vector<int> nx; for (int g : gs) { double lo = cost(el, g - i), hi = cost(eh, g - i); if (hi > nlo * 1.4 - 1e-3) nx.push_back(g); if (lo <= nhi * 1.4 + 1e-3) nx.push_back(g - i); } std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end()); gs.swap(nx); }
        double lim = hr ? 0x7fff * 256.0 : 0x7fff;
        for (int i = 128; i; i >>= 1) { std::vector<int> nx; for (int g : gm) { int c = cmp(lim * gain(g - i) - xm, xe + 1e-6 * xm, 0); if (xm == 0) c = 1; if (c != 0) nx.push_back(g - i); if (c != 1) nx.push_back(g); } std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end()); gm.swap(nx); }
        std::vector<Gain> o; for (int g : gs) for (int k : gm) { Gain a; a.gmin = k; a.reset = g < k || xm == 0; a.g = a.reset ? k : g; o.push_back(a);
            if (!a.reset && xm < 1.2e-19) { a.reset = true; a.g = k; o.push_back(a); } }     // its square is null in single precision
        return o; }
    // admissible corrections once the real consumption is known
    int adjust(int idx, int nbits, int bud, int idx_min) const {
        static const int t[7][3] = {{80, 500, 850}, {230, 1025, 1700}, {380, 1550, 2550}, {530, 2075, 3400}, {680, 2600, 4250}, {680, 2600, 4250}, {830, 3125, 5100}};
        double t1 = t[m.sr][0], t2 = t[m.sr][1], t3 = t[m.sr][2], tmp = t1 / 16 + 3, dd = nbits < t1 ? nbits / 16. + 3 : nbits < t2 ? (nbits - t1) * (t2 / 48 - tmp) / (t2 - t1) + tmp : std::min<double>(nbits, t3) / 48; int d = (int)std::floor(dd + .5 + 1e-9);
        if (hr) { if (nbits <= bud) return 0; int f = m.dt == 0 ? (nbits >= 520 ? 4 : 3) : m.dt == 1 ? 2 : 1; return std::min(255, idx + f + f * (nbits - bud) / d) - idx; }
        if (nbits < bud - (d + 2)) return idx > idx_min ? -1 : 0;
        if (nbits > bud) return idx >= 255 ? 0 : idx == 254 || nbits < bud + d ? 1 : 2;
        return 0; }
    // magnitudes at a gain; dir: -1 / 0 / +1 moves values within their error
    std::vector<int> quantise(int g, int dir, int *amb = nullptr) const {
        double gi = 1 / gain(g); std::vector<int> q(ne); int a = 0; for (int i = 0; i < ne; i++) { double y = std::fabs(X[i]) * gi, t = eps[i] * gi + 6e-7 * y; int lo = (int)std::max(0.0, std::floor(y - t + qoff())), hi = (int)std::floor(y + t + qoff()); a += lo != hi; q[i] = dir < 0 ? lo : dir > 0 ? hi : (int)std::floor(y + qoff()); }
        if (amb) *amb = a; return q; }

    // ---- quantisation
    int budget(const Frame &f, int nbytes) const { int b = 8 * nbytes - (m.nq_bits() + 3 + hr + std::min((nbytes - 1) / 160, 2)) - m.bw_bits() - (1 + 10 * f.pitch) - 38 - 8 - 3, w = m.lpcw(nbytes);
        for (int k = 0; k < f.nfilters; k++) { int t = 2048; if (f.order[k]) t += TNS_ORDER_BITS[w][f.order[k]]; for (int i = 0; i < f.order[k]; i++) t += TNS_COEF_BITS[i][f.rc[k][i] + 8]; b -= (t + 2047) / 2048; } return b; }
    double qoff() const { return hr ? .5 : .375; } double qlim() const { return hr ? .5 : .625; }
    struct Nb { int n = 0, bits = 0; bool lsb = false; };
    // consumption of q (magnitudes), truncated to a budget when `limit`
    Nb consume(const std::vector<int> &q, int nbytes, bool limit, int bud) const {
        int n = 0; for (int i = 0; i < ne; i += 2) if (q[i] || q[i + 1]) n = i + 2;
        bool lsb = m.lsb_allowed(nbytes); SpecCtx c; long bits = 0, nl = 0, lim = limit ? 2048L * bud : 1L << 60, be = 0; int nend = 0;
        for (int i = 0; i < n && bits <= lim; i += 2) { unsigned a = q[i], b = q[i + 1]; bits += 2048 * ((a != 0) + (b != 0)); bool s = a || b; unsigned mm = (a | b) >> 2; int k = 0; 
            for (; mm; mm >>= 1, k++) { bits += AC_SPEC_BITS[SpecCtx::table(m, nbytes, i, c.state, k)][16]; if (lsb && k == 0) nl += 2 + (a == 1) + (b == 1); else bits += 2 * 2048; }
            a >>= k; b >>= k; bits += AC_SPEC_BITS[SpecCtx::table(m, nbytes, i, c.state, k)][a + 4 * b];
            if (s && bits <= lim) nend = i + 2, be = bits; c.next(k, a, b); }
        Nb o; o.n = nend; o.lsb = lsb && be + nl * 2048 > lim; o.bits = (int)((be + (limit ? 0 : nl * 2048) + 2047) / 2048); return o; }
};
}
