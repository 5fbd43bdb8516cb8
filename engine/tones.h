// Signals known at every instant, and how much of them survives the codec.
#pragma once
#include "conform.h"
namespace tn {
using namespace cd;
struct Tones {
    std::vector<double> f, a, p;
    double at(double t) const { double v = 0; for (size_t i = 0; i < f.size(); i++) v += a[i] * std::sin(6.283185307179586 * f[i] * t + p[i]); return v; }
};
inline Tones gen_tones(Src &s, double fmax, double level)
{
    Tones t; Rng r(s.seed()); int n = 1 + (int)s.draw(12); double tot = 0; bool low = s.chance(1, 3);
    for (int i = 0; i < n; i++) {
        t.f.push_back(40 + (fmax - 40) * (low ? std::pow(r.unit(), 3) : r.unit()));
        t.a.push_back(.2 + r.unit()); tot += t.a.back(); t.p.push_back(6.28 * r.unit());
    }
    for (auto &a : t.a) a *= level / tot;
    return t;
}
inline Cfg pick_out(Src &s, const Cfg &c) { Cfg d = c; std::vector<int> up; for (int x : rates(c.hr)) if (x >= c.sr) up.push_back(x); d.pcm = s.pick(up); return d; }
inline double fmax_of(const Cfg &c) { double f = .45 * c.sr; return (c.hr ? f : std::min(f, 19500.0)) * .97; }

struct Snr { double snr, sig; };
// Signal to error ratio over the second half of a stream
inline Snr measure(const Cfg &c, const Cfg &dc, Fmt f, const Tones &t, int nb, bool ltpf)
{
    int n = 4 + 60000 / c.dt; Enc e(c); Dec d(dc); if (!ltpf) lc3_encoder_disable_ltpf(e.h);
    double sig = 0, err = 0;
    for (int i = 0; i < n; i++) {
        std::vector<double> x(c.ns());
        for (int k = 0; k < c.ns(); k++) x[k] = t.at(((double)i * c.ns() + k) / c.pcm);
        EncStep st{nb, f, false, pack(f, x.data(), x.size())};
        auto p = enc_step(e.h, c, st); int r; auto o = dec_step(d.h, dc, DecStep{false, nb, f, p}, &r);
        CHECK(!r, "valid", "frame %d of %s answered %d", i, c.str().c_str(), r);
        if (i < n / 2) continue;
        for (int k = 0; k < dc.ns(); k++) {
            double y = t.at(((double)i * dc.ns() + k - dc.delay() + .5) / dc.pcm - .5 / c.pcm), v = get_sample(f, o.data(), k);
            sig += y * y; err += (y - v) * (y - v);
        }
    }
    return {10 * std::log10(sig / std::max(err, 1e-30)), sig};
}

inline double rms_of(const Tones &t) { double v = 0; for (double a : t.a) v += a * a / 2; return std::sqrt(v); }
// Ratio the format carries at this level (two roundings), less 6 dB
inline double fmt_ceiling(Fmt f, double rms) { double q = f == LC3_PCM_FORMAT_S16 ? 1 / 32768. : 1 / 8388608.; return f == LC3_PCM_FORMAT_FLOAT ? 1e9 : 20 * std::log10(rms / q) + 7.8 - 6; }

// Least ratio expected from the bits available by spectral line.  The curves
// are 6 dB or more under the worst of 100 000 measures of the present codec.
typedef std::vector<std::pair<double, double>> Curve;
inline double level_at(const Curve &c, double x) { if (x <= c[0].first) return c[0].second; for (size_t i = 1; i < c.size(); i++) if (x <= c[i].first) return c[i - 1].second + (c[i].second - c[i - 1].second) * (x - c[i - 1].first) / (c[i].first - c[i - 1].first); return c.back().second; }
inline double typical_floor(bool hr, int ne, double bps)
{
    static const Curve small{{4, 7}, {6, 15}, {8, 15}, {10, 20}, {14, 24}, {18, 27}, {24, 34}, {40, 42}}, mid{{2.5, 3}, {4, 9}, {6, 17}, {8, 21}, {10, 36}, {14, 50}, {20, 56}},
        big{{.3, -10}, {.7, -6}, {1, -1}, {2, 2}, {3, 7}, {5, 11}, {6.5, 13}, {8, 22}, {9.5, 38}, {12, 48}, {16, 52}}, high{{.9, 7}, {2, 7}, {3, 18}, {4, 26}, {5, 32}, {6, 42}, {7, 50}, {10, 60}, {12, 64}};
    return level_at(hr ? high : ne <= 40 ? small : ne < 80 ? mid : big, bps);
}
inline double single_floor(bool hr, int ne, double bps)
{
    static const Curve small{{4, 1}, {10, 3}, {16, 6}, {24, 16}, {40, 30}}, mid{{2.5, -3}, {8, 2}, {10, 10}, {12, 34}, {20, 42}},
        big{{.3, -26}, {1, -8}, {8, 0}, {10, 8}, {12, 28}, {16, 32}}, high{{1, 1}, {2, 3}, {3, 10}, {4, 16}, {5, 22}, {7, 36}, {10, 48}, {12, 56}};
    return level_at(hr ? high : ne <= 40 ? small : ne < 80 ? mid : big, bps);
}
}
