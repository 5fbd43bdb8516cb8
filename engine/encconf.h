// A library encoder stepped together with the reference model of its decisions.
#pragma once
#include "session.h"
#include "enc.h"
namespace cd {
struct EncConform {
    enum { PITCH = 1, BW = 2, SNS = 4, TNS = 8, SPEC = 16, ALL = 31 };
    Cfg c; Enc e; ref::Mode m; ref::Encoder r; int frame = 0; ref::Frame f; unsigned what; std::vector<uint8_t> out; std::string id;
    bool undecided = false; int sure = 0;    // frames whose decision was unique
    uint32_t rs = 12345; double rnd() { rs = rs * 1664525u + 1013904223u; return (int32_t)rs / 2147483648.0; }
    EncConform(const Cfg &cfg, unsigned w) : c(cfg), e(cfg), m(mode_of(cfg)), r(m, pcm_index(cfg)), what(w) {}
    std::string at(const char *k) const { char b[200]; snprintf(b, sizeof b, "%s frame %d (%d bytes)", c.str().c_str(), frame, (int)out.size()); return std::string(b) + " " + k + ":"; }

    void step(const EncStep &s) {
        if (s.disable) { lc3_encoder_disable_ltpf(e.h); r.bypass = true; }
        EncStep t = s; t.disable = false; out = enc_step(e.h, c, t); int n = s.nbytes, ns = c.ns();
        std::vector<double> xs(ns); std::vector<int16_t> xt(ns);
        for (int i = 0; i < ns; i++) { double v = get_sample(s.f, s.pcm.data(), i) * 32768; xs[i] = v; xt[i] = (int16_t)std::max(-32768.0, std::min(32767.0, s.f == LC3_PCM_FORMAT_FLOAT ? std::trunc(v) : std::floor(v))); }
        f = ref::parse(m, out.data(), n); CHECK(f.ok, "valid", "%s not a valid frame (%s) [%s]", at("frame").c_str(), f.why, hex(out.data(), n).c_str());
        r.load(xs.data(), xt.data(), n);
        pitch(); bandwidth(); sns(n); r.shape(f); tns(n); r.tns_filter(f); spectrum(n); frame++; }

    void pitch() {
        if (r.bypass) { if (what & PITCH) CHECK(!f.pitch, "pitch", "%s pitch data although the filter is disabled", at("pitch").c_str()); return; }
        std::string why; bool ok = r.pitch.match(f, r.nn, &why); if (!(what & PITCH)) { if (!ok) r.pitch.hyp.resize(1); return; }
        CHECK(ok, "pitch", "%s %s%s index %d, expected %s%s", at("frame has").c_str(), f.pitch ? "pitch" : "no pitch", f.active ? " active" : "", f.pitch_index, r.nn ? "(near Nyquist) " : "", why.c_str()); if (r.pitch.hyp.size() == 1) sure++; }

    void bandwidth() { if (!(what & BW)) return; unsigned b = r.bandwidths(); CHECK(b >> f.bw & 1, "bandwidth", "%s bandwidth %d, admissible mask %x", at("frame has").c_str(), f.bw, b); if (!(b & (b - 1))) sure++; }

    void sns(int n) {
        if (!(what & SNS)) return; double scf[16], tol[16], mx = 0; r.target_scf(n, r.e, scf); std::fill(tol, tol + 16, 0.);
        for (int k = 0; k < 8; k++) { std::vector<double> e2(r.e); double z[16]; for (size_t b = 0; b < e2.size(); b++) e2[b] = std::max(0., e2[b] + r.etol[b] * (k < 2 ? 2 * k - 1 : rnd())); r.target_scf(n, e2, z); for (int i = 0; i < 16; i++) tol[i] = std::max(tol[i], std::fabs(z[i] - scf[i])); }
        for (double &t : tol) t = r.SCF_TOL + 2 * t, mx = std::max(mx, t); if (mx > .03) { undecided = true; return; }
        double lo = r.codebook_excess(scf, tol, ref::LFCB, f.lfcb), hi = r.codebook_excess(scf + 8, tol + 8, ref::HFCB, f.hfcb);
        CHECK(lo <= 0 && hi <= 0, "codebook", "%s codebooks %d %d; the best ones are closer by %g %g%s", at("shaping").c_str(), f.lfcb, f.hfcb, lo, hi, r.att ? " (attack)" : "");
        int p[16]; ref::pulses(f, p); double rs16[16]; for (int i = 0; i < 16; i++) rs16[i] = scf[i] - (i < 8 ? ref::LFCB[f.lfcb][i] : ref::HFCB[f.hfcb][i - 8]);
        auto v = r.vq(rs16); bool ok = r.same(v, f, p); if (ok) { sure++; return; }
        for (int k = 0; k < 600 && !ok; k++) { double q[16]; double amp = k % 3 == 0 ? .3 : k % 3 == 1 ? 1 : 2; for (int i = 0; i < 16; i++) q[i] = rs16[i] + amp * tol[i] * rnd(); ok = r.same(r.vq(q), f, p); }
        std::string a, b; for (int i = 0; i < 16; i++) { a += " " + std::to_string(p[i]); b += " " + std::to_string(v.c[i]); }
        CHECK(ok, "vq", "%s shape %d gain %d pulses%s, expected shape %d gain %d pulses%s%s", at("shaping").c_str(), f.shape, f.gain, a.c_str(), v.shape, v.gain, b.c_str(), r.att ? " (attack)" : ""); }

    void tns(int n) {
        if (!(what & TNS)) return; int P = r.max_order();
        // the smallest frames drop filters that leave no room for the spectrum; bits is an upper bound of the ones asked
        int cap = 8 * n - 80, bits = 0; auto width = [&](int o, auto coef) { int w = m.lpcw(n), b = 2048; if (o) b += ref::TNS_ORDER_BITS[w][o]; for (int i = 0; i < o; i++) b += ref::TNS_COEF_BITS[i][8 + coef(i)]; return (b + 2047) / 2048; };
        CHECK(n > 40 || width(f.order[0], [&](int i) { return f.rc[0][i]; }) + (f.nfilters > 1 ? width(f.order[1], [&](int i) { return f.rc[1][i]; }) : 0) <= 8 * n - 80, "room", "%s no room left for the spectrum", at("TNS").c_str());
        CHECK(f.nfilters == m.nfilters(f.bw), "filters", "%s %d filters", at("TNS").c_str(), f.nfilters);
        for (int k = 0; k < f.nfilters; k++) {
            auto t = r.tns(f.bw, k, n, [&] { return rnd(); }); bool off = t.sure_off || r.nn == 1, mayoff = off || t.maybe_off || r.nn == 2; if (t.ill) { undecided = true; continue; }
            int lo[8], hi[8]; bool allzero = true; for (int i = 0; i < P; i++) { lo[i] = r.quant_rc(t.rc[i].lo); hi[i] = r.quant_rc(t.rc[i].hi); if (lo[i] > 0 || hi[i] < 0) allzero = false; }
            int o = f.order[k]; char b[200]; snprintf(b, sizeof b, "gain %.6f..%.6f", t.gain.lo, t.gain.hi);
            int best = 1; if (!off) { int full = 0; for (int i = 0; i < P; i++) if (lo[i] || hi[i]) full = i + 1; for (int i = 0, ob = 0, sum = 2048; i < full; i++) { int cb = 0; for (int v = lo[i]; v <= hi[i]; v++) cb = std::max(cb, ref::TNS_COEF_BITS[i][8 + v]); ob = 0; for (int j = 0; j <= i; j++) ob = std::max(ob, ref::TNS_ORDER_BITS[m.lpcw(n)][j + 1]); sum += cb; best = std::max(best, (sum + ob + 2047) / 2048); } }
            bits += o ? width(o, [&](int i) { return f.rc[k][i]; }) : best; bool tight = o == 0 && bits + (k + 1 < f.nfilters ? 90 : 0) > cap;
            if (o == 0) { CHECK(mayoff || allzero || tight, "off", "%s filter %d off, %s, first coefficient %.5f..%.5f", at("TNS").c_str(), k, b, t.rc[0].lo, t.rc[0].hi); if (off) sure++; continue; }
            CHECK(!off, "on", "%s filter %d of order %d, %s%s", at("TNS").c_str(), k, o, b, r.nn ? " near Nyquist" : "");
            for (int i = 0; i < P; i++) { int q = i < o ? f.rc[k][i] : 0; CHECK(q >= lo[i] && q <= hi[i], "coefficient", "%s filter %d order %d coefficient %d is %d, expected %d..%d (%.6f..%.6f), %s", at("TNS").c_str(), k, o, i, q, lo[i], hi[i], t.rc[i].lo, t.rc[i].hi, b); }
            CHECK(f.rc[k][o - 1] != 0, "order", "%s filter %d order %d ends with zero", at("TNS").c_str(), k, o); sure++; } }

    void spectrum(int n) {
        int off = m.gain_off(n), bud = r.budget(f, n), gi = f.g_idx - off;
        double olo = r.off_lo * .8 + .2 * std::max(-40.0, std::min(40.0, r.off_lo + r.sp_lo)), ohi = r.off_hi * .8 + .2 * std::max(-40.0, std::min(40.0, r.off_hi + r.sp_hi));
        auto cand = r.estimate(n, (int)(bud + olo + .5 - 1e-4), (int)(bud + ohi + .5 + 1e-4)); bool found = false; double nlo = 1e9, nhi = -1e9, slo = 1e9, shi = -1e9; std::string list; int amb = 0;
        for (auto &g : cand) { int lo = 1 << 30, hi = -(1 << 30); r.quantise(g.g, 0, &amb); for (int d = -1; d <= 1; d++) { auto k = r.consume(r.quantise(g.g, d), n, false, 0); lo = std::min(lo, k.bits); hi = std::max(hi, k.bits); if (!amb) break; } lo -= 3 * amb; hi += 3 * amb; bool any = false; int last = 1 << 30;
            for (int b = lo; b <= hi; b++) { int a = r.adjust(g.g + off, b, bud, g.gmin + off); if (a != last && list.size() < 300) { char t[80]; snprintf(t, sizeof t, " %d%+d (%d bits%s)", g.g + off, a, b, g.reset ? ", limit" : ""); list += t; } last = a; if (g.g + off + a == f.g_idx) any = true; }
            if (any) { found = true; double a = g.reset ? 0 : olo, z = g.reset ? 0 : ohi; nlo = std::min(nlo, a); nhi = std::max(nhi, z); slo = std::min(slo, g.reset ? 0. : (double)bud - hi); shi = std::max(shi, g.reset ? 0. : (double)bud - lo); } }
        bool chk = what & SPEC; if (!chk && !found) { nlo = -40; nhi = 40; slo = -1000; shi = 1000; }
        if (chk) CHECK(found, "gain", "%s index %d, admissible%s, budget %d bits, correction %.3f..%.3f", at("global gain").c_str(), f.g_idx, list.c_str(), bud, olo, ohi);
        r.off_lo = nlo; r.off_hi = nhi; r.sp_lo = slo; r.sp_hi = shi; if (!chk) return; if (cand.size() == 1 && !amb) sure++;
        // quantised values
        double g1 = 1 / r.gain(gi); int ne = r.ne; std::vector<double> y(ne), t(ne); std::vector<int> qlo = r.quantise(gi, -1), qhi = r.quantise(gi, 1), q = r.quantise(gi, 0);
        for (int i = 0; i < ne; i++) y[i] = r.X[i] * g1, t[i] = r.eps[i] * g1 + 6e-7 * std::fabs(y[i]);
        bool none = f.nq == 2 && !f.q[0] && !f.q[1];   // nothing kept: a pair of zeros
        for (int i = 0; i < f.nq && !none; i += 2) { bool esc = f.lsb && std::max(std::abs(f.q[i]), std::abs(f.q[i + 1])) >= 4;
            for (int j = i; j < i + 2; j++) { int want = std::abs(f.q[j]); bool ok = false; auto fit = [&](int v) { return (esc ? v & ~1 : v) == want; };
                if (fit(q[j])) ok = true; if (!ok || esc) { double fx = std::fabs(f.x[j]); for (int v = qlo[j]; v <= qhi[j] && qhi[j] - qlo[j] < 4096; v++) if (fit(v) && (!ok || (esc && std::fabs(v - fx) < .1))) { q[j] = v; ok = true; } if (qhi[j] - qlo[j] >= 4096) ok = true; }
                CHECK(ok, "quantised", "%s coefficient %d (gain %d%s) coded %d, value %.5f +- %.5f", at("spectrum").c_str(), j, f.g_idx, f.lsb ? ", LSB mode" : "", f.q[j], y[j], t[j]);
                CHECK(!f.q[j] || (f.q[j] < 0) == (y[j] < 0) || std::fabs(y[j]) <= t[j], "sign", "%s coefficient %d coded %d, value %.5f", at("spectrum").c_str(), j, f.q[j], y[j]); } }
        if (bud <= 0) return;
        // truncation and mode
        int na = 0; for (int i = 0; i < ne; i++) na += qlo[i] != qhi[i]; auto k = r.consume(q, n, true, bud); bool ok = f.nq == std::max(k.n, 2) && f.lsb == k.lsb;
        for (int d = -1; d <= 1 && !ok; d += 2) { std::vector<int> z(q); for (int i = f.nq; i < ne; i++) z[i] = d < 0 ? qlo[i] : qhi[i]; auto kk = r.consume(z, n, true, bud); ok = f.nq == std::max(kk.n, 2) && f.lsb == kk.lsb; }
        for (int d = 0; d < 200 && !ok && na; d++) { std::vector<int> z(q); for (int i = 0; i < ne; i++) if (qlo[i] != qhi[i] && (i >= f.nq || f.lsb)) z[i] = rnd() < 0 ? qlo[i] : qhi[i]; auto kk = r.consume(z, n, true, bud); ok = f.nq == std::max(kk.n, 2) && f.lsb == kk.lsb; }
        if (!ok && na > 12) { undecided = true; ok = true; }
        CHECK(ok, "truncation", "%s %d coefficients%s, expected %d%s within %d bits (%d undecided values)", at("spectrum has").c_str(), f.nq, f.lsb ? ", LSB mode" : "", std::max(k.n, 2), k.lsb ? ", LSB mode" : "", bud, na);
        refinement(y, t, q); noise(y, t); }

    void refinement(const std::vector<double> &y, const std::vector<double> &t, const std::vector<int> &q) {
        long left = f.left;
        if (f.lsb) { for (int i = 0; i < f.nq && left > 0; i += 2) { if (std::max(q[i], q[i + 1]) < 4) continue;
                for (int j = i; j < i + 2; j++) { int a = q[j] & ~1, fx; bool sg = y[j] < 0; if (left-- > 0 && (q[j] & 1)) { if (a) a++; else if (left-- > 0) a = 1; } fx = (int)std::fabs(f.x[j]);
                    CHECK(fx == a || std::fabs(std::fabs(y[j]) + r.qoff() - std::round(std::fabs(y[j]) + r.qoff())) <= t[j], "lsb", "%s coefficient %d refined to %g, expected %d (value %.5f)", at("LSB").c_str(), j, f.x[j], a, y[j]);
                    CHECK(!fx || (f.x[j] < 0) == sg || std::fabs(y[j]) <= t[j], "lsbsign", "%s coefficient %d refined to %g, value %.5f", at("LSB").c_str(), j, f.x[j], y[j]); } }
            return; }
        std::vector<int> k(f.nq, 0); for (int it = 0; it < (r.hr ? 20 : 1) && left > 0; it++) for (int i = 0; i < f.nq && left > 0; i++) if (f.q[i]) { k[i]++; left--; }
        for (int i = 0; i < f.nq; i++) { double d = std::fabs(y[i]) - std::abs(f.q[i]), x = std::fabs(f.x[i]) - std::abs(f.q[i]);
            if (!k[i] || !f.q[i]) { CHECK(x == 0, "unrefined", "%s coefficient %d", at("residual").c_str(), i); continue; }
            if (r.hr) CHECK(std::fabs(d - x) <= .5 / std::exp2(k[i]) + t[i] * 1.01 + 1e-6 * std::fabs(y[i]), "residual", "%s coefficient %d refined by %d bits to %.7f, value %.7f", at("residual").c_str(), i, k[i], f.x[i], y[i]);
            else CHECK((x > 0) == (d >= 0) || std::fabs(d) <= t[i], "residual", "%s coefficient %d refined to %.4f, value %.5f", at("residual").c_str(), i, f.x[i], y[i]); } }

    void noise(const std::vector<double> &y, const std::vector<double> &t) {
        int stop = m.ne_bw(f.bw), w = m.nf_width(), z = 0, cnt = 0; double sum = 0, st = 0; bool fuzzy = false; double lim = r.qlim(); int n = std::min(f.nq, stop);
        for (int i = 6 * (1 + m.dt) - w; i < stop + w; i++) { bool zero = i >= n; if (!zero) { double v = std::fabs(y[i]); zero = f.q[i] == 0 && f.x[i] == 0; if (f.lsb && std::fabs(y[i]) >= lim) zero = false; if (std::fabs(v - lim) <= t[i]) fuzzy = true; } z = zero ? z + 1 : 0; if (z > 2 * w) { sum += std::fabs(y[i - w]); st += t[i - w]; cnt++; } }
        double v = cnt ? 16 * sum / cnt + .5 : 0, vt = cnt ? 16 * st / cnt + 1e-5 * v : 0; auto lv = [&](double q) { return std::max(0, std::min(7, cnt ? 8 - (int)std::min(1e6, q) : 8)); };
        int a = lv(v + vt), b = lv(std::max(0.0, v - vt)); if (fuzzy) a--, b++; CHECK(f.nf >= a && f.nf <= b, "noise", "%s level %d, expected %d..%d (%d lines, mean %.5f)", at("noise").c_str(), f.nf, a, b, cnt, cnt ? sum / cnt : 0); if (a == b) sure++; }
};
}
