// C19: a frame is concealed exactly when its bytes are not a valid frame.
#include "conform.h"
using namespace cd;
static int lib_verdict(Dec &d, const Cfg &c, const std::vector<uint8_t> &b) { std::vector<float> o(c.ns()); return lc3_decode(d.h, b.data(), (int)b.size(), LC3_PCM_FORMAT_FLOAT, o.data(), 1); }
PROPERTY(verdict, 400000, 12000000, "one frame (encoded, crafted, mutated, random, resized, constant) given to a decoder; the answer must be that of the reference parser; non-trivial = the frame passes the parser's bandwidth and length fields, keyed by configuration and bytes") {
    Cfg c = gen_cfg(s, 1, 2); Dec d(c); FrameGen fg(s, c); auto m = mode_of(c);
    for (int i = 0; i < 3; i++) { auto f = fg.next(s); if (f.lost) continue; auto p = ref::parse(m, f.data.data(), (int)f.data.size()); int r = lib_verdict(d, c, f.data);
        s.note("%s %s %s", c.str().c_str(), f.kind, hex(f.data.data(), f.data.size()).c_str()); s.label(p.ok ? "valid" : p.why);
        CHECK(r == !p.ok, "verdict", "%s frame of %zu bytes (%s): decoder answers %d, the frame is %s %s", c.str().c_str(), f.data.size(), hex(f.data.data(), f.data.size(), 64).c_str(), r, p.ok ? "valid" : "invalid:", p.why);
        if (p.ok || (strcmp(p.why, "bandwidth") && strcmp(p.why, "lastnz"))) s.nt(c.key() ^ pbt::hash_bytes(f.data.data(), f.data.size(), 7)); }
}
// Valid frames broken in one field at a time.
PROPERTY(broken_field, 200000, 6000000, "a crafted valid frame with exactly one field made invalid (bandwidth, last coefficient, TNS order, SNS index, escape overflow, missing bits) or pushed to its last valid value; non-trivial = every case, keyed by bytes") {
    Cfg c = gen_cfg(s, 0, 2); auto m = mode_of(c); Dec d(c); int nb = gen_nbytes(s, c); Rng r(s.seed()); bool fits; ref::Frame f = gen_fields(s, m, nb);
    if (s.chance(2, 3)) { for (auto &q : f.q) q = 0; f.nq = std::min(f.nq, 2 + 2 * (int)s.draw(20)); f.q[f.nq - 1] = 1; }
    int what = (int)s.draw(6); const char *w = "none";
    switch (what) {
    case 0: w = "bandwidth"; if (m.bw_bits()) f.bw = (int)s.draw(1 << m.bw_bits()); break;
    case 1: { w = "lastnz"; int mx = 1 << m.nq_bits(); f.nq = 2 * (mx - (int)s.draw(std::max(1, std::min(mx, mx - m.ne() / 2 + 3)))); f.q.assign(f.nq + 2, 0); f.q[f.nq - 1] = 1; break; }
    case 2: w = "tns order"; { int k = (int)s.draw(m.nfilters(f.bw)); f.order[k] = 1 + (int)s.draw(8); for (int i = 0; i < 8; i++) f.rc[k][i] = (int)r.below(17) - 8; } break;
    case 3: { w = "sns"; f.shape = s.coin() ? 0 : 2; long top = f.shape == 0 ? 14L * ref::SIZE_A0 : (long)ref::SIZE_A2 + ref::SIZE_A3; long lim = f.shape == 0 ? 1L << 25 : 1L << 24; long v = s.chance(2, 3) ? top - 4 + (long)s.draw(8) : (long)s.draw(lim); if (v >= lim) v = lim - 1;
        if (f.shape == 0) { f.gain &= 1; f.idx_a = (int)(v % ref::SIZE_A0); long hi = v / ref::SIZE_A0; if (hi < 2) { f.shape = 1; f.gain = (int)hi; } else { f.idx_b = (int)(hi - 2) / 2; f.ls_b = hi & 1; } }
        else { f.gain &= 3; if (v < ref::SIZE_A2) f.idx_a = (int)v; else { f.shape = 3; v -= ref::SIZE_A2; f.idx_a = (int)(v / 2); f.gain = f.gain * 2 + (v & 1); } } break; }
    case 4: { w = "escape"; int sh = m.max_shift() - 1 + (int)s.draw(3); int i = (int)s.draw(f.nq); f.q[i] = (int)((r.next() & 1 ? 4L << sh : 2L << sh) - (long)s.draw(2)); break; }
    default: w = "budget"; for (int i = 0; i < f.nq; i++) if (!f.q[i] && s.chance(1, 2)) f.q[i] = (int)r.below(9) - 4; break;
    }
    // shrink towards the exact end of the budget, to sit on both sides of it
    std::vector<uint8_t> b; for (int t = 0; t < 12; t++) { b = ref::write(m, f, [&] { return (int)(r.next() & 1); }, &fits); if (fits || what == 5 && t > (int)s.draw(6)) break; int z = 0; for (auto &q : f.q) if (q && what != 4 && ++z % 3 == 0) q = 0; if (f.nq <= (int)f.q.size() && !f.q[f.nq - 1]) f.q[f.nq - 1] = 1; }
    auto p = ref::parse(m, b.data(), nb); int v = lib_verdict(d, c, b); s.note("%s %s fits=%d", c.str().c_str(), w, fits); s.label((std::string(w) + (p.ok ? " still valid" : " invalid")).c_str());
    CHECK(v == !p.ok, "verdict", "%s %s: decoder answers %d to %d bytes [%s], the frame is %s %s", c.str().c_str(), w, v, nb, hex(b.data(), nb, 64).c_str(), p.ok ? "valid" : "invalid:", p.why);
    s.nt(c.key() ^ pbt::hash_bytes(b.data(), nb, 3));
}
