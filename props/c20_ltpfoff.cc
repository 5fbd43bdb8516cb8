// C20: a disabled pitch filter stays out of the stream and changes nothing else.
#include "conform.h"
using namespace cd;
PROPERTY(ltpf_disabled, 60000, 1500000, "two encoders on the same audio, one with the pitch filter disabled before frame k: identical frames before k; afterwards no frame carries pitch data, and bandwidth, noise shaping and TNS fields are the same; non-trivial = the other encoder signals pitch after k, keyed by bytes") {
    Cfg c = gen_cfg(s, 2, 1); int n = 2 + (int)s.draw(10), k0 = (int)s.draw(n), nb = gen_nbytes(s, c); Fmt f = gen_fmt(s); auto m = mode_of(c);
    std::vector<double> x((size_t)c.ns() * n); if (s.chance(3, 4)) { Rng r(s.seed()); add_sig(r, 4, gen_level(s), c.pcm, x.data(), x.size()); } else x = gen_signal(s, c.pcm, x.size());
    auto pcm = pack(f, x.data(), x.size()); size_t fb = (size_t)c.ns() * fmt_bytes(f); Enc a(c), b(c); uint64_t h = c.key(); bool pitch = false; s.note("%s %s %d frames of %d bytes, disabled at %d", c.str().c_str(), fmt_name(f), n, nb, k0);
    for (int i = 0; i < n; i++) { EncStep e{nb, f, false, std::vector<uint8_t>(pcm.begin() + i * fb, pcm.begin() + (i + 1) * fb)}; auto pa = enc_step(a.h, c, e); e.disable = i == k0; auto pb = enc_step(b.h, c, e); h ^= pbt::hash_bytes(pa.data(), pa.size(), i);
        if (i < k0) { CHECK(pa == pb, "before", "frame %d, before disabling, differs", i); continue; }
        auto A = ref::parse(m, pa.data(), nb), B = ref::parse(m, pb.data(), nb); CHECK(A.ok && B.ok, "valid", "frame %d invalid (%s %s)", i, A.why, B.why);
        CHECK(!B.pitch, "pitch", "%s: frame %d carries pitch data (index %d, active %d) although disabled at %d", c.str().c_str(), i, B.pitch_index, B.active, k0);
        CHECK(A.bw == B.bw, "other", "frame %d: bandwidth %d becomes %d without pitch filter", i, A.bw, B.bw);
        CHECK(A.lfcb == B.lfcb && A.hfcb == B.hfcb && A.shape == B.shape && A.gain == B.gain && A.idx_a == B.idx_a && A.ls_a == B.ls_a && A.idx_b == B.idx_b && A.ls_b == B.ls_b, "other", "frame %d: noise shaping changes without pitch filter", i);
        CHECK(!memcmp(A.order, B.order, sizeof A.order) && !memcmp(A.rc, B.rc, sizeof A.rc), "other", "frame %d: TNS changes without pitch filter", i);
        if (A.pitch) { pitch = true; s.label(A.active ? "pitch active" : "pitch"); } else s.label("no pitch"); }
    if (pitch) s.nt(h);
}
