"""C24: the Python classes are the C interface, channel by channel."""
import array, ctypes, gc, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("LC3_REPO", "/repo"), "python"))
from hypothesis import strategies as st
import pbt
from pbt import check, prop
from codec import *
import lc3

LIBPATH, LEGACY = os.environ["C24_LIB"], os.environ.get("C24_LEGACY")
C = Lib(LIBPATH)

@st.composite
def config(draw, hr=None):
    h = draw(st.sampled_from([False, False, False, True])) if hr is None else hr
    dt = draw(st.sampled_from(HR_DTS if h else DTS)); rates = HR_RATES if h else RATES; i = draw(st.integers(0, len(rates) - 1)); sr = rates[i]
    pcm = rates[draw(st.integers(i, len(rates) - 1))] if draw(st.integers(0, 3)) == 0 else sr
    return {"hr": h, "dt": dt, "sr": sr, "pcm": pcm, "ch": draw(st.sampled_from([1, 1, 2, 2, 3, 5])), "explicit": draw(st.booleans())}

def limits(c):
    """the documented smallest and largest frame"""
    return C.hr_frame_block_bytes(c["hr"], c["dt"], c["sr"], 1, 0), C.hr_frame_block_bytes(c["hr"], c["dt"], c["sr"], 1, 2147483647)

def cls(kind, c, lib=LIBPATH):
    pcm = c["pcm"] if c["pcm"] != c["sr"] or c["explicit"] else None
    if kind == "e": return lc3.Encoder(c["dt"], c["sr"], c["ch"], c["hr"], pcm, libpath=lib)
    return lc3.Decoder(c["dt"], c["sr"], c["ch"], c["hr"], pcm, libpath=lib)

def name(c):
    return "%s%gms/%dk/pcm%dk %dch" % ("hr:" if c["hr"] else "", c["dt"] / 1000, c["sr"] // 1000, c["pcm"] // 1000, c["ch"])

block = st.fixed_dictionaries({"kind": st.integers(0, 5), "seed": st.integers(0, 2**31), "level": st.sampled_from([1.0, .5, .1, .001]), "depth": st.sampled_from([16, 24, None]),
    "form": st.integers(0, 4), "size": st.integers(0, 1000), "short": st.sampled_from([0, 0, 0, 1, 2, 3]), "short_n": st.integers(0, 10**6), "loss": st.sampled_from([0, 0, 1]), "odepth": st.sampled_from([16, 24, None])})

def given_pcm(b, n, ch, sr):
    """The argument for encode() and the raw bytes it stands for."""
    fmt = {16: S16, 24: S24_3LE, None: FLOAT}[b["depth"]]; total = n * ch
    have = total if b["short"] == 0 else total + b["short_n"] % 50 if b["short"] == 1 else b["short_n"] % total if b["short"] == 2 else 0 if b["short_n"] % 3 == 0 else b["short_n"] % ch * 1
    chans = [signal(b["seed"] + k, b["kind"], n + 60, sr, b["level"]) for k in range(ch)]
    x = [chans[i % ch][i // ch] for i in range(have)]; raw = pack(fmt, x)
    if b["depth"] is None:
        f = b["form"] % 5; y = array.array("f", x)
        arg = x if f == 0 else y if f == 1 else bytes(raw) if f == 2 else bytearray(raw) if f == 3 else memoryview(y)
        if f == 0: arg = list(y)
    else:
        arg = [bytes(raw), bytearray(raw), memoryview(raw)][b["form"] % 3]
        if have and b["short"] == 2 and b["form"] == 4: raw = raw[:-1]; arg = bytes(raw)     # a partial sample
    return fmt, arg, raw, have

@prop("classes_equal_c", 1600, 40000, "histories of 1..5 blocks of 1..5 channels through lc3.Encoder and lc3.Decoder, PCM given as list, array, bytes, bytearray or memoryview, too short, exact or longer, decoded as bytes or floats, compared with direct calls of the C library; non-trivial = at least one block, keyed by configuration and bytes",
      st.fixed_dictionaries({"c": config(), "blocks": st.lists(block, min_size=1, max_size=5)}))
def classes_equal_c(case, ctx):
    c = case["c"]; e, d = cls("e", c), cls("d", c); a = (c["hr"], c["dt"], c["sr"], c["pcm"], c["ch"]); ce, cd = CEnc(C, *a), CDec(C, *a); lo, hi = limits(c); key = [a]
    for i, b in enumerate(case["blocks"]):
        n = e.get_frame_samples(); fmt, arg, raw, have = given_pcm(b, n, c["ch"], c["pcm"]); nb = c["ch"] * lo + b["size"] * c["ch"] * (hi - lo) // 1000 + b["seed"] % c["ch"]; nb = min(nb, hi * c["ch"])
        before = bytes(arg) if isinstance(arg, (bytearray, memoryview)) else None
        what = "%s block %d: %d samples of %s given for %d as %s" % (name(c), i, have, {16: "16 bits", 24: "24 bits", None: "float"}[b["depth"]], n * c["ch"], type(arg).__name__)
        try: got = e.encode(arg, nb, b["depth"])
        except lc3.BaseError as x: raise pbt.Violation("refused", "%s, %d bytes: refused (%s)" % (what, nb, x))
        except ValueError as x: raise pbt.Violation("raised", "%s, %d bytes: %s: %s" % (what, nb, type(x).__name__, x))
        want = ce.encode(fmt, raw, nb)
        check(want is not None, "c", "C library refuses %d bytes", nb)
        check(isinstance(got, bytes) and got == want, "frames", "%s, %d bytes: the frames differ from the C library's", what, nb)
        if before is not None: check(bytes(arg) == before, "input", "%s: the input was modified", what)
        if b["loss"]: got = bytes(v ^ (0x5a if j % 7 == b["seed"] % 7 else 0) for j, v in enumerate(got))
        of = {16: S16, 24: S24_3LE, None: FLOAT}[b["odepth"]]; pcm = d.decode([got, bytearray(got), memoryview(got)][b["form"] % 3], b["odepth"]); wp = cd.decode(of, got)
        check(isinstance(pcm, array.array) and pcm.typecode == "f" if b["odepth"] is None else isinstance(pcm, bytes), "type", "%s: decode to %s returns %s", name(c), b["odepth"], type(pcm).__name__)
        check((pcm.tobytes() if b["odepth"] is None else pcm) == wp, "pcm", "%s block %d decoded to %s: the samples differ from the C library's", name(c), i, b["odepth"])
        key.append(got); ctx.label("depth %s" % b["depth"]); ctx.label("short input" if have < n * c["ch"] else "long input" if have > n * c["ch"] else "exact input"); ctx.label(type(arg).__name__)
    ctx.label("%d channels" % c["ch"]); ctx.note("%s, %d blocks" % (name(c), len(case["blocks"]))); ctx.nt(key)

@prop("queries_equal_c", 2500, 50000, "sizing methods against the C library over all configurations, bit rates and sizes; non-trivial = all, keyed by the arguments",
      st.fixed_dictionaries({"c": config(), "br": st.one_of(st.integers(0, 800000), st.sampled_from([0, 2147483647])), "nb": st.integers(0, 4000)}))
def queries(case, ctx):
    c, br, nb = case["c"], case["br"], case["nb"]
    for o in (cls("e", c), cls("d", c)):
        for n, got, want in (("frame samples", o.get_frame_samples(), C.hr_frame_samples(c["hr"], c["dt"], c["pcm"])), ("delay", o.get_delay_samples(), C.hr_delay_samples(c["hr"], c["dt"], c["pcm"])),
                             ("frame bytes at %d bit/s" % br, o.get_frame_bytes(br), C.hr_frame_block_bytes(c["hr"], c["dt"], c["sr"], c["ch"], br)), ("bit rate of %d bytes" % nb, o.resolve_bitrate(nb), C.hr_resolve_bitrate(c["hr"], c["dt"], c["sr"], nb))):
            check(got == want, "query", "%s: %s is %s, C library %s", name(c), n, got, want)
    ctx.note("%s %d bit/s %d bytes" % (name(c), br, nb)); ctx.nt(sorted(c.items()), br, nb)

@prop("errors", 2500, 50000, "unsupported configurations, wrong sizes, wrong depths, NaN and infinite samples: an error of the module's own, and no effect on the encoder; in-range samples are never refused; non-trivial = all, keyed by the case",
      st.fixed_dictionaries({"c": config(), "k": st.integers(0, 9), "v": st.integers(0, 10**6), "b": block}))
def errors(case, ctx):
    c, k, v = case["c"], case["k"], case["v"]; lo, hi = limits(c); ctx.label("kind %d" % k); ctx.note("%s kind %d" % (name(c), k)); ctx.nt(k, v, sorted(c.items()))
    def refused(f, what):
        try: f()
        except lc3.InvalidArgumentError: return
        except Exception as x: raise pbt.Violation("wrongerror", "%s: %s: %s %s instead of InvalidArgumentError" % (name(c), what, type(x).__name__, x))
        raise pbt.Violation("accepted", "%s: %s is accepted" % (name(c), what))
    if k == 0:
        dt = [0, -1, 1000, 7000, 9999, 20000, 10, 2501][v % 8]; refused(lambda: cls("ed"[v // 8 % 2], dict(c, dt=dt)), "frame duration %d" % dt); return
    if k == 1:
        sr = [0, 44100, 11025, 96001, -8000, 96000 if not c["hr"] else 32000][v % 6]; refused(lambda: cls("ed"[v // 8 % 2], dict(c, sr=sr, pcm=sr)), "sample rate %d" % sr); return
    if k == 9:      # another PCM rate: lower or unsupported ones are refused, none or a negative one is the stream's
        ps = [44100, 8000, 0, -1, -8000, 96000, 16000][v % 7]; allowed = HR_RATES if c["hr"] else RATES; eff = ps if ps > 0 else c["sr"]; o = cls("ed"[v // 7 % 2], dict(c, pcm=ps, explicit=True)); ok = eff in allowed and eff >= c["sr"]
        f = (lambda: o.encode([], lo * c["ch"])) if v // 7 % 2 == 0 else (lambda: o.decode(bytes(lo * c["ch"])))
        if not ok: refused(f, "PCM rate %d" % ps)
        else: f(); check(o.get_frame_samples() == C.hr_frame_samples(c["hr"], c["dt"], eff), "query", "PCM rate %d: %d samples", ps, o.get_frame_samples())
        return
    e, d = cls("e", c), cls("d", c); n = e.get_frame_samples(); full = n * c["ch"]
    if k == 2:
        nb = [c["ch"] * hi + 1 + v % 100 + c["ch"], v % max(1, c["ch"] * (lo // 2) - c["ch"] + 1)][v % 2]; refused(lambda: e.encode([0.0] * full, nb), "encoding %d bytes" % nb); return
    if k == 3:
        nb = [c["ch"] * hi + 1 + v % 100 + c["ch"], v % (c["ch"] * 19 + 1)][v % 2]; refused(lambda: d.decode(bytes(nb)), "decoding %d bytes" % nb); return
    if k == 4:
        bd = [8, 32, 0, 15, 17, -16][v % 6]; refused(lambda: e.encode(bytes(full * 4), lo * c["ch"], bd), "encoding depth %d" % bd); refused(lambda: d.decode(bytes(lo * c["ch"]), bd), "decoding depth %d" % bd); return
    if k in (5, 6):
        x = signal(v, case["b"]["kind"], full, c["pcm"], case["b"]["level"]); x[v % full] = [math.nan, math.inf, -math.inf][v // 7 % 3]
        if v % 5 == 0: x[v // 3 % full] = math.nan; x[v // 11 % full] = math.inf
        a = (c["hr"], c["dt"], c["sr"], c["pcm"], c["ch"]); ce = CEnc(C, *a); nb = lo * c["ch"] + v % 20
        y = signal(v + 1, 3, full, c["pcm"], .5)
        if k == 6: check(e.encode(y, nb) == ce.encode(FLOAT, pack(FLOAT, y), nb), "frames", "first block differs")
        refused(lambda: e.encode(x, nb), "a sample %s" % x[v % full]); check(e.encode(y, nb) == ce.encode(FLOAT, pack(FLOAT, y), nb), "effect", "%s: a refused block changed the next one", name(c)); return
    # in-range samples, whatever their mean
    x = signal(v, 4 if k == 7 else case["b"]["kind"], full, c["pcm"], [1.0, -1.0, .999, .7][v % 4])
    try: e.encode(x, lo * c["ch"])
    except lc3.BaseError as err: raise pbt.Violation("refused", "%s: in-range samples (constant %s) refused: %s" % (name(c), x[0], err))

@prop("memory", 24, 400, "creating, using and dropping many instances leaves no memory behind: the allocator's use grows by less than a quarter of what the contexts occupy; non-trivial = all, keyed by the configuration",
      st.fixed_dictionaries({"c": config(), "which": st.sampled_from(["e", "d"]), "use": st.booleans()}))
def memory(case, ctx):
    c, w = case["c"], case["which"]; libc = ctypes.CDLL(None)
    class M2(ctypes.Structure): _fields_ = [(f, ctypes.c_size_t) for f in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
    libc.mallinfo2.restype = M2
    def used(): gc.collect(); m = libc.mallinfo2(); return m.uordblks + m.hblkhd
    def one():
        o = cls(w, c)
        if case["use"]:
            if w == "e": o.encode([], 2 * limits(c)[0] * c["ch"])
            else: o.decode(bytes(limits(c)[0] * c["ch"]))
    for _ in range(5): one()
    size = (C.hr_encoder_size if w == "e" else C.hr_decoder_size)(c["hr"], c["dt"], c["pcm"]) * c["ch"]; k = max(40, min(400, 2000000 // size)); b = used()
    for _ in range(k): one()
    g = used() - b; check(g < k * size / 4, "leak", "%s: %d %s of %d bytes leave %d bytes allocated", name(c), k, "encoders" if w == "e" else "decoders", size, g); ctx.note(name(c)); ctx.nt(w, case["use"], sorted(c.items()))

if LEGACY:
    @prop("legacy_library", 300, 6000, "the same blocks through a library that lacks the high-resolution interface: same frames, samples and sizes, high resolution refused; non-trivial = all, keyed by configuration and bytes",
          st.fixed_dictionaries({"c": config(hr=False), "blocks": st.lists(block, min_size=1, max_size=3), "br": st.integers(0, 400000)}))
    def legacy(case, ctx):
        c = case["c"]; e, d = cls("e", c, LEGACY), cls("d", c, LEGACY); a = (False, c["dt"], c["sr"], c["pcm"], c["ch"]); ce, cd = CEnc(C, *a), CDec(C, *a); lo, hi = limits(c); key = [a]
        for o in (e, d):
            check(o.get_frame_samples() == C.hr_frame_samples(False, c["dt"], c["pcm"]) and o.get_delay_samples() == C.hr_delay_samples(False, c["dt"], c["pcm"]), "query", "%s: frame or delay samples differ", name(c))
            check(o.get_frame_bytes(case["br"]) == c["ch"] * C.hr_frame_block_bytes(False, c["dt"], c["sr"], 1, case["br"] // c["ch"]), "bytes", "%s at %d bit/s: %d bytes", name(c), case["br"], o.get_frame_bytes(case["br"]))
        for b in case["blocks"]:
            fmt, arg, raw, have = given_pcm(b, e.get_frame_samples(), c["ch"], c["pcm"]); nb = c["ch"] * (lo + b["size"] * (hi - lo) // 1000)
            got = e.encode(arg, nb, b["depth"]); check(got == ce.encode(fmt, raw, nb), "frames", "%s: the frames differ", name(c))
            of = {16: S16, 24: S24_3LE, None: FLOAT}[b["odepth"]]; pcm = d.decode(got, b["odepth"]); check((pcm.tobytes() if b["odepth"] is None else pcm) == cd.decode(of, got), "pcm", "%s: the samples differ", name(c)); key.append(got)
        try: cls("ed"[c["ch"] % 2], dict(c, hr=True, sr=48000, pcm=48000), LEGACY)
        except lc3.InitializationError: pass
        else: raise pbt.Violation("hr", "high resolution accepted without support")
        ctx.note("%s, %d blocks" % (name(c), len(case["blocks"]))); ctx.nt(key)

if __name__ == "__main__":
    sys.exit(pbt.main())
