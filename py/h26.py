"""C26: the Python command line tools carry a wave file through an LC3 file and back."""
import io, os, resource, struct, subprocess, sys, wave
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hypothesis import strategies as st
import pbt
from pbt import check, prop
from codec import *

REPO = os.environ.get("LC3_REPO", "/repo"); C = Lib(os.environ["C24_LIB"]); SCRATCH = os.environ["C25_SCRATCH"]; BIN = os.environ["C25_BIN"]

def tool(name, args, data, streams, room=None):
    """Run a tool on the bytes `data`; returns its output file."""
    base = os.path.join(SCRATCH, "p%d" % os.getpid()); i, o = base + ".in", base + ".out"
    with open(i, "wb") as f: f.write(data)
    if os.path.exists(o): os.unlink(o)
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "python"), LD_LIBRARY_PATH=BIN, PYTHONDONTWRITEBYTECODE="1"); env.pop("PYTHONUNBUFFERED", None)
    cmd = ([sys.executable, os.path.join(REPO, "python/tools", name), "--libpath", C.path] if name.endswith(".py") else [os.path.join(BIN, name)]) + args
    fin = open(i, "rb") if streams == 2 else subprocess.DEVNULL; fout = open(o, "wb") if streams else subprocess.DEVNULL
    r = subprocess.run(cmd + ([i] if streams < 2 else []) + ([o] if streams < 1 else []), stdin=fin, stdout=fout, stderr=subprocess.PIPE, env=env, timeout=120, preexec_fn=None if room is None else lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (room, room)))
    for f in (fin, fout):
        if f is not subprocess.DEVNULL: f.close()
    out = open(o, "rb").read() if os.path.exists(o) else None
    for f in (i, o):
        if os.path.exists(f): os.unlink(f)
    return r.returncode, out, r.stderr.decode(errors="replace").strip().splitlines()[-1:]

def wav(rate, ch, bits, raw):
    f = io.BytesIO(); w = wave.open(f, "wb"); w.setnchannels(ch); w.setsampwidth(bits // 8); w.setframerate(rate); w.writeframes(raw); w.close(); return f.getvalue()

def stream(dt, sr, ch, fmt, raw, n, block):
    """The header and frames of n samples per channel"""
    e = CEnc(C, False, dt, sr, sr, ch); ns = e.ns; fb = FB[fmt] * ch; delay = C.hr_delay_samples(False, dt, sr)
    out = struct.pack("<HHHHHHHI", 0xcc1c, 18, sr // 100, C.hr_resolve_bitrate(False, dt, sr, block) // 100, ch, dt // 10, 0, n); frames = []
    for i in range(0, n + delay, ns):
        frames.append(e.encode(fmt, raw[i * fb:(i + ns) * fb], block)); out += struct.pack("<H", block) + frames[-1]
    return out, frames

common = {"dt": st.sampled_from(DTS), "sr": st.sampled_from(RATES), "ch": st.sampled_from([1, 1, 2, 2, 3]), "bits": st.sampled_from([16, 24]), "kind": st.integers(0, 5), "seed": st.integers(0, 2**31), "len": st.integers(0, 4000), "short": st.booleans(), "br": st.integers(1, 400000), "streams": st.integers(0, 2)}

def setup(case):
    dt, sr, ch, bits = case["dt"], case["sr"], case["ch"], case["bits"]; ns = C.hr_frame_samples(False, dt, sr); n = case["len"] * ns // 1000 if not case["short"] else case["len"] % ns
    chans = [signal(case["seed"] + k, case["kind"], n, sr, .7) for k in range(ch)]; fmt = S16 if bits == 16 else S24_3LE
    raw = pack(fmt, [chans[i % ch][i // ch] for i in range(n * ch)]); block = C.hr_frame_block_bytes(False, dt, sr, ch, case["br"]); return dt, sr, ch, bits, ns, n, fmt, raw, block

@prop("encoder_tool", 640, 6000, "wave files of 0..4 frames, 1..3 channels, 16 or 24 bits, every rate and frame duration, encoded by encoder.py; header and frames compared with the C library's, and with elc3's for 1 or 2 channels; non-trivial = all, keyed by options and frames", st.fixed_dictionaries(common))
def encoder_tool(case, ctx):
    dt, sr, ch, bits, ns, n, fmt, raw, block = setup(case); what = "%gms %d Hz %dch %d bits, %d samples, %d bit/s" % (dt / 1000, sr, ch, bits, n, case["br"])
    args = ["--bitrate", str(case["br"])] + (["--frame_duration", "%g" % (dt / 1000)] if dt != 10000 or case["seed"] % 2 else [])
    w = wav(sr, ch, bits, raw); rc, out, err = tool("encoder.py", args, w, case["streams"]); want, frames = stream(dt, sr, ch, fmt, raw, n, block)
    check(rc == 0 and out is not None, "status", "encoder.py, %s: ends with %s (%s)", what, rc, err)
    check(out[:18] == want[:18], "header", "encoder.py, %s: header %s, expected %s", what, out[:18].hex(), want[:18].hex())
    check(out == want, "frames", "encoder.py, %s: %d bytes, expected %d, or other frames", what, len(out), len(want))
    if ch <= 2 and case["seed"] % 4 == 0:
        rc, o2, err = tool("elc3", ["-b", str(case["br"]), "-m", "%g" % (dt / 1000)], w, 0); check(o2 == out, "elc3", "encoder.py and elc3 differ, %s", what); ctx.label("compared with elc3")
    ctx.label("%gms" % (dt / 1000)); ctx.label("%d bits" % bits); ctx.note(what); ctx.nt(dt, sr, ch, out)

@prop("decoder_tool", 640, 6000, "LC3 files made by the C library, some frames damaged, decoded by decoder.py to 16 or 24 bits; the wave file holds exactly the announced samples, delay removed, as the library decodes them; non-trivial = at least one sample, keyed by content", st.fixed_dictionaries(dict(common, damage=st.integers(0, 3))))
def decoder_tool(case, ctx):
    dt, sr, ch, bits, ns, n, fmt, raw, block = setup(case); f, frames = stream(dt, sr, ch, fmt, raw, n, block); delay = C.hr_delay_samples(False, dt, sr); what = "%gms %d Hz %dch, %d samples to %d bits" % (dt / 1000, sr, ch, n, bits)
    if case["damage"] == 3 and frames:
        i = case["seed"] % len(frames); frames[i] = bytes(v ^ (case["seed"] >> 3 & 0xff or 1) if j % 5 == 0 else v for j, v in enumerate(frames[i])); f = f[:18] + b"".join(struct.pack("<H", len(x)) + x for x in frames); ctx.label("damaged")
    rc, out, err = tool("decoder.py", (["--bit_depth", str(bits)] if bits == 24 or case["seed"] % 2 else []), f, case["streams"]); check(rc == 0 and out is not None, "status", "decoder.py, %s: ends with %s (%s)", what, rc, err)
    d = CDec(C, False, dt, sr, sr, ch); pcm = b"".join(d.decode(fmt, x) for x in frames); fb = FB[fmt] * ch; want = wav(sr, ch, bits, pcm[delay * fb:(delay + n) * fb])
    check(len(out) == len(want), "length", "decoder.py, %s: %d bytes, expected %d", what, len(out), len(want)); check(out == want, "pcm", "decoder.py, %s: the samples differ", what)
    ctx.label("%gms" % (dt / 1000)); ctx.note(what)
    if n: ctx.nt(dt, sr, ch, bits, out)

@prop("tools_no_room", 160, 3000, "conversions by encoder.py or decoder.py to a file that takes only the first bytes of the result, from none to all but one: the tool ends with an error status; non-trivial = all, keyed by options and room", st.fixed_dictionaries(dict(common, dec=st.booleans(), room=st.integers(0, 10**6))))
def tools_no_room(case, ctx):
    dt, sr, ch, bits, ns, n, fmt, raw, block = setup(case); f, frames = stream(dt, sr, ch, fmt, raw, n, block); size = 44 + n * ch * bits // 8 if case["dec"] else len(f); room = size * case["room"] // 10**6 if case["room"] < 10**6 else size - 1
    what = "%gms %d Hz %dch, %d samples, %d bits: result of %d bytes, room for %d" % (dt / 1000, sr, ch, n, bits, size, room); name = "decoder.py" if case["dec"] else "encoder.py"
    args = ["--bit_depth", str(bits)] if case["dec"] else ["--bitrate", str(case["br"]), "--frame_duration", "%g" % (dt / 1000)]
    rc, out, err = tool(name, args, f if case["dec"] else wav(sr, ch, bits, raw), case["streams"], room); ctx.label(name); ctx.note(what)
    check(rc > 0, "no-room", "%s, %s: ends with %s (%s)", name, what, rc, err); ctx.nt(name, dt, sr, ch, size, room, case["streams"])

if __name__ == "__main__":
    sys.exit(pbt.main())
