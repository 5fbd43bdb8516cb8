"""Direct ctypes binding of the C interface, independent of python/lc3.py."""
import array, ctypes, math, random
from ctypes import c_bool, c_int, c_uint, c_void_p
RATES, HR_RATES = [8000, 16000, 24000, 32000, 48000], [48000, 96000]
DTS, HR_DTS = [10000, 7500, 5000, 2500], [10000, 5000, 2500]
S16, S24, S24_3LE, FLOAT = range(4)
FB = {S16: 2, S24: 4, S24_3LE: 3, FLOAT: 4}

class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path); self.path = path
        for n, args, res in (("lc3_hr_frame_samples", [c_bool, c_int, c_int], c_int), ("lc3_hr_frame_block_bytes", [c_bool, c_int, c_int, c_int, c_int], c_int),
                             ("lc3_hr_resolve_bitrate", [c_bool, c_int, c_int, c_int], c_int), ("lc3_hr_delay_samples", [c_bool, c_int, c_int], c_int),
                             ("lc3_hr_encoder_size", [c_bool, c_int, c_int], c_uint), ("lc3_hr_decoder_size", [c_bool, c_int, c_int], c_uint),
                             ("lc3_hr_setup_encoder", [c_bool, c_int, c_int, c_int, c_void_p], c_void_p), ("lc3_hr_setup_decoder", [c_bool, c_int, c_int, c_int, c_void_p], c_void_p),
                             ("lc3_encode", [c_void_p, c_int, c_void_p, c_int, c_int, c_void_p], c_int), ("lc3_decode", [c_void_p, c_void_p, c_int, c_int, c_void_p, c_int], c_int)):
            f = getattr(self.l, n); f.argtypes, f.restype = args, res; setattr(self, n[4:] if n.startswith("lc3_") else n, f)

def split(n, ch, k):
    return n // ch + (k < n % ch)

class CEnc:
    def __init__(self, lib, hr, dt, sr, pcm, ch):
        self.lib, self.ch, self.ns = lib, ch, lib.hr_frame_samples(hr, dt, pcm)
        self.mem = [ctypes.create_string_buffer(lib.hr_encoder_size(hr, dt, pcm) + 16) for _ in range(ch)]
        self.h = [lib.hr_setup_encoder(hr, dt, sr, pcm, (ctypes.addressof(m) + 15) & ~15) for m in self.mem]
    def encode(self, fmt, raw, nbytes):
        """raw: the bytes of interleaved samples (a whole block)"""
        need = self.ns * self.ch * FB[fmt]; buf = ctypes.create_string_buffer(bytes(raw[:need]).ljust(need, b"\0"), need); out = ctypes.create_string_buffer(max(nbytes, 1)); at = 0; ret = 0
        for k in range(self.ch):
            n = split(nbytes, self.ch, k); r = self.lib.encode(self.h[k], fmt, ctypes.addressof(buf) + k * FB[fmt], self.ch, n, ctypes.addressof(out) + at); at += n
            if r < 0: return None
        return out.raw[:nbytes]

class CDec:
    def __init__(self, lib, hr, dt, sr, pcm, ch):
        self.lib, self.ch, self.ns = lib, ch, lib.hr_frame_samples(hr, dt, pcm)
        self.mem = [ctypes.create_string_buffer(lib.hr_decoder_size(hr, dt, pcm) + 16) for _ in range(ch)]
        self.h = [lib.hr_setup_decoder(hr, dt, sr, pcm, (ctypes.addressof(m) + 15) & ~15) for m in self.mem]
    def decode(self, fmt, data):
        out = ctypes.create_string_buffer(self.ns * self.ch * FB[fmt]); src = ctypes.create_string_buffer(bytes(data), max(len(data), 1)); at = 0
        for k in range(self.ch):
            n = split(len(data), self.ch, k); r = self.lib.decode(self.h[k], ctypes.addressof(src) + at, n, fmt, ctypes.addressof(out) + k * FB[fmt], self.ch); at += n
            if r < 0: return None
        return out.raw

def signal(seed, kind, n, sr, level):
    """n samples in [-1, 1]"""
    r = random.Random(seed)
    if kind == 0: return [0.0] * n
    if kind == 1: return [level * (2 * r.random() - 1) for _ in range(n)]
    if kind == 2:
        f = 50 + r.random() * sr / 3; p = 6.28 * r.random(); return [level * math.sin(p + 6.283185307 * f * i / sr) for i in range(n)]
    if kind == 3:
        f = 80 + 300 * r.random(); h = [(k, 1 / k, 6.28 * r.random()) for k in range(1, 6)]; return [level * .4 * sum(a * math.sin(p + 6.283185307 * f * k * i / sr) for k, a, p in h) for i in range(n)]
    if kind == 4: return [level] * n
    return [level * r.choice((-1, 1)) for _ in range(n)]

def pack(fmt, x):
    if fmt == FLOAT: return array.array("f", x).tobytes()
    if fmt == S16: return array.array("h", [max(-32768, min(32767, math.floor(v * 32768 + .5))) for v in x]).tobytes()
    o = bytearray()
    for v in x:
        o += (max(-8388608, min(8388607, math.floor(v * 8388608 + .5))) & 0xffffff).to_bytes(3, "little")
    return bytes(o)
