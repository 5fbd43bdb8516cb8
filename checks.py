"""The checks: which harness decides which property, on which builds."""
import os
import run as R

CHECKS = {}
# how many times the base number of cases the quick tier runs: the checks that are cheap can afford more
QUICK = dict(C02=3, C03=2, C04=2, C05=5, C06=2, C07=3, C09=3, C10=3, C13=1.5, C14=1.5, C16=4, C17=8, C18=1.5, C19=1.5, C20=2, C21=3, C22=2, C23=8, C25=3, C27=3, C28=2, C29=2, C30=2, C31=2, C32=1.5)

def check(pid, **kw):
    def deco(fn):
        CHECKS[pid] = dict(kw, run=fn)
        return fn
    return deco

def cc(pid, *parts):
    """A check made of C++ harness parts: (source, variant[, prop[, scale]])."""
    def fn(res):
        for p in parts:
            src, variant = p[0], p[1]
            R.run_harness(res, src, variant, only=p[2] if len(p) > 2 else None, scale=res.scale * (p[3] if len(p) > 3 else 1.0))
    CHECKS[pid] = {"run": fn, "parts": parts}

cc("C01", ("props/c01_decsafe.cc", "san"), ("props/c01_decsafe.cc", "sang", None, .25), ("props/c01_decsafe.cc", "msan", None, .5))

cc("C02", ("props/c02_encsafe.cc", "san"), ("props/c02_encsafe.cc", "sang", None, .33), ("props/c02_encsafe.cc", "msan", None, 1))

cc("C03", ("props/c03_footprint.cc", "rel"))

cc("C04", ("props/c04_determinism.cc", "rel"), ("props/c04_fresh.cc", "rel"), ("props/c04_determinism.cc", "msan", "placement_independent", .25))

cc("C05", ("props/c05_reset.cc", "rel"), ("props/c05_reset.cc", "msan", None, .4))

cc("C06", ("props/c06_interleave.cc", "rel"))

cc("C07", ("props/c07_formats.cc", "rel"))

cc("C08", ("props/c08_sizing.cc", "rel"))
cc("C09", ("props/c09_params.cc", "rel"))
cc("C10", ("props/c10_memory.cc", "rel"), ("props/c10_static.cc", "rel"))
cc("C11", ("props/c11_validity.cc", "rel"))
cc("C12", ("props/c12_fidelity.cc", "rel"))
cc("C13", ("props/c13_decoder.cc", "rel"))
cc("C14", ("props/c14_encoder.cc", "rel", "spectrum"), ("props/c14_encoder.cc", "rel", "ties"), ("props/c14_encoder.cc", "rel", "spectrum_long"))
cc("C15", ("props/c15_plc.cc", "rel"))
cc("C16", ("props/c16_recovery.cc", "rel"))
cc("C17", ("props/c17_silence.cc", "rel"))
cc("C18", ("props/c18_rates.cc", "rel"))
cc("C19", ("props/c19_verdict.cc", "rel"))
cc("C20", ("props/c20_ltpfoff.cc", "rel"))

def reduced(res):
    R.run_harness(res, "props/c21_reduced.cc", "rel", env={"C21_LIBS": R.build_features()}, scale=res.scale)
CHECKS["C21"] = {"run": reduced, "parts": (("props/c21_reduced.cc", "rel"),), "env": lambda d: {"C21_LIBS": R.build_features()}}

def simd(res):
    R.run_harness(res, "props/c22_simd.cc", "rel", env=simd_env(), scale=res.scale)
    R.run_harness(res, "props/c14_encoder.cc", "neon", only="spectrum", scale=res.scale / 6)
    R.run_harness(res, "props/c13_decoder.cc", "neon", scale=res.scale / 6)
    for v in ("armsan", "neonsan"):
        R.run_harness(res, "props/c02_encsafe.cc", v, scale=res.scale / 6)
def simd_env(d=None):
    return {"C22_LIBS": R.build_simd()}
CHECKS["C22"] = {"run": simd, "parts": (("props/c22_simd.cc", "rel"), ("props/c14_encoder.cc", "neon"), ("props/c13_decoder.cc", "neon"), ("props/c02_encsafe.cc", "armsan"), ("props/c02_encsafe.cc", "neonsan")), "env": simd_env}

cc("C23", ("props/c23_cpp.cc", "rel"), ("props/c23_cpp.cc", "san", None, .25))

cc("C28", ("props/c14_encoder.cc", "rel", "bandwidth"))
cc("C29", ("props/c14_encoder.cc", "rel", "pitch"), ("props/c14_encoder.cc", "rel", "pitch_long"))
cc("C30", ("props/c14_encoder.cc", "rel", "shaping"), ("props/c14_encoder.cc", "rel", "shaping_long"))
cc("C31", ("props/c14_encoder.cc", "rel", "tns"))

cc("C32",
   ("props/c13_decoder.cc", "wasm", None, .25), ("props/c14_encoder.cc", "wasm", "spectrum", .15), ("props/c14_encoder.cc", "wasm", "pitch", .15), ("props/c14_encoder.cc", "wasm", "shaping", .1),
   ("props/c14_encoder.cc", "wasm", "tns", .1), ("props/c14_encoder.cc", "wasm", "bandwidth", .1), ("props/c15_plc.cc", "wasm", "concealment_conforms", .15), ("props/c11_validity.cc", "wasm", None, .1),
   ("props/c03_footprint.cc", "wasm", None, .1), ("props/c05_reset.cc", "wasm", None, .1), ("props/c08_sizing.cc", "wasm", None, .03), ("props/c09_params.cc", "wasm", None, .1),
   ("props/c13_decoder.cc", "clang", None, .2), ("props/c14_encoder.cc", "clang", "spectrum", .15), ("props/c14_encoder.cc", "clang", "pitch", .15), ("props/c14_encoder.cc", "clang", "shaping", .1),
   ("props/c14_encoder.cc", "clang", "tns", .1), ("props/c15_plc.cc", "clang", "concealment_conforms", .15),
   ("props/c13_decoder.cc", "native", None, .1), ("props/c14_encoder.cc", "native", "spectrum", .1), ("props/c14_encoder.cc", "native", "pitch", .1),
   ("props/c13_decoder.cc", "dbg", None, .05), ("props/c14_encoder.cc", "dbg", "spectrum", .05))

cc("C33", ("props/c33_work.cc", "count"), ("props/c33_work.cc", "stack"))

cc("C27", ("props/c27_threads.cc", "tsan"), ("props/c27_first.cc", "tsan"), ("props/c27_threads.cc", "rel", None, 4), ("props/c27_first.cc", "rel", None, 4))

# --- tools and Python: files live in a scratch folder made and removed here
import contextlib, shutil, tempfile

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="lc3-", dir=R.BUILD)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tools_env(d, variant="rel"):
    lib, _ = R.build_lib(variant, ("liblc3", "elc3", "dlc3"))
    e = {"C25_SCRATCH": d, "C25_BIN": os.path.join(lib, "bin")}
    if variant != "rel":   # the harness tells a sanitizer report from an error status
        e.update({k: R.ENV[k] + ":exitcode=99" for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS")})
    return e

C25_SAN = {"elc3_encodes": .2, "dlc3_decodes": .2, "tools_refuse": .3, "tools_hostile": 1, "tools_no_room": .5}

@check("C25", parts=(("props/c25_tools.cc", "rel"), ("props/c25_tools.cc", "san")), env=tools_env)
def c25(res):
    with scratch() as d:
        R.run_harness(res, "props/c25_tools.cc", "rel", scale=res.scale, env=tools_env(d))
        for p, k in C25_SAN.items():
            R.run_harness(res, "props/c25_tools.cc", "san", only=p, scale=res.scale * k, env=tools_env(d, "san"))

def legacy_lib():
    """The library as it was before the high-resolution interface: same objects, older symbols only."""
    lib, _ = R.build_lib("rel")
    out = os.path.join(lib, "liblc3-legacy.so")
    with R.Lock("legacy"):
        if not os.path.exists(out):
            import glob
            names = "lc3_frame_samples lc3_frame_bytes lc3_frame_block_bytes lc3_resolve_bitrate lc3_delay_samples lc3_encoder_size lc3_setup_encoder lc3_encode lc3_decoder_size lc3_setup_decoder lc3_decode".split()
            with open(os.path.join(lib, "legacy.map"), "w") as f:
                f.write("{ global: %s local: *; };\n" % "".join(n + "; " for n in names))
            objs = glob.glob(os.path.join(lib, "obj", "src", "**", "*.o"), recursive=True)
            r = R.sh(["gcc", "-shared", "-flto", "-o", out + ".tmp"] + objs + ["-Wl,--version-script=" + os.path.join(lib, "legacy.map"), "-lm"])
            if r.returncode:
                raise R.CheckError("cannot link the legacy library:\n" + r.stdout[-2000:])
            os.rename(out + ".tmp", out)
    return out

def python_env(d=None):
    lib, _ = R.build_lib("rel", ("liblc3", "elc3", "dlc3"))
    e = {"C24_LIB": os.path.join(lib, "bin", "liblc3.so"), "C24_LEGACY": legacy_lib(), "C25_BIN": os.path.join(lib, "bin")}
    if d:
        e["C25_SCRATCH"] = d
    return e

@check("C24", py="py/h24.py", env=python_env)
def c24(res):
    R.run_python(res, "py/h24.py", python_env())

@check("C26", py="py/h26.py", env=python_env)
def c26(res):
    with scratch() as d:
        R.run_python(res, "py/h26.py", python_env(d))

def setup():
    tools_env("")
    legacy_lib()
    seen = set()
    for c in CHECKS.values():
        for p in c.get("parts", ()):
            if (p[0], p[1]) not in seen:
                seen.add((p[0], p[1]))
                R.build_harness(p[0], p[1])

def replay(pid, path):
    import subprocess
    chk = CHECKS[pid]
    with scratch() as d:
        env = dict(R.ENV, LC3_REPO=R.REPO)
        built = os.path.basename(os.path.dirname(os.path.abspath(path)))
        env.update(chk["env"](d, *([built] if chk["env"] is tools_env and built in R.VARIANTS else [])) if "env" in chk else {})
        if "py" in chk:
            return subprocess.run([R.VPY, os.path.join(R.HERE, chk["py"]), "--replay", path], env=env).returncode
        return replay_cc(pid, path, env)

def replay_cc(pid, path, env):
    import subprocess
    name = None
    for line in open(path):
        if line.startswith("prop "):
            name = line.split()[1]
    rc = 2
    variant = os.path.basename(os.path.dirname(os.path.abspath(path)))
    for p in CHECKS[pid].get("parts", ()):
        if p[1] != variant and len(CHECKS[pid]["parts"]) > 1:
            continue
        b, _ = R.build_harness(p[0], p[1])
        if name in subprocess.run([b, "--list"], env=env, capture_output=True, text=True).stdout.split():
            rc = subprocess.run([b, "--replay", path], env=env).returncode
    return rc
