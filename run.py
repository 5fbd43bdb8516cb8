#!/usr/bin/env python3
"""Driver of the liblc3 property checks.

  run.py <ID> [--tier quick|thorough] [--seed N]   decide one property
  run.py <ID> --replay FILE                        re-run one replay file
  run.py --setup                                   build everything once

Builds what the check needs from /repo's working tree (out of tree, under
/verif/build), runs the generated-input search, writes evidence/<ID>.json and
prints `VIOLATION property=<ID> replay=<path>` and exits 1 on a violation.
"""
import argparse, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LC3_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = min(8, os.cpu_count() or 1)
sys.path.insert(0, HERE)

ENV = dict(os.environ)
for k in ("LD_LIBRARY_PATH", "PYTHONPATH", "MAKEFLAGS", "CFLAGS", "LDFLAGS", "CC", "CXX", "LD"):
    ENV.pop(k, None)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
ENV["MSAN_OPTIONS"] = "exitcode=77:poison_in_malloc=0:poison_in_free=0"
ENV["PYTHONDONTWRITEBYTECODE"] = "1"

SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=shift-base -fno-sanitize-recover=all -fno-omit-frame-pointer -g"
# variant -> (C compiler for the library, make variables, C++ command for harnesses, defines)
VARIANTS = {
    "rel":    ("gcc", [], "g++ -O2 -g", []),
    "clang":  ("clang", [], "g++ -O2 -g", []),
    "native": ("gcc -march=native", [], "g++ -O2 -g", []),
    "dbg":    ("gcc", ["DEBUG=1"], "g++ -O2 -g", []),
    "san":    ("clang " + SAN, [], "clang++ -O1 " + SAN, []),
    "sanrec": ("clang " + SAN.replace("-fno-sanitize-recover=all", "-fsanitize-recover=all"), [], "clang++ -O1 " + SAN.replace("-fno-sanitize-recover=all", "-fsanitize-recover=all"), []),
    "neon":   ("gcc -I%s/simd -D__ARM_NEON=1 -D__ARM_ARCH_ISA_A64=1" % HERE, [], "g++ -O2 -g", []),
    "neonsan": ("clang " + SAN + " -I%s/simd -D__ARM_NEON=1 -D__ARM_ARCH_ISA_A64=1" % HERE, [], "clang++ -O1 " + SAN, []),
    # the library lifts the integer and bounds checks of clang from its hot functions; not those of gcc
    "sang":   ("gcc -flto-partition=none " + SAN, [], "g++ -O1 " + SAN, []),
    # clang claims to be GCC 4, for which the ARM code is disabled: this one needs gcc
    "armsan": ("gcc -flto-partition=none " + SAN + " -I%s/simd -D__ARM_FEATURE_SIMD32=1" % HERE, [], "g++ -O1 " + SAN, []),
    # counts the basic blocks that run
    "count":  ("clang -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fsanitize-coverage=bb,no-prune,trace-pc", [], "g++ -O2 -g -rdynamic", []),
    "stack":  ("gcc", [], "g++ -O2 -g", ["STACK_USE"]),
    "wasm":   ("clang --target=wasm32", [], "g++ -O2 -g", []),
    # memory that nobody wrote: in the library only, for the C++ library is not instrumented
    "msan":   ("clang -fsanitize=memory -fno-omit-frame-pointer -g", [], "clang++ -O1 -g -fsanitize=memory -fsanitize-ignorelist=%s/engine/msan.txt" % HERE, []),
    "tsan":   ("clang -fsanitize=thread -g", [], "clang++ -O1 -g -fsanitize=thread", []),
    "noplus": ("gcc", ["LC3_PLUS=0", "LC3_PLUS_HR=0"], "g++ -O2 -g", ["CD_PLUS=0", "CD_PLUS_HR=0"]),
    "nohr":   ("gcc", ["LC3_PLUS=1", "LC3_PLUS_HR=0"], "g++ -O2 -g", ["CD_PLUS_HR=0"]),
    "hronly": ("gcc", ["LC3_PLUS=0", "LC3_PLUS_HR=1"], "g++ -O2 -g", ["CD_PLUS=0"]),
}

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]

def repo_sources():
    fs = []
    for d in ("src", "include", "tools", "test/neon", "test/arm", "fuzz", "wasm"):
        for root, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(root, n) for n in names if n.endswith((".c", ".h", ".cc", ".mk"))]
    return fs + [p for p in (os.path.join(REPO, "Makefile"), os.path.join(REPO, "test/makefile.mk")) if os.path.exists(p)]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()

def build_lib(variant, targets=("liblc3",)):
    """Build /repo's library (and tools) with its own Makefile, out of tree."""
    cc, mk, _, _ = VARIANTS[variant]
    key = hash_files(repo_sources() + (glob.glob(os.path.join(HERE, "simd/*.h")) if "/simd" in cc else []), variant + cc + " ".join(mk) + REPO)
    if variant == "wasm":
        key = hash_files(glob.glob(os.path.join(HERE, "wasm/*")), key)
    out = os.path.join(BUILD, "lib", variant + "-" + key)
    with Lock("lib-" + variant):
        for t in targets:
            stamp = os.path.join(out, "." + t + ".ok")
            if os.path.exists(stamp):
                continue
            if not os.path.isdir(out):
                for old in glob.glob(os.path.join(BUILD, "lib", variant + "-*")):
                    shutil.rmtree(old, ignore_errors=True)
                os.makedirs(out)
            cmd = ["make", "-C", REPO, "-j%d" % NCPU, "BUILD_DIR=%s/obj" % out, "BIN_DIR=%s/bin" % out, "CC=" + cc, "LD=" + cc] + mk + [t]
            r = sh(cmd)
            if r.returncode:
                raise CheckError("cannot build the library (%s):\n%s" % (variant, r.stdout[-4000:]))
            if variant == "wasm":
                r = sh(["g++", "-std=c++20", "-O2", "-fPIC", "-shared", "-I" + os.path.join(REPO, "include"), '-DWASM_SERVER="%s/wasm/server.js"' % HERE, os.path.join(HERE, "wasm/proxy.cc"), "-ldl", "-o", out + "/bin/liblc3.so"])
                if r.returncode:
                    raise CheckError("cannot build the proxy:\n%s" % r.stdout[-4000:])
            open(stamp, "w").close()
    return out, key

def build_harness(src, variant, defines=(), extra=(), link=True, main=True):
    """Compile /verif/<src> against the library variant; returns the binary."""
    lib, lkey = build_lib(variant)
    _, _, cxx, vdef = VARIANTS[variant]
    mine = [p for d in ("engine", "props", "ref") for p in glob.glob(os.path.join(HERE, d, "*")) if p.endswith((".h", ".inc"))]
    srcs = [os.path.join(HERE, src), os.path.join(HERE, "engine/pbt_main.cc")] + [os.path.join(HERE, e) for e in extra]
    key = hash_files(set(mine + srcs), cxx + " ".join(vdef) + " ".join(defines) + lkey)
    name = os.path.splitext(os.path.basename(src))[0]
    bindir = os.path.join(BUILD, "bin")
    out = os.path.join(bindir, "%s-%s-%s" % (name, variant, key))
    with Lock("bin-%s-%s" % (name, variant)):
        if os.path.exists(out):
            return out, lib
        os.makedirs(bindir, exist_ok=True)
        for old in glob.glob(os.path.join(bindir, "%s-%s-*" % (name, variant))):
            os.unlink(old)
        objs = []
        procs = []
        for i, s in enumerate(srcs):
            # engine and reference objects depend on the library only through the flags
            okey = hash_files(set(mine + [s] + glob.glob(os.path.join(REPO, "include/*.h"))), cxx + " ".join(vdef) + " ".join(defines))
            o = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.splitext(os.path.basename(s))[0], okey))
            os.makedirs(os.path.dirname(o), exist_ok=True)
            objs.append(o)
            if not os.path.exists(o):
                cmd = cxx.split() + ["-std=c++20", "-Wall", "-Wno-misleading-indentation", "-Wno-unused-function", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "ref")]
                cmd += ["-D" + d for d in list(vdef) + list(defines)] + ["-c", s, "-o", o + ".%d.tmp" % os.getpid()]
                procs.append((o, subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for o, p in procs:
            t, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot build %s (%s):\n%s" % (src, variant, t[-6000:]))
            os.rename(o + ".%d.tmp" % os.getpid(), o)
        cmd = cxx.split() + objs + ["-L%s/bin" % lib, "-llc3", "-Wl,-rpath,%s/bin" % lib, "-lm", "-lpthread", "-ldl", "-o", out + ".tmp"]
        r = sh(cmd)
        if r.returncode:
            raise CheckError("cannot link %s (%s):\n%s" % (src, variant, r.stdout[-4000:]))
        os.rename(out + ".tmp", out)
    return out, lib

FEATURES = {"full": (1, 1), "noplus": (0, 0), "nohr": (1, 0), "hronly": (0, 1)}

def build_features():
    """The library as shared objects for each set of features, compiled strictly (no fast-math)."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src/*.c")))
    cmd = ["gcc", "-std=c11", "-O2", "-fPIC", "-shared", "-ffp-contract=off", "-fvisibility=hidden", "-I" + os.path.join(REPO, "include")]
    out = os.path.join(BUILD, "features", hash_files(repo_sources(), " ".join(cmd) + REPO))
    with Lock("features"):
        if os.path.exists(out + "/.ok"):
            return out
        for old in glob.glob(os.path.join(BUILD, "features", "*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        ps = [(n, subprocess.Popen(cmd + ["-DLC3_PLUS=%d" % p, "-DLC3_PLUS_HR=%d" % h] + srcs + ["-lm", "-o", "%s/liblc3-%s.so" % (out, n)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for n, (p, h) in FEATURES.items()]
        for n, p in ps:
            t, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot build the library (%s):\n%s" % (n, t[-4000:]))
        open(out + "/.ok", "w").close()
    return out

SIMD = {"scalar": ([], []), "arm": (["-D__ARM_ARCH=7", "-D__ARM_FEATURE_SIMD32=1", "-D__ARM_FEATURE_SAT=1"], None),
        "neonp": (["-D__ARM_NEON=1", "-D__ARM_ARCH_ISA_A64=1"], ["ltpf.c"]), "neon": (["-D__ARM_NEON=1", "-D__ARM_ARCH_ISA_A64=1"], None)}

def build_simd():
    """The library with its ARM and NEON code (run through /verif/simd), as shared objects compiled strictly."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src/*.c")))
    mine = glob.glob(os.path.join(HERE, "simd/*.h"))
    cmd = ["gcc", "-std=gnu11", "-O2", "-fPIC", "-ffp-contract=off", "-fvisibility=hidden", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "simd")]
    out = os.path.join(BUILD, "simd", hash_files(repo_sources() + mine, " ".join(cmd) + REPO))
    with Lock("simd"):
        if os.path.exists(out + "/.ok"):
            return out
        for old in glob.glob(os.path.join(BUILD, "simd", "*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        jobs, objs = {}, {n: [] for n in SIMD}
        for n, (flags, only) in SIMD.items():
            for s in srcs:
                f = flags if only is None or os.path.basename(s) in only else []
                o = os.path.join(out, "%s-%s.o" % (os.path.basename(s), hashlib.sha256(" ".join(f).encode()).hexdigest()[:8]))
                objs[n].append(o)
                if o not in jobs:
                    jobs[o] = subprocess.Popen(cmd + f + ["-c", s, "-o", o], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for o, p in jobs.items():
            t, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot build %s:\n%s" % (o, t[-4000:]))
        for n in SIMD:
            r = sh(["gcc", "-shared", "-o", "%s/liblc3-%s.so" % (out, n)] + objs[n] + ["-lm"])
            if r.returncode:
                raise CheckError("cannot link the library (%s):\n%s" % (n, r.stdout[-4000:]))
        open(out + "/.ok", "w").close()
    return out

class Result:
    """Accumulates what the parts of a check covered."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.evaluations = 0
        self.distinct = 0
        self.rules, self.samples, self.labels, self.parts, self.failures = [], [], {}, [], []
        self.assumptions = []
        self.notes = []

    def add_part(self, part, variant, data):
        for p in data["props"]:
            self.evaluations += p["evaluations"]
            self.distinct += p["distinct_nontrivial"]
            self.rules.append("%s[%s]: %s" % (p["name"], variant, p["rule"]))
            self.samples += ["%s: %s" % (p["name"], s) for s in p["samples"][:2]]
            for k, v in p["labels"].items():
                n = p["name"] + ":" + k
                self.labels[n] = self.labels.get(n, 0) + v
            self.parts.append({"part": p["name"], "build": variant, "evaluations": p["evaluations"], "distinct_nontrivial": p["distinct_nontrivial"], "wall_s": round(p["wall_s"], 2)})
            f = p["failure"]
            if f:
                f = dict(f, part=p["name"], variant=variant, src=part)
                if f["confirmed"] == 3:
                    self.failures.append(f)
                else:
                    self.notes.append("unconfirmed failure (replayed %d of 3 times): %s" % (f["confirmed"], f["msg"]))

def run_harness(res, src, variant, only=None, scale=1.0, defines=(), extra=(), env=None):
    bin_, _ = build_harness(src, variant, defines, extra)
    repdir = os.path.join(HERE, "replay", res.pid, variant)
    os.makedirs(repdir, exist_ok=True)
    out = os.path.join(repdir, "stats.json")
    cmd = [bin_, "--tier", res.tier, "--seed", str(res.seed), "--workers", str(NCPU), "--out", out, "--repdir", repdir, "--scale", str(scale)]
    if only:
        cmd += ["--prop", only]
    e = dict(ENV); e.update(env or {})
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, text=True, errors="replace")
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("harness %s (%s) ended with %s\n%s" % (src, variant, r.returncode, r.stdout[-2000:]))
    if r.stdout:
        print(r.stdout, end="")
    with open(out) as f:
        data = json.load(f)
    os.unlink(out)
    if not data["props"]:
        raise CheckError("harness %s (%s) ran nothing" % (src, variant))
    res.add_part(src, variant, data)

VPY = "/opt/veriftools/pyvenv/bin/python"

def run_python(res, src, env=None, only=None):
    """A hypothesis harness under py/ (same interface as the C++ ones)."""
    repdir = os.path.join(HERE, "replay", res.pid, "py")
    os.makedirs(repdir, exist_ok=True)
    out = os.path.join(repdir, "stats.json")
    cmd = [VPY, os.path.join(HERE, src), "--tier", res.tier, "--seed", str(res.seed), "--workers", str(NCPU), "--out", out, "--repdir", repdir, "--scale", str(res.scale)]
    if only:
        cmd += ["--prop", only]
    e = dict(ENV); e["LC3_REPO"] = REPO; e.update(env or {})
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("harness %s ended with %s\n%s" % (src, r.returncode, r.stdout[-2000:]))
    with open(out) as f:
        data = json.load(f)
    os.unlink(out)
    if not data["props"]:
        raise CheckError("harness %s ran nothing" % src)
    res.add_part(src, "py", data)

def known_findings():
    """known_findings.txt: `known: property=<id> tag=<tag> match=<text> :: what fails` or `fixed: ...`."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    head, _, what = line[6:].partition("::")
                    kv = dict(w.split("=", 1) for w in head.split() if "=" in w)
                    out.append((kv.get("property"), kv.get("part"), kv.get("tag"), kv.get("match"), what.strip()))
    except FileNotFoundError:
        pass
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    import checks
    if a.setup:
        t = time.time()
        try:
            checks.setup()
        except CheckError as e:
            print("setup: %s" % e)
            return 2
        print("setup done in %.0f s" % (time.time() - t))
        return 0
    if a.id not in checks.CHECKS:
        print("unknown property", a.id)
        return 2
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    chk = checks.CHECKS[a.id]
    if a.replay:
        return checks.replay(a.id, a.replay)
    t0 = time.time()
    res = Result(a.id, a.tier, a.seed)
    res.scale = a.scale * (checks.QUICK.get(a.id, 1) if a.tier == "quick" else 1)
    try:
        chk["run"](res)
    except CheckError as e:
        print("ERROR %s: %s" % (a.id, e))
        return 2
    ev = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations, "distinct_nontrivial": res.distinct,
            "rule": " | ".join(dict.fromkeys(res.rules)) or chk.get("rule", ""),
            "samples": res.samples[:12], "parts": res.parts, "classes": res.labels, "notes": res.notes,
        },
        "assumptions": chk.get("assumptions", []) + res.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }
    rc = 0
    known = known_findings()
    for f in res.failures:
        hit = None
        for (kp, kpart, ktag, kmatch, what) in known:
            if kp == a.id and (not kpart or kpart == f["part"]) and (not ktag or ktag == f["tag"]) and (not kmatch or kmatch in f["msg"] + " " + f.get("desc", "")):
                hit = what
        if hit is not None:
            print("KNOWN-FINDING: property=%s %s" % (a.id, hit))
            continue
        ev["violations"] += 1
        rc = 1
        print("  %s: [%s] %s" % (f["part"], f["tag"], f["msg"]))
        if f.get("desc"):
            print("  case: %s" % f["desc"])
        print("VIOLATION property=%s replay=%s" % (a.id, f["replay"]))
    for n in res.notes:
        print("note:", n)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s, %d cases, %d distinct non-trivial, %.1f s" % (a.id, "VIOLATED" if rc else "held", res.evaluations, res.distinct, time.time() - t0))
    return rc

if __name__ == "__main__":
    sys.exit(main())
