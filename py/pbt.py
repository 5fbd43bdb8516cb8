"""Property runner for the Python-level checks, on top of hypothesis.

A property is a strategy of plain (JSON) cases and a function deciding one
case.  Each worker is a subprocess, so that a crash of the library is caught:
the case under way is on disk.  hypothesis shrinks; the smallest failing case
becomes the replay file.
"""
import argparse, hashlib, json, os, subprocess, sys, time

class Violation(Exception):
    def __init__(self, tag, msg):
        super().__init__("[%s] %s" % (tag, msg))
        self.tag, self.msg = tag, msg

class Ctx:
    def __init__(self):
        self.keys, self.labels, self.samples, self.n = set(), {}, [], 0
    def label(self, l):
        self.labels[l] = self.labels.get(l, 0) + 1
    def nt(self, *key):
        self.keys.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])
    def note(self, text):
        if self.n < 2 or (len(self.samples) < 4 and self.n % 37 == 0):
            self.samples.append(str(text)[:200])

def check(cond, tag, msg, *a):
    if not cond:
        raise Violation(tag, msg % a if a else msg)

PROPS = {}
def prop(name, quick, thorough, rule, strategy):
    def deco(fn):
        PROPS[name] = dict(name=name, quick=quick, thorough=thorough, rule=rule, strategy=strategy, fn=fn)
        return fn
    return deco

def decide(p, case, ctx):
    try:
        p["fn"](case, ctx)
    except Violation:
        raise
    except Exception as e:          # the code under test may only raise what the property expects
        raise Violation("exception", "unexpected %s: %s" % (type(e).__name__, str(e)[:300])) from e

def worker(p, n, seed, base):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    ctx, last = Ctx(), [None]
    cur = base + ".cur"
    @hseed(seed)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False, verbosity=__import__("hypothesis").Verbosity.quiet)
    @given(p["strategy"])
    def t(case):
        with open(cur, "w") as f:
            json.dump(case, f)
        ctx.n += 1
        try:
            decide(p, case, ctx)
        except Violation as v:
            last[0] = (case, v.tag, v.msg)
            raise
    fail = None
    try:
        t()
    except Violation:
        fail = last[0]
    except Exception as e:           # hypothesis's own (e.g. Flaky) with a recorded failure
        if last[0] is None:
            raise
        fail = last[0]
    with open(base + ".res", "w") as f:
        json.dump({"n": ctx.n, "keys": sorted(ctx.keys), "labels": ctx.labels, "samples": ctx.samples, "fail": fail}, f)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--out"); ap.add_argument("--repdir"); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--prop"); ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=4); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.list:
        print("\n".join(PROPS)); return 0
    if a.worker:
        worker(PROPS[a.worker[0]], int(a.worker[1]), int(a.worker[2]), a.worker[3]); return 0
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        try:
            decide(PROPS[d["prop"]], d["case"], Ctx())
        except Violation as v:
            print("%s: %s" % (d["prop"], v)); return 1
        print("%s: passes" % d["prop"]); return 0
    me = [sys.executable, os.path.abspath(sys.argv[0])]
    out, rc = {"props": []}, 0
    for p in PROPS.values():
        if a.prop and p["name"] != a.prop:
            continue
        t0 = time.time(); total = max(a.workers, int((p["quick"] if a.tier == "quick" else p["thorough"]) * a.scale)); per = -(-total // a.workers)
        ws = []
        for w in range(a.workers):
            base = os.path.join(a.repdir, "%s-%d" % (p["name"], w))
            for e in (".res", ".cur"):
                if os.path.exists(base + e):
                    os.unlink(base + e)
            ws.append((base, subprocess.Popen(me + ["--worker", p["name"], str(per), str(a.seed * 1000 + w), base], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        keys, labels, samples, n, fail = set(), {}, [], 0, None
        for base, pr in ws:
            text = pr.communicate()[0]
            if os.path.exists(base + ".res"):
                with open(base + ".res") as f:
                    r = json.load(f)
                n += r["n"]; keys |= set(r["keys"]); samples += r["samples"]
                for k, v in r["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                if r["fail"] and (fail is None or len(json.dumps(r["fail"][0])) < len(json.dumps(fail[0]))):
                    fail = r["fail"]
            elif os.path.exists(base + ".cur") and pr.returncode < 0:
                with open(base + ".cur") as f:
                    case = json.load(f)
                fail = fail or (case, "crash", "the process ended with signal %d" % -pr.returncode)
            else:
                print(text[-3000:]); print("worker ended with %s" % pr.returncode); return 2
            for e in (".res", ".cur"):
                if os.path.exists(base + e):
                    os.unlink(base + e)
        f = None
        if fail:
            path = os.path.join(a.repdir, p["name"] + ".json")
            with open(path, "w") as fh:
                json.dump({"prop": p["name"], "case": fail[0]}, fh)
            conf = sum(subprocess.run(me + ["--replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode not in (0, 2) for _ in range(3))
            f = {"tag": fail[1], "msg": fail[2], "desc": json.dumps(fail[0])[:400], "replay": path, "confirmed": conf}
            rc = 1
        out["props"].append({"name": p["name"], "rule": p["rule"], "evaluations": n, "distinct_nontrivial": len(keys), "samples": samples[:4], "labels": labels, "wall_s": time.time() - t0, "failure": f})
    with open(a.out, "w") as f:
        json.dump(out, f)
    return rc
